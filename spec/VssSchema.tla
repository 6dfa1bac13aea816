------------------------------ MODULE VssSchema ------------------------------
(***************************************************************************)
(* The exporters that write a schema for data: jsonschema and graphql.     *)
(***************************************************************************)
EXTENDS VssListing

JsonType(dt) ==
  CASE IsArrayDt(dt) -> "array"
    [] dt \in IntTypes -> "integer"
    [] dt \in {"float", "double", "numeric"} -> "number"
    [] dt \in {"boolean", "string"} -> dt
    [] OTHER -> "object"

AllowedOf(F) == IF Given(F, "allowed") /\ Get(F, "allowed").l # <<>>
                THEN IF IsArrayDt(Get(F, "datatype").s)
                     THEN {E("items", Dict({E("enum", Get(F, "allowed"))}))}
                     ELSE {E("enum", Get(F, "allowed"))}
                ELSE {}
As(F, n, m) == IF Given(F, n) THEN {E(m, Get(F, n))} ELSE {}
AsText(F, n, m) == IF NonEmptyStr(F, n) THEN {E(m, Get(F, n))} ELSE {}
Aggregate(F) == KindOf(F) = "branch" /\ Get(F, "aggregate") = True

SchemaAttrs(R, uid, F, root) ==
  LET k == KindOf(F) IN
  {E("description", Get(F, "description"))} \cup
  (IF k \in DtKinds THEN {S("type", JsonType(Get(F, "datatype").s))} \cup AllowedOf(F) ELSE {}) \cup
  SIf(k = "struct" \/ root \/ (R.sc.extall /\ Aggregate(F)), "type", "object") \cup
  As(F, "min", "minimum") \cup As(F, "max", "maximum") \cup As(F, "default", "default") \cup
  (IF R.sc.extall
   THEN {S("x-VSStype", k)} \cup As(F, "datatype", "x-datatype") \cup AsText(F, "deprecation", "x-deprecation") \cup
        AsText(F, "unit", "x-unit") \cup AsText(F, "comment", "x-comment") \cup
        (IF Aggregate(F) THEN {E("x-aggregate", True)} ELSE {}) \cup
        (IF R.sc.uuid THEN {E("x-uuid", uid)} ELSE {})
   ELSE {}) \cup
  {e \in F : e.n \in Extras(F)} \cup
  (IF R.opt.noadd /\ k \notin DtKinds THEN {E("additionalProperties", False)} ELSE {})


(* structs have no UUIDs *)
RequiredIn(R, t) == IF R.opt.reqall THEN {Node(q, {}) : q \in {p \in DOMAIN t : Len(p) > 1}} ELSE {}
JsonSchemaGroups(R) ==
  [nodes |-> {Node(p, SchemaAttrs(R, IF R.sc.uuid THEN Str(Uuid5(Fqn(p))) ELSE Null, Full(R, p), Len(p) = 1)) : p \in DOMAIN R.tree},
   required |-> RequiredIn(R, R.tree)] @@
  (IF HasTypes(R) /\ R.sc.extall
   THEN [types |-> {Node(p, SchemaAttrs(R, Null, FullT(R, p), FALSE)) : p \in DOMAIN R.ttree},
         typesrequired |-> RequiredIn(R, R.ttree)]
   ELSE EmptyFn)

----------------------------------------------------------------------------
(* GraphQL *)
UpperCase1(ch) == Ch(UpperS, IndexOf(LowerS, ch))
RECURSIVE LowerRun(_, _)       \* how many characters from position i on are lower case
LowerRun(s, i) == IF i <= Len(s) /\ Ch(s, i) \in Lower THEN 1 + LowerRun(s, i + 1) ELSE 0
Rest(s, i) == SubSeq(s, i, Len(s))
RECURSIVE Words(_)             \* a word begins at a capital followed by small letters ...
Words(s) ==
  IF Len(s) < 3 THEN s
  ELSE IF Ch(s, 2) \in Upper /\ Ch(s, 3) \in Lower
       THEN LET k == LowerRun(s, 3) IN Ch(s, 1) \o "_" \o SubSeq(s, 2, 2 + k) \o Words(Rest(s, 3 + k))
       ELSE Ch(s, 1) \o Words(Rest(s, 2))
RECURSIVE Bumps(_)             \* ... and at a capital after a small letter or a digit
Bumps(s) ==
  IF Len(s) < 2 THEN s
  ELSE IF Ch(s, 1) \in Lower \cup Digit /\ Ch(s, 2) \in Upper
       THEN Ch(s, 1) \o "_" \o Ch(s, 2) \o Bumps(Rest(s, 3))
       ELSE Ch(s, 1) \o Bumps(Rest(s, 2))
RECURSIVE Joined(_)
Joined(s) ==
  IF Len(s) < 2 THEN s
  ELSE IF Ch(s, 1) = "_" /\ Ch(s, 2) \in Lower THEN UpperCase1(Ch(s, 2)) \o Joined(Rest(s, 3))
       ELSE Ch(s, 1) \o Joined(Rest(s, 2))
CamelBack(s) == Joined(LowerCase(Bumps(Words(s))))

GqlScalar(dt) ==
  CASE dt \in {"int8", "uint8", "int16", "uint16", "int32"} -> "Int"
    [] dt = "boolean" -> "Boolean"
    [] dt = "string" -> "String"
    [] OTHER -> "Float"
GqlValue(dt) == IF IsArrayDt(dt) THEN "[" \o GqlScalar(ElemDt(dt)) \o "]" ELSE GqlScalar(dt)
GqlTypeName(p) == JoinStr(p, "_")

IsLeaf(R, p) == KindOf(R.tree[p]) \in DtKinds
(* what the schema shows: the root, the leaves and what lies between *)
GqlNodes(R) == {p \in DOMAIN R.tree : Len(p) = 1 \/ \E q \in DOMAIN R.tree : IsPfx(p, q) /\ IsLeaf(R, q)}

GqlField(p, n, type, pre, F) ==
  Node(<<GqlTypeName(p), n>>, {S("type", type), S("description", pre \o Get(F, "description").s)} \cup Keep(F, "deprecation"))
GqlLeaf(R, p, F) ==
  {GqlField(p, "value", GqlValue(Get(F, "datatype").s), "Value: ", F),
   GqlField(p, "timestamp", "String", "Timestamp: ", F)} \cup
  {GqlField(p, g.n, "String", " " \o g.d \o ": ", F) : g \in Range(R.opt.gql)} \cup
  (IF NonEmptyStr(F, "unit") THEN {GqlField(p, "unit", "String", "Unit of ", F)} ELSE {})
GqlGroups(R) ==
  LET N == TLCEval(GqlNodes(R))
      full == TLCEval([p \in N |-> Full(R, p)])
  IN [types |-> {Node(<<GqlTypeName(p)>>, {E("description", Get(full[p], "description"))}) : p \in N} \cup {Node(<<"Query">>, {})},
      fields |-> UNION {GqlLeaf(R, p, full[p]) : p \in {q \in N : IsLeaf(R, q)}} \cup
                 {GqlField(Parent(p), CamelBack(LastOf(p)), GqlTypeName(p), "", full[p]) : p \in {q \in N : Len(q) > 1}} \cup
                 {Node(<<"Query", "vehicle">>, {S("type", GqlTypeName(p))}) : p \in {q \in N : Len(q) = 1}}]

GqlNameChars == Upper \cup Lower \cup Digit \cup {"_"}
GqlName(s) == CharSet(s) \subseteq GqlNameChars /\ Ch(s, 1) \notin Digit
GqlProblems(R) ==
  LET N == TLCEval(GqlNodes(R))
      bad == {p \in N : ~ GqlName(GqlTypeName(p)) \/ (Len(p) > 1 /\ ~ GqlName(CamelBack(LastOf(p))))}
      good == N \ bad
  IN Rule("graphql-name", bad = {}) \cup
     Rule("graphql-type-collision", Cardinality({GqlTypeName(p) : p \in N} \cup {"Query"}) = Cardinality(N) + 1) \cup
     Rule("graphql-field-collision",
          \A p, q \in {x \in good : Len(x) > 1} : p # q /\ Parent(p) = Parent(q) => CamelBack(LastOf(p)) # CamelBack(LastOf(q)))
=============================================================================
