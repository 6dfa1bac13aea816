------------------------------ MODULE MCSchema ------------------------------
(***************************************************************************)
(* C22, C25, C26: names, datatypes, value constraints and structs in every *)
(* combination, through the exporters that translate the model into other  *)
(* interface and schema languages.                                         *)
(***************************************************************************)
EXTENDS MCExpBase

CONSTANTS Fam, Tools

AllDts == BaseTypes \cup {d \o "[]" : d \in BaseTypes}
M(entries) == [S0 EXCEPT !.extall = FALSE, !.files = <<File("m.vspec", <<D(<<"R">>, Branch("r"))>> \o entries)>>]
UnitsFile == <<File("u.yaml", <<D(<<"kg">>, {E("definition", Str("d")), E("unit", Str("kilogram")), E("quantity", Str("mass")),
                                             E("allowed-datatypes", List(<<Str("numeric"), Str("string"), Str("boolean")>>))})>>),
               File("q.yaml", <<D(<<"mass">>, {E("definition", Str("m"))})>>)>>

(* names of siblings and what they are *)
NameList == <<"ABS", "Abs", "aBs", "IsOn", "ISOn", "X9y", "A1B", "A1b", "Class", "Float", "String", "True">> \o
            If(Size > 1, <<"HTTPServer", "HttpServer", "Under_score", "UnderScore", "9Lives", "With-dash", "Module", "Is", "Object", "Int8">>)
Forms == {"leaf", "branch", "hollow"}
Form(f, n, x) ==
  CASE f = "leaf" -> <<D(<<"R", n>>, Leaf("sensor", "uint8", x))>>
    [] f = "branch" -> <<D(<<"R", n>>, Branch(x)), D(<<"R", n, "Leaf">>, Leaf("sensor", "string", "l"))>>
    [] f = "hollow" -> <<D(<<"R", n>>, Branch(x)), D(<<"R", n, "Branch">>, Branch("l"))>>
NameModel(n, m, f, g) == M(Form(f, n, "first") \o If(n # m, Form(g, m, "second")))
NameRange == Range(NameList)

(* every datatype with every kind of constraint *)
ValuesOf(dt) ==
  CASE ElemDt(dt) = "string" -> <<Str("x1"), Str("9y"), Str("10")>>
    [] ElemDt(dt) = "boolean" -> <<False, True>>
    [] ElemDt(dt) \in {"float", "double", "numeric"} -> <<FltV("0.5"), IntV("12")>>
    [] OTHER -> <<IntV("0"), IntV("10"), IntV("100")>>
ValOf(dt, i) == IF IsArrayDt(dt) THEN List(<<ValuesOf(dt)[i]>>) ELSE ValuesOf(dt)[i]
ConsOf(dt) == {{}, {E("allowed", List(ValuesOf(dt)))}, {E("default", ValOf(dt, 1))}, {E("default", ValOf(dt, 2)), E("allowed", List(ValuesOf(dt)))},
             {E("min", IntV("0"))}, {E("max", IntV("7"))}, {E("min", IntV("0")), E("max", FltV("7.5"))}}
DtModel(dt, c, u, k) ==
  [M(<<D(<<"R", "X">>, Leaf(k, dt, "x \"y\"") \cup c \cup (IF u THEN {E("unit", Str("kilogram"))} ELSE {})),
       D(<<"R", "B">>, Branch("b")), D(<<"R", "B", "Y">>, Leaf("attribute", dt, "y"))>>)
   EXCEPT !.files = @ \o UnitsFile, !.units = <<"u.yaml">>, !.quantities = <<"q.yaml">>]

(* structs, used by signals and by each other *)
TNames == {"S", "Float"}
StructModel(n, ref, arr, all, uid) ==
  [M(<<D(<<"R", "X">>, Leaf("sensor", (IF ref = "" THEN "T." \o n ELSE ref) \o arr, "x"))>>)
   EXCEPT !.files = @ \o <<File("t.vspec", <<D(<<"T">>, Branch("t")), D(<<"T", n>>, Type("struct") \cup Desc("s")),
                                             D(<<"T", n, "A">>, Leaf("property", "numeric", "a") \cup {E("deprecation", Str("old"))}),
                                             D(<<"T", n, "B">>, Leaf("property", IF ref = "" THEN "uint16[]" ELSE ref \o arr, "b")),
                                             D(<<"T", "N">>, Branch("n") \cup {E("deprecation", Str("gone"))}),
                                             D(<<"T", "N", "Q">>, Type("struct") \cup Desc("q") \cup {E("deprecation", Str("gone"))}),
                                             D(<<"T", "N", "Q", "Pass">>, Leaf("property", "string", "p"))>>)>>,
          !.types = <<"t.vspec">>, !.extall = all, !.uuid = uid]

(* deprecation, extended attributes, aggregates and the options *)
Depr(d) == IF d = "none" THEN {} ELSE {E("deprecation", Str(d))}
FlagModel(db, dl, ag, ex, all, uid) ==
  [M(<<D(<<"R", "B">>, Branch("b") \cup Depr(db) \cup {E("aggregate", ag)} \cup ex),
       D(<<"R", "B", "X">>, Leaf("sensor", "uint8", "x") \cup Depr(dl) \cup ex \cup {E("comment", Str("c"))}),
       D(<<"R", "B", "Y">>, Leaf("sensor", "string[]", "") \cup Depr(dl) \cup {E("allowed", List(<<Str("u"), Str("v")>>))})>>)
   EXCEPT !.extall = all, !.uuid = uid]

Opts == {[O0 EXCEPT !.noadd = b, !.reqall = b, !.idlall = b, !.fversion = IF b THEN "1.0" ELSE "",
                    !.attrs = IF b THEN <<"description", "datatype", "allowed", "min", "e1">> ELSE <<>>,
                    !.gql = IF b THEN <<[n |-> "source", d |-> "From"]>> ELSE <<>>,
                    !.layers = IF b THEN <<[n |-> "qt6", p |-> "a/b"], [n |-> "unreal", p |-> "u"]>> ELSE <<>>] : b \in BOOLEAN}
Cases ==
  CASE Fam = "names" -> {Case(t, NameModel(n, m, f, g), O0) : t \in Tools, n \in NameRange, m \in NameRange, f \in Forms, g \in Forms}
    [] Fam = "types" -> UNION {{Case(t, DtModel(dt, c, u, k), o) : t \in Tools, c \in ConsOf(dt), u \in BOOLEAN, k \in {"sensor"} \cup IfSet(Size > 1, {"actuator"}), o \in Opts} : dt \in AllDts}
    [] Fam = "structs" -> {Case(t, StructModel(n, r, a, all, u), o) :
                             t \in Tools, n \in TNames, r \in {"", "T.N.Q"}, a \in {"", "[]"}, all \in BOOLEAN, u \in BOOLEAN, o \in Opts}
    [] Fam = "flags" -> {Case(t, FlagModel(db, dl, ag, ex, all, u), o) :
                           t \in Tools, db \in {"none", "", "old"}, dl \in {"none", "", "No longer supported"}, ag \in {True, False},
                           ex \in {{}, {E("e1", Str("x"))}, {E("e1", IntV("4")), E("e2", List(<<Str("a")>>))}},
                           all \in BOOLEAN, u \in BOOLEAN, o \in Opts}
Fits(c) == /\ c.sc.extall => c.tool = "jsonschema"
           /\ c.sc.uuid => c.tool # "graphql"
           /\ c.sc.types # <<>> => c.tool \notin {"graphql", "franca"}
Spec == (\E c \in Cases : Fits(c) /\ InitCase(c)) /\ [][XNext]_xvars

----------------------------------------------------------------------------
Ok == pc = "done" /\ Problems(tool, Result) = {}
G == Groups(tool, Result)
Paths(n) == {x.p : x \in G[n]}
Leaves == {p \in DOMAIN tree : KindOf(tree[p]) \in DtKinds}
Inner == {p \in DOMAIN tree : KindOf(tree[p]) = "branch"}
PropNodes == {p \in DOMAIN ttree : KindOf(ttree[p]) = "property"}
Distinct(n) == Cardinality(Paths(n)) = Cardinality(G[n])

(* every node the format covers, exactly once, and nothing else *)
NodesOnce ==
  Ok =>
    CASE tool = "franca" -> Paths("nodes") = DOMAIN tree \ {<<"R">>} /\ Distinct("nodes")
      [] tool \in {"tree", "jsonschema"} -> Paths("nodes") = DOMAIN tree /\ Distinct("nodes") /\
             ("types" \in DOMAIN G => Paths("types") = DOMAIN ttree /\ Distinct("types"))
      [] tool = "graphql" ->
           /\ Distinct("types") /\ Distinct("fields")
           /\ Cardinality({x \in G["fields"] : LastOf(x.p) = "timestamp"}) >= Cardinality(Leaves)
           \* every type but Query is the type of exactly one field
           /\ \A t \in Paths("types") \ {<<"Query">>} :
                Cardinality({x \in G["fields"] : Get(x.a, "type") = Str(t[1])}) = 1
           /\ \A x \in G["fields"] : <<x.p[1]>> \in Paths("types")
      [] tool = "ddsidl" ->
           /\ Distinct("idl")
           /\ Cardinality({x \in G["idl"] : Has(x.a, "description")}) = Cardinality(Leaves)
           /\ Cardinality({x \in G["idl"] : Get(x.a, "kind") = Str("field")}) = Cardinality(PropNodes)
           /\ \A x \in G["idl"] : Len(x.p) = 1 \/ Parent(x.p) \in Paths("idl")
      [] tool = "apigear" ->
           /\ Distinct("properties") /\ Distinct("interfaces") /\ Distinct("enums") /\ Distinct("structs") /\ Distinct("fields")
           /\ Cardinality(G["properties"]) = Cardinality(Leaves)
           /\ Cardinality(G["fields"]) = Cardinality(PropNodes)
           /\ \A x \in G["properties"] : <<x.p[1]>> \in Paths("interfaces")
           /\ \A x \in G["members"] : <<x.p[1]>> \in Paths("enums")

(* an array is written as an array of the type its elements have by themselves *)
ArraysAsArrays ==
  (Ok /\ Fam = "types") =>
    LET p == <<"R", "B", "Y">>
        dt == Get(tree[p], "datatype").s
        el == ElemDt(dt)
        at(n, q) == (CHOOSE x \in G[n] : x.p = q).a
    IN CASE tool = "jsonschema" -> Get(at("nodes", p), "type") = Str(IF IsArrayDt(dt) THEN "array" ELSE JsonType(el))
         [] tool = "graphql" -> Get(at("fields", <<"R_B_Y", "value">>), "type").s \in {"Int", "Float", "String", "Boolean", "[Int]", "[Float]", "[String]", "[Boolean]"}
                                 /\ (StartsWith(Get(at("fields", <<"R_B_Y", "value">>), "type").s, "[") <=> IsArrayDt(dt))
         [] tool = "ddsidl" -> Get(at("idl", p), "value").s = (IF IsArrayDt(dt) THEN "sequence<" \o IdlScalar(el) \o ">" ELSE IdlScalar(el))
         [] tool = "apigear" -> Has(at("properties", <<"R_B", "Y">>), "array") <=> IsArrayDt(dt)
         [] OTHER -> TRUE

(* a schema value that VSS allows is one the JSON schema accepts *)
Satisfiable ==
  (Ok /\ tool = "jsonschema") =>
    \A x \in G["nodes"] : Has(x.a, "enum") => Get(x.a, "type") # Str("array")

(* nothing is given a name a keyword has *)
NoKeywords ==
  (Ok /\ tool = "ddsidl") => \A q \in Paths("idl") : \A i \in DOMAIN q : LowerCase(q[i]) \notin Keywords
AlwaysDone == Ended => pc = "done"
=============================================================================
