------------------------------- MODULE VssIdl -------------------------------
(***************************************************************************)
(* The exporters that write interface definitions: ddsidl and apigear.     *)
(***************************************************************************)
EXTENDS VssListing

Keywords == {
  "auto", "break", "case", "char", "const", "continue", "default", "do", "double", "else", "enum", "extern", "float",
  "for", "goto", "if", "int", "long", "register", "return", "short", "signed", "sizeof", "static", "struct", "switch",
  "typedef", "union", "unsigned", "void", "volatile", "while",
  "abstract", "any", "alias", "attribute", "bitfield", "bitmask", "bitset", "boolean", "component", "connector",
  "consumes", "context", "custom", "exception", "emits", "eventtype", "factory", "false", "finder", "fixed",
  "getraises", "home", "import", "in", "inout", "interface", "local", "manages", "map", "mirrorport", "module",
  "multiple", "native", "object", "octet", "oneway", "out", "primarykey", "private", "port", "porttype", "provides",
  "public", "publishes", "raises", "readonly", "setraises", "sequence", "string", "supports", "true", "truncatable",
  "typeid", "typename", "typeprefix", "uses", "valuebase", "valuetype", "wchar", "wstring",
  "int8", "uint8", "int16", "int32", "int64", "uint16", "uint32", "uint64",
  "and", "as", "assert", "async", "await", "class", "def", "del", "elif", "except", "finally", "from", "global", "is",
  "lambda", "nonlocal", "not", "or", "pass", "raise", "try", "with", "yield"}

IdlName(n) == IF LowerCase(n) \in Keywords THEN "_" \o n ELSE n
IdlPath(p) == [i \in DOMAIN p |-> IdlName(p[i])]
IdlScalar(dt) ==
  CASE dt \in {"uint8", "int8"} -> "octet"
    [] dt = "uint16" -> "unsigned short"     [] dt = "int16" -> "short"
    [] dt = "uint32" -> "unsigned long"      [] dt = "int32" -> "long"
    [] dt = "uint64" -> "unsigned long long" [] dt = "int64" -> "long long"
    [] dt \in {"numeric", "double"} -> "double"
    [] dt \in {"boolean", "float", "string"} -> dt
    [] OTHER -> JoinStr(IdlPath(SplitStr(dt, ".")), "::")
IdlType(dt) == IF IsArrayDt(dt) THEN "sequence<" \o IdlScalar(ElemDt(dt)) \o ">" ELSE IdlScalar(dt)

IdlLiteral(s) == IF Ch(s, 1) \in Digit THEN "d" \o s ELSE s
IsEnum(F) == Given(F, "allowed") /\ Get(F, "allowed").l # <<>> /\ ElemDt(Get(F, "datatype").s) = "string"

IdlModule(p) == Node(IdlPath(p), {S("kind", "module")})
IdlLeaf(R, p, F) ==
  LET q == IdlPath(p)
      n == LastOf(q)
      dt == Get(F, "datatype").s
      feats == R.opt.idlall
  IN {Node(q, {S("kind", "struct"), S("type", KindOf(F)), E("description", Get(F, "description")),
               S("value", IF IsEnum(F) THEN n \o "_M::" \o n \o "Values" ELSE IdlType(dt))} \cup
              Keep(F, "unit") \cup SIf(R.sc.uuid, "uuid", "string") \cup
              SIf(feats /\ Given(F, "min") /\ Given(F, "max"), "range", TextOr(F, "min", "") \o ".." \o TextOr(F, "max", "")) \cup
              SIf(feats /\ Given(F, "default"), "default", TextOr(F, "default", "")))} \cup
     (IF IsEnum(F)
      THEN {Node(Append(Parent(q), n \o "_M"), {S("kind", "module")}),
            Node(Parent(q) \o <<n \o "_M", n \o "Values">>,
                 {S("kind", "enum"), E("values", List([i \in DOMAIN Get(F, "allowed").l |-> Str(IdlLiteral(Get(F, "allowed").l[i].s))]))})}
      ELSE {})
IdlGroups(R) ==
  LET T == DOMAIN R.ttree IN
  [idl |-> UNION {IF KindOf(R.tree[p]) = "branch" THEN {IdlModule(p)} ELSE IdlLeaf(R, p, Full(R, p)) : p \in DOMAIN R.tree} \cup
           {IdlModule(p) : p \in {q \in T : KindOf(R.ttree[q]) = "branch"}} \cup
           {Node(IdlPath(p), {S("kind", "struct")}) : p \in {q \in T : KindOf(R.ttree[q]) = "struct"}} \cup
           {Node(IdlPath(p), {S("kind", "field"), S("value", IdlType(Get(FullT(R, p), "datatype").s))}) :
              p \in {q \in T : KindOf(R.ttree[q]) = "property"}},
   undeclared |-> {},        \* every type is declared where it is used ...
   undefined |-> {}]         \* ... and every declared struct is defined somewhere

----------------------------------------------------------------------------
(* ApiGear *)
GearType(dt) ==
  CASE dt \in {"int8", "int16", "int32", "uint8", "uint16", "uint32"} -> "int32"
    [] dt \in {"int64", "uint64"} -> "int64"
    [] dt = "float" -> "float32"
    [] dt = "double" -> "float64"
    [] dt = "boolean" -> "bool"
    [] dt = "string" -> "string"
    [] OTHER -> ReplaceCh(dt, ".", "_")
IsDeprecated(F) == NonEmptyStr(F, "deprecation")
Mark(F) == IF IsDeprecated(F) THEN "_Deprecated" ELSE ""
GearName(p, F) == JoinStr(p, "_") \o Mark(F)
GearDescr(F) == IF Get(F, "description").s # "" THEN {E("description", Get(F, "description"))} ELSE {}
HasAllowed(F) == Given(F, "allowed") /\ Get(F, "allowed").l # <<>>

GearField(owner, p, F) ==
  LET dt == Get(F, "datatype").s IN
  Node(<<owner, LastOf(p) \o Mark(F)>>,
       GearDescr(F) \cup
       {S("type", GearType(ElemDt(dt)))} \cup (IF IsArrayDt(dt) THEN {E("array", True)} ELSE {}))
GearEnumField(owner, p, F) ==
  Node(<<owner, LastOf(p) \o Mark(F)>>, GearDescr(F) \cup {S("type", GearName(p, F) \o "_Value")})

GearLiteral(v) == LET s == PyText(v) IN IF Ch(s, 1) \in Digit THEN "d" \o ReplaceCh(s, ".", "_") ELSE s
(* a number in hexadecimal digits, beginning with a decimal digit *)
IsHexText(s) == Ch(s, 1) \in Digit /\ CharSet(s) \subseteq HexDigit
HexText(s) == LET w == HexWord("0x" \o s) IN ToString(w[1] * 65536 + w[2])
GearMember(name, v, dt) ==
  Node(<<name, GearLiteral(v)>>,
       IF dt = "float" THEN {}
       ELSE IF v.k = "i" THEN {E("value", v)}
       ELSE IF IsHexText(PyText(v)) THEN {E("value", IntV(HexText(PyText(v))))} ELSE {})

GearGroups(R) ==
  LET leaves == {p \in DOMAIN R.tree : KindOf(R.tree[p]) \in DtKinds}
      full == TLCEval([p \in DOMAIN R.tree |-> Full(R, p)])
      tfull == TLCEval([p \in DOMAIN R.ttree |-> FullT(R, p)])
      iface(p) == GearName(Parent(p), full[Parent(p)])
      enums == {p \in leaves : HasAllowed(full[p])}
      structs == {p \in DOMAIN tfull : KindOf(tfull[p]) = "struct"}
      props == {p \in DOMAIN tfull : KindOf(tfull[p]) = "property"}
  IN [interfaces |-> {Node(<<iface(p)>>, {}) : p \in leaves},
      properties |-> {IF p \in enums THEN GearEnumField(iface(p), p, full[p]) ELSE GearField(iface(p), p, full[p]) : p \in leaves},
      enums |-> {Node(<<GearName(p, full[p]) \o "_Value">>, {}) : p \in enums},
      members |-> UNION {{GearMember(GearName(p, full[p]) \o "_Value", v, Get(full[p], "datatype").s) :
                            v \in Range(Get(full[p], "allowed").l)} : p \in enums},
      structs |-> {Node(<<GearName(p, tfull[p])>>, {}) : p \in structs},
      fields |-> {GearField(GearName(Parent(p), tfull[Parent(p)]), p, tfull[p]) : p \in props},
      solution |-> {Node(<<y.n>>, {S("output", y.p)}) : y \in Range(R.opt.layers)} \cup
                   (IF R.opt.layers = <<>> THEN {Node(<<"cpp">>, {S("output", "cppservice")})} ELSE {})]
=============================================================================
