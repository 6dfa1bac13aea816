------------------------------ MODULE VssModel ------------------------------
(***************************************************************************)
(* The metamodel: which attributes a node may carry, which values they may *)
(* have and what they default to.                                          *)
(*                                                                         *)
(* ctx is a record                                                         *)
(*   types  set of Paths: the structs that have been declared              *)
(*   units  function from unit name (or key) to a set of datatype names    *)
(***************************************************************************)
EXTENDS VssBase

DtKinds   == {"sensor", "actuator", "attribute", "property"}
NodeKinds == DtKinds \cup {"branch", "struct"}

CommonFields == {"type", "description", "comment", "delete", "deprecation",
                 "constUID", "fka", "instantiate", "fqn"}
BranchFields == CommonFields \cup {"instances", "aggregate", "is_instance"}
DtFields     == CommonFields \cup {"datatype", "arraysize", "min", "max",
                                   "unit", "allowed", "default"}
FieldsOf(kind) == CASE kind = "branch" -> BranchFields
                    [] kind = "struct" -> CommonFields
                    [] OTHER           -> DtFields
CoreFields == BranchFields \cup DtFields

NotExported == {"delete", "instantiate", "fqn", "arraysize", "aggregate", "is_instance"}

----------------------------------------------------------------------------
(* predefined datatypes *)
UIntBits == [uint8 |-> 8, uint16 |-> 16, uint32 |-> 32, uint64 |-> 64]
IntTypes == {"uint8", "uint16", "uint32", "uint64", "int8", "int16", "int32", "int64"}
NumTypes == IntTypes \cup {"float", "double"}
BaseTypes == NumTypes \cup {"boolean", "string", "numeric"}

IsArrayDt(dt) == EndsWith(dt, "[]")
ElemDt(dt)    == IF IsArrayDt(dt) THEN DropRight(dt, 2) ELSE dt
IsPredefined(dt) == ElemDt(dt) \in BaseTypes

SubTypesOf(dt) ==
  CASE dt = "uint16" -> {"uint8"}
    [] dt = "uint32" -> {"uint8", "uint16"}
    [] dt = "uint64" -> {"uint8", "uint16", "uint32"}
    [] dt = "int16"  -> {"int8"}
    [] dt = "int32"  -> {"int8", "int16"}
    [] dt = "int64"  -> {"int8", "int16", "int32"}
    [] dt = "numeric" -> NumTypes
    [] OTHER -> {}
IsSubType(dt, of) == dt = of \/ dt \in SubTypesOf(of)

(* decimal naturals as digit strings: TLC integers have 32 bits *)
LeDigits(a, b) ==
  \/ Len(a) < Len(b)
  \/ /\ Len(a) = Len(b)
     /\ \/ a = b
        \/ \E i \in 1 .. Len(a) :
             /\ SubSeq(a, 1, i - 1) = SubSeq(b, 1, i - 1)
             /\ DigitVal[Ch(a, i)] < DigitVal[Ch(b, i)]

Negative(s) == StartsWith(s, "-")
Magn(s) == IF Negative(s) THEN SubSeq(s, 2, Len(s)) ELSE s

MaxOf(dt) == CASE dt = "uint8" -> "255"        [] dt = "int8"  -> "127"
               [] dt = "uint16" -> "65535"     [] dt = "int16" -> "32767"
               [] dt = "uint32" -> "4294967295" [] dt = "int32" -> "2147483647"
               [] dt = "uint64" -> "18446744073709551615"
               [] dt = "int64"  -> "9223372036854775807"
MinMagnOf(dt) == CASE dt = "int8"  -> "128"        [] dt = "int16" -> "32768"
                   [] dt = "int32" -> "2147483648" [] dt = "int64" -> "9223372036854775808"
                   [] OTHER -> "0"

InIntRange(s, dt) ==
  IF Negative(s) THEN LeDigits(Magn(s), MinMagnOf(dt)) ELSE LeDigits(s, MaxOf(dt))

(* does scalar v have the (element) datatype dt? *)
Conforms(v, dt) ==
  CASE dt \in IntTypes  -> \/ v.k = "i" /\ InIntRange(v.s, dt)
                           \/ v.k = "b"        \* a YAML boolean counts as 0 / 1
    [] dt \in {"float", "double", "numeric"} -> v.k \in {"i", "f", "b"}
    [] dt = "boolean"   -> v.k = "b"
    [] dt = "string"    -> v.k = "s"

----------------------------------------------------------------------------
(* references to declared structs *)
Visible(t, p) ==                     \* may p use the last name of t as a short name?
  /\ ~ IsPfx(t, p)
  /\ IsProperPfx(Parent(t), p)

ShortCands(base, p, ctx) == {t \in ctx.types : LastOf(t) = base /\ Visible(t, p)}
Innermost(S) == CHOOSE t \in S : \A u \in S : Len(u) <= Len(t)

StructRef(dt, p, ctx) ==             \* the struct meant by dt at p, or <<>>
  LET base == ElemDt(dt)
      full == SplitStr(base, ".")
  IN IF ShortCands(base, p, ctx) # {} THEN Innermost(ShortCands(base, p, ctx))
     ELSE IF full \in ctx.types THEN full ELSE <<>>

KnownDt(dt, p, ctx) == IsPredefined(dt) \/ StructRef(dt, p, ctx) # <<>>
ResolveDt(dt, p, ctx) ==
  IF IsPredefined(dt) THEN dt
  ELSE Fqn(StructRef(dt, p, ctx)) \o (IF IsArrayDt(dt) THEN "[]" ELSE "")

----------------------------------------------------------------------------
(* validation of one node; the result is a set of violated rules *)
IsStr(v)  == v.k = "s"
IsBool(v) == v.k = "b"
IsNum(v)  == v.k \in {"i", "f"}
NullOr(P(_), v) == v.k = "n" \/ P(v)
Opt(A, n, P(_)) == Has(A, n) => NullOr(P, Get(A, n))
Given(A, n) == Has(A, n) /\ Get(A, n).k # "n"
KindOf(A) == IF Has(A, "type") /\ Get(A, "type").k = "s" THEN Get(A, "type").s ELSE "?"

HexDigit == Digit \cup CharSet("abcdefABCDEF")
IsConstUid(v) == /\ v.k = "s" /\ Len(v.s) = 10 /\ StartsWith(v.s, "0x")
                 /\ CharSet(SubSeq(v.s, 3, 10)) \subseteq HexDigit
IsStrList(v) == v.k = "l" /\ \A i \in DOMAIN v.l : v.l[i].k = "s"
IsInstances(v) == v.k \in {"s", "l"}
IsScalarList(v) == v.k = "l" /\ \A i \in DOMAIN v.l : IsScalar(v.l[i])
IsDefault(v) == IsScalar(v) \/ IsScalarList(v)
IsIntV(v) == v.k = "i"


CommonRules(A) ==
  Rule("type", KindOf(A) \in NodeKinds) \cup
  Rule("description", Has(A, "description") /\ IsStr(Get(A, "description"))) \cup
  Rule("comment", Opt(A, "comment", IsStr)) \cup
  Rule("deprecation", Opt(A, "deprecation", IsStr)) \cup
  Rule("delete", Has(A, "delete") => IsBool(Get(A, "delete"))) \cup
  Rule("instantiate", Has(A, "instantiate") => IsBool(Get(A, "instantiate"))) \cup
  Rule("fka", Has(A, "fka") => IsStrList(Get(A, "fka"))) \cup
  Rule("constUID", Opt(A, "constUID", IsConstUid))

BranchRules(A) ==
  Rule("instances", Opt(A, "instances", IsInstances)) \cup
  Rule("aggregate", Has(A, "aggregate") => IsBool(Get(A, "aggregate")))

(* numeric equality of scalars as the tool compares them (1, 1.0 and true) *)
NumForm(v) == IF v.k = "b" THEN (IF v.s = "true" THEN "1" ELSE "0")
              ELSE IF v.k = "f" /\ EndsWith(v.s, ".0") THEN DropRight(v.s, 2) ELSE v.s
SameValue(v, w) == IF v.k = "s" \/ w.k = "s" THEN v = w ELSE NumForm(v) = NumForm(w)

DtShape(A) ==                        \* well-formedness of each attribute by itself
  Rule("datatype", Has(A, "datatype") /\ IsStr(Get(A, "datatype"))) \cup
  Rule("arraysize-int", Opt(A, "arraysize", IsIntV)) \cup
  Rule("min-number", Opt(A, "min", IsNum)) \cup
  Rule("max-number", Opt(A, "max", IsNum)) \cup
  Rule("unit-string", Opt(A, "unit", IsStr)) \cup
  Rule("allowed-list", Opt(A, "allowed", IsScalarList)) \cup
  Rule("default-kind", Opt(A, "default", IsDefault))

Elems(v) == IF v.k = "l" THEN v.l ELSE <<v>>

DtConsistency(A, p, ctx) ==          \* the attributes against one another
  LET dt == Get(A, "datatype").s
      el == ElemDt(dt)
      def == Get(A, "default")
      alw == Get(A, "allowed")
  IN Rule("arraysize", Given(A, "arraysize") => IsArrayDt(dt)) \cup
     Rule("datatype-known", KnownDt(dt, p, ctx)) \cup
     Rule("default-array", Given(A, "default") => (IsArrayDt(dt) <=> def.k = "l")) \cup
     Rule("default-size", (Given(A, "default") /\ Given(A, "arraysize") /\ def.k = "l"
                              /\ Get(A, "arraysize").s # "0")
                            => ToString(Len(def.l)) = Get(A, "arraysize").s) \cup
     Rule("default-datatype", Given(A, "default") =>
             el \in BaseTypes /\ \A i \in DOMAIN Elems(def) : Conforms(Elems(def)[i], el)) \cup
     Rule("allowed-datatype", Given(A, "allowed") =>
             \A i \in DOMAIN alw.l : el \in BaseTypes /\ Conforms(alw.l[i], el)) \cup
     Rule("default-allowed", (Given(A, "default") /\ Given(A, "allowed") /\ alw.l # <<>>) =>
             \A i \in DOMAIN Elems(def) : \E j \in DOMAIN alw.l : SameValue(Elems(def)[i], alw.l[j])) \cup
     Rule("allowed-minmax", ~ (Given(A, "allowed") /\ (Given(A, "min") \/ Given(A, "max")))) \cup
     Rule("unit-known", Given(A, "unit") => Get(A, "unit").s \in DOMAIN ctx.units) \cup
     Rule("unit-datatype", (Given(A, "unit") /\ Get(A, "unit").s \in DOMAIN ctx.units) =>
             \E u \in ctx.units[Get(A, "unit").s] : el \in BaseTypes /\ IsSubType(el, u))

Violations(A, p, ctx) ==
  LET c == CommonRules(A) IN
  IF c # {} THEN c
  ELSE IF KindOf(A) = "branch" THEN BranchRules(A)
  ELSE IF KindOf(A) = "struct" THEN {}
  ELSE IF DtShape(A) # {} THEN DtShape(A)
  ELSE DtConsistency(A, p, ctx)

Complete(A, p, ctx) == Violations(A, p, ctx) = {}

----------------------------------------------------------------------------
(* what a complete node is taken to say about attributes it does not mention *)
NormInstances(v) == IF v.k = "s" THEN List(<<v>>) ELSE IF v.k = "n" THEN List(<<>>) ELSE v

Defaults(kind) ==
  {E("delete", False), E("instantiate", True)} \cup
  (IF kind = "branch" THEN {E("aggregate", False)} ELSE {})

Filled(A, p, ctx) ==
  LET k  == KindOf(A)
      B  == A \cup {e \in Defaults(k) : ~ Has(A, e.n)}
      B1 == IF k = "branch" /\ Has(B, "instances")
            THEN Put(B, "instances", NormInstances(Get(B, "instances"))) ELSE B
  IN IF k \in DtKinds
     THEN Put(B1, "datatype", Str(ResolveDt(Get(B1, "datatype").s, p, ctx))) ELSE B1

Unset(v) == v.k = "n" \/ (v.k = "l" /\ v.l = <<>>)
SetOnly(A) == {e \in A : ~ Unset(e.v)}

(* a node's attributes as seen when it is merged over another definition *)
MergeView(A, p, ctx) ==
  SetOnly(IF Complete(A, p, ctx) THEN Filled(A, p, ctx) ELSE A)

Extras(A) == Names(A) \ FieldsOf(KindOf(A))

----------------------------------------------------------------------------
(* naming rules *)
CamelCase(name) == /\ name # "" /\ Ch(name, 1) \in Upper
                   /\ CharSet(name) \subseteq (Upper \cup Lower \cup Digit)
IsOrHas(name) == StartsWith(name, "Is") \/ StartsWith(name, "Has")
NameViolations(p, A) ==
  Rule("CamelCase", CamelCase(LastOf(p))) \cup
  Rule("IsHas", (KindOf(A) \in DtKinds /\ Get(A, "datatype").s = "boolean") => IsOrHas(LastOf(p)))
=============================================================================
