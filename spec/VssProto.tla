------------------------------ MODULE VssProto ------------------------------
(***************************************************************************)
(* The protobuf exporter: one message per branch in one file for the       *)
(* signals, one file per package (branch) of the declared structs.         *)
(***************************************************************************)
EXTENDS VssListing

ProtoScalar(dt) == CASE dt \in {"uint8", "uint16"} -> "uint32"
                     [] dt \in {"int8", "int16"} -> "int32"
                     [] dt = "boolean" -> "bool"
                     [] dt = "numeric" -> "double"
                     [] OTHER -> dt
MessageOf(p) == Concat(p)
PackageFile(ns) == JoinStr(ns, "/") \o "/" \o LastOf(ns) \o ".proto"

LeafField(R, msg, p, A) ==
  LET dt == Get(A, "datatype").s IN
  Node(<<"field", msg, LastOf(p)>>,
       {S("type", ProtoScalar(ElemDt(dt))),
        S("label", IF IsArrayDt(dt) THEN "repeated" ELSE IF R.opt.addopt THEN "optional" ELSE "")})
BranchField(R, msg, p) ==
  Node(<<"field", msg, LastOf(p)>>, {S("type", MessageOf(p)), S("label", IF R.opt.addopt THEN "optional" ELSE "")})
Imports(ns) == {Node(<<"import", PackageFile(n)>>, {}) : n \in ns}

(* the packages of the structs the given datatypes refer to *)
PackagesOf(dts) == {Parent(SplitStr(ElemDt(dt), ".")) : dt \in {d \in dts : ~ IsPredefined(d)}}

SignalsFile(R) ==
  LET full == TLCEval([p \in DOMAIN R.tree |-> Full(R, p)])
      branches == {p \in DOMAIN R.tree : KindOf(R.tree[p]) = "branch"}
      leaves == DOMAIN R.tree \ branches
      dts == {Get(full[p], "datatype").s : p \in leaves}
  IN {Node(<<"message", MessageOf(p)>>, {}) : p \in branches} \cup
     {LeafField(R, MessageOf(Parent(p)), p, full[p]) : p \in leaves} \cup
     {BranchField(R, MessageOf(Parent(p)), p) : p \in {q \in branches : Len(q) > 1}} \cup
     Imports(PackagesOf(dts))

Structs(R) == {p \in DOMAIN R.ttree : KindOf(R.ttree[p]) = "struct"}
Props(R)   == {p \in DOMAIN R.ttree : KindOf(R.ttree[p]) = "property"}
TypesFile(R, ns) ==
  LET structs == {p \in Structs(R) : Parent(p) = ns}
      full == TLCEval([p \in {q \in Props(R) : Parent(q) \in structs} |-> FullT(R, p)])
      dts == {Get(full[p], "datatype").s : p \in DOMAIN full}
  IN {Node(<<"package", Fqn(ns)>>, {})} \cup
     {Node(<<"message", LastOf(p)>>, {}) : p \in structs} \cup
     {LeafField(R, LastOf(Parent(p)), p, full[p]) : p \in DOMAIN full} \cup
     Imports(PackagesOf(dts) \ {ns})

----------------------------------------------------------------------------
(* field numbers *)
NumberOf(A) == LET w == HexWord(Get(A, "staticUID").s) IN (w[1] * 8192) + (w[2] \div 8)
LegalNumber(n) == n >= 1 /\ n <= 536870911 /\ ~ (n >= 19000 /\ n <= 19999)

(* every field as [m, n, a]: its message, its name and the attributes of the node *)
AllFields(R) ==
  {[m |-> <<"signals", MessageOf(Parent(p))>>, n |-> LastOf(p), a |-> R.tree[p]] : p \in {q \in DOMAIN R.tree : Len(q) > 1}} \cup
  {[m |-> <<PackageFile(Parent(Parent(p))), LastOf(Parent(p))>>, n |-> LastOf(p), a |-> R.ttree[p]] : p \in Props(R)}
(* the key of a field in the JSON form of its message: no underscores *)
ToUpperCh == [ch \in Lower |-> Ch(UpperS, IndexOf(LowerS, ch))]
Capital(s) == IF s = "" THEN "" ELSE
              (IF Ch(s, 1) \in Lower THEN ToUpperCh[Ch(s, 1)] ELSE Ch(s, 1)) \o SubSeq(s, 2, Len(s))
JsonName(s) == LET ps == SplitStr(s, "_") IN
  IF Len(ps) = 1 THEN s ELSE ps[1] \o Concat([i \in 1 .. Len(ps) - 1 |-> Capital(ps[i + 1])])

ProtoProblems(R) ==
  LET fs == TLCEval(AllFields(R))
      with == {f \in fs : Has(f.a, "staticUID")}
      branches == {p \in DOMAIN R.tree : KindOf(R.tree[p]) = "branch"}
  IN Rule("message-collision", Cardinality({MessageOf(p) : p \in branches}) = Cardinality(branches)) \cup
     Rule("json-name-collision",
          LET js == TLCEval([f \in fs |-> JsonName(f.n)]) IN
          \A f, g \in fs : f.m = g.m /\ f.n # g.n => js[f] # js[g]) \cup
     (IF ~ R.opt.staticuid THEN {}
      ELSE Rule("static-uid-missing", with = fs) \cup
           Rule("field-number-illegal", \A f \in with : LegalNumber(NumberOf(f.a))) \cup
           Rule("field-number-collision",
                \A f, g \in with : f.m = g.m /\ f.n # g.n => NumberOf(f.a) # NumberOf(g.a)))

ProtoGroups(R) ==
  [x \in {"signals"} |-> SignalsFile(R)] @@
  [x \in {PackageFile(Parent(p)) : p \in Structs(R)} |->
     TypesFile(R, CHOOSE ns \in {Parent(p) : p \in Structs(R)} : PackageFile(ns) = x)] @@
  (IF R.opt.staticuid
   THEN [x \in {"numbers"} |-> {Node(f.m \o <<f.n>>, {E("nr", IntV(ToString(NumberOf(f.a))))}) : f \in AllFields(R)}]
   ELSE EmptyFn)

(* without static UIDs any legal and distinct numbers will do *)
NrOf(x) == Get(x.a, "nr").s
NumberProblems(ns) ==
  Rule("field-number-illegal",
       \A x \in ns : /\ IsDigits(NrOf(x)) /\ NrOf(x) # "0" /\ LeDigits(NrOf(x), "536870911")
                      /\ ~ (LeDigits("19000", NrOf(x)) /\ LeDigits(NrOf(x), "19999"))) \cup
  Rule("field-number-collision",
       \A x, y \in ns : x # y /\ Parent(x.p) = Parent(y.p) => NrOf(x) # NrOf(y))
=============================================================================
