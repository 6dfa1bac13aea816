------------------------------- MODULE MCTypes -------------------------------
(* C09: every set of declared structs over names that are prefixes of one     *)
(* another, and every way to refer to one, from four places.                  *)
EXTENDS MCBase

T == <<"T">>
Structs == {<<"T", "S">>, <<"T", "N", "S">>, <<"T", "N", "Ns", "S">>, <<"T", "NN", "S">>, <<"T", "N", "SS">>}
Refs == {"S", "SS", "T.S", "T.N.S", "N.S", "Ns.S", "T.N.Ns.S", "T.NN.S", "T.N", "T.N.S.f", "Nope"}
Places == {<<"R", "X">>, <<"T", "H", "f">>, <<"T", "N", "H", "f">>, <<"T", "N", "Ns", "H", "f">>}
Nss == <<D(<<"T", "N">>, Branch("n")), D(<<"T", "N", "Ns">>, Branch("ns")), D(<<"T", "NN">>, Branch("nn"))>>

StructDefs(S) ==
  LET q == SetToSeq(S) IN
  FlattenSeq([i \in DOMAIN q |-> <<D(q[i], Type("struct") \cup Desc(Fqn(q[i]))),
                                   D(q[i] \o <<"f">>, Leaf("property", "uint8", "f"))>>])
RefNode(at, ref) ==
  IF at[1] = "R" THEN <<>>
  ELSE <<D(at, Leaf("property", ref, "ref")), D(Parent(at), Type("struct") \cup Desc("holder"))>>
Scen(S, ref, arr, at, split) ==
  LET dt == ref \o arr
      ts == <<D(T, Branch("t"))>> \o Nss
      sd == StructDefs(S)
      sig == <<D(<<"R">>, Branch("r")), D(<<"R", "X">>, Leaf("sensor", IF at[1] = "R" THEN dt ELSE "uint8", "x"))>>
  IN IF split
     THEN [S0 EXCEPT !.files = <<File("m.vspec", sig), File("t.vspec", RefNode(at, dt) \o ts), File("u.vspec", Reverse(sd))>>,
                     !.types = <<"t.vspec", "u.vspec">>]
     ELSE [S0 EXCEPT !.files = <<File("m.vspec", sig), File("t.vspec", sd \o RefNode(at, dt) \o ts)>>,
                     !.types = <<"t.vspec">>]

(* structs inside the signal tree, referred to from the tree *)
Sig(S, ref, arr) ==
  [S0 EXCEPT !.files = <<File("m.vspec",
     <<D(<<"R", "A", "X">>, Leaf("sensor", ref \o arr, "x")), D(<<"R">>, Branch("r")), D(<<"R", "A">>, Branch("a"))>> \o
     FlattenSeq([i \in DOMAIN SetToSeq(S) |->
        <<D(SetToSeq(S)[i], Type("struct") \cup Desc("s")), D(SetToSeq(S)[i] \o <<"f">>, Leaf("property", "string", "f"))>>]))>>]

Scenarios ==
  {Scen(S, ref, "", at, FALSE) : S \in SUBSET Structs, ref \in IF Size > 1 THEN Refs ELSE {"S", "T.N.S", "Ns.S", "T.N"}, at \in Places} \cup
  {Scen(S, ref, arr, at, TRUE) : S \in IF Size > 1 THEN SUBSET Structs ELSE {{<<"T", "N", "S">>}, {<<"T", "S">>, <<"T", "NN", "S">>}, Structs},
                                 ref \in Refs, at \in Places, arr \in IF Size > 1 THEN {"", "[]", "[][]", "[2]"} ELSE {"[]", "[][]"}} \cup
  {Sig(S, ref, arr) : S \in SUBSET {<<"R", "S">>, <<"R", "A", "S">>}, ref \in {"S", "R.S", "R.A.S", "A.S"}, arr \in {"", "[]"}}
Spec == (\E s \in Scenarios : InitWith(s)) /\ [][MCNext]_vars

----------------------------------------------------------------------------
AllEntries == UNION {Range(f.entries) : f \in Range(sc.files)}
Declared == {e.p : e \in {e \in AllEntries : Get(e.v.d, "type").s = "struct"}}
Referrer == CHOOSE e \in AllEntries : Has(e.v.d, "datatype") /\ ~ IsPredefined(Get(e.v.d, "datatype").s)
Refers == \E e \in AllEntries : Has(e.v.d, "datatype") /\ ~ IsPredefined(Get(e.v.d, "datatype").s)
RefS == Get(Referrer.v.d, "datatype").s

(* by namespaces: walk from the referring node's branch outwards *)
RECURSIVE Walk(_, _)
Walk(ns, name) == IF (ns \o <<name>>) \in Declared /\ ns # <<>> /\ ~ IsPfx(ns \o <<name>>, Referrer.p) THEN ns \o <<name>>
                  ELSE IF ns = <<>> THEN <<>> ELSE Walk(Parent(ns), name)
Meant == LET b == ElemDt(RefS) IN
         IF Walk(Parent(Referrer.p), b) # <<>> THEN Walk(Parent(Referrer.p), b)
         ELSE IF SplitStr(b, ".") \in Declared THEN SplitStr(b, ".") ELSE <<>>
ResolvedOrRejected == (Ended /\ Refers) => (pc = "done" <=> Meant # <<>>)
FullNameShown ==
  (Final /\ Refers) =>
    LET ns == Outcome.nodes \cup Outcome.types
        n == CHOOSE n \in ns : n.p = Referrer.p
    IN Get(n.a, "datatype") = Str(Fqn(Meant) \o (IF IsArrayDt(RefS) THEN "[]" ELSE ""))
=============================================================================
