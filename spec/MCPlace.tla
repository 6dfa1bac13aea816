------------------------------- MODULE MCPlace -------------------------------
(* C07: every assignment of kinds to a chain of four nodes and a side node of *)
(* the signal tree, with and without a delete mark; and to a type tree.       *)
EXTENDS MCBase

NodeOf(k, d) == IF k \in DtKinds THEN Leaf(k, "uint8", d) ELSE Type(k) \cup Desc(d)
Mark(A, b) == IF b THEN A \cup {E("delete", True)} ELSE A
Ch4 == <<<<"R">>, <<"R", "A">>, <<"R", "A", "B">>, <<"R", "A", "B", "C">>>>
Kinds == {"branch", "struct", "property", "sensor"} \cup IfSet(Size > 1, {"actuator", "attribute"})

Chain(ks, del) == [i \in 1 .. 4 |-> D(Ch4[i], Mark(NodeOf(ks[i], Fqn(Ch4[i])), del = i))]
Sig(ks, del) == [S0 EXCEPT !.files = <<File("m.vspec", Chain(ks, del))>>]
TChain(ks, del) == [i \in 1 .. 4 |-> D(<<"T">> \o Drop(Ch4[i], 1), Mark(NodeOf(ks[i], ToString(i)), del = i))]
Typ(ks, del) == [S0 EXCEPT !.files = <<File("m.vspec", <<D(<<"R">>, Branch("r")),
                                          D(<<"R", "X">>, Leaf("sensor", "uint8", "x"))>>),
                                       File("t.vspec", TChain(ks, del))>>,
                           !.types = <<"t.vspec">>]
Scenarios ==
  {Sig(<<"branch", a, b, c>>, del) : a \in Kinds \cup {"attribute", "actuator"}, b \in Kinds, c \in Kinds, del \in {0, 2, 3, 4}} \cup
  {Sig(<<k, "branch", "struct", c>>, 0) : k \in NodeKinds, c \in NodeKinds} \cup
  {Typ(<<"branch", a, b, c>>, 0) : a \in Kinds \ {"sensor"}, b \in Kinds, c \in Kinds} \cup
  {Typ(<<"branch", "branch", "struct", c>>, del) : c \in NodeKinds, del \in {0, 4}}
Spec == (\E s \in Scenarios : InitWith(s)) /\ [][MCNext]_vars

----------------------------------------------------------------------------
(* the rule as a table of allowed (parent, child) pairs *)
Allowed == {<<"struct", "property">>, <<"branch", "struct">>, <<"struct", "struct">>} \cup
           {<<"branch", k>> : k \in {"branch", "sensor", "actuator", "attribute"}}
IsTyp == sc.types # <<>>
Es == IF IsTyp THEN sc.files[2].entries ELSE sc.files[1].entries
KindAt(i) == Get(Es[i].v.d, "type").s
Cut(i) == ~ IsTyp /\ \E j \in 2 .. i : Has(Es[j].v.d, "delete")
Ok(i) == Cut(i) \/ <<KindAt(i - 1), KindAt(i)>> \in Allowed
(* property nodes in the signal tree resolve like signals; roots are not judged *)
AcceptedIffPlaced == Ended => (pc = "done" <=> \A i \in 2 .. 4 : Ok(i))
=============================================================================
