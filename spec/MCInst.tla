------------------------------- MODULE MCInst -------------------------------
(* C04: every instance definition of a catalogue on a branch, on a branch     *)
(* below it and (in another order) on an unrelated branch.                    *)
EXTENDS MCBase

L1(ss) == List([i \in DOMAIN ss |-> Str(ss[i])])
Catalogue ==
  {Str("Left"), Str("Row[1,2]"), Str("P[3,3]x"),
   L1(<<"Left", "Right">>), L1(<<"Row[1,2]">>), L1(<<"Left">>),
   List(<<Str("Row[1,2]"), L1(<<"L", "M">>)>>),
   List(<<L1(<<"A">>), L1(<<"B", "C">>)>>),
   L1(<<"Row[1,2]", "Col[9,10]">>), L1(<<"X", "Row[0,1]">>),
   List(<<L1(<<"Q[1,2]", "Z">>), Str("K")>>), Str("Row[2,1]")} \cup
  IfSet(Size > 1, {List(<<Str("K"), L1(<<"Q[1,2]">>), L1(<<"U", "V">>)>>),
                   List(<<L1(<<"A">>), L1(<<"B">>), Str("R[1,2]")>>),
                   L1(<<"R[1,2]", "S[2,1]">>), Str("R[08,10]"), List(<<>>)})

Inner == Catalogue \cup {Null}
With(A, n, v) == IF v = Null THEN A ELSE A \cup {E(n, v)}

Scen(i1, i2, yi, ei, other) ==
  [S0 EXCEPT !.files = <<File("m.vspec",
    <<D(<<"R">>, Branch("r")),
      D(<<"R", "D">>, Branch("d") \cup {E("instances", i1), E("comment", Str("c"))}),
      D(<<"R", "D", "V">>, Leaf("sensor", "uint8", "v")),
      D(<<"R", "D", "Y">>, Leaf("sensor", "uint8", "y") \cup {E("instantiate", Bool(yi))}),
      D(<<"R", "D", "W">>, With(Branch("e"), "instances", i2) \cup {E("instantiate", Bool(ei))}),
      D(<<"R", "D", "W", "T">>, Leaf("attribute", "string", "t"))>>
    \o If(other, <<D(<<"R", "O">>, Branch("o") \cup {E("instances", L1(<<"L", "M">>))}),
                   D(<<"R", "O", "V">>, Leaf("actuator", "int8", "ov"))>>))>>]

Scenarios == {Scen(i1, i2, yi, ei, FALSE) : i1 \in Catalogue, i2 \in Inner, yi \in {FALSE}, ei \in BOOLEAN} \cup
             {Scen(i1, i2, yi, ei, TRUE) : i1 \in Catalogue, i2 \in {Null, Str("Left")}, yi \in BOOLEAN, ei \in BOOLEAN}
Spec == (\E s \in Scenarios : InitWith(s)) /\ [][MCNext]_vars

----------------------------------------------------------------------------
(* closed form: choose one name of every level entry before entry i, then a name of entry i *)
Level(e) == e.k = "l" \/ Len(EntryNames(e)) > 1
RECURSIVE Product(_)
Product(es) == IF es = <<>> THEN {<<>>}
               ELSE {r \o <<n>> : r \in Product(Front(es)), n \in Range(EntryNames(Last(es)))}
Denoted(es) ==
  UNION {{r \o <<n>> : r \in Product(SelectSeq(SubSeq(es, 1, i - 1), Level)), n \in Range(EntryNames(es[i]))} :
           i \in DOMAIN es}
Bottom(S) == {g \in S : ~ \E h \in S : IsProperPfx(g, h)}

In == sc.files[1].entries
I1 == InstancesOf(In[2].v.d)
YIn == Get(In[4].v.d, "instantiate") = True
WIn == Get(In[5].v.d, "instantiate") = True
I2 == IF Has(In[5].v.d, "instances") THEN InstancesOf(In[5].v.d) ELSE <<>>
Bad(es) == \E i \in DOMAIN es : BadEntry(es[i])

RD == <<"R", "D">>
G1 == {RD \o g : g \in Denoted(I1)}
B1 == IF G1 = {} THEN {RD} ELSE Bottom(G1)
WAt == IF WIn THEN {g \o <<"W">> : g \in B1} ELSE {RD \o <<"W">>}
G2 == {w \o g : w \in WAt, g \in Denoted(I2)}
B2 == IF Denoted(I2) = {} THEN WAt ELSE Bottom(G2)
Expected ==
  {<<"R">>, RD} \cup G1 \cup {g \o <<"V">> : g \in B1} \cup
  (IF YIn THEN {g \o <<"Y">> : g \in B1} ELSE {RD \o <<"Y">>}) \cup
  WAt \cup G2 \cup {g \o <<"T">> : g \in B2}
Other == {p \in Dom : Len(p) > 1 /\ p[2] = "O"}

ExactProduct == Final => Dom \ Other = Expected
RangeFails == Ended => ((pc = "done") <=> ~ (Bad(I1) \/ Bad(I2)))
InstancesGone == Final => \A p \in Dom : ~ Has(tree[p], "instances") \/ Unset(NormInstances(Get(tree[p], "instances")))
CopiesEqual == Final => /\ \A p \in G1 : Without(tree[p], {"is_instance"}) = tree[RD]
                        /\ \A p, q \in {g \o <<"V">> : g \in B1} : tree[p] = tree[q]
OtherUntouched == Final => (Other = {} \/ Other = {<<"R", "O">>, <<"R", "O", "L">>, <<"R", "O", "M">>,
                                                   <<"R", "O", "L", "V">>, <<"R", "O", "M", "V">>})
=============================================================================
