------------------------------ MODULE MCReload ------------------------------
(* C14: a catalogue of models, each exported, loaded and exported again in     *)
(* every plan; the round trip is checked here on the specification, and every  *)
(* scenario is printed for the same chain with the real tool.                  *)
EXTENDS VssReload, Json

CONSTANT Size
D(p, A) == [p |-> p, v |-> Dict(A)]
Desc(d)   == {E("description", Str(d))}
Type(k)   == {E("type", Str(k))}
Branch(d) == Type("branch") \cup Desc(d)
Leaf(kind, dt, d) == Type(kind) \cup Desc(d) \cup {E("datatype", Str(dt))}
If(c, x) == IF c THEN x ELSE <<>>

Insts == {<<>>, <<Str("Row[1,2]")>>, <<List(<<Str("Row[1,2]"), List(<<Str("A"), Str("B")>>)>>)>>, <<Null>>}
Cores == {{E("default", v)} : v \in {IntV("0"), Null, IntV("200")}} \cup
         {{E("min", IntV("0")), E("max", FltV("7.5"))}, {E("allowed", List(<<IntV("1"), IntV("2")>>)), E("default", IntV("1"))},
          {E("fka", List(<<Str("A.B"), Str("A.C")>>)), E("comment", Null)}, {E("constUID", Str("0x00000001")), E("deprecation", Str("v"))},
          {E("unit", Str("m"))}, {E("unit", Str("meter"))}}
Exts == {{}, {E("e1", Dict({E("k", List(<<Str("1"), IntV("1")>>)), E("n", Null)}))}, {E("e1", Null), E("e2", List(<<>>))}}
Refs == {"", "T.S", "T.S[]", "T.N.In"}

Scen(i, c, x, ref, w) ==
  [files |-> <<[name |-> "m.vspec", incs |-> <<>>, entries |->
                 <<D(<<"R">>, Branch("r")), D(<<"R", "D">>, Branch("d") \cup (IF i = <<>> THEN {} ELSE {E("instances", i[1])})),
                   D(<<"R", "D", "X">>, Leaf("sensor", "uint8", "x") \cup c \cup x)>> \o
                 If(ref # "", <<D(<<"R", "D", "S">>, Leaf("actuator", ref, "s"))>>)],
               [name |-> "units.yaml", incs |-> <<>>, entries |->
                 <<D(<<"m">>, {E("definition", Str("m")), E("unit", Str("meter")), E("quantity", Str("q")), E("allowed-datatypes", List(<<Str("numeric")>>))})>>],
               [name |-> "quantities.yaml", incs |-> <<>>, entries |-> <<D(<<"q">>, {E("definition", Str("q"))})>>],
               [name |-> "t.vspec", incs |-> <<>>, entries |->
                 <<D(<<"T">>, Branch("t")), D(<<"T", "S">>, Type("struct") \cup Desc("s")), D(<<"T", "S", "a">>, Leaf("property", "In[]", "a")),
                   D(<<"T", "N">>, Branch("n")), D(<<"T", "N", "In">>, Type("struct") \cup Desc("in")), D(<<"T", "N", "In", "b">>, Leaf("property", "S", "b")),
                   D(<<"T", "In">>, Type("struct") \cup Desc("in")), D(<<"T", "In", "c">>, Leaf("property", "uint8", "c") \cup {E("unit", Str("m"))})>>]>>,
   main |-> "m.vspec", overlays |-> <<>>, idirs |-> <<>>, types |-> IF ref = "" THEN <<>> ELSE <<"t.vspec">>,
   quantities |-> <<>>, units |-> <<>>, strict |-> FALSE, aborts |-> {},
   exts |-> IF w = "listed" THEN {"e1"} ELSE {}, extall |-> w = "all", uuid |-> FALSE, expand |-> TRUE]

Plans == {<<[reload |-> FALSE, expand |-> TRUE], [reload |-> TRUE, expand |-> TRUE], [reload |-> TRUE, expand |-> TRUE]>>,
          <<[reload |-> FALSE, expand |-> TRUE], [reload |-> FALSE, expand |-> FALSE], [reload |-> TRUE, expand |-> FALSE],
            [reload |-> TRUE, expand |-> TRUE]>>}

Scenarios == {Scen(i, c, x, ref, w) : i \in (IF Size > 1 THEN Insts ELSE {<<>>, <<Str("Row[1,2]")>>}),
                c \in Cores, x \in Exts, ref \in (IF Size > 1 THEN Refs ELSE {"", "T.N.In"}), w \in {"none", "listed", "all"}}

Init == \E s \in Scenarios, pl \in Plans : InitPlan(s, pl)
Emit == /\ AllDone /\ pc # "reported"
        /\ PrintT(<<"@X", ToJson(origin), Len(outcomes), "{}">>)
        /\ pc' = "reported"
        /\ UNCHANGED <<sc, jobs, flat, hist, ctx, ttree, tree, err, origin, plan, outcomes>>
Spec == Init /\ [][HStep \/ Emit]_hvars

Fixpoint == (AllDone /\ Len(outcomes) = 3) => SameAgain(1, 2) /\ SameAgain(1, 3)
Unexpanded == (AllDone /\ Len(outcomes) = 4) => SameAgain(2, 3) /\ SameAgain(1, 4)
Valid == AllDone => \A k \in DOMAIN outcomes : outcomes[k].ok
=============================================================================
