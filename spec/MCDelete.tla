------------------------------ MODULE MCDelete ------------------------------
(* C06: every assignment of delete marks (none, true, or true undone by an     *)
(* overlay) to generic nodes, instance branches and one concrete instance.    *)
EXTENDS MCBase

Places == {<<"R", "A">>, <<"R", "A", "X">>, <<"R", "D">>, <<"R", "D", "X">>, <<"R", "D", "W">>,
           <<"R", "D", "I1">>, <<"R", "D", "I1", "X">>}
Marks == {"no", "yes", "undone"} \cup IfSet(Size > 1, {"late"})
M(m, A) == IF m \in {"yes", "undone"} THEN A \cup {E("delete", True)} ELSE A

Main(f) ==
  <<D(<<"R">>, Branch("r")), D(<<"R", "A">>, M(f[<<"R", "A">>], Branch("a"))),
    D(<<"R", "A", "X">>, M(f[<<"R", "A", "X">>], Leaf("sensor", "uint8", "ax"))),
    D(<<"R", "A", "Y">>, Leaf("sensor", "uint8", "ay")),
    D(<<"R", "D">>, M(f[<<"R", "D">>], Branch("d") \cup {E("instances", Str("I[1,2]"))})),
    D(<<"R", "D", "X">>, M(f[<<"R", "D", "X">>], Leaf("sensor", "uint8", "dx"))),
    D(<<"R", "D", "W">>, M(f[<<"R", "D", "W">>], Branch("w"))),
    D(<<"R", "D", "W", "T">>, Leaf("attribute", "string", "t"))>>
  \o If(f[<<"R", "D", "I1">>] \in {"yes", "undone"}, <<D(<<"R", "D", "I1">>, M("yes", {}))>>)
  \o If(f[<<"R", "D", "I1", "X">>] \in {"yes", "undone"}, <<D(<<"R", "D", "I1", "X">>, M("yes", {}))>>)
Over(f) ==
  LET S == {p \in Places : f[p] \in {"undone", "late"}}
      q == SetToSeq(S)
  IN [i \in DOMAIN q |-> D(q[i], {E("delete", Bool(f[q[i]] = "late"))})]

Scen(f) == [S0 EXCEPT !.files = <<File("m.vspec", Main(f)), File("o.vspec", Over(f))>>,
                      !.overlays = IF Over(f) = <<>> THEN <<>> ELSE <<"o.vspec">>]
Scenarios ==
  IF Size > 1 THEN {Scen(f) : f \in [Places -> Marks]}
  ELSE {Scen(f) : f \in {g \in [Places -> Marks] : Cardinality({p \in Places : g[p] = "undone"}) <= 1}}
Spec == (\E s \in Scenarios : InitWith(s)) /\ [][MCNext]_vars

----------------------------------------------------------------------------
Said(p) ==   \* last word of the files on deleting p
  LET es == FlattenSeq([i \in DOMAIN sc.files |-> sc.files[i].entries])
      is == {i \in DOMAIN es : es[i].p = p /\ Has(es[i].v.d, "delete")}
  IN IF is = {} THEN "none"
     ELSE Get(es[CHOOSE i \in is : \A j \in is : j <= i].v.d, "delete").s
Full == {<<"R">>, <<"R", "A">>, <<"R", "A", "X">>, <<"R", "A", "Y">>, <<"R", "D">>} \cup
        UNION {{<<"R", "D", i>>, <<"R", "D", i, "X">>, <<"R", "D", i, "W">>, <<"R", "D", i, "W", "T">>} : i \in {"I1", "I2"}}
GenericName(p) == IF Len(p) > 3 /\ p[2] = "D" THEN <<"R", "D">> \o Drop(p, 3) ELSE p
Marked(p) ==
  IF Said(p) # "none" THEN Said(p) = "true"
  ELSE IF Len(p) = 3 /\ p[2] = "D" THEN Said(<<"R", "D">>) = "true"   \* instance branches inherit
  ELSE Said(GenericName(p)) = "true"
Gone(p) == \E n \in 2 .. Len(p) : Marked(SubSeq(p, 1, n))
ExactlyMarked == Final => Dom = {p \in Full : ~ Gone(p)}
NeverFails == pc # "failed"
=============================================================================
