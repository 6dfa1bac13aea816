------------------------------ MODULE MCSpecial ------------------------------
(* C05: an instantiated branch R.D with Row[1,2] x {L, M}, nodes X and W.T     *)
(* below it, and any combination of definitions for the concrete instance     *)
(* Row1.L (and for Row1 itself), in the same file or in an overlay.           *)
EXTENDS MCBase

GX == Leaf("sensor", "int8", "gx") \cup {E("comment", Str("gc")), E("min", IntV("1")), E("q", Dict({E("a", Str("g"))}))}
GT == Leaf("attribute", "string", "gt")
Generic ==
  <<D(<<"R">>, Branch("r")),
    D(<<"R", "D">>, Branch("d") \cup {E("instances", List(<<Str("Row[1,2]"), List(<<Str("L"), Str("M")>>)>>))}),
    D(<<"R", "D", "X">>, GX), D(<<"R", "D", "W">>, Branch("w")), D(<<"R", "D", "W", "T">>, GT),
    D(<<"R", "Z">>, GX)>>

Row1 == <<"R", "D", "Row1">>
Here == <<"R", "D", "Row1", "L">>

XDefs == {{}, {E("comment", Str("s"))}, Desc("s"), Leaf("attribute", "uint16", "s"),
          {E("comment", Null)}, {E("q", Dict({E("b", Str("s"))}))}, {E("delete", True)},
          Leaf("sensor", "int8", "s") \cup {E("max", IntV("9"))},
          Leaf("sensor", "int8", "s") \cup {E("q", Dict({E("b", Str("s"))}))}}
TDefs == {{}, Desc("st"), {E("default", Str("dv"))}}
NDefs == {{}, Leaf("sensor", "float", "n"), Desc("n")}
IDefs == {{}, Desc("row"), Branch("row")} \cup IfSet(Size > 1, {{E("comment", Str("rc"))}})
HDefs == {{}, Desc("here"), Branch("here") \cup {E("comment", Str("hc"))}}

Part(p, A) == IF A = {} THEN <<>> ELSE <<D(p, A)>>
Special(x, t, n, i, h) ==
  Part(Row1, i) \o Part(Here, h) \o Part(Here \o <<"X">>, x) \o Part(Here \o <<"W", "T">>, t) \o
  Part(Here \o <<"N">>, n)
(* definitions for T need their branches in the same file only if the tree has no implied ones *)
Scen(x, t, n, i, h, ovl) ==
  IF ovl
  THEN [S0 EXCEPT !.files = <<File("m.vspec", Generic), File("o.vspec", Special(x, t, n, i, h))>>,
                  !.overlays = <<"o.vspec">>]
  ELSE [S0 EXCEPT !.files = <<File("m.vspec", Special(x, t, n, i, h) \o Generic)>>]

Scenarios ==
  {Scen(x, t, n, i, h, ovl) : x \in XDefs, t \in TDefs, n \in NDefs, i \in IF Size > 1 THEN IDefs ELSE {{}, Desc("row")},
                              h \in HDefs, ovl \in IF Size > 1 THEN BOOLEAN ELSE {TRUE}} \cup
  {Scen(x, {}, {}, i, {}, FALSE) : x \in XDefs, i \in IDefs}
Spec == (\E s \in Scenarios : InitWith(s)) /\ [][MCNext]_vars

----------------------------------------------------------------------------
SpecialOf(p) ==  \* what the files say about p by its full concrete name
  LET es == FlattenSeq([i \in DOMAIN sc.files |-> sc.files[i].entries])
      is == {i \in DOMAIN es : es[i].p = p}
  IN IF is = {} THEN {} ELSE es[CHOOSE i \in is : TRUE].v.d
GenericOf(p) == IF p = Here \o <<"X">> THEN GX ELSE IF p = Here \o <<"W", "T">> THEN GT ELSE {}

Shown1(p) == (CHOOSE n \in Outcome.nodes : n.p = p).a
Plain(p) ==   \* a generic copy elsewhere
  <<"R", "D", "Row2", "M">> \o Drop(p, 4)

OverridesOnlyGiven ==
  Final => \A p \in {Here \o <<"X">>, Here \o <<"W", "T">>} \cap Dom :
    \A n \in Names(Shown1(p)) \cup Names(SpecialOf(p)) \cup Names(GenericOf(p)) :
      IF Has(SpecialOf(p), n) /\ Get(SpecialOf(p), n).k \notin {"d", "n"} /\ n \notin NotExported
      THEN Get(Shown1(p), n) = Get(SpecialOf(p), n)
      ELSE ~ Has(SpecialOf(p), n) => (Has(Shown1(p), n) <=> Has(Shown1(Plain(p)), n)) /\
                                     (Has(Shown1(p), n) => Get(Shown1(p), n) = Get(Shown1(Plain(p)), n))
NewOnlyHere == Final => {p \in Dom : LastOf(p) = "N"} = IF SpecialOf(Here \o <<"N">>) # {} THEN {Here \o <<"N">>} ELSE {}
OthersUntouched ==
  Final => \A p \in Dom : (Len(p) > 3 /\ p[2] = "D" /\ ~ IsPfx(Here, p) /\ ~ IsPfx(p, Here)) =>
     Shown1(p) = Shown1(<<"R", "D", "Row2", "M">> \o Drop(p, 4))
ZUntouched == Final => tree[<<"R", "Z">>] = GX
AllInstances == Final => {SubSeq(p, 3, 4) : p \in {p \in Dom : Len(p) = 4}} =
                          {<<r, c>> : r \in {"Row1", "Row2"}, c \in {"L", "M"}}
MergedMaps == Final =>
  LET p == Here \o <<"X">> IN
  (p \in Dom /\ Has(SpecialOf(p), "q")) => Get(Shown1(p), "q") = Dict({E("a", Str("g")), E("b", Str("s"))})
=============================================================================
