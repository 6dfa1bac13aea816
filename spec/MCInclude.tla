------------------------------ MODULE MCInclude ------------------------------
(* C02: main includes sub/x.vspec (below prefix p1), which includes y.vspec   *)
(* (below p2); y.vspec may lie in any of four directories; z.vspec follows.   *)
EXTENDS MCBase

Dirs == {"", "d1", "d2", "sub"}
Y(dir) == Join(dir, "y.vspec")
Br(p) == D(p, Branch(Fqn(p)))

Mains == <<Br(<<"R">>), Br(<<"R", "A">>), Br(<<"R", "A", "B">>), Br(<<"R", "B">>)>>
YFile(dir) == File(Y(dir), <<D(<<"N">>, Leaf("sensor", "uint8", "from-" \o Y(dir))),
                             D(<<"M">>, Leaf("sensor", "uint8", "y"))>>)
XEntries(deep) == <<D(<<"M">>, Leaf("sensor", "uint8", "x")), D(<<"X">>, Leaf("sensor", "uint8", "x"))>>
                  \o If(deep, <<Br(<<"B">>)>>)

Places == SUBSET Dirs
Orders == {<<>>, <<"d1">>, <<"d1", "d2">>, <<"d2", "d1">>, <<"d2", "d1", "d2">>} \cup
          IfSet(Size > 1, {<<"d1", "">>, <<"sub", "d1">>, <<"d2", "sub">>})
P1 == {<<"R">>, <<"R", "A">>}
P2 == {<<>>, <<"B">>}

Scen(places, ord, p1, p2, top) ==
  [S0 EXCEPT
     !.files = <<FileI(Join(top, "m.vspec"), Mains, <<Inc("sub/x.vspec", p1), Inc("z.vspec", <<>>)>>),
                 FileI(Join(top, "sub/x.vspec"), XEntries(p2 # <<>>), <<Inc("y.vspec", p2)>>),
                 File(Join(top, "z.vspec"), <<D(<<"R", "X">>, Leaf("actuator", "uint8", "z")),
                                   D(<<"R", "M">>, {E("description", Str("z"))} \cup Leaf("sensor", "int8", "z"))>>)>>
               \o SetToSeq({YFile(IF q = "" THEN top ELSE IF q = "sub" THEN Join(top, q) ELSE q) : q \in places}),
     !.main = Join(top, "m.vspec"),
     !.idirs = ord]

Scenarios == {Scen(pl, o, p1, p2, "") : pl \in Places, o \in Orders, p1 \in P1, p2 \in P2} \cup
             {Scen(pl, o, <<"R", "A">>, p2, "top") : pl \in Places, o \in Orders, p2 \in IF Size > 1 THEN P2 ELSE {<<>>}}

Spec == (\E s \in Scenarios : InitWith(s)) /\ [][MCNext]_vars

----------------------------------------------------------------------------
XInc == sc.files[1].incs[1]
YInc == sc.files[2].incs[1]
Top  == DirOf(sc.main)
(* the documented search order, written out as a priority list of directories *)
Order == <<Top>> \o sc.idirs \o <<Join(Top, "sub")>>
Hits == {n \in DOMAIN Order : Y(Order[n]) \in FileNames(sc)}
Chosen == Y(Order[CHOOSE n \in Hits : \A m \in Hits : n <= m])

FirstMatchWins ==
  /\ (Hits = {}) => pc # "done"
  /\ Final => LET n == XInc.prefix \o YInc.prefix \o <<"N">> IN
                n \in Dom /\ Get(tree[n], "description").s = "from-" \o Chosen
PrefixesCompose ==
  Final => /\ (XInc.prefix \o <<"X">>) \in Dom
           /\ {p \in Dom : LastOf(p) = "N"} = {XInc.prefix \o YInc.prefix \o <<"N">>}
NotFoundFails == (Hits = {} /\ pc \in {"done", "failed"}) => err = {"include-not-found"}
IncludedOverrides ==      \* z comes last: it overrides what x and y say about the same node
  Final => /\ Get(tree[<<"R", "X">>], "description").s = "z"
           /\ Get(tree[<<"R", "M">>], "description").s = "z"
           /\ XInc.prefix # <<"R">> => Get(tree[XInc.prefix \o <<"M">>], "description").s =
                IF YInc.prefix = <<>> THEN "y" ELSE "x"
=============================================================================
