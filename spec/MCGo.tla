-------------------------------- MODULE MCGo --------------------------------
(***************************************************************************)
(* C21: instances that look alike and instances that differ, datatypes,    *)
(* structs and names, through the Go exporter.  Besides the cases for the  *)
(* real exporter, the rule itself is checked: the obvious translation      *)
(* satisfies it, and no damaged one does.                                  *)
(***************************************************************************)
EXTENDS MCExpBase

L1(ss) == List([i \in DOMAIN ss |-> Str(ss[i])])
With(A, n, v) == IF v = Null THEN A ELSE A \cup {E(n, v)}
Plain(fs) == [S0 EXCEPT !.extall = FALSE, !.files = fs]
Insts == {Str("Row[1,2]"), L1(<<"Left", "Right">>), List(<<Str("Row[1,2]"), L1(<<"L", "M">>)>>)} \cup
         IfSet(Size > 1, {Str("Left"), List(<<L1(<<"A">>), L1(<<"B", "C">>)>>), L1(<<"D", "E">>)})
(* what an overlay says about one instance, here the first of the outer definition *)
FirstOf(i) == IF i.k = "s" THEN (IF i.s = "Left" THEN <<"Left">> ELSE <<"Row1">>)
              ELSE IF Head(i.l).k = "l" THEN <<Head(i.l).l[1].s, "B">>
              ELSE IF Head(i.l).s = "Row[1,2]" THEN <<"Row1", "M">> ELSE <<Head(i.l).s>>
Special(q) == {<<>>, <<D(q, Branch("s")), D(q \o <<"V">>, Leaf("sensor", "float", "other"))>>,
               <<D(q, Branch("s")), D(q \o <<"Z">>, Leaf("sensor", "string[]", "more"))>>,
               <<D(q, Branch("s")), D(q \o <<"W">>, Branch("w")), D(q \o <<"W", "More">>, Leaf("sensor", "boolean", "more"))>>,
               <<D(q, Branch("s")), D(q \o <<"V">>, Leaf("sensor", "uint8", "v") \cup {E("delete", True)})>>}
InstModel(i, j, n, x) ==
  [Plain(<<File("m.vspec", <<D(<<"R">>, Branch("r")), D(<<"R", "D">>, Branch("d") \cup {E("instances", i)}),
                             D(<<"R", "D", "V">>, Leaf("sensor", "uint8", "v")),
                             D(<<"R", "D", "W">>, With(Branch("w"), "instances", j)),
                             D(<<"R", "D", "W", "V">>, Leaf("sensor", "string", "v"))>> \o
                           (IF n = "" THEN <<>> ELSE <<D(<<"R", n>>, Branch("n")), D(<<"R", n, "V">>, Leaf("sensor", "double", "v"))>>)),
           File("o.vspec", x)>>)
   EXCEPT !.overlays = <<"o.vspec">>]

AllDts == BaseTypes \cup {d \o "[]" : d \in BaseTypes}
DtModel(dt, pt, r, a, b) ==
  [Plain(<<File("m.vspec", <<D(<<"R">>, Branch("r")), D(<<"R", "X">>, Leaf("sensor", dt, "x")),
                             D(<<"R", "Y">>, Leaf("actuator", "T." \o r, "y")),
                             D(<<"R", a>>, Branch("a")), D(<<"R", a, "Leaf">>, Leaf("sensor", "T.N.Q[]", "l")),
                             D(<<"R", a, b>>, Branch("a")), D(<<"R", a, b, "Leaf">>, Leaf("sensor", "int8", "l")),
                             D(<<"R", "AB">>, Branch("ab")), D(<<"R", "AB", "C">>, Branch("c")),
                             D(<<"R", "AB", "C", "Leaf">>, Leaf("sensor", "int16", "l"))>>),
           File("t.vspec", <<D(<<"T">>, Branch("t")), D(<<"T", "S">>, Type("struct") \cup Desc("s")),
                             D(<<"T", "S", "A">>, Leaf("property", pt, "a")),
                             D(<<"T", "N">>, Branch("n")), D(<<"T", "N", "Q">>, Type("struct") \cup Desc("q")),
                             D(<<"T", "N", "Q", "P">>, Leaf("property", "T.S", "p"))>>)>>)
   EXCEPT !.types = <<"t.vspec">>]

Opts == {[O0 EXCEPT !.longnames = l, !.package = IF l THEN "model" ELSE "vss"] : l \in BOOLEAN}
Cases ==
  UNION {UNION {{Case("go", InstModel(i, j, n, x), o) : o \in Opts, j \in {Null} \cup Insts, n \in {"", "I1", "V", "W"}}
                : x \in Special(<<"R", "D">> \o FirstOf(i))} : i \in Insts} \cup
  {Case("go", DtModel(d, p, r, a, b), o) : d \in AllDts, p \in {"boolean", "numeric[]", "uint16"}, r \in {"S", "N.Q"},
                                            a \in {"A", "Q"}, b \in {"BC", "B"}, o \in Opts}
Spec == (\E c \in Cases : InitCase(c)) /\ [][XNext]_xvars

----------------------------------------------------------------------------
Ok == pc = "done" /\ Problems(tool, Result) = {}
GoLeaf(s, p, F) ==
  LET dt == Get(F, "datatype").s
      e == ElemDt(dt)
  IN Node(<<"member", s, LastOf(p)>>,
          {S("type", IF e \in BaseTypes THEN GoScalar(e) ELSE GoJoin(SplitStr(e, ".")))} \cup
          (IF IsArrayDt(dt) THEN {E("array", True)} ELSE {}))
Reference ==
  {Node(<<"struct", GoJoin(p)>>, {}) : p \in GoBranches(Result) \cup GoStructs(Result)} \cup
  UNION {{IF c \in GoBranches(Result) THEN Node(<<"member", GoJoin(p), LastOf(c)>>, {S("type", GoJoin(c))})
          ELSE GoLeaf(GoJoin(p), c, Full(Result, c)) : c \in Children(tree, p)} : p \in GoBranches(Result)} \cup
  UNION {{GoLeaf(GoJoin(p), c, FullT(Result, c)) : c \in Children(ttree, p)} : p \in GoStructs(Result)}
Good(ns) == GoProblemsOf(Result, ns) = {}
Other(x) == IF Get(x.a, "type") = Str("bool") THEN "uint8" ELSE "bool"
ReferenceGood == Ok => Good(Reference)
(* any one node missing, any one member of another type *)
DamagedBad ==
  Ok => LET ns == TLCEval(Reference) IN
        \A x \in ns : /\ ~ Good(ns \ {x})
                      /\ x.p[1] = "member" => /\ ~ Good((ns \ {x}) \cup {Node(x.p, Put(x.a, "type", Str(Other(x))))})
                                              /\ ~ Good((ns \ {x}) \cup {Node(x.p, (x.a \ {E("array", True)}) \cup ({E("array", True)} \ x.a))})
                                              /\ ~ Good(ns \cup {Node(<<"member", x.p[2], "More9">>, x.a)})
AlwaysDone == Ended => pc = "done"
=============================================================================
