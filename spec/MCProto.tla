------------------------------ MODULE MCProto ------------------------------
(***************************************************************************)
(* C18: models whose branches, structs and static UIDs come close to       *)
(* colliding, in every combination.                                        *)
(***************************************************************************)
EXTENDS MCExpBase

CONSTANT Fam

Dts == {"uint8", "int16[]", "boolean", "string[]", "double", "uint64"} \cup IfSet(Size > 1, {"numeric", "uint16[]", "int8", "float[]"})
Uid(u) == IF u = "" THEN {} ELSE {E("staticUID", Str(u))}

(* shapes: which of the places below the root exist, and as what *)
Places == {<<"A">>, <<"A", "B">>, <<"AB">>, <<"A", "B", "C">>, <<"AB", "C">>}
Kinds == {"none", "branch", "leaf"}
ShapeOk(f) == \A p \in Places : f[p] # "none" /\ Len(p) > 1 => f[Parent(p)] = "branch"
ShapeModel(f, dt) ==
  [S0 EXCEPT !.extall = FALSE, !.files = <<File("m.vspec", <<D(<<"R">>, Branch("r"))>> \o
     SetToSeq({D(<<"R">> \o p, IF f[p] = "branch" THEN Branch("b") ELSE Leaf("sensor", dt, "l")) : p \in {q \in Places : f[q] # "none"}}))>>]
Shapes == {f \in [Places -> Kinds] : ShapeOk(f)}

(* structs in one or two packages, using each other *)
TRefs == {"", "T.N.P", "T.N.P[]", "T.M.Q", "T.S"}
TypeModel(a, b, c, x) ==
  [S0 EXCEPT !.extall = FALSE, !.types = <<"t.vspec">>,
     !.files = <<File("m.vspec", <<D(<<"R">>, Branch("r")), D(<<"R", "X">>, Leaf("sensor", IF x = "" THEN "uint8" ELSE x, "x")),
                                   D(<<"R", "Y">>, Leaf("sensor", IF a = "" THEN "uint8" ELSE a, "x"))>>),
                 File("t.vspec", <<D(<<"T">>, Branch("t")), D(<<"T", "N">>, Branch("n")), D(<<"T", "M">>, Branch("m")),
                                   D(<<"T", "S">>, Type("struct") \cup Desc("s")), D(<<"T", "S", "A">>, Leaf("property", IF a = "" THEN "int8" ELSE a, "a")),
                                   D(<<"T", "S", "B">>, Leaf("property", "float[]", "b")),
                                   D(<<"T", "M", "Q">>, Type("struct") \cup Desc("q")), D(<<"T", "M", "Q", "A">>, Leaf("property", IF b = "" THEN "int8" ELSE b, "a")),
                                   D(<<"T", "N", "P">>, Type("struct") \cup Desc("p")), D(<<"T", "N", "P", "A">>, Leaf("property", "boolean", "a")),
                                   D(<<"T", "N", "O">>, Type("struct") \cup Desc("o")), D(<<"T", "N", "O", "A">>, Leaf("property", IF c = "" THEN "int8" ELSE c, "a")),
                                   D(<<"T", "M", "U">>, Type("struct") \cup Desc("u")), D(<<"T", "M", "U", "A">>, Leaf("property", IF b = "" THEN "int8" ELSE b, "a"))>>)>>]

(* static UIDs around the limits and around each other *)
Uids == {"", "0x00000008", "0x0000000F", "0x00000007", "0x000251BF", "0x000251C0", "0x000270FF", "0x00027100", "0xFFFFFFFF", "0xfffffff8"}
UidModel(u, v, w) ==
  [S0 EXCEPT !.extall = FALSE, !.types = <<"t.vspec">>,
     !.files = <<File("m.vspec", <<D(<<"R">>, Branch("r")), D(<<"R", "B">>, Branch("b") \cup Uid(u)),
                                   D(<<"R", "X">>, Leaf("sensor", "uint8", "x") \cup Uid(v)),
                                   D(<<"R", "B", "X">>, Leaf("sensor", "T.S", "x") \cup Uid("0x00000100"))>>),
                 File("t.vspec", <<D(<<"T">>, Branch("t")), D(<<"T", "S">>, Type("struct") \cup Desc("s")),
                                   D(<<"T", "S", "A">>, Leaf("property", "int8", "a") \cup Uid(w)),
                                   D(<<"T", "S", "B">>, Leaf("property", "int8", "a") \cup Uid("0x00000010"))>>)>>,
     !.exts = {"staticUID"}]

Cases ==
  CASE Fam = "shapes" -> {Case("protobuf", ShapeModel(f, dt), [O0 EXCEPT !.addopt = o]) : f \in Shapes, dt \in Dts, o \in BOOLEAN}
    [] Fam = "types" -> {Case("protobuf", TypeModel(a, b, c, x), [O0 EXCEPT !.typesout = TRUE]) : a \in TRefs \ {"T.S"}, b \in TRefs, c \in TRefs, x \in TRefs}
    [] Fam = "uids" -> {Case("protobuf", UidModel(u, v, w), [O0 EXCEPT !.typesout = TRUE, !.staticuid = so]) :
                          u \in Uids, v \in Uids, w \in Uids, so \in BOOLEAN}

Spec == (\E c \in Cases : InitCase(c)) /\ [][XNext]_xvars

----------------------------------------------------------------------------
Out == Groups(tool, Result)
Ok  == pc = "done" /\ Problems(tool, Result) = {}
Of(g, kind) == {x \in Out[g] : x.p[1] = kind}
Files == DOMAIN Out \ {"numbers"}
PackageIn(g) == IF Of(g, "package") = {} THEN "" ELSE (CHOOSE x \in Of(g, "package") : TRUE).p[2] \o "."
(* full names of the messages a file can use *)
Usable(g) == {PackageIn(g) \o x.p[2] : x \in Of(g, "message")} \cup {x.p[2] : x \in Of(g, "message")} \cup
             UNION {{PackageIn(i.p[2]) \o x.p[2] : x \in Of(i.p[2], "message")} : i \in Of(g, "import")}
ProtoTypes == {"uint32", "uint64", "int32", "int64", "float", "double", "bool", "string"}

AlwaysDone == Ended => pc = "done"
EveryFieldResolves ==
  Ok => \A g \in Files : \A x \in Of(g, "field") :
          /\ Get(x.a, "type").s \in ProtoTypes \cup Usable(g)
          /\ <<"message", x.p[2]>> \in {m.p : m \in Of(g, "message")}
OneFieldPerChild ==
  Ok => /\ Cardinality(Of("signals", "field")) = Cardinality(DOMAIN tree) - 1
        /\ Cardinality(Of("signals", "message")) = Cardinality({p \in DOMAIN tree : KindOf(tree[p]) = "branch"})
        /\ Cardinality(UNION {{<<g, x>> : x \in Of(g, "field")} : g \in Files \ {"signals"}}) = Cardinality(Props(Result))
NumbersUnique ==
  (Ok /\ opt.staticuid) =>
     LET N == Out["numbers"] IN
     /\ Cardinality(N) = Cardinality(DOMAIN tree) - 1 + Cardinality(Props(Result))
     /\ NumberProblems(N) = {}
ImportsExist == Ok => \A g \in Files : \A x \in Of(g, "import") : x.p[2] \in Files \ {g, "signals"}
=============================================================================
