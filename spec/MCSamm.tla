------------------------------- MODULE MCSamm -------------------------------
(***************************************************************************)
(* C27: instances, values, selections, deprecation and catalogue versions  *)
(* through the exporter of aspect models.                                  *)
(***************************************************************************)
EXTENDS MCExpBase

CONSTANT Fam

L1(ss) == List([i \in DOMAIN ss |-> Str(ss[i])])
Plain(fs) == [S0 EXCEPT !.extall = FALSE, !.expand = FALSE, !.files = fs]
M(entries) == Plain(<<File("m.vspec", <<D(<<"V">>, Branch("v"))>> \o entries)>>)
Inst(A, v) == IF v = Null THEN A ELSE A \cup {E("instances", v)}
OptOf(s, d) == [O0 EXCEPT !.split = s, !.depth = d]

(* one or two levels of instances, two branches inside each other *)
Insts == {Str("Row[1,2]"), Str("Left"), L1(<<"Left", "Right">>), List(<<L1(<<"Left", "Right">>)>>), List(<<Str("Row[1,2]"), L1(<<"Left", "Mid">>)>>)} \cup
         IfSet(Size > 1, {List(<<L1(<<"P1", "P2">>), Str("Q[0,1]")>>), List(<<L1(<<"A", "B">>), L1(<<"C", "D">>)>>), Str("P[3,3]x")})
InstModel(i, j, k) ==
  M(<<D(<<"V", "Door">>, Inst(Branch("d"), i)), D(<<"V", "Door", "Speed">>, Leaf("sensor", "float", "s")),
      D(<<"V", "Door", "Body">>, Inst(Branch("b"), j)), D(<<"V", "Door", "Body", "Angle">>, Leaf("attribute", "int8", "a")),
      D(<<"V", "Door", "Body", "Lamp">>, Inst(Branch("l"), k)), D(<<"V", "Door", "Body", "Lamp", "Level">>, Leaf("actuator", "uint8", "l")),
      D(<<"V", "Mode">>, Leaf("sensor", "string", "m"))>>)

(* every datatype with every kind of constraint, sensors and attributes, units *)
AllDts == BaseTypes \cup {d \o "[]" : d \in BaseTypes}
ValuesOf(dt) ==
  CASE ElemDt(dt) = "string" -> <<Str("x1"), Str(""), Str("10")>>
    [] ElemDt(dt) = "boolean" -> <<False, True>>
    [] ElemDt(dt) \in {"float", "double", "numeric"} -> <<FltV("0.5"), IntV("12")>>
    [] OTHER -> <<IntV("0"), IntV("10"), IntV("100")>>
ValOf(dt, i) == IF IsArrayDt(dt) THEN List(<<ValuesOf(dt)[i]>>) ELSE ValuesOf(dt)[i]
Allowed(dt) == E("allowed", List(ValuesOf(dt)))
ConsOf(dt) ==
  {{}, {Allowed(dt)}, {E("default", ValOf(dt, 1)), Allowed(dt)}, {E("default", ValOf(dt, 2))}, {E("default", ValOf(dt, 1))},
   {E("min", IntV("0"))}, {E("max", IntV("0"))}, {E("min", IntV("0")), E("max", IntV("7"))}}
Units == {"", "kg", "kilogram", "iso8601"}
UnitFile(n) == File(n, <<D(<<"kg">>, {E("definition", Str("d")), E("unit", Str("kilogram")), E("quantity", Str("mass"))}),
                         D(<<"iso8601">>, {E("definition", Str("d")), E("quantity", Str("mass"))})>>)
DtModel(dt, c, u, k) ==
  [M(<<D(<<"V", "Door">>, Branch("d")), D(<<"V", "Door", "X9">>, Leaf(k, dt, "x") \cup c \cup (IF u = "" THEN {} ELSE {E("unit", Str(u))})),
       D(<<"V", "Level">>, Leaf("attribute", dt, "y") \cup {E("comment", Str("c"))})>>)
   EXCEPT !.files = @ \o <<UnitFile("u.yaml"), File("q.yaml", <<D(<<"mass">>, {E("definition", Str("m"))})>>)>>,
          !.units = <<"u.yaml">>, !.quantities = <<"q.yaml">>]
Dated(v) ==
  [M(<<D(<<"V", "Start">>, Leaf("attribute", "string", "s") \cup {E("unit", Str("iso8601")), E("default", Str(v))})>>)
   EXCEPT !.files = @ \o <<UnitFile("u.yaml"), File("q.yaml", <<D(<<"mass">>, {E("definition", Str("m"))})>>)>>,
          !.units = <<"u.yaml">>, !.quantities = <<"q.yaml">>]

(* selections and deprecation *)
Pool == <<<<"V", "Door">>, <<"V", "Door", "Speed">>, <<"V", "Door", "Body">>, <<"V", "Door", "Body", "Angle">>,
          <<"V", "DoorSet">>, <<"V", "Seat">>, <<"V", "Seat", "Speed">>>>
Kinds(p) == IF p \in {<<"V", "Door">>, <<"V", "Door", "Body">>, <<"V", "Seat">>} THEN Branch("b") ELSE Leaf("sensor", "uint8", "s")
Marked(dep, v) == M([i \in DOMAIN Pool |-> D(Pool[i], Kinds(Pool[i]) \cup IfSet(i \in dep, {E("deprecation", Str(v))}))])
Asked == {Fqn(p) : p \in Range(Pool)} \cup {"V.Door.Spee", "V.Do", "V.Door.Body.AngleX", "V.Door.Speed.X", "", "V", "Door.Speed"}
Selections == {<<x>> : x \in Asked} \cup IfSet(Size > 1, {<<x, y>> : x \in Asked, y \in Asked})

(* the version of the catalogue *)
VersionValues == {Null, IntV("0"), IntV("1"), IntV("5")}
VersionModel(a, b, c) ==
  LET leaf(n, v) == D(<<"V", "VersionVSS", n>>, Leaf("attribute", "uint32", "n") \cup (IF v = Null THEN {} ELSE {E("default", v)})) IN
  M(<<D(<<"V", "VersionVSS">>, Branch("version")), leaf("Major", a), leaf("Minor", b), leaf("Patch", c)>>)

Cases ==
  CASE Fam = "instances" -> {Case("samm", InstModel(i, j, k), OptOf(s, d)) :
           i \in Insts, j \in {Null} \cup Insts, k \in {Null} \cup IfSet(Size > 1, {Str("Row[1,2]")}), s \in BOOLEAN, d \in {1, 2, 3}}
    [] Fam = "values" -> UNION {{Case("samm", DtModel(dt, c, u, k), O0) : c \in ConsOf(dt), u \in Units, k \in {"sensor", "attribute"}} : dt \in AllDts} \cup
           {Case("samm", Dated(v), O0) : v \in {"0000-01-01T00:00Z", "0001-01-01T00:00Z", "2023-11-27T16:26:05.671Z"}}
    [] Fam = "select" -> {Case("samm", Marked({}, ""), [OptOf(s, d) EXCEPT !.signals = x]) : s \in BOOLEAN, d \in {1, 2}, x \in Selections} \cup
           {Case("samm", Marked(dep, v), OptOf(s, d)) : dep \in SUBSET DOMAIN Pool, v \in {"old", " "}, s \in BOOLEAN, d \in {1, 2}}
    [] Fam = "version" -> {Case("samm", VersionModel(a, b, c), [O0 EXCEPT !.namespace = n]) :
           a \in VersionValues, b \in VersionValues, c \in VersionValues, n \in {"com.covesa.vss.spec", "org.x"}}
Spec == (\E c \in Cases : InitCase(c)) /\ [][XNext]_xvars

----------------------------------------------------------------------------
Ok == pc = "done"
G == Groups("samm", Result)
AlwaysDone == Ended => pc = "done" \/ Fam = "values"       \* units do not fit every datatype
Leaves == {p \in DOMAIN tree : KindOf(tree[p]) \in DtKinds}
HasText(s, x) == \E i \in 1 .. Len(s) - Len(x) + 1 : SubSeq(s, i, i + Len(x) - 1) = x
SeenAt(n, p) == {x \in n : Has(x.a, "datatype") /\ LET d == Get(x.a, "description").s IN HasText(d \o "\n", ": " \o Fqn(p) \o "\n")}

(* a signal is in the payload once for every combination of the instances of its branches *)
Ways(v) == IF v = Null THEN 1
           ELSE IF v.k = "s" THEN Cardinality(Range(EntryNames(v)))
           ELSE IF \A i \in DOMAIN v.l : v.l[i].k = "s" /\ Len(EntryNames(v.l[i])) = 1 THEN Len(v.l)
           ELSE FoldLeft(LAMBDA acc, e : acc * Len(EntryNames(e)), 1, v.l)
SammProduct(p) == FoldLeft(LAMBDA acc, n : acc * Ways(IF Has(tree[SubSeq(p, 1, n)], "instances") THEN Get(tree[SubSeq(p, 1, n)], "instances") ELSE Null),
                       1, [i \in 1 .. Len(p) - 1 |-> i])
InstanceProduct == (Ok /\ Fam = "instances") => \A p \in Leaves : Cardinality(SeenAt(G.nodes, p)) = SammProduct(p)

(* splitting moves elements to other files, but no signal *)
SplitKeeps == (Ok /\ Fam \in {"instances", "select"}) =>
  LET whole == Groups("samm", [Result EXCEPT !.opt.split = FALSE]).nodes
      leafs(n) == {x \in n : Has(x.a, "datatype")}
  IN leafs(G.nodes) = leafs(whole)
(* what is in the payload is inside something that is in the payload *)
Nested == Ok => \A x \in G.nodes : x.p = <<"/">> \/ \E y \in G.nodes : y.p = SubSeq(x.p, 1, Len(x.p) - 1) /\ ~ Has(y.a, "datatype")
(* exactly the signals asked for that nobody calls deprecated *)
SelectedOnly == (Ok /\ Fam = "select") =>
  \A p \in Leaves :
    (\E x \in G.nodes : Has(x.a, "datatype") /\ x.p = SammSteps([<<"/">> \o Tail(p) EXCEPT ![1] = "/"])) <=>
      /\ \A i \in 1 .. Len(p) : ~ Has(tree[SubSeq(p, 1, i)], "deprecation") \/ Get(tree[SubSeq(p, 1, i)], "deprecation").s = " "
      /\ (opt.signals = <<>> \/ \E x \in Range(opt.signals) : StartsWith(Fqn(p) \o ".", x \o ".") \/ StartsWith(x \o ".", Fqn(p) \o "."))
OneVersion == Ok => Cardinality({<<Get(x.a, "version"), Get(x.a, "namespace")>> : x \in G.aspects}) <= 1
=============================================================================
