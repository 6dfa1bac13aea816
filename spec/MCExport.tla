------------------------------ MODULE MCExport ------------------------------
(* C13, C15, C24: every combination of the export options over a model with   *)
(* core, internal, unknown, unset and structured attributes, instances and    *)
(* user types.                                                                *)
EXTENDS MCExpBase

Vals == {Str("v"), IntV("7"), FltV("0.5"), False, Null, List(<<>>), List(<<Str("a"), Null>>),
         Dict({E("k", Str("x")), E("l", List(<<IntV("1")>>))})}
Insts == {<<>>, <<Str("Row[1,2]")>>, <<List(<<Str("L"), Str("M")>>)>>} \cup
         IfSet(Size > 1, {<<List(<<>>)>>, <<Null>>, <<List(<<Str("Row[1,2]"), List(<<Str("A"), Str("B")>>)>>)>>})
Cores == {{}, {E("comment", Str("c")), E("deprecation", Null), E("min", IntV("0"))},
          {E("default", List(<<IntV("0"), IntV("2")>>)), E("arraysize", IntV("2")), E("allowed", List(<<IntV("0"), IntV("2")>>))},
          {E("delete", False), E("fka", List(<<Str("Old.X")>>)), E("constUID", Str("0x0000ABCD"))}}
Dt(core) == IF Has(core, "arraysize") THEN "uint8[]" ELSE "uint8"

Scen(v, inst, core, tp, exts, all, uuid, exp) ==
  [S0 EXCEPT !.files = <<File("m.vspec",
       <<D(<<"R">>, Branch("r") \cup {E("e2", Str("root"))}),
         D(<<"R", "D">>, Branch("d") \cup {E("aggregate", True)} \cup
            (IF inst = <<>> THEN {} ELSE {E("instances", inst[1])})),
         D(<<"R", "D", "X">>, Leaf("sensor", Dt(core), "x") \cup core \cup {E("e1", v)}),
         D(<<"R", "D", "N">>, Leaf("attribute", IF tp THEN "T.S[]" ELSE "string", "n") \cup {E("instantiate", False)})>>)>> \o
       If(tp, <<File("t.vspec", <<D(<<"T">>, Branch("t")), D(<<"T", "S">>, Type("struct") \cup Desc("s")),
                                  D(<<"T", "S", "a">>, Leaf("property", "int8", "a") \cup {E("max", IntV("3"))})>>)>>),
             !.types = If(tp, <<"t.vspec">>), !.exts = exts, !.extall = all, !.uuid = uuid, !.expand = exp]

CONSTANT Fam           \* which tools
Tools == IF Fam = "listing" THEN {"json", "yaml"} ELSE IF Fam = "csv" THEN {"csv"} ELSE {"json", "yaml", "csv"}

Cases ==
  IF Fam = "noexpand"
  THEN {Case(t, Scen(Str("v"), i, c, FALSE, {}, FALSE, FALSE, x), O0) : t \in Tools, i \in Insts, c \in Cores, x \in BOOLEAN}
  ELSE IF Fam = "uuid"
  THEN {Case(t, Scen(Str("v"), i, c, tp, {}, FALSE, u, x), [O0 EXCEPT !.typesout = tp]) :
          t \in Tools, i \in Insts, c \in Cores, tp \in BOOLEAN, u \in BOOLEAN, x \in BOOLEAN}
  ELSE {Case(t, Scen(v, <<>>, {}, FALSE, ex, all, FALSE, TRUE), O0) :
          t \in Tools, v \in Vals, ex \in SUBSET {"e1", "e2"}, all \in BOOLEAN} \cup
       {Case(t, Scen(Str("v"), i, c, tp, {"e1"}, all, u, x), [O0 EXCEPT !.typesout = to]) :
          t \in Tools, i \in Insts, c \in Cores, tp \in BOOLEAN, all \in BOOLEAN, u \in BOOLEAN, x \in BOOLEAN, to \in {FALSE, TRUE}}
Sane(c) == (c.opt.typesout => c.sc.types # <<>>) /\ (c.tool = "csv" => ~ c.sc.extall)

Spec == (\E c \in Cases : Sane(c) /\ InitCase(c)) /\ [][XNext]_xvars

----------------------------------------------------------------------------
G == Groups(tool, Result)
Main == IF tool = "csv" THEN G["rows"] ELSE G["nodes"]
NodeAt(X, p) == CHOOSE x \in X : x.p = p

AlwaysDone == Ended => pc = "done"

(* every node of the final tree exactly once; types in exactly one place *)
TypePaths == DOMAIN ttree
EachNodeOnce ==
  Final =>
    LET together == tool = "csv" /\ TypePaths # {} /\ ~ opt.typesout
        ps == Dom \cup (IF together THEN TypePaths ELSE {})
    IN {x.p : x \in Main} = ps /\ Cardinality(Main) = Cardinality(ps)
TypesOnce ==
  Final =>
    (TypePaths # {} => \E g \in DOMAIN G : TypePaths \subseteq {x.p : x \in G[g]}) /\
    (TypePaths = {} => DOMAIN G \cap {"types", "typesfile", "typesrows"} = {})

(* unknown attributes: shown on a node exactly if asked for *)
ExtraExactly ==
  (Final /\ tool # "csv") =>
    \A p \in Dom : \A n \in {"e1", "e2"} :
      LET has == Has(tree[p], n)
          asked == sc.extall \/ n \in sc.exts
          shown == Has(NodeAt(Main, p).a, n)
      IN /\ shown => has /\ asked
         /\ (has /\ asked /\ ~ Unset(Get(tree[p], n))) => shown
         /\ shown => Get(NodeAt(Main, p).a, n) = Get(tree[p], n)

(* every other attribute with its final value, unset and internal ones left out *)
Internal == {"delete", "instantiate", "arraysize", "aggregate", "is_instance"}
CoreExactly ==
  (Final /\ tool # "csv") =>
    \A p \in Dom :
      {e \in NodeAt(Main, p).a : e.n \notin {"e1", "e2", "uuid"}} =
      {e \in tree[p] : e.n \notin Internal \cup {"e1", "e2"} /\ e.v.k # "n" /\ e.v # List(<<>>)
                       /\ ~ (e.n = "instances" /\ e.v.k = "s")} \cup
      {E("instances", List(<<e.v>>)) : e \in {x \in tree[p] : x.n = "instances" /\ x.v.k = "s"}}
TypedRefs == Final => \A p \in Dom : Has(tree[p], "datatype") => Get(tree[p], "datatype").s \in {"uint8", "uint8[]", "string", "T.S[]"}

Uuids == {IF tool = "csv" THEN Get(NodeAt(Main, p).a, "Id") ELSE Get(NodeAt(Main, p).a, "uuid") : p \in Dom}
UuidsIffAsked ==
  Final => IF sc.uuid THEN Cardinality(Uuids) = Cardinality(Dom)
           ELSE \A x \in Main : ~ Has(x.a, "uuid") /\ ~ Has(x.a, "Id")
UuidOfRoot ==       \* computed with Python's uuid module
  (Final /\ sc.uuid) => (IF tool = "csv" THEN Get(NodeAt(Main, <<"R">>).a, "Id") ELSE Get(NodeAt(Main, <<"R">>).a, "uuid"))
                        = Str("9d68e75904a5578eb52536848ecea202")

(* without expansion the nodes are the defined ones and keep their instance definitions *)
Defined == {e.p : e \in Range(sc.files[1].entries)}
KeepsDefinition ==
  (Final /\ ~ sc.expand) =>
    /\ Dom = Defined
    /\ tool # "csv" => \A p \in Dom :
         LET src == (CHOOSE e \in Range(sc.files[1].entries) : e.p = p).v.d IN
         (Given(src, "instances") /\ Get(src, "instances") # List(<<>>)) <=> Has(NodeAt(Main, p).a, "instances")
ExpandedShowsNone ==
  (Final /\ sc.expand /\ tool # "csv") => \A x \in Main : ~ Has(x.a, "instances")
=============================================================================
