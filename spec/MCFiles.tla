------------------------------ MODULE MCFiles ------------------------------
(* C12: one representative of every class of rejected input, and accepted   *)
(* models, for every exporter, every choice of requested outputs and every  *)
(* state of the output files before the run.                                *)
EXTENDS MCBase, VssFiles

Root == D(<<"R">>, Branch("r"))
Sig(A) == D(<<"R", "X">>, Leaf("sensor", "uint8", "x") \cup A)
Model(ds) == [S0 EXCEPT !.files = <<File("m.vspec", ds)>>, !.extall = FALSE]
Good == Model(<<Root, Sig({})>>)
UnitFile(def) == <<[name |-> "units.yaml", entries |-> <<D(<<"m">>, def)>>, incs |-> <<>>],
                   [name |-> "quantities.yaml", entries |-> <<D(<<"length">>, {E("definition", Str("l"))})>>, incs |-> <<>>]>>
UnitOkDef == {E("definition", Str("metre")), E("unit", Str("meter")), E("quantity", Str("length")),
              E("allowed-datatypes", List(<<Str("uint8")>>))}
WithFiles(s, fs) == [s EXCEPT !.files = @ \o fs]
TFile(ds) == File("t.vspec", ds)
Struct == <<D(<<"T">>, Branch("t")), D(<<"T", "S">>, Type("struct") \cup Desc("s")),
            D(<<"T", "S", "a">>, Leaf("property", "int8", "a"))>>
Typed(ds, ts) == [WithFiles(Model(ds), <<TFile(ts)>>) EXCEPT !.types = <<"t.vspec">>]
GoodTyped == Typed(<<Root, D(<<"R", "X">>, Leaf("sensor", "T.S[]", "x"))>>, Struct)

Accepted == {Good, Model(<<Root, Sig({E("default", IntV("0")), E("unit", Null)})>>),
             WithFiles(Model(<<Root, Sig({E("unit", Str("m"))})>>), UnitFile(UnitOkDef)),
             [Model(<<Root, Sig({E("e1", Str("v"))})>>) EXCEPT !.exts = {"e1"}, !.strict = TRUE]}
AcceptedTyped == {GoodTyped}
Rejected ==
  {Model(<<Sig({})>>),                                               \* no root
   Model(<<Root, D(<<"Q">>, Branch("q")), Sig({})>>),                \* two roots
   Model(<<Root, D(<<"R", "B", "X">>, Leaf("sensor", "uint8", "x"))>>),   \* implied branch
   Model(<<D(<<"R">>, Type("branch")), Sig({})>>),                   \* no description
   Model(<<Root, Sig({E("default", IntV("256"))})>>),
   Model(<<Root, Sig({E("allowed", List(<<Str("a")>>))})>>),
   Model(<<Root, Sig({E("unit", Str("m"))})>>),                      \* unknown unit
   Model(<<Root, Sig({E("arraysize", IntV("2"))})>>),
   Model(<<Root, D(<<"R", "X">>, Leaf("sensor", "T.S", "x"))>>),     \* unknown struct
   Model(<<Root, D(<<"R", "X">>, Leaf("property", "uint8", "x"))>>), \* misplaced
   Model(<<Root, Sig({}), D(<<"R", "X", "Y">>, Leaf("sensor", "uint8", "y"))>>),
   Model(<<D(<<"R">>, Branch("r") \cup {E("instances", Str("Row[2,1]"))}), Sig({})>>),
   Model(<<D(<<"R">>, Branch("r") \cup {E("unit", Str("m"))}), Sig({})>>),
   [Model(<<Root, Sig({}), D(<<"R", "low">>, Leaf("sensor", "uint8", "x"))>>) EXCEPT !.aborts = {"name-style"}],
   [Model(<<Root, Sig({E("e1", Str("v"))})>>) EXCEPT !.strict = TRUE],
   [Good EXCEPT !.exts = {"unit"}],
   [Good EXCEPT !.exts = {"a,b"}],
   [WithFiles(Good, <<File("o.vspec", <<Sig({E("default", IntV("-1"))})>>)>>) EXCEPT !.overlays = <<"o.vspec">>],
   Model(<<Root, Sig({})>>) @@ EmptyFn,
   WithFiles(Good, UnitFile({E("unit", Str("meter"))})),
   WithFiles(Good, UnitFile((UnitOkDef \ {E("quantity", Str("length"))}) \cup {E("quantity", Str("none"))}))}
  \ {Good}
Included(t) == [Good EXCEPT !.files = <<FileI("m.vspec", <<Root>>, <<Inc(t, <<"R">>)>>),
                                        File("i.vspec", <<D(<<"X">>, Leaf("sensor", "uint8", "x"))>>)>>]
RejectedTyped ==
  {Typed(<<Root, D(<<"R", "X">>, Leaf("sensor", "T.Q", "x"))>>, Struct),
   Typed(<<Root, D(<<"R", "X">>, Leaf("sensor", "T", "x"))>>, Struct),
   Typed(<<Root, Sig({})>>, SubSeq(Struct, 2, 3)),
   Typed(<<Root, Sig({})>>, Struct \o <<D(<<"T", "a">>, Leaf("property", "int8", "a"))>>),
   Typed(<<Root, Sig({})>>, Struct \o <<D(<<"T", "S", "b">>, Leaf("property", "int8", "b") \cup {E("e1", Str("v"))})>>)}
NoFault == [kind |-> "none", file |-> ""]
Faults == {[kind |-> k, file |-> "m.vspec"] : k \in {"syntax", "missing", "list", "option"}}
F(s, f) == s @@ ("fault" :> f)
Scens == {F(s, NoFault) : s \in Accepted \cup Rejected \cup {Included("i.vspec"), Included("j.vspec")}} \cup
         {F(Good, f) : f \in Faults} \cup
         {F(WithFiles(Good, UnitFile(UnitOkDef)), [kind |-> k, file |-> "units.yaml"]) : k \in {"syntax", "list"}}
TScens == {F(s, NoFault) : s \in AcceptedTyped \cup RejectedTyped} \cup
          {F(GoodTyped, [kind |-> k, file |-> "t.vspec"]) : k \in {"syntax", "missing", "list"}}

Tools == {"json", "yaml", "csv", "id", "jsonschema", "franca", "protobuf", "ddsidl", "graphql", "go", "tree",
          "binary", "apigear"}
Typers == {"json", "yaml", "csv", "jsonschema", "protobuf", "ddsidl", "go", "tree", "apigear"}
TypeOuts == {"json", "yaml", "csv", "protobuf"}   \* with a types output of their own
FileTools == Tools \ {"apigear"}
Earlier == {[kind |-> k, file |-> ""] : k \in {"earlier", "earlier-missing", "earlier-syntax"}} \cup
           {[kind |-> "earlier-bad", file |-> f] : f \in {"0", "1", "2"}}
States == {"absent", "old"}

Spec ==
  /\ \/ \E s \in Scens, t \in Tools, b \in States : FilesInit(s, t, O0, [out |-> b])
     \/ \E s \in {x \in Scens : x.fault # NoFault \/ (x \in {F(y, NoFault) : y \in Rejected} /\ ~ (\E e \in Range(x.files[1].entries) : Has(e.v.d, "instances")))}, b \in States :
          FilesInit([s EXCEPT !.expand = FALSE], "samm", O0, [out |-> b])
     \/ \E s \in TScens, t \in Typers \ {"protobuf"}, b \in States : FilesInit(s, t, O0, [out |-> b])
     \/ \E f \in Earlier, b \in States : FilesInit(F(Good, f), "id", O0, [out |-> b])
     \/ \E t \in FileTools : FilesInit(F(Good, [kind |-> "full", file |-> "out"]), t, O0, [out |-> "absent"])
     \/ \E t \in TypeOuts \ {"protobuf"}, n \in {"out", "types"}, b \in States, c \in States :
          /\ (IF n = "out" THEN b ELSE c) = "absent"
          /\ FilesInit(F(GoodTyped, [kind |-> "full", file |-> n]), t, [O0 EXCEPT !.typesout = TRUE], [out |-> b, types |-> c])
     \/ \E s \in TScens, t \in TypeOuts, b \in States, c \in States :
          FilesInit(s, t, [O0 EXCEPT !.typesout = TRUE], [out |-> b, types |-> c])
  /\ [][FilesStep \/ (status # "running" /\ pc # "reported"
                      /\ PrintT(<<"@F", ToJson(sc), tool, ToJson(opt), ToJson(before)>>)
                      /\ pc' = "reported"
                      /\ UNCHANGED <<sc, jobs, flat, hist, ctx, ttree, tree, err, tool, opt, rq, disk, before, status>>)]_fvars

TouchedWhenAccepted == (status = "running" /\ disk # before) => pc = "done"
Clean == sc.fault.kind \in {"none", "earlier"}
BrokenNeverOk == (~ Clean \/ {sc} \cap {F(s, NoFault) : s \in Rejected \cup RejectedTyped} # {}) => status # "ok"
GoodNeverFails ==
  (Clean /\ tool \notin OwnRules /\ ~ (tool = "apigear" /\ before["out"] = "old")
   /\ [sc EXCEPT !.fault = NoFault] \in {F(s, NoFault) : s \in Accepted \cup AcceptedTyped}) => status # "error"
=============================================================================
