------------------------------ MODULE MCStrict ------------------------------
(* C11: every combination of strictness options with node names, attributes   *)
(* and whitelists, on kept and on deleted nodes.                              *)
EXTENDS MCBase

NameSet == {"Abc", "aBc", "A_b", "IsOn", "HasIt", "Isle", "X9", "9X"} \cup IfSet(Size > 1, {"AB-C", "Hasn", "iS"})
Attrs == {{}, {E("q", Str("v"))}, {E("p", Str("v"))}, {E("p", IntV("1")), E("q", Null)}}
Opts == {<<FALSE, {}>>, <<TRUE, {}>>, <<FALSE, {"name-style"}>>, <<FALSE, {"unknown-attribute"}>>,
         <<FALSE, {"name-style", "unknown-attribute"}>>}
Exts == {{}, {"q"}, {"p", "q"}}

Scen(name, dt, attrs, opts, exts, del) ==
  [S0 EXCEPT !.files = <<File("m.vspec", <<D(<<"R">>, Branch("r")),
                 D(<<"R", name>>, (IF dt = "" THEN Branch("b") ELSE Leaf("sensor", dt, "x")) \cup attrs
                                  \cup IfSet(del, {E("delete", True)}))>>)>>,
             !.strict = opts[1], !.aborts = opts[2], !.exts = exts]
(* core attributes on the wrong kind, unknown ones in the type tree, bad whitelists *)
Core(kind, extra, opts, exts) ==
  [S0 EXCEPT !.files = <<File("m.vspec", <<D(<<"R">>, Branch("r")),
                 D(<<"R", "X">>, (IF kind = "branch" THEN Branch("b") ELSE Leaf(kind, "uint8", "x")) \cup {extra})>>)>>,
             !.strict = opts[1], !.aborts = opts[2], !.exts = exts]
Typ(attrs, opts, exts, name) ==
  [S0 EXCEPT !.files = <<File("m.vspec", <<D(<<"R">>, Branch("r"))>>),
                         File("t.vspec", <<D(<<"T">>, Branch("t")), D(<<"T", "S">>, Type("struct") \cup Desc("s") \cup attrs),
                                           D(<<"T", "S", name>>, Leaf("property", "uint8", "f"))>>)>>,
             !.types = <<"t.vspec">>, !.strict = opts[1], !.aborts = opts[2], !.exts = exts]
Inst(inst, opts) ==
  [S0 EXCEPT !.files = <<File("m.vspec", <<D(<<"R">>, Branch("r")), D(<<"R", "D">>, Branch("d") \cup {E("instances", inst)}),
                         D(<<"R", "D", "X">>, Leaf("sensor", "uint8", "x"))>>)>>,
             !.strict = opts[1], !.aborts = opts[2]]

Scenarios ==
  {Scen(n, dt, {}, o, {}, del) : n \in NameSet, dt \in {"", "boolean", "uint8", "boolean[]"}, o \in Opts, del \in BOOLEAN} \cup
  {Scen("Abc", "uint8", at, o, ex, del) : at \in Attrs, o \in Opts, ex \in Exts, del \in BOOLEAN} \cup
  {Core("branch", e, o, {}) : e \in {E("unit", Str("m")), E("aggregate", True), E("min", IntV("1")), E("datatype", Str("uint8"))}, o \in Opts} \cup
  {Core("sensor", e, o, {}) : e \in {E("instances", Str("A")), E("aggregate", True), E("min", IntV("1"))}, o \in Opts} \cup
  {Core("sensor", E("zz", Str("1")), o, ex) : o \in Opts, ex \in {{"zz"}, {"min"}, {"zz", "description"}, {"zz,q"}, {"delete"}}} \cup
  {Typ(at, o, ex, n) : at \in Attrs, o \in Opts, ex \in Exts, n \in {"f", "F"}} \cup
  {Inst(i, o) : i \in {Str("row[1,2]"), Str("Row[1,2]"), List(<<Str("A b")>>)}, o \in Opts}
Spec == (\E s \in Scenarios : InitWith(s)) /\ [][MCNext]_vars

----------------------------------------------------------------------------
NameAbort == sc.strict \/ "name-style" \in sc.aborts
AttrAbort == sc.strict \/ "unknown-attribute" \in sc.aborts
Simple == sc.types = <<>> /\ Len(sc.files[1].entries) = 2 /\ ~ \E e \in sc.exts : e \in CoreFields \/ e = "zz,q"
N == sc.files[1].entries[2]
Kept == ~ Has(N.v.d, "delete")
OptionFree ==  \* without the options neither kind of violation matters
  (Ended /\ Simple /\ ~ NameAbort /\ ~ AttrAbort) =>
     (pc = "done" <=> (Names(N.v.d) \cap CoreFields) \subseteq FieldsOf(KindOf(N.v.d)))
GoodNames == {"Abc", "IsOn", "HasIt", "Isle", "X9", "Hasn", "X", "R"}
NamesRejected ==
  (Ended /\ Simple /\ NameAbort /\ Kept) =>
    ((pc = "done") => /\ LastOf(N.p) \in GoodNames
                      /\ (Has(N.v.d, "datatype") /\ Get(N.v.d, "datatype").s = "boolean") =>
                              LastOf(N.p) \in {"IsOn", "HasIt", "Isle", "Hasn"})
DeletedIgnored == (Ended /\ Simple /\ ~ Kept) => pc = "done"
Unknowns == (Names(N.v.d) \cap {"p", "q", "zz"}) \ sc.exts
AttrsRejected == (Ended /\ Simple /\ AttrAbort /\ Kept) => (Unknowns # {} => pc = "failed")
OnlyTheseReject ==
  (Ended /\ Simple /\ pc = "failed" /\ err \cap {"core-attribute-misused"} = {}) =>
     (NameAbort /\ "name-style" \in err) \/ (AttrAbort /\ Unknowns # {} /\ Kept)
TypesRejectUnknown ==
  (Ended /\ sc.types # <<>>) =>
    ((pc = "done") <=> (Names(sc.files[2].entries[2].v.d) \cap {"p", "q"}) \subseteq sc.exts)
=============================================================================
