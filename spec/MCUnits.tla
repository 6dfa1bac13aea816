------------------------------- MODULE MCUnits -------------------------------
(* C10: default and explicitly given unit and quantity files, every predefined *)
(* datatype against every allowed datatype, keys and unit texts, repetitions.  *)
EXTENDS MCBase

Q(k) == [p |-> <<k>>, v |-> Dict({E("definition", Str("def of " \o k))})]
UV(text, q, dts) == Dict({E("definition", Str("d")), E("unit", text), E("quantity", Str(q)),
                          E("allowed-datatypes", List([i \in DOMAIN dts |-> Str(dts[i])]))})
U(k, text, q, dts) == [p |-> <<k>>, v |-> UV(text, q, dts)]
QF(name, ks) == File(name, [i \in DOMAIN ks |-> Q(ks[i])])
Model(dt, unit) == File("m.vspec", <<D(<<"R">>, Branch("r")), D(<<"R", "X">>, Leaf("sensor", dt, "x") \cup {E("unit", Str(unit))})>>)

(* datatype compatibility *)
Compat(dt, of) ==
  [S0 EXCEPT !.files = <<Model(dt, "u"), QF("quantities.yaml", <<"q">>),
                         File("units.yaml", <<U("u", Str("uu"), "q", <<of>>)>>)>>]
Compat2(dt, of, of2) ==
  [S0 EXCEPT !.files = <<Model(dt, "u"), QF("quantities.yaml", <<"q">>),
                         File("units.yaml", <<U("u", Str("uu"), "q", <<of, of2>>)>>)>>]
(* which files count *)
Files(given, giveq, unit, two) ==
  [S0 EXCEPT !.files = <<Model("uint8", unit),
       QF("quantities.yaml", <<"q">>), File("units.yaml", <<U("u", Str("uu"), "q", <<"numeric">>)>>),
       QF("q1.yaml", <<"q", "r">>), QF("q2.yaml", <<"s">>),
       File("u1.yaml", <<U("v", Str("vv"), "q", <<"uint8">>)>>),
       File("u2.yaml", <<U("w", Null, IF two THEN "s" ELSE "q", <<"uint8", "string">>)>>)>>,
     !.units = given, !.quantities = giveq]
(* faulty files *)
Bad(entries, qs) ==
  [S0 EXCEPT !.files = <<Model("uint8", "u"), QF("quantities.yaml", <<"q">>), QF("q2.yaml", qs),
                         File("units.yaml", entries)>>,
             !.quantities = IF qs = <<>> THEN <<>> ELSE <<"quantities.yaml", "q2.yaml">>]
Uok == U("u", Str("uu"), "q", <<"uint8">>)

ArrTypes == {"uint8", "string", "numeric"}
Scenarios ==
  {Compat(dt, of) : dt \in BaseTypes \cup {t \o "[]" : t \in ArrTypes}, of \in BaseTypes} \cup
  {Compat2(dt, of, of2) : dt \in {"uint8", "uint8[]", "string[]", "float[]", "numeric[]", "boolean[]"},
                          of \in {"uint8[]", "string[]", "numeric[]"}, of2 \in {"float", "numeric", "string", "boolean[]"}} \cup
  {Files(g, q, u, t) : g \in {<<>>, <<"u1.yaml">>, <<"u1.yaml", "u2.yaml">>, <<"units.yaml", "u1.yaml">>, <<"u1.yaml", "u1.yaml">>},
                       q \in {<<>>, <<"q1.yaml">>, <<"q1.yaml", "q2.yaml">>, <<"q2.yaml">>, <<"quantities.yaml", "q1.yaml">>},
                       u \in {"u", "uu", "v", "vv", "w", "q"}, t \in IF Size > 1 THEN BOOLEAN ELSE {TRUE}} \cup
  {Bad(es, qs) : es \in {<<Uok>>, <<Uok, U("x", Str("xx"), "nope", <<"uint8">>)>>, <<Uok, U("x", Str("xx"), "q", <<"uint9">>)>>,
                         <<Uok, [p |-> <<"x">>, v |-> Null]>>, <<Uok, [p |-> <<"x">>, v |-> Dict({E("definition", Str("d"))})]>>,
                         <<Uok, [p |-> <<"x">>, v |-> Dict({E("unit", Str("x")), E("quantity", Str("q"))})]>>,
                         <<Uok, U("x", Str("u"), "q", <<"string">>)>>,
                         <<Uok, U("x", Str("uu"), "q", <<"uint8">>)>>},
                 qs \in {<<>>, <<"q">>, <<"r">>}}
Spec == (\E s \in Scenarios : InitWith(s)) /\ [][MCNext]_vars

----------------------------------------------------------------------------
X == sc.files[1].entries[2].v.d
IsCompat == Len(sc.files) = 3
(* the widening order of datatypes, as a table *)
Below == [uint8 |-> {"uint8"}, uint16 |-> {"uint8", "uint16"}, uint32 |-> {"uint8", "uint16", "uint32"},
          uint64 |-> {"uint8", "uint16", "uint32", "uint64"}, int8 |-> {"int8"}, int16 |-> {"int8", "int16"},
          int32 |-> {"int8", "int16", "int32"}, int64 |-> {"int8", "int16", "int32", "int64"},
          float |-> {"float"}, double |-> {"double"}, boolean |-> {"boolean"}, string |-> {"string"},
          numeric |-> {"uint8", "uint16", "uint32", "uint64", "int8", "int16", "int32", "int64", "float", "double", "numeric"}]
Compatible ==
  (Ended /\ IsCompat) =>
     LET ofs == {v.s : v \in Range(Get(sc.files[3].entries[1].v.d, "allowed-datatypes").l)} IN
     pc = "done" <=> \E of \in ofs \cap DOMAIN Below : ElemDt(Get(X, "datatype").s) \in Below[of]
GivenReplace ==
  (Final /\ sc.units # <<>> /\ "units.yaml" \notin Range(sc.units)) => Get(X, "unit").s \notin {"u", "uu"}
NoDuplicates ==
  Final => \A a, b \in Range(sc.units) : a # b \/ Cardinality({i \in DOMAIN sc.units : sc.units[i] = a}) = 1
KnownUnit == Final => Get(X, "unit").s \in {"u", "uu", "v", "vv", "w"}
=============================================================================
