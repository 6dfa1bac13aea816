------------------------------- MODULE MCValues -------------------------------
(* C08: every predefined datatype against a catalogue of values lying exactly *)
(* on and beside the limits, as default, array default, allowed values and    *)
(* combinations with arraysize, min and max.                                  *)
EXTENDS MCBase

Limits ==
  [uint8  |-> <<"0", "-1", "255", "256">>,  int8 |-> <<"-128", "-129", "127", "128">>,
   uint16 |-> <<"0", "-1", "65535", "65536">>, int16 |-> <<"-32768", "-32769", "32767", "32768">>,
   uint32 |-> <<"0", "-1", "4294967295", "4294967296">>,
   int32  |-> <<"-2147483648", "-2147483649", "2147483647", "2147483648">>,
   uint64 |-> <<"0", "-1", "18446744073709551615", "18446744073709551616">>,
   int64  |-> <<"-9223372036854775808", "-9223372036854775809", "9223372036854775807", "9223372036854775808">>]
In(dt)  == {IntV(Limits[dt][1]), IntV(Limits[dt][3])}
Out(dt) == {IntV(Limits[dt][2]), IntV(Limits[dt][4])}
Odd == {FltV("0.5"), FltV("1.0"), Str("a"), Str("1"), True, Null}
Cands(dt) == (IF dt \in IntTypes THEN In(dt) \cup Out(dt) ELSE {IntV("0"), IntV("-7"), IntV("300")}) \cup Odd
             \cup IfSet(Size > 1, {FltV("-3.25"), False, Str(""), Str("true"), IntV("1")})

Node(attrs) == [S0 EXCEPT !.files = <<File("m.vspec", <<D(<<"R">>, Branch("r")), D(<<"R", "X">>, Type("sensor") \cup Desc("x") \cup attrs)>>)>>]
Dt(dt) == {E("datatype", Str(dt))}
Good(dt) == CASE dt \in IntTypes -> IntV("7") [] dt \in {"float", "double", "numeric"} -> FltV("0.25")
              [] dt = "boolean" -> False [] dt = "string" -> Str("z")

Scen1(dt, v) == Node(Dt(dt) \cup {E("default", v)})
Scen2(dt, v) == Node(Dt(dt \o "[]") \cup {E("default", List(<<Good(dt), v>>))})
Scen3(dt, v) == Node(Dt(dt) \cup {E("allowed", List(<<Good(dt), v>>))})
Scen4(dt, v) == Node(Dt(dt) \cup {E("allowed", List(<<Good(dt)>>)), E("default", v)})
Scen5(dt, v) == Node(Dt(dt \o "[]") \cup {E("allowed", List(<<Good(dt)>>)), E("default", List(<<Good(dt), v>>))})
(* shapes: array or not, arraysize, default length, min/max, allowed *)
Small == {"uint8", "string", "float", "boolean"}
Opt3(n, vs) == {{}} \cup {{E(n, v)} : v \in vs}
Shapes(dt) ==
  {Node(Dt(dt \o arr) \cup s \cup d \cup a \cup m) :
     arr \in {"", "[]"}, s \in Opt3("arraysize", {IntV("0"), IntV("2"), Null}),
     d \in Opt3("default", {Good(dt), List(<<>>), List(<<Good(dt)>>), List(<<Good(dt), Good(dt)>>)}),
     a \in Opt3("allowed", {List(<<>>), List(<<Good(dt)>>)}),
     m \in Opt3("min", {IntV("1")}) \cup IfSet(Size > 1, Opt3("max", {FltV("1.5"), Null, Str("1")}))}
Unknown == {Node(Dt(dt)) : dt \in {"uint9", "UINT8", "uint8[][]", "[]", "", "int", "float[", "bool", "uint8 []", "string[]", "numeric", "numeric[]"}}
KindsOf == {[S0 EXCEPT !.files = <<File("m.vspec", <<D(<<"R">>, Branch("r")),
               D(<<"R", "X">>, Leaf(k, "uint8", "x") \cup {E("default", v)})>>)>>] :
               k \in {"sensor", "actuator", "attribute"}, v \in {IntV("255"), IntV("256")}}

Scenarios ==
  UNION {UNION {{Scen1(dt, v), Scen2(dt, v), Scen3(dt, v)} \cup IfSet(Size > 1 \/ dt \in Small, {Scen4(dt, v), Scen5(dt, v)})
                  : v \in Cands(dt)} : dt \in BaseTypes} \cup
  UNION {Shapes(dt) : dt \in IF Size > 1 THEN Small ELSE {"uint8", "string"}} \cup Unknown \cup KindsOf
Spec == (\E s \in Scenarios : InitWith(s)) /\ [][MCNext]_vars

----------------------------------------------------------------------------
A == sc.files[1].entries[2].v.d
dtOf == Get(A, "datatype").s
(* membership in a datatype, by the table of limits rather than by digit comparison *)
ScalarOk(v, dt) ==
  CASE dt \in IntTypes /\ v.k = "i" -> v \in In(dt) \/ v \in {IntV("7"), IntV("0"), IntV("1"), IntV("255")} \ Out(dt)
    [] dt \in IntTypes -> v.k = "b"
    [] dt \in {"float", "double", "numeric"} -> v.k \in {"i", "f", "b"}
    [] dt = "boolean" -> v.k = "b"
    [] dt = "string" -> v.k = "s"
LimitsDecide ==   \* a lone default value is accepted exactly if it is in the datatype
  (Ended /\ Names(A) = {"type", "description", "datatype", "default"} /\ dtOf \in BaseTypes
     /\ Get(A, "default").k \in {"i", "f", "s", "b"}) =>
   (pc = "done" <=> ScalarOk(Get(A, "default"), dtOf))
ArraysNeedLists ==
  (Final /\ Given(A, "default")) => (IsArrayDt(dtOf) <=> Get(A, "default").k = "l")
MinMaxXorAllowed == Final => ~ (Given(A, "allowed") /\ (Given(A, "min") \/ Given(A, "max")))
DefaultIsAllowed ==
  (Final /\ Given(A, "default") /\ Given(A, "allowed") /\ Get(A, "allowed").l # <<>>) =>
    \A v \in Range(Elems(Get(A, "default"))) : \E w \in Range(Get(A, "allowed").l) : SameValue(v, w)
SizeFits ==
  (Final /\ Given(A, "arraysize") /\ Given(A, "default")) =>
     Get(A, "arraysize").s \in {"0", ToString(Len(Get(A, "default").l))}
=============================================================================
