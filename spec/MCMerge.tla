------------------------------- MODULE MCMerge -------------------------------
(* C01: four layers (base, an included file, two overlays), each setting an  *)
(* attribute to any kind of value or not at all.                             *)
EXTENDS MCBase

Node == <<"R", "A", "X">>
Vals(tag) ==
  {{}, {E("q", Str(tag))}, {E("q", Null)}, {E("q", List(<<Str(tag), IntV("1")>>))},
   {E("q", Dict({E("k", Str(tag))}))}, {E("q", Dict({E("l", Str(tag)), E("k", Null)}))}} \cup
  IfSet(Size > 1, {{E("q", Dict({E("k", Dict({E("m", Str(tag))}))}))}, {E("q", Bool(FALSE))},
                   {E("q", Dict({E("k", Dict({E(tag, IntV("0"))}))}))}})

Base(a) == <<D(<<"R">>, Branch("r")), D(<<"R", "A">>, Branch("a")),
             D(Node, Leaf("sensor", "uint8", "x") \cup a)>>
Opt1(a) == IF a = {} THEN <<D(<<"R", "A">>, {E("comment", Str("c"))})>> ELSE <<D(Node, a)>>

Scen(a, b, c, d) ==
  [S0 EXCEPT !.files = <<FileI("m.vspec", Base(a), <<Inc("i.vspec", <<"R">>)>>),
                         File("i.vspec", <<[p |-> <<"A", "X">>, v |-> Dict(b)],
                                           D(<<"A", "N">>, Leaf("actuator", "string", "new"))>>),
                         File("o.vspec", Opt1(c)), File("p.vspec", Opt1(d))>>,
             !.overlays = <<"o.vspec", "p.vspec">>]

(* overriding core attributes: every subset of attributes per overlay *)
Core(tag, ns) == {e \in {E("description", Str("d" \o tag)), E("type", Str("attribute")),
                         E("unit", Null), E("comment", Str(tag)), E("default", IntV("3")),
                         E("datatype", Str("uint16")), E("min", IntV("0"))} : e.n \in ns}
CoreNames == {"description", "type", "comment", "default", "datatype", "min"}
Scen2(ns, ms) ==
  [S0 EXCEPT !.files = <<File("m.vspec", Base({E("default", IntV("1")), E("max", IntV("9"))})),
                         File("o.vspec", <<D(Node, Core("1", ns))>>),
                         File("p.vspec", <<D(Node, Core("2", ms) \cup {E("default", Null)})>>)>>,
             !.overlays = <<"o.vspec", "p.vspec">>]

Scenarios ==
  {Scen(a, b, c, d) : a \in Vals("a"), b \in Vals("b"), c \in IF Size > 1 THEN Vals("c") ELSE {{}, {E("q", Dict({E("k", Str("c"))}))}, {E("q", Str("c"))}},
                      d \in IF Size > 1 THEN Vals("d") ELSE {{}, {E("q", Dict({E("l", Str("d"))}))}, {E("q", Null)}}} \cup
  {Scen2(ns, ms) : ns \in SUBSET CoreNames, ms \in SUBSET {"description", "datatype"}}

Spec == (\E s \in Scenarios : InitWith(s)) /\ [][MCNext]_vars

----------------------------------------------------------------------------
(* Key paths: the attribute name followed by keys of nested mappings. *)
RECURSIVE Keys(_)
Keys(A) == UNION {{<<e.n>>} \cup IF e.v.k = "d" THEN {<<e.n>> \o kp : kp \in Keys(e.v.d)} ELSE {} : e \in A}
RECURSIVE At(_, _)
At(A, kp) == IF Len(kp) = 1 THEN Get(A, kp[1]) ELSE At(Get(A, kp[1]).d, Tail(kp))

Sets(i, p, kp) == p \in DOMAIN hist[i] /\ kp \in Keys(hist[i][p].d)
ValueIn(i, p, kp) == At(hist[i][p].d, kp)
Hidden(i, p, kp) ==      \* a later file replaced something above kp as a whole
  \E j \in i + 1 .. Len(hist) : \E n \in 1 .. Len(kp) - 1 :
     Sets(j, p, SubSeq(kp, 1, n)) /\ ValueIn(j, p, SubSeq(kp, 1, n)).k # "d"
Setters(p, kp) == {i \in DOMAIN hist : Sets(i, p, kp) /\ ~ Hidden(i, p, kp)}
AllKeys(p) == UNION {Keys(hist[i][p].d) : i \in {i \in DOMAIN hist : p \in DOMAIN hist[i]}}
LastIdx(S) == CHOOSE i \in S : \A j \in S : j <= i

LastWriter ==
  pc = "expand" =>
    /\ DOMAIN flat = UNION {DOMAIN hist[i] : i \in DOMAIN hist}
    /\ \A p \in DOMAIN flat :
         /\ Keys(flat[p].d) \subseteq AllKeys(p)
         /\ \A kp \in AllKeys(p) :
           /\ kp \in Keys(flat[p].d) <=> Setters(p, kp) # {}
           /\ Setters(p, kp) # {} =>
                LET w == ValueIn(LastIdx(Setters(p, kp)), p, kp)
                    v == At(flat[p].d, kp)
                IN v.k = w.k /\ (w.k # "d" => v = w)

NullGone == Final => \A n \in Outcome.nodes : \A e \in n.a : e.v.k # "n"
Kept == Final => Node \in Dom
=============================================================================
