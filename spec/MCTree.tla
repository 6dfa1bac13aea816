------------------------------- MODULE MCTree -------------------------------
(* C03: every subset of a small name space, spread over two files, in two    *)
(* orders, possibly with one node marked for deletion (which must not hide a *)
(* missing branch).                                                          *)
EXTENDS MCBase

U == {<<"R">>, <<"R", "A">>, <<"R", "A", "B">>, <<"R", "A", "B", "C">>, <<"R", "D">>, <<"S">>, <<"S", "A">>}
     \cup IfSet(Size > 1, {<<"R", "A", "E">>, <<"RA">>})
Leafs == {<<"R", "A", "B", "C">>, <<"R", "A", "E">>}
Mark(p, m) == IfSet(p = m, {E("delete", True)})
Def(p, m) == IF p \in Leafs THEN D(p, Leaf("sensor", "float", Fqn(p)) \cup Mark(p, m)) ELSE D(p, Branch(Fqn(p)) \cup Mark(p, m))

Sorted(S, m) == LET q == SortSeq(SetToSeq(S), LAMBDA a, b : Len(a) < Len(b)) IN [i \in DOMAIN q |-> Def(q[i], m)]
Scen(S, how, m) ==
  LET up == Sorted(S, m) down == Reverse(up)
      half == Len(up) \div 2
  IN CASE how = "up"   -> [S0 EXCEPT !.files = <<File("m.vspec", up)>>]
       [] how = "down" -> [S0 EXCEPT !.files = <<File("m.vspec", down)>>]
       [] how = "split" -> [S0 EXCEPT !.files = <<File("m.vspec", SubSeq(down, 1, half)),
                                                  File("o.vspec", SubSeq(down, half + 1, Len(down)))>>,
                                      !.overlays = <<"o.vspec">>]

Scenarios == {Scen(S, how, <<>>) : S \in (SUBSET U) \ {{}}, how \in {"up", "down", "split"}} \cup
             {Scen(S, "down", m) : S \in (SUBSET U) \ {{}}, m \in IF Size > 1 THEN U ELSE Leafs \cup {<<"R", "A">>}}
Spec == (\E s \in Scenarios : InitWith(s)) /\ [][MCNext]_vars

Given0 == UNION {{f.entries[i].p : i \in DOMAIN f.entries} : f \in Range(sc.files)}
WellFormed ==
  /\ Cardinality({p \in Given0 : Len(p) = 1}) = 1
  /\ \A p \in Given0 : \A n \in 1 .. Len(p) : SubSeq(p, 1, n) \in Given0
Marked == {p \in Given0 : \E f \in Range(sc.files) : \E i \in DOMAIN f.entries : f.entries[i].p = p /\ Has(f.entries[i].v.d, "delete")}
AcceptedIffRooted == Ended => (pc = "done" <=> WellFormed)
PrefixClosed == Final => \A p \in Dom : \A n \in 1 .. Len(p) : SubSeq(p, 1, n) \in Dom
NothingLost == Final => Dom = {p \in Given0 : \A m \in Marked : ~ IsPfx(m, p) \/ Len(m) = 1}
=============================================================================
