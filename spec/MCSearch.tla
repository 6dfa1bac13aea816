------------------------------ MODULE MCSearch ------------------------------
(***************************************************************************)
(* C20: searching as the libraries do it, step by step: a walk through the *)
(* tree that notes what it meets and takes it back when it turns out that  *)
(* the path cannot be continued.  For every small tree and every query the *)
(* walk ends with exactly what Found says.                                 *)
(***************************************************************************)
EXTENDS VssLib, Json

CONSTANTS Size
VARIABLES t, q, way, met, val, state
svars == <<t, q, way, met, val, state>>

(* all trees of a depth over two names; childless nodes are leaves, but for B below A *)
RECURSIVE Sub(_)
One(n, d) == {<<>>} \cup {<<<<n>>>> \o [i \in DOMAIN s |-> <<n>> \o s[i]] : s \in Sub(d - 1)}
Sub(d) == IF d = 0 THEN {<<>>} ELSE {x \o y : x \in One("A", d), y \in One("B", d)}
Paths(s) == <<<<"V">>>> \o [i \in DOMAIN s |-> <<"V">> \o s[i]]
Inner(ps, i) == \/ \E j \in DOMAIN ps : ps[j] # ps[i] /\ IsPfx(ps[i], ps[j])
                \/ Len(ps[i]) = 1 \/ (ps[i][Len(ps[i])] = "B" /\ ps[i][Len(ps[i]) - 1] = "A")
Setting(p) == CASE Len(p) = 2 /\ p[2] = "B" -> 2 [] Len(p) = 3 /\ p[3] = "A" -> 11 [] Len(p) = 3 -> 1 [] Len(p) = 4 /\ p[4] = "B" -> 12 [] OTHER -> 0
TreeOf(s) == LET ps == Paths(s) IN
  [i \in DOMAIN ps |-> [p |-> ps[i], a |-> {E("type", Str(IF Inner(ps, i) THEN "branch" ELSE "sensor"))}, v |-> Setting(ps[i])]]

Seg == {"A", "B", "*"}
SegLists == UNION {{<<h>> \o s : h \in {"V", "*"}, s \in [1..n -> Seg]} : n \in 0..(Size + 1)} \cup {<<"A">>, <<"A", "V">>}
Scopes == {{}, {"V.A"}} \cup (IF Size > 1 THEN {{"V.A.B", "V.B"}} ELSE {})
Queries(tt) == [root : {1}, segs : SegLists, limit : {9, 1} \cup (IF Size > 1 THEN {2} ELSE {}), any : BOOLEAN, leaves : BOOLEAN, scope : Scopes]
               \cup [root : {i \in DOMAIN tt : tt[i].p = <<"V", "A">>}, segs : {<<"A">>, <<"*">>, <<"A", "*">>, <<"*", "B">>, <<"A", "*", "B">>},
                     limit : {9}, any : BOOLEAN, leaves : BOOLEAN, scope : {{}, {"A.A"}}]

----------------------------------------------------------------------------
SInit == /\ t \in {TreeOf(s) : s \in Sub(Size + 1)} /\ q \in Queries(t)
         /\ way = <<>> /\ met = <<>> /\ val = 0 /\ state = "enter"
NameOf(i) == t[i].p[Len(t[i].p)]
Kids(i) == SelectSeq([j \in 1..Len(t) |-> j], LAMBDA j : Len(t[j].p) = Len(t[i].p) + 1 /\ IsPfx(t[i].p, t[j].p))
Deepest == IF q.any THEN 100 ELSE Len(q.segs)
Match(i, d) == SegAt(q, d) \in {NameOf(i), "*"}
Guessing == IF way = <<>> THEN 0 ELSE way[Len(way)].guess
RelText(i) == PathText(SubSeq(t[i].p, Len(t[q.root].p), Len(t[i].p)))

(* note the node, remember what was noted before it *)
EnterNode(i, d, path) ==
  LET g == Guessing + (IF SegAt(q, d) = "*" THEN 1 ELSE 0)
      stop == Kids(i) = <<>> \/ d = Deepest \/ RelText(i) \in q.scope
  IN /\ way' = Append(path, [i |-> i, kids |-> IF stop THEN <<>> ELSE Kids(i), guess |-> g, met |-> met, val |-> val,
                             good |-> g > 0 /\ (d >= Len(q.segs) \/ d = Deepest)])
     /\ met' = IF (q.leaves => IsLeaf(t[i])) /\ Len(met) < q.limit THEN Append(met, i) ELSE met
     /\ val' = Stricter(val, t[i].v)
Start == /\ state = "enter" /\ UNCHANGED <<t, q>>
         /\ IF Match(q.root, 1) THEN EnterNode(q.root, 1, <<>>) /\ state' = "walk" ELSE state' = "end" /\ UNCHANGED <<way, met, val>>
Top == way[Len(way)]
Forth == /\ state = "walk" /\ Top.kids # <<>> /\ UNCHANGED <<t, q, state>>
         /\ LET c == Head(Top.kids)
                path == [way EXCEPT ![Len(way)].kids = Tail(@)]
            IN IF Match(c, Len(way) + 1) THEN EnterNode(c, Len(way) + 1, path) ELSE way' = path /\ UNCHANGED <<met, val>>
(* leave the node; if the path to it was a guess that came to nothing, nothing was met *)
Back == /\ state = "walk" /\ Top.kids = <<>> /\ UNCHANGED <<t, q>>
        /\ IF ~ Top.good /\ Top.guess > 0 THEN met' = Top.met /\ val' = Top.val ELSE UNCHANGED <<met, val>>
        /\ IF Len(way) = 1 THEN way' = <<>> /\ state' = "end"
           ELSE /\ way' = [SubSeq(way, 1, Len(way) - 1) EXCEPT ![Len(way) - 1].good = @ \/ Top.good]
                /\ UNCHANGED state
Tell == /\ state = "end" /\ state' = "told" /\ UNCHANGED <<t, q, way, met, val>>
        /\ PrintT(<<"@H", ToJson([i \in DOMAIN t |-> [p |-> t[i].p, type |-> Get(t[i].a, "type").s, v |-> t[i].v]]),
                    ToJson([q EXCEPT !.root = @ - 1])>>)
Spec == SInit /\ [][Start \/ Forth \/ Back \/ Tell]_svars

WalkFinds == state = "end" => met = FoundSeq(t, q) /\ val = Validation(t, q)
(* what a query answers, on its own terms *)
Paths1(s) == {t[s[i]].p : i \in DOMAIN s}
AnswersSane ==
  state = "end" =>
    /\ Len(met) <= q.limit
    /\ \A i, j \in DOMAIN met : i < j => met[i] < met[j]                       \* in the order of the tree, none twice
    /\ \A i \in DOMAIN met : Len(t[met[i]].p) - Len(t[q.root].p) + 1 <= Deepest
    /\ \A i \in DOMAIN met : val % 10 >= t[met[i]].v % 10 /\ val \div 10 >= t[met[i]].v \div 10
    /\ (q.segs = <<"*">> /\ q.any /\ q.scope = {} /\ q.root = 1 /\ q.limit = 9) =>
         met = SubSeq(SelectSeq([i \in 1..Len(t) |-> i], LAMBDA i : q.leaves => IsLeaf(t[i])), 1, Min({9, Len(SelectSeq([i \in 1..Len(t) |-> i], LAMBDA i : q.leaves => IsLeaf(t[i])))}))
=============================================================================
