---------------------------- MODULE VssValidate ----------------------------
(***************************************************************************)
(* Validation of static identifiers: a history of three runs of the        *)
(* pipeline.  An earlier version of the model is exported with the id      *)
(* exporter; later the current version is loaded, the earlier export is    *)
(* loaded beside it, and every difference that matters is reported.        *)
(***************************************************************************)
EXTENDS VssPipeline, VssListing

VARIABLES phase,      \* "old", "new", "val", "end"
          plan,       \* [later, casesens, doctor]: what the second run is given
          oldIds,     \* nodes of the earlier export
          current,    \* result of loading the current version
          failures    \* why the second run fails
valvars == <<vars, phase, plan, oldIds, current, failures>>

Result(cs) == [tree |-> tree, ttree |-> ttree, ctx |-> ctx, sc |-> sc, opt |-> [casesens |-> cs]]
NoResult == [tree |-> EmptyFn, ttree |-> EmptyFn, ctx |-> [types |-> {}, units |-> EmptyFn], sc |-> 0, opt |-> [casesens |-> FALSE]]

InitHistory(s, pl) ==
  /\ phase = "old" /\ plan = pl
  /\ oldIds = {} /\ current = NoResult /\ failures = {}
  /\ InitWith(s)

(* the earlier export as it is given to the later run, possibly edited by hand *)
ValName(s) == Join(DirOf(s.main), "val.vspec")
Doctored(ids, d) ==
  CASE d.kind = "dup"   -> ids \cup {[p |-> d.to, a |-> x.a] : x \in {y \in ids : y.p = d.p}}
    [] d.kind = "nouid" -> {IF x.p = d.p THEN [x EXCEPT !.a = Without(@, {"staticUID"})] ELSE x : x \in ids}
    [] OTHER -> ids
ValScenario(s, ids) ==
  LET q == SetToSeq(ids) IN
  [s EXCEPT !.files = @ \o <<[name |-> ValName(s), incs |-> <<>>,
                              entries |-> [k \in DOMAIN q |-> [p |-> q[k].p, v |-> Dict(q[k].a)]]]>>,
            !.main = ValName(s), !.overlays = <<>>, !.exts = @ \cup {"staticUID"}]

Restart(s) ==
  /\ sc' = s /\ pc' = "options" /\ jobs' = <<>> /\ flat' = EmptyFn /\ hist' = <<>> /\ err' = {}
  /\ ctx' = [types |-> {}, units |-> EmptyFn] /\ ttree' = EmptyFn /\ tree' = EmptyFn

IdBad(R) == IF pc = "done" THEN IdProblems(R) ELSE err
ExportOld ==
  /\ phase = "old" /\ Ended
  /\ LET res == TLCEval(Result(plan.oldcase))
         bad == TLCEval(IdBad(res))
     IN IF bad # {} THEN /\ phase' = "unusable" /\ failures' = bad
                         /\ UNCHANGED <<vars, oldIds>>
        ELSE /\ oldIds' = TLCEval(IdGroups(res)["nodes"])
             /\ phase' = "new" /\ failures' = {}
             /\ Restart(plan.later)
  /\ UNCHANGED <<plan, current>>
LoadNew ==
  /\ phase = "new" /\ Ended
  /\ LET res == TLCEval(Result(plan.casesens))
         bad == TLCEval(IdBad(res))
     IN IF bad # {} THEN /\ phase' = "end" /\ failures' = bad
                         /\ UNCHANGED <<vars, current>>
        ELSE /\ current' = res
             /\ phase' = "val" /\ failures' = {}
             /\ Restart(TLCEval(ValScenario(plan.later, Doctored(oldIds, plan.doctor))))
  /\ UNCHANGED <<plan, oldIds>>
LoadOld ==
  /\ phase = "val" /\ Ended
  /\ phase' = "end"
  /\ failures' = err
  /\ UNCHANGED <<vars, plan, oldIds, current>>

VStep == (Step /\ UNCHANGED <<phase, plan, oldIds, current, failures>>) \/ ExportOld \/ LoadNew \/ LoadOld

----------------------------------------------------------------------------
(* comparing; current.tree is the current version, tree the earlier one *)
Paths1 == DOMAIN current.tree
OldUid(v) == IF Has(tree[v], "staticUID") THEN Get(tree[v], "staticUID").s ELSE ""
NewAttrs == [k \in Paths1 |-> Full(current, k)]
NewUids(A) == [k \in Paths1 |-> StaticUid(A[k], k, plan.casesens)]
FormerNames(F) == IF Given(F, "fka") THEN [n \in DOMAIN Get(F, "fka").l |-> Get(F, "fka").l[n].s] ELSE <<>>

(* what each current node can be matched with *)
Facts(A, U) ==
  [k \in Paths1 |->
    LET f == FormerNames(A[k])
        h == TLCEval([n \in DOMAIN f |-> HashOf(f[n], A[k], plan.casesens)])
    IN [same   |-> {v \in DOMAIN tree : OldUid(v) = U[k]},
        former |-> [n \in DOMAIN h |-> {v \in DOMAIN tree : OldUid(v) = h[n]}],
        descr  |-> Get(A[k], "description"),
        depr   |-> IF NonEmptyStr(A[k], "deprecation") THEN Get(A[k], "deprecation").s ELSE ""]]
AnyFormer(f) == UNION Range(f.former)
ClaimsOf(k, f) == f.same \cup AnyFormer(f) \cup (IF k \in DOMAIN tree THEN {k} ELSE {})

OldDepr(v) == IF NonEmptyStr(tree[v], "deprecation") THEN Get(tree[v], "deprecation").s ELSE ""
Rep(kind, k, v) == Node(<<kind, Fqn(k)>> \o (IF v = <<>> THEN <<>> ELSE <<Fqn(v)>>), {})

(* one current node; st is [left, rep, dup]: earlier nodes not accounted for, reports, a double match *)
Account(st, k, f) ==
  LET m == f.same \cap st.left
      hits == AnyFormer(f) \cap st.left
      renamed == {Rep("semantic", k, v) : v \in hits}
      last == CHOOSE n \in DOMAIN f.former :
                f.former[n] \cap st.left # {} /\ \A j \in DOMAIN f.former : j > n => f.former[j] \cap st.left = {}
  IN IF st.dup THEN st
     ELSE IF Cardinality(m) > 1 THEN [st EXCEPT !.dup = TRUE]
     ELSE IF m # {}
     THEN LET v == CHOOSE v \in m : TRUE IN
          [st EXCEPT !.left = @ \ m,
             !.rep = @ \cup (IF v = k THEN {} ELSE renamed) \cup
                     (IF f.descr = Get(tree[v], "description") THEN {} ELSE {Rep("description", k, <<>>)}) \cup
                     (IF f.depr # "" /\ OldDepr(v) # "" /\ f.depr # OldDepr(v) THEN {Rep("deprecation", k, <<>>)} ELSE {})]
     ELSE IF hits # {}
     THEN [st EXCEPT !.left = @ \ {CHOOSE v \in f.former[last] \cap st.left : TRUE}, !.rep = @ \cup renamed]
     ELSE IF k \in st.left THEN [st EXCEPT !.left = @ \ {k}, !.rep = @ \cup {Rep("breaking", k, <<>>)}]
     ELSE [st EXCEPT !.rep = @ \cup {Rep("added", k, <<>>)}]

Compare(order, F) ==
  LET st == FoldLeft(LAMBDA s, k : Account(s, k, F[k]), [left |-> DOMAIN tree, rep |-> {}, dup |-> FALSE], order)
  IN [dup |-> st.dup, rep |-> st.rep \cup {Rep("deleted", v, <<>>) : v \in st.left}]

(* The order in which nodes are accounted for is only of importance where several of *)
(* them can be matched with the same earlier node; there every order is allowed.      *)
Outcomes ==
  LET A == TLCEval(NewAttrs)
      U == TLCEval(NewUids(A))
      F == TLCEval(Facts(A, U))
      C == TLCEval([k \in Paths1 |-> ClaimsOf(k, F[k])])
      contested == {k \in Paths1 : \E j \in Paths1 \ {k} : C[k] \cap C[j] # {}}
      rest == SetToSeq(Paths1 \ contested)
      orders == {o \o rest : o \in SetToSeqs(contested)}
  IN {Compare(o, F) : o \in orders}
=============================================================================
