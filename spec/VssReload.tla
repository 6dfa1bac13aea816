----------------------------- MODULE VssReload -----------------------------
(***************************************************************************)
(* Histories of runs: a model is exported as YAML and the export is fed    *)
(* back as a model.  A plan is a sequence of steps [reload, expand]: run   *)
(* the tool on the original files or on the previous export, with or       *)
(* without instance expansion.                                             *)
(***************************************************************************)
EXTENDS VssPipeline

VARIABLES origin,    \* the original scenario
          plan,      \* steps still to be done, the current one first
          outcomes   \* outcome of every finished step

hvars == <<vars, origin, plan, outcomes>>

AttrEntries(S) ==
  LET q == SetToSeq(S) IN [k \in DOMAIN q |-> [p |-> q[k].p, v |-> Dict(q[k].a)]]
FileAgain(n, S) == [name |-> n, entries |-> AttrEntries(S), incs |-> <<>>]
AgainName(s, n) == Join(DirOf(s.main), n)

(* the exported files take the place of the model and of the user types *)
Reloaded(s, out) ==
  [s EXCEPT !.files = @ \o <<FileAgain(AgainName(s, "again.yaml"), out.nodes)>> \o
                      (IF s.types # <<>> THEN <<FileAgain("typesagain.yaml", out.types)>> ELSE <<>>),
            !.main = AgainName(s, "again.yaml"),
            !.overlays = <<>>, !.idirs = <<>>,
            !.types = IF @ # <<>> THEN <<"typesagain.yaml">> ELSE <<>>]
Fresh(s) == [s EXCEPT !.files = SelectSeq(@, LAMBDA f : f.name \notin {AgainName(s, "again.yaml"), "typesagain.yaml"})]

StepScenario(st, prev) ==
  [(IF st.reload THEN Reloaded(Fresh(origin), prev) ELSE origin) EXCEPT !.expand = st.expand]

InitPlan(s, pl) ==
  /\ origin = s
  /\ plan = pl
  /\ outcomes = <<>>
  /\ InitWith([s EXCEPT !.expand = pl[1].expand])

NextRun ==
  /\ Ended
  /\ plan # <<>>
  /\ LET out == TLCEval(Outcome)
     IN /\ outcomes' = Append(outcomes, out)
        /\ plan' = IF out.ok THEN Tail(plan) ELSE <<>>
        /\ IF out.ok /\ Tail(plan) # <<>>
           THEN /\ sc' = TLCEval(StepScenario(plan[2], out))
                /\ pc' = "options"
                /\ jobs' = <<>> /\ flat' = EmptyFn /\ hist' = <<>> /\ err' = {}
                /\ ctx' = [types |-> {}, units |-> EmptyFn] /\ ttree' = EmptyFn /\ tree' = EmptyFn
           ELSE UNCHANGED vars
  /\ UNCHANGED origin
HStep == (Step /\ UNCHANGED <<origin, plan, outcomes>>) \/ NextRun
AllDone == plan = <<>>

----------------------------------------------------------------------------
(* exporting, loading and exporting again changes nothing *)
SameAgain(a, b) == outcomes[a].ok => outcomes[b].ok /\ outcomes[a].nodes = outcomes[b].nodes
                                     /\ outcomes[a].types = outcomes[b].types
=============================================================================
