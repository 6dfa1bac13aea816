----------------------------- MODULE TraceFiles -----------------------------
(***************************************************************************)
(* Trace validation for C12: the status of a run and what became of each   *)
(* output file must be a behaviour of VssFiles.                            *)
(*   before[n], after[n]   "absent", "old" (as before the run), "new"      *)
(*   same                  new files have the content a run without        *)
(*                         anything old gives them                         *)
(*   inputs                no input file was changed                       *)
(***************************************************************************)
EXTENDS VssFiles, TraceBase

VARIABLES nr, obs
tvars == <<fvars, nr, obs>>

OnDisk(fs) == [n \in {f.n : f \in Range(fs)} |-> (CHOOSE f \in Range(fs) : f.n = n).s]

TraceInit ==
  \E k \in DOMAIN Trace :
    /\ nr = k
    /\ obs = Trace[k].obs
    /\ FilesInit(DecScenario(Trace[k].sc) @@ ("fault" :> Trace[k].fault),
                 Trace[k].tool, Trace[k].opt, OnDisk(Trace[k].obs.before))

After == OnDisk(obs.after)

(* the observed end of the run, checked against every end the specification reaches *)
Matches == /\ (status = "ok") = obs.ok
           /\ disk = After
           /\ obs.same
           /\ obs.inputs

Verdict ==
  /\ status # "running" /\ nr > 0
  /\ PrintT(<<"@V", nr, <<IF Matches THEN "ok" ELSE "no",
                          CASE Matches -> status
                            [] (status = "ok") # obs.ok -> IF obs.ok THEN "accepted" ELSE "rejected"
                            [] disk # After -> "files"
                            [] ~ obs.same -> "content"
                            [] OTHER -> "inputs",
                          err, {n \in rq : n \notin DOMAIN After \/ disk[n] # After[n]}>>>>)
  /\ nr' = 0 - nr
  /\ UNCHANGED <<fvars, obs>>

(* one order of writing is enough here *)
OneOrder == sc.fault.kind = "full" \/ \A n \in rq : disk'[n] # disk[n] => n = CHOOSE m \in rq : disk[m] # "new"
TraceView == <<nr, pc, jobs, tree, disk, status>>
TraceNext == (FilesStep /\ OneOrder /\ UNCHANGED <<nr, obs>>) \/ Verdict
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
