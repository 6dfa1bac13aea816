---------------------------- MODULE TraceRepeat ----------------------------
(***************************************************************************)
(* Trace validation of histories of runs (C23): what a run writes is a     *)
(* function of the model and the options alone.  The first run of a model  *)
(* shows the function's value, every later one must agree with it,         *)
(* whatever its surroundings are and whatever was run before.              *)
(***************************************************************************)
EXTENDS VssBase, TraceBase

VARIABLES nr,       \* the history being followed, negative when it has been judged
          k,        \* its next run
          value     \* model -> <<exit code, written files with their digests>>
rvars == <<nr, k, value>>

Runs == Trace[nr].runs
RepInit == nr \in DOMAIN Trace /\ k = 1 /\ value = EmptyFn
Told(v) == PrintT(<<"@V", nr, v>>) /\ nr' = 0 - nr /\ UNCHANGED <<k, value>>
Seen(r) == <<r.rc, r.outs>>
RunAgain ==
  /\ nr > 0 /\ k <= Len(Runs)
  /\ LET r == Runs[k] IN
     IF r.model \in DOMAIN value /\ value[r.model] # Seen(r)
     THEN Told(<<"differs", ToString(k), IF value[r.model][1] # r.rc THEN {"exit-code"} ELSE
                 {f[1] : f \in (Range(r.outs) \ Range(value[r.model][2])) \cup (Range(value[r.model][2]) \ Range(r.outs))}, <<>>>>)
     ELSE /\ value' = Override(value, r.model :> Seen(r))
          /\ k' = k + 1 /\ UNCHANGED nr
AllRun == nr > 0 /\ k > Len(Runs) /\ Told(<<"ok", "done", {}, <<>>>>)
RepSpec == RepInit /\ [][RunAgain \/ AllRun]_rvars
RepView == <<nr, k>>
=============================================================================
