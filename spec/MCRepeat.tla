------------------------------ MODULE MCRepeat ------------------------------
(***************************************************************************)
(* C23: histories of runs of two models, in two places, called in three    *)
(* ways, with the outputs of earlier runs lying about.                     *)
(***************************************************************************)
EXTENDS VssBase, Json

CONSTANTS Size, Runs
VARIABLES lies,     \* place -> the model whose output lies there
          ran       \* the history
wvars == <<lies, ran>>

Models == {1, 2}
Places == {1, 2}
Ways == {"beside", "above", "absolute"}
OutputOf(m) == m                       \* uninterpreted, but a function of the model alone
WInit == lies = [p \in Places |-> 0] /\ ran = <<>>
WRun(m, p, w) == /\ Len(ran) < Runs
                 /\ lies' = [lies EXCEPT ![p] = OutputOf(m)]
                 /\ ran' = Append(ran, [model |-> m, place |-> p, way |-> w])
WEnd == Len(ran) = Runs /\ PrintT(<<"@H", ToJson(ran)>>) /\ ran' = Append(ran, [model |-> 0, place |-> 0, way |-> ""]) /\ UNCHANGED lies
Spec == WInit /\ [][(\E m \in Models, p \in Places, w \in Ways : WRun(m, p, w)) \/ WEnd]_wvars

(* what lies in a place is what the last run there wrote, however it was called *)
LastWins == \A p \in Places : LET here == SelectSeq(ran, LAMBDA r : r.place = p) IN
              lies[p] = IF here = <<>> THEN 0 ELSE OutputOf(here[Len(here)].model)
OthersKept == [][Cardinality({p \in Places : lies'[p] # lies[p]}) <= 1]_lies
=============================================================================
