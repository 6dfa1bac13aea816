----------------------------- MODULE MCExpBase -----------------------------
(***************************************************************************)
(* Exhaustive checking of exporters: a finite set of Cases (scenario,      *)
(* exporter, options) is run through the pipeline; invariants are checked  *)
(* on what the exporter would write in the final state, and every case is  *)
(* printed for replay into the real exporter, whose output TraceExport     *)
(* then judges.                                                            *)
(***************************************************************************)
EXTENDS MCBase, VssExport

VARIABLES tool, opt
xvars == <<vars, tool, opt>>

Result == [tree |-> tree, ttree |-> ttree, ctx |-> ctx, sc |-> sc, opt |-> opt]
Case(t, s, o) == [tool |-> t, sc |-> s, opt |-> o]
InitCase(c) == InitWith(c.sc) /\ tool = c.tool /\ opt = c.opt

XReport ==
  /\ Ended
  /\ PrintT(<<"@X", ToJson(sc), tool, ToJson(opt)>>)
  /\ pc' = "reported"
  /\ UNCHANGED <<sc, jobs, flat, hist, ctx, ttree, tree, err, tool, opt>>
XNext == (Step /\ UNCHANGED <<tool, opt>>) \/ XReport
=============================================================================
