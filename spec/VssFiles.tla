------------------------------ MODULE VssFiles ------------------------------
(***************************************************************************)
(* Output files.  A run is given names of files to write (rq) and finds    *)
(* each of them absent or holding something old.  It may touch them only   *)
(* after everything has been accepted, then writes each of them, one at a  *)
(* time, and only ends with status 0 when all of them are new.             *)
(*                                                                         *)
(* sc.fault = [kind, file]: something is wrong with an input before any    *)
(* model processing (a missing or malformed file, a bad option); "none"    *)
(* if nothing is.  "earlier": a good file to validate against is given;    *)
(* "full": the disk is full when the output named is written.              *)
(***************************************************************************)
EXTENDS VssPipeline, VssExport

VARIABLES tool, opt, rq, disk, before, status
fvars == <<vars, tool, opt, rq, disk, before, status>>

Result == [tree |-> tree, ttree |-> ttree, ctx |-> ctx, sc |-> sc, opt |-> opt]

FilesInit(s, t, o, d) ==
  /\ InitWith(s)
  /\ tool = t /\ opt = o
  /\ rq = DOMAIN d
  /\ disk = d /\ before = d
  /\ status = "running"

Running == status = "running"

(* something is wrong with the files or options given *)
NoFaults == {"none", "earlier", "full"}
Fault ==
  /\ Running /\ pc = "options" /\ sc.fault.kind \notin NoFaults
  /\ pc' = "failed" /\ err' = {"fault-" \o sc.fault.kind}
  /\ UNCHANGED <<sc, jobs, flat, hist, ctx, ttree, tree, tool, opt, rq, disk, before, status>>

Process ==
  /\ Running /\ sc.fault.kind \in NoFaults /\ Step
  /\ UNCHANGED <<tool, opt, rq, disk, before, status>>

(* what the exporter itself refuses; exporters with rules of their own that *)
(* are not specified may refuse any model                                  *)
Refusals == Problems(tool, Result) \cup
            (IF tool = "apigear" /\ \E n \in rq : before[n] = "old" THEN {"directory-exists"} ELSE {})
MayRefuse == tool \in OwnRules

Refuse ==
  /\ Running /\ pc = "done" /\ disk = before
  /\ Refusals # {} \/ MayRefuse
  /\ pc' = "failed" /\ err' = IF Refusals # {} THEN Refusals ELSE {"own-rule"}
  /\ UNCHANGED <<sc, jobs, flat, hist, ctx, ttree, tree, tool, opt, rq, disk, before, status>>

NoRoom(n) == sc.fault = [kind |-> "full", file |-> n]
CannotWrite ==
  /\ Running /\ pc = "done" /\ Refusals = {} /\ \E n \in rq : NoRoom(n)
  /\ status' = "error" /\ err' = {"disk-full"}
  /\ UNCHANGED <<sc, jobs, flat, hist, ctx, ttree, tree, pc, tool, opt, rq, disk, before>>

Write(n) ==
  /\ Running /\ pc = "done" /\ Refusals = {}
  /\ disk[n] # "new" /\ ~ NoRoom(n)
  /\ disk' = [disk EXCEPT ![n] = "new"]
  /\ UNCHANGED <<vars, tool, opt, rq, before, status>>

Exit ==
  /\ Running
  /\ \/ pc = "failed" /\ status' = "error"
     \/ pc = "done" /\ (\A n \in rq : disk[n] = "new") /\ status' = "ok"
  /\ UNCHANGED <<vars, tool, opt, rq, disk, before>>

FilesStep == Fault \/ Process \/ Refuse \/ CannotWrite \/ (\E n \in rq : Write(n)) \/ Exit

----------------------------------------------------------------------------
FailedLeavesNothing == (status = "error" /\ err # {"disk-full"}) => disk = before
SuccessWritesAll    == status = "ok" => \A n \in rq : disk[n] = "new"
TouchedOnlyAccepted == disk # before => pc = "done"
RejectedFails       == (status = "ok") => (pc = "done" /\ err = {} /\ sc.fault.kind \in NoFaults)
=============================================================================
