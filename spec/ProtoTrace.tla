----------------------------- MODULE ProtoTrace -----------------------------
(* Validation of recorded uses of the parser and the command line tool: every
   event is one step; what it breaks is printed and the validation goes on.

     parse   one use of the parser on its own file system
     case    a new file system for the command line tool
     write, remove, run   what happens to it                                  *)
EXTENDS ProtoRuns, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.PB_TRACE)

VARIABLES l, bad
vars == <<l, bad, fs, tree, memo>>

Ev == Trace[l]
Report(cl) == IF cl = {} THEN TRUE ELSE PrintT(<<"BROKEN", Ev.c, l, Ev.op, cl>>)
Judge(cl) == Report(cl) /\ bad' = bad + (IF cl = {} THEN 0 ELSE 1)

TraceInit == l = 1 /\ bad = 0 /\ RunsInit
Is0(op) == l <= Len(Trace) /\ Ev.op = op /\ l' = l + 1

EvParse == Is0("parse") /\ Judge(ParseClauses(Ev)) /\ UNCHANGED rvars
EvFault == Is0("fault") /\ Judge({"fault"}) /\ UNCHANGED rvars
EvCase == Is0("case") /\ CaseStep(Ev) /\ UNCHANGED bad
EvWrite == Is0("write") /\ WriteStep(Ev) /\ UNCHANGED bad
EvRemove == Is0("remove") /\ RemoveStep(Ev) /\ UNCHANGED bad
EvRun == Is0("run") /\ LET f == RunFacts(Ev) IN Judge(ClausesOf(Ev, f)) /\ RunStep(Ev, f)

TraceNext == EvParse \/ EvFault \/ EvCase \/ EvWrite \/ EvRemove \/ EvRun
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
