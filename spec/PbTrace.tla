------------------------------- MODULE PbTrace -------------------------------
(***************************************************************************)
(* Validation of traces recorded from the real code: every event is one    *)
(* step of the specification; a step that the specification does not       *)
(* allow is recorded with the names of the broken guarantees and the       *)
(* validation goes on from the observed state.                             *)
(***************************************************************************)
EXTENDS PbSession, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.PB_TRACE)

VARIABLES l, ses, bad
vars == <<l, ses, bad>>

Slots == 0..5
Ev == Trace[l]

TraceInit == l = 1 /\ ses = [i \in Slots |-> NoSes] /\ bad = 0

S == ses[Ev.s]

\* the verdict on an event is printed when it is not clean
Report(cl) == IF cl = {} THEN TRUE ELSE PrintT(<<"BROKEN", Ev.c, l, Ev.op, cl>>)

\* (a message in no state of its type can not be followed any further)
Step(cl, next) ==
    LET lost == cl # {} /\ next.ok /\ ~ Shaped(next.m, next.val)
    IN  /\ Report(IF lost THEN cl \cup {"fault"} ELSE cl)
        /\ ses' = [ses EXCEPT ![Ev.s] = IF lost THEN [next EXCEPT !.ok = FALSE] ELSE next]
        /\ bad' = bad + (IF cl = {} THEN 0 ELSE 1)

Is(op) == l <= Len(Trace) /\ Ev.op = op /\ l' = l + 1

\* operations on a session whose contents are unspecified are not judged
Live == S.ok

EvCase == Is("case") /\ ses' = [i \in Slots |-> NoSes] /\ UNCHANGED bad
EvSkip == Is("skip") /\ UNCHANGED <<ses, bad>>
EvWs   == Is("ws") /\ Step({}, [WsNext(Ev.size, Ev.base) EXCEPT !.mib = Ev.mib])
EvNew  == Is("new") /\ Step(NewClauses(S, Ev.m, Ev), NewNext(S, Ev.m, Ev))

Obs(s) == [s EXCEPT !.val = Ev.val]

EvBuild == Is("build") /\ Live /\ Step(BuildClauses(S, Ev), BuildNext(S, Ev))
EvSet   == Is("set")  /\ Live
           /\ LET n == SetNext(S, Ev) IN Step(Seen(n, Ev, n.val, "set.value"), Obs(n))
EvSeti  == Is("seti") /\ Live
           /\ LET n == SetiNext(S, Ev) IN Step(Seen(n, Ev, n.val, "set.value"), Obs(n))
EvSetu  == Is("setu") /\ Live
           /\ LET n == SetuNext(S, Ev) IN Step(Seen(n, Ev, n.val, "set.value"), Obs(n))
EvAlloc == Is("alloc") /\ Live /\ Step(AllocClauses(S, Ev), Obs(AllocNext(S, Ev)))
EvSel   == Is("sel") /\ Live
           /\ Step(SelClauses(S, Ev), IF Ev.ok = 1 THEN Obs(SelNext(S, Ev)) ELSE SelNext(S, Ev))
EvDump  == Is("dump") /\ Live /\ Step(Seen(S, Ev, S.val, "dump.value"), Obs(S))
EvEnc   == Is("enc") /\ Live /\ Step(EncClauses(S, Ev), EncNext(S, Ev))
\* a field of the message holds more bytes than any buffer may take
EvEncOver == Is("encover") /\ Live /\ Step(EncOverClauses(S, Ev), [S EXCEPT !.ok = FALSE])
EvDecHuge == Is("dechuge") /\ Live /\ Step(DecHugeClauses(S, Ev), [S EXCEPT !.ok = FALSE])
EvLong == /\ Is("long") /\ Live /\ ses[Ev.t].ok
          /\ Assert(LongCovered(S, Ev), <<"ends too short", l>>)
          /\ Report(LongClauses(S, ses[Ev.t], Ev))
          /\ ses' = [ses EXCEPT ![Ev.s].ok = FALSE, ![Ev.t].ok = FALSE]
          /\ bad' = bad + (IF LongClauses(S, ses[Ev.t], Ev) = {} THEN 0 ELSE 1)
EvDec   == Is("dec") /\ Live
           /\ LET d == Decode(S.m, Ev.in, S.val)
              IN  Step(DecClauses(S, Ev, d), DecNext(S, Ev, d))
\* decoding what session src encoded, into a fresh message: of the same type,
\* it gives the message of src back; of another one, the fields both know
EvRedec == Is("redec") /\ Live
           /\ LET d == Decode(S.m, Ev.in, S.val)
                  t == ses[Ev.src]
                  fresh == t.ok /\ S.val = DefaultMsg(S.m) /\ Ev.in = t.out
              IN  Step(DecClauses(S, Ev, d)
                       \cup (IF ~ fresh \/ Outcomes(d, S.size - S.uhi) # {0} THEN {}
                             ELSE IF Ev.res # Len(t.out)
                             THEN {IF t.m = S.m THEN "rt.value" ELSE "evolve.value"}
                             ELSE IF t.m = S.m THEN If(Ev.val # t.val, "rt.value")
                             ELSE If(~ Evolved(t.m, t.val, S.m, Ev.val), "evolve.value")),
                       DecNext(S, Ev, d))
EvFault == Is("fault") /\ Report({"fault"}) /\ bad' = bad + 1 /\ UNCHANGED ses
\* an event on a dead session changes nothing
EvDead  == /\ l <= Len(Trace) /\ Ev.op \notin {"case", "skip", "ws", "new", "fault"} /\ ~ Live
           /\ l' = l + 1 /\ UNCHANGED <<ses, bad>>
EvLongDead == /\ Is("long") /\ Live /\ ~ ses[Ev.t].ok
              /\ ses' = [ses EXCEPT ![Ev.s].ok = FALSE] /\ UNCHANGED bad

TraceNext == \/ EvCase \/ EvSkip \/ EvWs \/ EvNew \/ EvBuild \/ EvSet \/ EvSeti \/ EvSetu
             \/ EvAlloc \/ EvSel \/ EvDump \/ EvEnc \/ EvEncOver \/ EvLong \/ EvDec \/ EvDecHuge \/ EvRedec \/ EvFault \/ EvDead \/ EvLongDead

TraceSpec == TraceInit /\ [][TraceNext]_vars

\* every line was consumed
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)

Schema == JsonDeserialize(IOEnv.PB_SCHEMA)
TMsgs == Schema.msgs
THeap == Schema.heap
=============================================================================
