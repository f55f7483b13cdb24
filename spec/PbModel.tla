------------------------------- MODULE PbModel -------------------------------
(***************************************************************************)
(* The generated API as a closed system: a user who may make any call with *)
(* any of a few arguments, and an implementation that answers exactly as   *)
(* PbSession asks.  TLC explores all histories of up to Depth calls over a *)
(* small schema and checks that                                            *)
(*  - the answers of this implementation satisfy every clause that traces  *)
(*    of the real code are judged by (the clauses are satisfiable together *)
(*    in every reachable state),                                           *)
(*  - what is reachable has the properties the API exists for: messages    *)
(*    stay well formed, decoding what was encoded gives the value back,    *)
(*    memory use stays inside the workspace and only grows,                *)
(* and prints, for every transition it finds, a history of calls that ends *)
(* with it.  These histories are replayed on the real code, and what the   *)
(* code did is validated by PbTrace: one test per transition of the model. *)
(***************************************************************************)
EXTENDS PbSession, TLC, Json, IOUtils

Conf == JsonDeserialize(IOEnv.PB_MODEL)
\* Conf.types: message types to create; .slack: sizes of the workspaces beyond
\* what the message needs; .nses: sessions; .depth; .ops: the calls the user makes;
\* .tight: memory use is part of the state; .print
Types == {Conf.types[i] : i \in 1..Len(Conf.types)}
Slack == {Conf.slack[i] : i \in 1..Len(Conf.slack)}
Ops   == {Conf.ops[i] : i \in 1..Len(Conf.ops)}
Depth == Conf.depth
Sessions == 0..(Conf.nses - 1)

VARIABLES ses, hist, bad
vars == <<ses, hist, bad>>

(***************************************************************************)
(* Arguments                                                               *)
(***************************************************************************)
One(k) == CASE k = "bool"                 -> <<1>>
            [] k = "string"               -> <<65>>
            [] k = "bytes"                -> <<0, 255>>
            [] k \in {"int32", "sint32"}  -> Rep(255, 4)
            [] k \in {"int64", "sint64"}  -> Rep(255, 8)
            [] k \in {"float", "double"}  -> [i \in 1..ScalarSize(k) |-> IF i = ScalarSize(k) THEN 128 ELSE 0]
            [] OTHER                      -> [i \in 1..ScalarSize(k) |-> IF i <= 2 THEN 150 ELSE 0]

RECURSIVE SomeMsg(_, _)
SomeVal(f, d) == IF f.kind = "message" THEN SomeMsg(f.ref, d) ELSE One(f.kind)
SomeMsg(m, d) ==
    [i \in 1..NumSlots(m) |->
        IF i > NumFields(m) THEN <<0, <<>>>>
        ELSE LET f == Msgs[m].fields[i]
             IN  IF f.kind = "message" /\ d = 0 THEN <<>>
                 ELSE IF f.label = "s" /\ f.kind # "message" THEN One(f.kind)
                 ELSE <<SomeVal(f, d - 1)>>]

ZeroVal(f) == IF f.kind = "message" THEN DefaultMsg(f.ref) ELSE DefaultOf(f.kind)

\* contents of a slot other than the default one
FieldVals(f) ==
    LET z == ZeroVal(f)
        x == SomeVal(f, 0)
    IN  CASE f.label = "s" /\ f.kind # "message" -> {x}
          [] f.label = "r"                       -> {<<z>>, <<x, z>>}
          [] OTHER                               -> {<<z>>, <<x>>}
SlotVals(m, i) ==
    IF i <= NumFields(m) THEN FieldVals(Msgs[m].fields[i])
    ELSE UNION {{<<j, ZeroVal(Msgs[m].oneofs[i - NumFields(m)][j])>>,
                 <<j, SomeVal(Msgs[m].oneofs[i - NumFields(m)][j], 0)>>}
                 : j \in 1..Len(Msgs[m].oneofs[i - NumFields(m)])}

\* messages with a single non-default slot
Singles(m) == UNION {{[DefaultMsg(m) EXCEPT ![i] = v] : v \in SlotVals(m, i)} : i \in 1..NumSlots(m)}

\* inputs of decode: the empty one, one field each, one that ends too early
InputsOf(m) == {<<>>, <<0>>} \cup {Encode(m, v) : v \in Singles(m)}
               \cup {SubSeq(Encode(m, v), 1, Len(Encode(m, v)) - 1) : v \in {SomeMsg(m, 1)}}
               \cup {<<248, 7, 1>> \o Encode(m, v) : v \in {SomeMsg(m, 1)}}      \* unknown field 127
Inputs == [m \in 1..Len(Msgs) |-> InputsOf(m)]

(***************************************************************************)
(* Well-formed values                                                      *)
(***************************************************************************)
RECURSIVE IsMsg(_, _)
IsVal(f, v) ==
    CASE f.kind = "message" -> IsMsg(f.ref, v)
      [] f.kind = "string"  -> \A i \in 1..Len(v) : v[i] \in 1..255
      [] f.kind = "bytes"   -> \A i \in 1..Len(v) : v[i] \in Byte
      [] f.kind = "bool"    -> v \in {<<0>>, <<1>>}
      [] OTHER              -> Len(v) = ScalarSize(f.kind) /\ \A i \in 1..Len(v) : v[i] \in Byte
IsMsg(m, val) ==
    /\ Len(val) = NumSlots(m)
    /\ \A i \in 1..NumSlots(m) :
         IF i <= NumFields(m)
         THEN LET f == Msgs[m].fields[i]
              IN  IF f.label = "s" /\ f.kind # "message" THEN IsVal(f, val[i])
                  ELSE /\ f.label # "r" => Len(val[i]) <= 1
                       /\ \A j \in 1..Len(val[i]) : IsVal(f, val[i][j])
         ELSE LET o == Msgs[m].oneofs[i - NumFields(m)]
              IN  val[i] = <<0, <<>>>> \/ (val[i][1] \in 1..Len(o) /\ IsVal(o[val[i][1]], val[i][2]))

(***************************************************************************)
(* The implementation                                                      *)
(***************************************************************************)
\* memory use after a sequence of requests, or -1
RECURSIVE Walk(_, _, _, _)
Walk(s, u, al, i) ==
    IF i > Len(al) THEN u
    ELSE LET v == CapAdd(u + Pad(s, u, al[i][2]), al[i][1])
         IN  IF v > s.size THEN -1 ELSE Walk(s, v, al, i + 1)

Place(s, size) == s.uhi + Pad(s, s.uhi, 8)
Fits(s, size)  == CapAdd(Place(s, size), size) <= s.size

DoNew(s, m) ==
    LET f   == Fresh(s)
        off == HeapSize + Pad(f, HeapSize, MsgAlign)
    IN  IF off + Msgs[m].size > s.size THEN [ok |-> 0]
        ELSE [ok |-> 1, off |-> off, val |-> DefaultMsg(m), ext |-> 0,
              regs |-> << <<off, Msgs[m].size, MsgAlign>> >>]

DoAlloc(s, a) ==
    LET size == AllocSize(s, a)
        ok   == a.n >= -9 /\ (a.n = -9 \/ a.n >= 0) /\ Fits(s, size)
    IN  a @@ [ok |-> IF ok THEN 1 ELSE 0, res |-> IF ok THEN 0 ELSE -1, off |-> Place(s, size), size |-> size,
              align |-> 8, regs |-> <<>>, ext |-> 0,
              val |-> IF ok THEN Put(s.m, s.val, a.path, a.f, AllocValue(s, a)) ELSE s.val]

DoSel(s, a) ==
    LET f    == SelField(s, a)
        size == IF f.kind = "message" THEN Msgs[f.ref].size ELSE 0
        ok   == size = 0 \/ Fits(s, size)
    IN  a @@ [ok |-> IF ok THEN 1 ELSE 0, off |-> Place(s, size), size |-> size, align |-> 8, regs |-> <<>>,
              ext |-> 0, cs |-> Get(s.m, s.val, a.path, SelSlot(s, a))[1],
              val |-> IF ok THEN SelNew(s, a) ELSE s.val]

DoEnc(s, n) ==
    LET e == Encode(s.m, s.val)
    IN  [same |-> 1, size |-> n, res |-> IF Len(e) <= n THEN Len(e) ELSE -BufferFull,
         out |-> IF Len(e) <= n THEN e ELSE <<>>]

DoDec(s, in, d) ==
    LET u == Walk(s, s.uhi, d.al, 1)
    IN  [in |-> in, insame |-> 1, ext |-> 0, val |-> d.v,
         res |-> IF u = -1 THEN -OutOfMemory ELSE IF d.e # 0 THEN -d.e ELSE Len(in),
         regs |-> << <<0, IF u = -1 THEN s.size ELSE u, 1>> >>]

(***************************************************************************)
(* The calls                                                               *)
(***************************************************************************)
Put1(i, next, cmd, cl) ==
    /\ ses' = [ses EXCEPT ![i] = next]
    /\ hist' = Append(hist, cmd)
    /\ bad' = cl

May(op) == op \in Ops

\* sub-messages a user can reach
RECURSIVE PathsIn(_, _, _)
StepsOf(m, val) ==
    UNION {{<<i, IF Msgs[m].fields[i].label = "r" THEN j ELSE 0>> : j \in 1..Len(val[i])}
            : i \in {i \in 1..NumFields(m) : Msgs[m].fields[i].kind = "message"}}
    \cup {<<NumFields(m) + o, 0>> : o \in {o \in 1..Len(Msgs[m].oneofs) :
             LET c == val[NumFields(m) + o][1] IN c # 0 /\ Msgs[m].oneofs[o][c].kind = "message"}}
PathsIn(m, val, d) ==
    {<<>>} \cup (IF d = 0 THEN {}
                 ELSE UNION {{<<st>> \o p : p \in PathsIn(StepMsg(m, st, val), StepVal(m, st, val), d - 1)}
                              : st \in StepsOf(m, val)})
Paths(s) == PathsIn(s.m, s.val, 2)

New(i, m) ==
    LET s == ses[i]
        r == DoNew(s, m)
    IN  /\ May("new") \/ s.m = 0
        /\ Put1(i, NewNext(s, m, r), <<"new", i, m>>, NewClauses(s, m, r))

\* a user store is not an answer of the implementation
Store1(i, next, cmd) == Put1(i, next, cmd, {})

Set(i) ==
    /\ May("set")
    /\ \E p \in Paths(ses[i]) :
         LET s == ses[i]
             m == MsgAt(s.m, s.val, p)
         IN  \E f \in 1..NumFields(m) :
               LET fd == Msgs[m].fields[f]
               IN  \E v \in (CASE fd.label = "o"                          -> {<<>>} \cup FieldVals(fd)
                               [] fd.label = "s" /\ fd.kind = "message"   -> {<<>>}
                               [] fd.label = "r"                          -> {}
                               [] OTHER                                   -> {ZeroVal(fd)} \cup FieldVals(fd)) :
                     Store1(i, SetNext(s, [path |-> p, f |-> f, v |-> v]), <<"set", i, p, f, v>>)

Seti(i) ==
    /\ May("set")
    /\ \E p \in Paths(ses[i]) :
         LET s == ses[i]
             m == MsgAt(s.m, s.val, p)
         IN  \E f \in {f \in 1..NumFields(m) : Msgs[m].fields[f].label = "r" /\ Msgs[m].fields[f].kind # "message"} :
               \E j \in 1..Len(Get(s.m, s.val, p, f)) :
                 \E v \in {One(Msgs[m].fields[f].kind)} :
                   Store1(i, SetiNext(s, [path |-> p, f |-> f, i |-> j, v |-> v]), <<"seti", i, p, f, j, v>>)

Setu(i) ==
    /\ May("set")
    /\ \E p \in Paths(ses[i]) :
         LET s == ses[i]
             m == MsgAt(s.m, s.val, p)
         IN  \E o \in 1..Len(Msgs[m].oneofs) :
               LET c == Get(s.m, s.val, p, NumFields(m) + o)[1]
               IN  /\ c # 0
                   /\ Msgs[m].oneofs[o][c].kind # "message"
                   /\ LET v == One(Msgs[m].oneofs[o][c].kind)
                      IN  Store1(i, SetuNext(s, [path |-> p, o |-> o, v |-> v]), <<"setu", i, p, o, v>>)

Allocate(i) ==
    /\ May("alloc")
    /\ \E p \in Paths(ses[i]) :
         LET s == ses[i]
             m == MsgAt(s.m, s.val, p)
         IN  \E f \in 1..NumFields(m) :
               LET fd == Msgs[m].fields[f]
               IN  \E n \in (CASE fd.label = "r"                        -> IF May("odd") THEN {0, 1, 2, -1, 2147483647}
                                                                           ELSE {0, 1, 2}
                               [] fd.label = "s" /\ fd.kind = "message" -> {-9}
                               [] OTHER                                 -> {}) :
                     LET r == DoAlloc(s, [path |-> p, f |-> f, n |-> n])
                     IN  Put1(i, AllocNext(s, r), <<"alloc", i, p, f, n>>, AllocClauses(s, r))

Select(i) ==
    /\ May("sel")
    /\ \E p \in Paths(ses[i]) :
         LET s == ses[i]
             m == MsgAt(s.m, s.val, p)
         IN  \E o \in 1..Len(Msgs[m].oneofs) :
               \E j \in 1..Len(Msgs[m].oneofs[o]) :
                 LET r == DoSel(s, [path |-> p, o |-> o, mem |-> j])
                 IN  Put1(i, SelNext(s, r), <<"sel", i, p, o, j>>, SelClauses(s, r))

Enc(i) ==
    /\ May("enc")
    /\ LET s == ses[i]
           e == Encode(s.m, s.val)
       IN  \E n \in {n \in {0, Len(e) - 1, Len(e), Len(e) + 9} : n >= 0} :
             LET r == DoEnc(s, n)
             IN  Put1(i, EncNext(s, r), <<"enc", i, n>>, EncClauses(s, r))

Dec(i) ==
    /\ May("dec")
    /\ \E w \in Inputs[ses[i].m] :
         LET s == ses[i]
             d == Decode(s.m, w, s.val)
             r == DoDec(s, w, d)
             n == DecNext(s, r, d)
         IN  Put1(i, [n EXCEPT !.uhi = n.ulo], <<"dec", i, w>>, DecClauses(s, r, d))

MInit == /\ \E w \in [Sessions -> Slack] :
              LET m == CHOOSE m \in Types : \A n \in Types : Msgs[n].size <= Msgs[m].size
              IN  /\ ses = [i \in Sessions |-> WsNext(w[i] + HeapSize + Msgs[m].size, 0)]
                  /\ hist = << <<"ws", [i \in 1..Conf.nses |-> ses[i - 1].size]>> >>
         /\ bad = {}

MNext ==
    /\ Len(hist) < Depth + 1 + Conf.nses
    /\ \E i \in Sessions :
      \/ \E m \in Types : New(i, m)
      \/ /\ ses[i].ok
         /\ Set(i) \/ Seti(i) \/ Setu(i) \/ Allocate(i) \/ Select(i) \/ Enc(i) \/ Dec(i)

MSpec == MInit /\ [][MNext]_vars

(***************************************************************************)
(* Exploration                                                             *)
(***************************************************************************)
Emit == Conf.print = 0 \/ PrintT(ToJson(hist'))

\* what distinguishes states
Abs(s) == IF Conf.tight = 1 THEN <<s.size, s.m, s.val, s.ok, s.uhi>> ELSE <<s.size, s.m, s.val, s.ok>>
MView == <<[i \in Sessions |-> Abs(ses[i])], bad>>

(***************************************************************************)
(* Properties of the design                                                *)
(***************************************************************************)
ClausesHold == bad = {}

Live(s) == s.m # 0 /\ s.ok

WellFormed == \A i \in Sessions : Live(ses[i]) => IsMsg(ses[i].m, ses[i].val)

InWorkspace == \A i \in Sessions : Live(ses[i]) => ses[i].ulo <= ses[i].uhi /\ ses[i].uhi <= ses[i].size

\* C01: decoding the encoding gives the value back, in as much memory as it needs
RoundTrip ==
    \A i \in Sessions : Live(ses[i]) =>
        LET s == ses[i]
            d == Decode(s.m, Encode(s.m, s.val), DefaultMsg(s.m))
        IN  d.e = 0 /\ d.v = s.val

\* C06: no strict prefix of an encoding that ends inside a field is accepted as the whole;
\* the encoding of a value is never accepted with a byte missing and the same result
PrefixDiffers ==
    \A i \in Sessions : Live(ses[i]) =>
        LET s == ses[i]
            e == Encode(s.m, s.val)
        IN  e # <<>> => LET d == Decode(s.m, SubSeq(e, 1, Len(e) - 1), DefaultMsg(s.m))
                        IN  d.e # 0 \/ d.v # s.val

\* the encoding of a long run, in terms of its length, is that of the explicit value
LongAgrees ==
    \A i \in Sessions : Live(ses[i]) =>
        LET s == ses[i]
        IN  \A p \in PathsIn(s.m, s.val, 1) :
            LET mm == MsgAt(s.m, s.val, p)
            IN  \A f \in 1..NumFields(mm) :
                LET fld == Msgs[mm].fields[f]
                IN  fld.label = "r" \/ fld.kind \in {"string", "bytes"} =>
                    \A n \in {1, 130} :
                        LET v == IF fld.label = "r" THEN Rep(DefaultItem(fld), n)
                                 ELSE IF fld.label = "s" THEN Rep(65, n) ELSE <<Rep(65, n)>>
                            e == EncLong(s.m, s.val, p, f, n)
                            x == Encode(s.m, Put(s.m, s.val, p, f, v))
                        IN  /\ x = e.pre \o Flatten([j \in 1..n |-> e.unit]) \o e.post
                            /\ Len(x) = LongLen(e, n)
                            /\ \A j \in 1..Len(x) : x[j] = LongAt(e, n, j)

\* memory is never given back except by creating a new message; other sessions are untouched
Grows ==
    [][\A i \in Sessions :
         /\ (ses[i].m # 0 /\ ses[i].ok /\ ses'[i].ok /\ hist'[Len(hist')][1] # "new")
            => ses'[i].uhi >= ses[i].uhi
         /\ hist'[Len(hist')][2] # i => ses'[i] = ses[i]]_vars

Schema == JsonDeserialize(IOEnv.PB_SCHEMA)
TMsgs == Schema.msgs
THeap == Schema.heap
=============================================================================
