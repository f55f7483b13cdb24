------------------------------ MODULE PbSession ------------------------------
(***************************************************************************)
(* What the public API of the generated code may do to one workspace.      *)
(*                                                                         *)
(* A session is a record                                                   *)
(*   size, base  size of the workspace and its address modulo 64           *)
(*   mib         size in units of 2^20 bytes, rounded up: a workspace may   *)
(*               be larger than what fits in an int, in which case size is  *)
(*               2^31 - 1, the most the library has to make use of          *)
(*   m, val      type (0: none) and value of the message in it             *)
(*   ulo, uhi    bounds on the number of bytes in use (equal while only    *)
(*               explicit allocations happened)                            *)
(*   ext         the user stored pointers to own data in the message       *)
(*   ok          FALSE after a failed operation that leaves the contents   *)
(*               unspecified                                               *)
(*   out         the last successful encoding                              *)
(*                                                                         *)
(* For every operation, X_clauses is the set of names of the guarantees    *)
(* that the observed result r breaks ({} if the result is allowed), and    *)
(* X_next the session afterwards.                                          *)
(***************************************************************************)
EXTENDS PbDecode

CONSTANT HeapSize            \* bytes of a workspace the library itself needs

NoSes == [size |-> 0, mib |-> 0, base |-> 0, m |-> 0, val |-> <<>>, ulo |-> 0, uhi |-> 0,
          ext |-> FALSE, ok |-> FALSE, out |-> <<>>]

If(c, name) == IF c THEN {name} ELSE {}

Max(a, b) == IF a >= b THEN a ELSE b

(***************************************************************************)
(* Memory.  regs is the list of all reachable objects inside the           *)
(* workspace, <<offset, size, alignment>>, sorted by offset.               *)
(***************************************************************************)
RegsClauses(s, regs) ==
    If(\E i \in 1..Len(regs) : regs[i][1] < 0 \/ regs[i][1] + regs[i][2] > s.size, "mem.bounds")
    \cup If(\E i \in 1..Len(regs) : (s.base + regs[i][1]) % regs[i][3] # 0, "mem.align")
    \cup If(\E i \in 1..(Len(regs) - 1) : regs[i][1] + regs[i][2] > regs[i+1][1], "mem.overlap")

RECURSIVE MaxEnd(_, _)
MaxEnd(regs, i) == IF i > Len(regs) THEN 0 ELSE Max(regs[i][1] + regs[i][2], MaxEnd(regs, i + 1))

\* an external pointer in a message the user never stored anything in
ExtClauses(s, r) == If(r.ext # 0 /\ ~ s.ext, "mem.external")

ViewClauses(s, r) == RegsClauses(s, r.regs) \cup ExtClauses(s, r)

\* padding needed at offset u
Pad(s, u, align) == (align - ((s.base + u) % align)) % align

\* an object of `size' bytes certainly / possibly fits
MustFit(s, size, align) ==
    IF s.ulo = s.uhi THEN CapAdd(s.uhi + Pad(s, s.uhi, align), size) <= s.size
    ELSE CapAdd(s.uhi + align - 1, size) <= s.size
MayFit(s, size, align)  ==
    IF s.ulo = s.uhi THEN CapAdd(s.ulo + Pad(s, s.ulo, align), size) <= s.size
    ELSE CapAdd(s.ulo, size) <= s.size

(***************************************************************************)
(* Message creation                                                        *)
(***************************************************************************)
WsNext(size, base) == [NoSes EXCEPT !.size = size, !.base = base, !.mib = size \div 1048576 + 1]

Fresh(s) == [NoSes EXCEPT !.size = s.size, !.mib = s.mib, !.base = s.base, !.ulo = HeapSize, !.uhi = HeapSize]

NewClauses(s, m, r) ==
    LET f == Fresh(s)
        sz == Msgs[m].size
    IN  IF r.ok = 0
        THEN If(s.size >= HeapSize /\ MustFit(f, sz, MsgAlign), "new.fails")
        ELSE If(s.size < HeapSize \/ ~ MayFit(f, sz, MsgAlign), "new.toosmall")
             \cup If(r.off < HeapSize \/ r.off + sz > s.size, "mem.bounds")
             \cup If(r.val # DefaultMsg(m), "new.default")
             \cup ViewClauses(f, r)

NewNext(s, m, r) ==
    IF r.ok = 0 THEN [Fresh(s) EXCEPT !.ok = FALSE]
    ELSE [Fresh(s) EXCEPT !.m = m, !.val = r.val, !.ok = TRUE,
                          !.ulo = r.off + Msgs[m].size, !.uhi = r.off + Msgs[m].size]

(***************************************************************************)
(* Values inside a message                                                 *)
(***************************************************************************)
\* a path is a sequence of <<slot, index>>; index 0 for singular sub-messages
\* and oneof members, else the element of a repeated field
StepMsg(m, st, val) ==
    IF st[1] > NumFields(m)
    THEN Msgs[m].oneofs[st[1] - NumFields(m)][val[st[1]][1]].ref
    ELSE Msgs[m].fields[st[1]].ref
StepVal(m, st, val) ==
    IF st[1] > NumFields(m) THEN val[st[1]][2]
    ELSE IF st[2] = 0 THEN val[st[1]][1] ELSE val[st[1]][st[2]]

RECURSIVE MsgAt(_, _, _)
MsgAt(m, val, path) ==
    IF path = <<>> THEN m
    ELSE MsgAt(StepMsg(m, path[1], val), StepVal(m, path[1], val), Tail(path))

RECURSIVE Put(_, _, _, _, _)
\* replaces slot `slot' of the message at `path' by x
Put(m, val, path, slot, x) ==
    IF path = <<>> THEN [val EXCEPT ![slot] = x]
    ELSE LET st  == path[1]
             sub == Put(StepMsg(m, st, val), StepVal(m, st, val), Tail(path), slot, x)
         IN  IF st[1] > NumFields(m) THEN [val EXCEPT ![st[1]] = <<val[st[1]][1], sub>>]
             ELSE IF st[2] = 0 THEN [val EXCEPT ![st[1]] = <<sub>>]
             ELSE [val EXCEPT ![st[1]][st[2]] = sub]

RECURSIVE Get(_, _, _, _)
Get(m, val, path, slot) ==
    IF path = <<>> THEN val[slot]
    ELSE Get(StepMsg(m, path[1], val), StepVal(m, path[1], val), Tail(path), slot)

Seen(s, r, expected, what) ==
    If(r.val # expected, what) \cup ViewClauses(s, r)

\* plain stores by the user
SetNext(s, r)  == [s EXCEPT !.val = Put(s.m, s.val, r.path, r.f, r.v), !.ext = TRUE]
SetiNext(s, r) == [s EXCEPT !.val = Put(s.m, s.val, r.path, r.f,
                                        [Get(s.m, s.val, r.path, r.f) EXCEPT ![r.i] = r.v]),
                            !.ext = TRUE]
SetuNext(s, r) == LET slot == NumFields(MsgAt(s.m, s.val, r.path)) + r.o
                  IN  [s EXCEPT !.val = Put(s.m, s.val, r.path, slot,
                                            <<Get(s.m, s.val, r.path, slot)[1], r.v>>),
                                !.ext = TRUE]
\* a whole message built through the API (each allocation must have fitted)
BuildNext(s, r) == IF r.ok = 1
                   THEN [s EXCEPT !.val = r.want, !.ext = TRUE,
                                  !.ulo = MaxEnd(r.regs, 1), !.uhi = MaxEnd(r.regs, 1)]
                   ELSE [s EXCEPT !.ok = FALSE]

RECURSIVE BuildAllocs(_, _), FieldAllocs(_, _)
FieldAllocs(f, v) ==
    IF f.kind = "message" /\ f.label = "s"
    THEN IF v = <<>> THEN <<>> ELSE << <<Msgs[f.ref].size, 8>> >> \o BuildAllocs(f.ref, v[1])
    ELSE IF f.label = "r" /\ v # <<>>
    THEN << <<CapMul(f.isz, Len(v)), 8>> >>
         \o (IF f.kind = "message"
             THEN Flatten([i \in 1..Len(v) |-> BuildAllocs(f.ref, v[i])]) ELSE <<>>)
    ELSE <<>>
BuildAllocs(m, v) ==
    Flatten([i \in 1..NumSlots(m) |->
        IF i <= NumFields(m) THEN FieldAllocs(Msgs[m].fields[i], v[i])
        ELSE IF v[i][1] = 0 THEN <<>>
        ELSE LET f == Msgs[m].oneofs[i - NumFields(m)][v[i][1]]
             IN  IF f.kind = "message"
                 THEN << <<Msgs[f.ref].size, 8>> >> \o BuildAllocs(f.ref, v[i][2]) ELSE <<>>])

BuildClauses(s, r) ==
    LET al == BuildAllocs(s.m, r.want)
    IN  IF r.ok = 0
        THEN If(CapAdd(s.uhi, NeedMax(al)) <= s.size, "alloc.fails")
        ELSE If(CapAdd(s.ulo, NeedMin(al)) > s.size, "alloc.toosmall")
             \cup Seen([s EXCEPT !.ext = TRUE], r, r.want, "build.value")

(***************************************************************************)
(* Allocation of sub-messages and repeated fields.  n = -9: sub-message.   *)
(* A failed allocation leaves the message as it was.                       *)
(***************************************************************************)
AllocField(s, r) == Msgs[MsgAt(s.m, s.val, r.path)].fields[r.f]

AllocSize(s, r) ==
    LET f == AllocField(s, r)
    IN  IF r.n = -9 THEN Msgs[f.ref].size
        ELSE IF r.n < 0 THEN Cap ELSE CapMul(f.isz, r.n)

\* a repeated field that no workspace of this size could hold
AllocTooBig(s, r) ==
    r.n # -9 /\ (r.n < 0 \/ CapMul(AllocField(s, r).isz, r.n \div 1048576) > s.mib)

AllocValue(s, r) ==
    LET f == AllocField(s, r)
    IN  IF r.n = -9 THEN <<DefaultMsg(f.ref)>>
        ELSE [i \in 1..r.n |-> IF f.kind = "message" THEN DefaultMsg(f.ref) ELSE DefaultOf(f.kind)]

PlaceClauses(s, r, size) ==
    IF size = 0 THEN {}
    ELSE If(r.off < s.ulo \/ r.off + size > s.size, "mem.bounds")
         \cup If(r.size # size, "mem.size")
         \cup If((s.base + r.off) % r.align # 0, "mem.align")

AllocClauses(s, r) ==
    LET size == AllocSize(s, r)
    IN  IF r.ok = 0
        THEN If(size < Cap /\ MustFit(s, size, 8), "alloc.fails")
             \cup If(r.res >= 0, "alloc.code")
             \cup Seen(s, r, s.val, "alloc.damage")
        ELSE If(~ MayFit(s, size, 8) \/ AllocTooBig(s, r), "alloc.toosmall")
             \cup (IF ~ MayFit(s, size, 8) \/ size >= Cap THEN {}
                   ELSE PlaceClauses(s, r, size)
                        \cup Seen(s, r, Put(s.m, s.val, r.path, r.f, AllocValue(s, r)), "alloc.value"))

\* a zero-sized object may still cost padding
AllocUsed(s, r, size) ==
    IF size = 0 THEN [s EXCEPT !.uhi = s.uhi + Pad(s, s.uhi, 8)]
    ELSE [s EXCEPT !.ulo = r.off + size, !.uhi = r.off + size]

AllocNext(s, r) ==
    IF r.ok = 0 THEN s
    ELSE IF AllocSize(s, r) >= Cap THEN [s EXCEPT !.ok = FALSE]
    ELSE AllocUsed([s EXCEPT !.val = Put(s.m, s.val, r.path, r.f, AllocValue(s, r))],
                   r, AllocSize(s, r))

(***************************************************************************)
(* Selecting a oneof member (X_member_init or X_member_alloc).             *)
(* A failing member allocation must not change which member is selected    *)
(* (it does: a known finding); the session is dead afterwards.             *)
(***************************************************************************)
SelField(s, r) == Msgs[MsgAt(s.m, s.val, r.path)].oneofs[r.o][r.mem]
SelSlot(s, r)  == NumFields(MsgAt(s.m, s.val, r.path)) + r.o

SelNew(s, r) ==
    LET f == SelField(s, r)
        x == IF f.kind = "message" THEN DefaultMsg(f.ref) ELSE DefaultOf(f.kind)
    IN  Put(s.m, s.val, r.path, SelSlot(s, r), <<r.mem, x>>)

SelClauses(s, r) ==
    LET f    == SelField(s, r)
        size == IF f.kind = "message" THEN Msgs[f.ref].size ELSE 0
    IN  IF r.ok = 0
        THEN If(f.kind # "message" \/ MustFit(s, size, 8), "alloc.fails")
             \cup (LET old == Get(s.m, s.val, r.path, SelSlot(s, r))[1]
                   IN  If(r.cs # old /\ r.cs = r.mem, "sel.damage")
                       \cup If(r.cs # old /\ r.cs # r.mem, "sel.wild"))
        ELSE IF ~ MayFit(s, size, 8) /\ size # 0 THEN {"alloc.toosmall"}
        ELSE PlaceClauses(s, r, size) \cup Seen(s, r, SelNew(s, r), "sel.value")

SelNext(s, r) ==
    LET f == SelField(s, r)
    IN  IF r.ok = 0 THEN [s EXCEPT !.ok = FALSE]
        ELSE IF f.kind = "message"
        THEN AllocUsed([s EXCEPT !.val = SelNew(s, r)], r, Msgs[f.ref].size)
        ELSE [s EXCEPT !.val = SelNew(s, r)]

(***************************************************************************)
(* Encoding                                                                *)
(***************************************************************************)
EncClauses(s, r) ==
    LET e == Encode(s.m, s.val)
    IN  If(r.same # 1, "enc.pure")
        \cup (IF Len(e) <= r.size
              THEN IF r.res < 0 THEN {"enc.fails"}
                   ELSE If(r.res # Len(e), "enc.length") \cup If(r.out # e, "enc.bytes")
              ELSE IF r.res >= 0 THEN {"enc.overfull"}
                   ELSE If(r.res # -BufferFull, "enc.code"))

\* some field is larger than the buffer, and larger than what fits in an int
EncOverClauses(s, r) ==
    If(r.res >= 0, "enc.overfull") \cup If(r.res < 0 /\ r.res # -BufferFull, "enc.code")

EncNext(s, r) == IF r.res >= 0 THEN [s EXCEPT !.out = r.out] ELSE s

(***************************************************************************)
(* Decoding.  d is the specified decoding of the input.                    *)
(***************************************************************************)
DecClauses(s, r, d) ==
    LET allowed == Outcomes(d, s.size - s.uhi) \cup Outcomes(d, s.size - s.ulo)
        n       == Len(r.in)
    IN  If(r.insame # 1, "dec.input")
        \cup (IF r.res >= 0
              THEN IF d.e # 0 THEN {"dec.accepts"}
                   ELSE If(0 \notin allowed, "dec.nospace")
                        \cup If(r.res # n, "dec.length")
                        \cup Seen(s, r, d.v, "dec.value")
              ELSE IF -r.res \in allowed THEN {}
                   ELSE IF d.e = 0 THEN IF r.res = -OutOfMemory THEN {"dec.memory"}
                                        ELSE {"dec.rejects"}
                   ELSE {"dec.code"})

\* an input of more bytes than the result (an int) can count cannot be decoded
DecHugeClauses(s, r) == If(r.res >= 0, "dec.accepts")

(***************************************************************************)
(* Schema evolution, stated without reference to the wire: val, a value of *)
(* type n, read from what was written as `from', a value of type m.        *)
(***************************************************************************)
SameShape(f, g) == f.num = g.num /\ f.kind = g.kind /\ f.label = g.label /\ f.ref = g.ref

RECURSIVE Evolved(_, _, _, _)
Evolved(m, from, n, val) ==
    /\ \A i \in 1..NumFields(n) :
          LET f == Msgs[n].fields[i]
          IN  IF \E j \in 1..NumFields(m) : Msgs[m].fields[j].num = f.num
              THEN LET j == CHOOSE j \in 1..NumFields(m) : Msgs[m].fields[j].num = f.num
                       g == Msgs[m].fields[j]
                   IN  IF SameShape(f, g) THEN val[i] = from[j]
                       ELSE IF f.kind = "message" /\ g.kind = "message" /\ f.label = g.label
                       THEN /\ Len(val[i]) = Len(from[j])
                            /\ \A k \in 1..Len(val[i]) : Evolved(g.ref, from[j][k], f.ref, val[i][k])
                       ELSE TRUE
              ELSE f.num \in DOMAIN TagMap[m] \/ val[i] = DefaultSlot(f)
    /\ \A o \in 1..Len(Msgs[n].oneofs) :
          LET here  == Msgs[n].oneofs[o]
              known == {here[j].num : j \in 1..Len(here)} \cap DOMAIN TagMap[m]
              v     == val[NumFields(n) + o]
          IN  IF known = {} THEN v[1] = 0
              ELSE \A p \in 1..Len(Msgs[m].oneofs) :
                 LET there == Msgs[m].oneofs[p]
                     w     == from[NumFields(m) + p]
                 IN  \* the members both know belong to one oneof on both sides
                     known \subseteq {there[j].num : j \in 1..Len(there)} =>
                       (IF w[1] = 0 \/ there[w[1]].num \notin known THEN v[1] = 0
                        ELSE /\ v[1] # 0
                             /\ here[v[1]].num = there[w[1]].num
                             /\ SameShape(here[v[1]], there[w[1]]) => v[2] = w[2])

DecNext(s, r, d) ==
    IF r.res < 0 \/ d.e # 0 THEN [s EXCEPT !.ok = FALSE]
    ELSE [s EXCEPT !.val = d.v,
                   !.ulo = Max(s.ulo, MaxEnd(r.regs, 1)),
                   !.uhi = IF CapAdd(s.uhi, NeedMax(d.al)) > s.size THEN s.size
                           ELSE s.uhi + NeedMax(d.al)]

(***************************************************************************)
(* Lengths beyond what explicit values can have                            *)
(***************************************************************************)
\* A message with a long run in it: the run is seen as its length, so this
\* reaches lengths that no explicit value could have.  head and tail are the
\* two ends of the encoding; mid: what lies between them repeats with a period
\* (120) that every unit divides; exact, short: the results with a buffer of
\* the size of the encoding and of one byte less.  Then t, another session
\* with a fresh message, has decoded it: dres, and for a message of the same
\* type the number of bytes or elements in its field and whether it encodes
\* to the same bytes, else its value.
LongClauses(s, t, r) ==
    LET e   == EncLong(s.m, s.val, r.path, r.f, r.n)
        len == LongLen(e, r.n)
        nt  == Len(r.tail)
    IN  IF r.res # len THEN {IF r.res < 0 THEN "enc.fails" ELSE "enc.length"}
        ELSE If(\/ \E i \in 1..Len(r.head) : r.head[i] # LongAt(e, r.n, i)
                \/ \E i \in 1..nt : r.tail[i] # LongAt(e, r.n, len - nt + i)
                \/ r.mid # 1, "enc.bytes")
             \cup If(r.exact # len \/ r.exactsame # 1, "enc.fails")
             \cup If(r.short >= 0, "enc.overfull")
             \cup If(r.short < 0 /\ r.short # -BufferFull, "enc.code")
             \cup (IF r.dres # len THEN {"dec.rejects", IF t.m = s.m THEN "rt.value" ELSE "evolve.value"}
                   ELSE IF t.m = s.m THEN (IF r.count # r.n \/ r.resame # 1 THEN {"rt.value", "dec.value"} ELSE {})
                   ELSE IF r.path # <<>> THEN {}
                   ELSE If(~ Evolved(s.m, s.val, t.m, r.val), "evolve.value"))

\* (the ends are long enough to settle what lies between them)
LongCovered(s, r) ==
    LET e == EncLong(s.m, s.val, r.path, r.f, r.n)
    IN  LongLen(e, r.n) # r.res \/ (/\ 120 % Len(e.unit) = 0
                                   /\ Len(e.pre) + 120 <= Len(r.head) /\ Len(e.post) + 120 <= Len(r.tail))
=============================================================================
