------------------------------- MODULE PbWires -------------------------------
(***************************************************************************)
(* Inputs of decode.  TLC enumerates all sequences of up to Depth pieces,  *)
(* where a piece is one occurrence of a field of the message (in its       *)
(* various forms on the wire), an unknown field, or something malformed;   *)
(* checks what decoding them means against a declarative reading that does *)
(* not scan bytes; and prints every input for the replay on the real code. *)
(***************************************************************************)
EXTENDS PbModel

VARIABLES m, w, last, prev

wvars == <<vars, m, w, last, prev>>

(***************************************************************************)
(* Pieces: <<bytes, valid, the slot filled (0: none), the value given (for   *)
(* repeated fields, the elements)>>                                        *)
(***************************************************************************)
Pad0(bs) == [i \in 1..Len(bs) |-> IF i = Len(bs) THEN bs[i] + 128 ELSE bs[i]] \o <<0>>
IsVarint(k) == IsScalar(k) /\ ~ IsFixed32(k) /\ ~ IsFixed64(k)

Payload(f, v) ==
    IF f.kind = "message" THEN LenPrefixed(EncMsg(f.ref, v))
    ELSE IF IsLenDel(f.kind) THEN LenPrefixed(v) ELSE ScalarBytes(f.kind, v)

\* a varint kind keeps only the low bits of what is on the wire
Wide(k, v) ==
    IF k \in {"int32", "uint32", "enum"} THEN VarintOf(v \o <<1, 2, 3, 4>>)
    ELSE IF k = "bool" THEN VarintOf(<<0, 0, 0, 0, v[1], 0, 0, 0>>)
    ELSE VarintOf(VarintValue(k, v))

Fields(n) ==
    {[slot |-> i, j |-> 0, f |-> Msgs[n].fields[i]] : i \in 1..NumFields(n)}
    \cup UNION {{[slot |-> NumFields(n) + o, j |-> j, f |-> Msgs[n].oneofs[o][j]]
                  : j \in 1..Len(Msgs[n].oneofs[o])} : o \in 1..Len(Msgs[n].oneofs)}

Give(t, v) == IF t.j # 0 THEN <<t.j, v>>
              ELSE IF t.f.label = "s" /\ t.f.kind # "message" THEN v ELSE <<v>>

\* (a tuple with the bytes first, so that TLC never compares values of different fields)
Piece(b, t, v) == <<b, TRUE, t.slot, v>>
Broken(b)      == <<b, FALSE, 0, <<>>>>
Unknown(b)     == <<b, TRUE, 0, <<>>>>

Proper(t) ==
    LET f == t.f
        tag == TagBytes(f.num, WireType(f.kind))
    IN  {Piece(tag \o Payload(f, v), t, Give(t, v)) : v \in {ZeroVal(f), SomeVal(f, 0)}}
        \cup {Piece(Pad0(tag) \o Payload(f, SomeVal(f, 0)), t, Give(t, SomeVal(f, 0)))}
        \cup (IF IsVarint(f.kind)
              THEN {Piece(tag \o Pad0(Payload(f, v)), t, Give(t, v)) : v \in {ZeroVal(f)}}
                   \cup {Piece(tag \o Wide(f.kind, One(f.kind)), t, Give(t, One(f.kind)))}
              ELSE {})
        \cup (IF f.label = "r" /\ IsScalar(f.kind)
              THEN {Piece(TagBytes(f.num, 2) \o LenPrefixed(Flatten([i \in 1..Len(v) |-> ScalarBytes(f.kind, v[i])])), t, v)
                     : v \in {<<>>, <<One(f.kind), ZeroVal(f)>>}}
              ELSE {})

AnyPayload(wt) == CASE wt = 0 -> <<1>> [] wt = 1 -> Rep(2, 8) [] wt = 2 -> <<1, 65>> [] wt = 5 -> Rep(3, 4) [] OTHER -> <<>>

Improper(t) ==
    LET f == t.f
        p == TagBytes(f.num, WireType(f.kind)) \o Payload(f, SomeVal(f, 0))
    IN  {Broken(TagBytes(f.num, wt) \o AnyPayload(wt)) :
          wt \in {0, 1, 2, 3, 5, 7} \ ({WireType(f.kind)} \cup (IF f.label = "r" /\ IsScalar(f.kind) THEN {2} ELSE {}))}
        \cup {Broken(SubSeq(p, 1, Len(p) - 1))}
        \cup (IF f.label = "r" /\ IsScalar(f.kind)
              THEN {Broken(TagBytes(f.num, 2) \o (IF IsVarint(f.kind) THEN <<2, 1, 129>> ELSE <<3, 1, 1, 1>>))}
              ELSE {})

Others ==
    {Unknown(TagBytes(100, wt) \o AnyPayload(wt)) : wt \in {0, 1, 2, 5}}
    \cup {Broken(TagBytes(100, 3)), Broken(<<0, 1>>), Broken(TagBytes(100, 2) \o <<9, 1>>)}

PiecesOf(n) == UNION {Proper(t) \cup Improper(t) : t \in Fields(n)} \cup Others
Pieces == [n \in 1..Len(Msgs) |-> IF n \in Types THEN PiecesOf(n) ELSE {}]

WInit == /\ MInit
         /\ m \in Types /\ w = <<>> /\ last = Unknown(<<>>) /\ prev = <<>>

WNext == /\ Len(hist) <= Depth
         /\ last[2]
         /\ UNCHANGED <<ses, bad, m>>
         /\ \E p \in Pieces[m] :
              /\ last' = p /\ w' = w \o p[1] /\ prev' = w
              /\ hist' = Append(hist, 0)

WSpec == WInit /\ [][WNext]_wvars

Dflt == DefaultMsg(m)
D    == Decode(m, w, Dflt)

\* the memory an implementation without waste needs
Roomy == [NoSes EXCEPT !.size = Cap - 1, !.uhi = HeapSize + Msgs[m].size]
Need  == Walk(Roomy, Roomy.uhi, D.al, 1)

WEmit == Conf.print = 0
         \/ PrintT(ToJson(<<m, w', IF last'[2] THEN 1 ELSE 0, Decode(m, w', Dflt).e,
                            Walk(Roomy, Roomy.uhi, Decode(m, w', Dflt).al, 1)>>))

(***************************************************************************)
(* The declarative reading                                                 *)
(***************************************************************************)
\* what a further piece does to the value that the bytes before it mean
IsRep(n, i) == i <= NumFields(n) /\ Msgs[n].fields[i].label = "r"
Merge(v, p) ==
    IF p[3] = 0 THEN v
    ELSE IF IsRep(m, p[3]) THEN [v EXCEPT ![p[3]] = @ \o p[4]]
    ELSE [v EXCEPT ![p[3]] = p[4]]

\* C03: valid pieces are accepted; singular: the last one counts, oneof: the last
\* member, repeated: concatenation in any form, unknown: nothing
Reads == last[2] => D.e = 0 /\ D.v = Merge(Decode(m, prev, Dflt).v, last)

\* C04: malformed pieces are rejected
Rejects == ~ last[2] => D.e # 0

\* C04: the last piece cannot be cut short
Cut == \A i \in 1..(Len(last[1]) - 1) : last[2] => Decode(m, prev \o SubSeq(last[1], 1, i), Dflt).e # 0

\* what was decoded is a message, and encodes to something that means the same
Canonical == D.e = 0 => IsMsg(m, D.v) /\ LET d == Decode(m, Encode(m, D.v), Dflt) IN d.e = 0 /\ d.v = D.v

\* the canonical form is not longer than any other that is made of known fields only, in
\* memory terms: it never needs more
Memory == D.e = 0 => /\ NeedMin(D.al) <= Need - Roomy.uhi
                     /\ Need - Roomy.uhi <= NeedMax(D.al)
                     /\ NeedMax(Decode(m, Encode(m, D.v), Dflt).al) <= NeedMax(D.al)

\* packed fields: both ways to read them agree
Packed == \A t \in {t \in Fields(m) : t.f.label = "r" /\ IsScalar(t.f.kind)} :
            LET b == <<1, 0, 0, 0, 255, 255, 255, 127>>
            IN  \A i \in 1..8 : (IsVarint(t.f.kind) \/ (i % ScalarSize(t.f.kind) = 0)) =>
                  RdPacked(t.f.kind, b, 1, i) = RdPackedEach(t.f.kind, b, 1, i, <<>>)
=============================================================================
