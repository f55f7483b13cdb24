------------------------------ MODULE PbDecode ------------------------------
(***************************************************************************)
(* The meaning of decoding a byte string into a message value.             *)
(*                                                                         *)
(* Decode(m, B, v0) is a record [e, v, al]: the error code (0 if the input *)
(* is a valid serialization), the resulting value, and the sequence of     *)
(* memory requests <<size, alignment>> the decoding makes (needed to tell  *)
(* when a workspace is large enough).                                      *)
(*                                                                         *)
(* Deliberate choices of this library that the specification names:        *)
(*  - a repeated occurrence of a singular sub-message REPLACES the earlier *)
(*    one (protobuf proper merges);                                        *)
(*  - the elements of repeated message fields are decoded after the rest   *)
(*    of the enclosing message was scanned, so an error elsewhere in the   *)
(*    enclosing message is reported in preference to one inside them;      *)
(*  - groups (wire types 3 and 4) are rejected;                            *)
(*  - a decode into a message that already has data keeps the fields that  *)
(*    the input does not mention and replaces whole repeated fields.       *)
(***************************************************************************)
EXTENDS PbEncode

\* sizes are capped so that sums stay within TLC's integers
Cap == 268435456
CapAdd(a, b) == IF a > Cap - b THEN Cap ELSE a + b
CapMul(a, b) == IF b # 0 /\ a > Cap \div b THEN Cap ELSE a * b
CapLen(n)    == IF n > Cap - 1 THEN Cap - 1 ELSE n

\* the in-memory value of a varint for a scalar kind
FromVarint(k, g) ==
    LET v8 == FromGroups(g)
    IN  CASE k \in {"int32", "uint32", "enum"} -> Low(v8, 4)
          [] k = "sint32"                      -> Low(UnZigZag(v8), 4)
          [] k = "sint64"                      -> UnZigZag(v8)
          [] k = "bool"                        -> IF IsZero(v8) THEN <<0>> ELSE <<1>>
          [] OTHER                             -> v8

Slice(B, p, n) == SubSeq(B, p, p + n - 1)

\* a string is a C string: what follows an embedded NUL is not visible
CStr(s) == IF \A i \in 1..Len(s) : s[i] # 0 THEN s
           ELSE SubSeq(s, 1, (CHOOSE i \in 1..Len(s) :
                                s[i] = 0 /\ \A j \in 1..(i-1) : s[j] # 0) - 1)
Text(k, s) == IF k = "string" THEN CStr(s) ELSE s

\* one unpacked scalar: [e, p, v]
RdScalar(k, B, p, hi) ==
    IF IsFixed32(k) \/ IsFixed64(k)
    THEN LET n == ScalarSize(k)
         IN  IF hi - p + 1 < n THEN [e |-> OutOfData, p |-> p, v |-> <<>>]
             ELSE [e |-> 0, p |-> p + n, v |-> Slice(B, p, n)]
    ELSE LET r == RdVarint(B, p, hi)
         IN  IF r.e # 0 THEN [e |-> r.e, p |-> r.p, v |-> <<>>]
             ELSE [e |-> 0, p |-> r.p, v |-> FromVarint(k, r.g)]

\* the elements of a packed field that fills p..hi: [e, items]
RECURSIVE RdPackedEach(_, _, _, _, _)
RdPackedEach(k, B, p, hi, acc) ==
    IF p > hi THEN [e |-> 0, items |-> acc]
    ELSE LET r == RdScalar(k, B, p, hi)
         IN  IF r.e # 0 THEN [e |-> r.e, items |-> acc]
             ELSE RdPackedEach(k, B, r.p, hi, Append(acc, r.v))

\* (the same, without recursion where every element has the same length)
RdPacked(k, B, p, hi) ==
    LET n == IF IsFixed32(k) \/ IsFixed64(k) THEN ScalarSize(k) ELSE 1
    IN  IF n = 1 /\ \E i \in p..hi : B[i] > 127 THEN RdPackedEach(k, B, p, hi, <<>>)
        ELSE [e |-> 0, items |-> [i \in 1..((hi - p + 1) \div n) |-> RdScalar(k, B, p + (i - 1) * n, hi).v]]

\* skipping an unknown field: [e, p]
Skip(wt, B, p, lo, hi) ==
    CASE wt = 0 -> LET r == RdVarint(B, p, hi) IN [e |-> r.e, p |-> r.p]
      [] wt = 1 -> [e |-> SeekErr(p, lo, hi, 8), p |-> p + 8]
      [] wt = 5 -> [e |-> SeekErr(p, lo, hi, 4), p |-> p + 4]
      [] wt = 2 -> LET r == RdLen(B, p, hi)
                   IN  IF r.e # 0 THEN [e |-> r.e, p |-> p]
                       ELSE LET e == SeekErr(r.p, lo, hi, r.n)
                            IN  [e |-> e, p |-> IF e = 0 THEN r.p + r.n ELSE p]
      [] OTHER  -> [e |-> BadWireType, p |-> p]

RECURSIVE DecLoop(_, _, _, _, _), DecMsg(_, _, _, _, _), DecFinal(_, _, _, _),
          DecItems(_, _, _, _, _, _)

Fail(st, e) == [st EXCEPT !.e = e]

\* a decoded singular value goes into its slot
Store(st, t, v) ==
    CASE t.mem # 0       -> [st EXCEPT !.v[t.slot] = <<t.mem, v>>]
      [] t.f.label = "o" \/ t.f.kind = "message"
                         -> [st EXCEPT !.v[t.slot] = <<v>>]
      [] OTHER           -> [st EXCEPT !.v[t.slot] = v]

AddItems(st, t, items) == [st EXCEPT !.rep[t.slot] = @ \o items]

Alloc(st, size, align) == [st EXCEPT !.al = Append(@, <<size, align>>)]

\* one occurrence of a known field with wire type wt and payload at st.p
DecField(m, t, wt, B, lo, hi, st) ==
    LET f == t.f
        k == f.kind
        p == st.p
    IN
    IF f.label = "r"
    THEN IF IsScalar(k) /\ wt = WireType(k)
         THEN LET r == RdScalar(k, B, p, hi)
              IN  IF r.e # 0 THEN Fail(st, r.e)
                  ELSE AddItems([st EXCEPT !.p = r.p], t, <<r.v>>)
         ELSE IF wt # 2 THEN Fail(st, BadWireType)
         ELSE LET l == RdLen(B, p, hi)
              IN  IF l.e # 0 THEN Fail(st, l.e)
                  ELSE IF IsScalar(k)
                  THEN LET fixed == IsFixed32(k) \/ IsFixed64(k)
                           e     == IF fixed
                                    THEN IF l.n % ScalarSize(k) # 0 THEN OutOfData
                                         ELSE SeekErr(l.p, lo, hi, l.n)
                                    ELSE IF l.n > hi - l.p + 1 THEN OutOfData ELSE 0
                       IN  IF e # 0 THEN Fail(st, e)
                           ELSE LET r == RdPacked(k, B, l.p, l.p + l.n - 1)
                                IN  IF r.e # 0 THEN Fail(st, r.e)
                                    ELSE AddItems([st EXCEPT !.p = l.p + l.n], t, r.items)
                  ELSE LET e == SeekErr(l.p, lo, hi, l.n)
                       IN  IF e # 0 THEN Fail(st, e)
                           ELSE AddItems([st EXCEPT !.p = l.p + l.n], t,
                                         << <<l.p, l.p + l.n - 1>> >>)
    ELSE IF k = "message"
    THEN LET st1 == Alloc(st, Msgs[f.ref].size, MsgAlign)
             l   == RdLen(B, p, hi)
         IN  IF wt # 2 THEN Fail(st1, BadWireType)
             ELSE IF l.e # 0 THEN Fail(st1, l.e)
             ELSE IF l.n > hi - l.p + 1 THEN Fail(st1, OutOfData)
             ELSE LET r == DecMsg(f.ref, B, l.p, l.p + l.n - 1, DefaultMsg(f.ref))
                      st2 == [st1 EXCEPT !.al = @ \o r.al]
                  IN  IF r.e # 0 THEN Fail(st2, r.e)
                      ELSE Store([st2 EXCEPT !.p = l.p + l.n], t, r.v)
    ELSE IF wt # WireType(k) THEN Fail(st, BadWireType)
    ELSE IF IsLenDel(k)
    THEN LET l == RdLen(B, p, hi)
         IN  IF l.e # 0 THEN Fail(st, l.e)
             ELSE LET st1 == Alloc(st, CapLen(l.n) + (IF k = "string" THEN 1 ELSE 0), 1)
                  IN  IF l.n > hi - l.p + 1 THEN Fail(st1, OutOfData)
                      ELSE Store([st1 EXCEPT !.p = l.p + l.n], t,
                                 Text(k, Slice(B, l.p, l.n)))
    ELSE LET r == RdScalar(k, B, p, hi)
         IN  IF r.e # 0 THEN Fail(st, r.e) ELSE Store([st EXCEPT !.p = r.p], t, r.v)

\* the fields of a message, one after the other
DecLoop(m, B, lo, hi, st) ==
    IF st.e # 0 \/ st.p > hi THEN st
    ELSE LET r == RdVarint(B, st.p, hi)
         IN  IF r.e # 0 THEN Fail(st, r.e)
             ELSE LET num == TagNum(r.g)
                      wt  == TagWt(r.g)
                  IN  IF num = 0 THEN Fail(st, BadFieldNumber)
                      ELSE IF num \in DOMAIN TagMap[m]
                      THEN DecLoop(m, B, lo, hi,
                                   DecField(m, TagMap[m][num], wt, B, lo, hi,
                                            [st EXCEPT !.p = r.p]))
                      ELSE LET s == Skip(wt, B, r.p, lo, hi)
                           IN  IF s.e # 0 THEN Fail(st, s.e)
                               ELSE DecLoop(m, B, lo, hi, [st EXCEPT !.p = s.p])

\* elements of a repeated message field
DecItems(mm, B, slices, i, vs, al) ==
    IF i > Len(slices) THEN [e |-> 0, v |-> vs, al |-> al]
    ELSE LET r == DecMsg(mm, B, slices[i][1], slices[i][2], DefaultMsg(mm))
         IN  IF r.e # 0 THEN [e |-> r.e, v |-> vs, al |-> al \o r.al]
             ELSE DecItems(mm, B, slices, i + 1, Append(vs, r.v), al \o r.al)

\* the repeated fields, in declaration order
DecFinal(m, B, i, st) ==
    IF i > NumFields(m) \/ st.e # 0 THEN st
    ELSE LET f  == Msgs[m].fields[i]
             rp == st.rep[i]
         IN  IF f.label # "r" \/ rp = <<>> THEN DecFinal(m, B, i + 1, st)
             ELSE LET st1 == Alloc(st, CapMul(f.isz, Len(rp)), 8)
                  IN  IF IsScalar(f.kind)
                      THEN DecFinal(m, B, i + 1, [st1 EXCEPT !.v[i] = rp])
                      ELSE IF f.kind = "message"
                      THEN LET r   == DecItems(f.ref, B, rp, 1, <<>>, <<>>)
                               st2 == [st1 EXCEPT !.al = @ \o r.al, !.v[i] = r.v]
                           IN  IF r.e # 0 THEN Fail(st2, r.e) ELSE DecFinal(m, B, i + 1, st2)
                      ELSE LET items == [j \in 1..Len(rp) |->
                                           Text(f.kind, SubSeq(B, rp[j][1], rp[j][2]))]
                               als   == [j \in 1..Len(rp) |->
                                           <<rp[j][2] - rp[j][1] + 1
                                             + (IF f.kind = "string" THEN 1 ELSE 0), 1>>]
                           IN  DecFinal(m, B, i + 1,
                                        [st1 EXCEPT !.al = @ \o als, !.v[i] = items])

DecMsg(m, B, lo, hi, v0) ==
    LET st0 == [e |-> 0, p |-> lo, v |-> v0, al |-> <<>>,
                rep |-> [i \in 1..NumSlots(m) |-> <<>>]]
        st1 == DecLoop(m, B, lo, hi, st0)
        st2 == DecFinal(m, B, 1, st1)
    IN  [e |-> st2.e, v |-> st2.v, al |-> st2.al]

Decode(m, B, v0) == DecMsg(m, B, 1, Len(B), v0)

(***************************************************************************)
(* Which results are possible with `avail' bytes of workspace left: the    *)
(* memory a decoding needs lies between the plain sum of its requests and  *)
(* that sum plus worst-case alignment padding.                             *)
(***************************************************************************)
RECURSIVE SumMin(_, _), SumMax(_, _)
SumMin(al, i) == IF i > Len(al) THEN 0 ELSE CapAdd(al[i][1], SumMin(al, i + 1))
SumMax(al, i) == IF i > Len(al) THEN 0
                 ELSE CapAdd(al[i][1] + (al[i][2] - 1), SumMax(al, i + 1))
NeedMin(al) == SumMin(al, 1)
NeedMax(al) == SumMax(al, 1)

\* the set of error codes (0: success) decoding may report
Outcomes(d, avail) ==
    IF NeedMax(d.al) <= avail THEN {d.e}
    ELSE IF d.e = 0 /\ NeedMin(d.al) > avail THEN {OutOfMemory}
    ELSE {d.e, OutOfMemory}
=============================================================================
