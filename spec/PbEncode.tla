------------------------------ MODULE PbEncode ------------------------------
(***************************************************************************)
(* The canonical proto3 encoding of a message value.  Fields in            *)
(* declaration order, then the oneofs from last to first (the order is     *)
(* value independent and therefore part of the contract).                  *)
(***************************************************************************)
EXTENDS PbSchema

\* the varint payload of a varint kind, as an 8-byte value
VarintValue(k, v) ==
    CASE k \in {"int32", "enum", "int64"} -> SignExt(v)
      [] k \in {"sint32", "sint64"}       -> ZigZag(SignExt(v))
      [] OTHER                            -> ZeroExt(v)

RECURSIVE Flatten(_)
Flatten(ss) == IF Len(ss) = 0 THEN <<>>
               ELSE IF Len(ss) = 1 THEN ss[1]
               ELSE LET h == Len(ss) \div 2
                    IN  Flatten(SubSeq(ss, 1, h)) \o Flatten(SubSeq(ss, h + 1, Len(ss)))

ScalarBytes(k, v) == IF IsFixed32(k) \/ IsFixed64(k) THEN v ELSE VarintOf(VarintValue(k, v))

LenPrefixed(bs) == VarintNat(Len(bs)) \o bs

RECURSIVE EncMsg(_, _), EncAlways(_, _), EncField(_, _)

\* tag and payload of one value
EncAlways(f, v) ==
    TagBytes(f.num, WireType(f.kind)) \o
    (IF f.kind = "message" THEN LenPrefixed(EncMsg(f.ref, v))
     ELSE IF IsLenDel(f.kind) THEN LenPrefixed(v)
     ELSE ScalarBytes(f.kind, v))

EncField(f, v) ==
    CASE f.label = "s" /\ f.kind = "message" -> IF v = <<>> THEN <<>> ELSE EncAlways(f, v[1])
      [] f.label = "s" /\ IsLenDel(f.kind) /\ f.kind # "message"
                                             -> IF v = <<>> THEN <<>> ELSE EncAlways(f, v)
      [] f.label = "s" /\ IsScalar(f.kind)   -> IF IsZero(v) THEN <<>> ELSE EncAlways(f, v)
      [] f.label = "o"                       -> IF v = <<>> THEN <<>> ELSE EncAlways(f, v[1])
      [] f.label = "r" /\ IsScalar(f.kind)   ->
            IF v = <<>> THEN <<>>
            ELSE TagBytes(f.num, 2)
                 \o LenPrefixed(Flatten([i \in 1..Len(v) |-> ScalarBytes(f.kind, v[i])]))
      [] OTHER                               -> Flatten([i \in 1..Len(v) |-> EncAlways(f, v[i])])

EncOneof(o, v) == IF v[1] = 0 THEN <<>> ELSE EncAlways(o[v[1]], v[2])

\* members in output order
EncMsg(m, val) ==
    LET nf == NumFields(m)
        no == Len(Msgs[m].oneofs)
    IN  Flatten([i \in 1..(nf + no) |->
            IF i <= no
            THEN EncOneof(Msgs[m].oneofs[no + 1 - i], val[nf + no + 1 - i])
            ELSE EncField(Msgs[m].fields[i - no], val[i - no])])

Encode(m, val) == EncMsg(m, val)

(***************************************************************************)
(* Long encodings, as pre \o unit repeated n times \o post: field f of the *)
(* message at path in val holds n bytes of value 65, or n default          *)
(* elements.  A path is a sequence of <<slot, index>>.                     *)
(***************************************************************************)
DefaultItem(f) == IF f.kind = "message" THEN DefaultMsg(f.ref) ELSE DefaultOf(f.kind)

LongField(f, n) ==
    IF f.label \in {"s", "o"}
    THEN [pre |-> TagBytes(f.num, 2) \o VarintNat(n), unit |-> <<65>>, post |-> <<>>]
    ELSE IF IsScalar(f.kind)
    THEN LET u == ScalarBytes(f.kind, DefaultItem(f))
         IN  [pre |-> TagBytes(f.num, 2) \o VarintNat(n * Len(u)), unit |-> u, post |-> <<>>]
    ELSE [pre |-> <<>>, unit |-> EncAlways(f, DefaultItem(f)), post |-> <<>>]

LongLen(e, n) == Len(e.pre) + n * Len(e.unit) + Len(e.post)
LongAt(e, n, i) == IF i <= Len(e.pre) THEN e.pre[i]
                   ELSE IF i <= Len(e.pre) + n * Len(e.unit)
                   THEN e.unit[((i - Len(e.pre) - 1) % Len(e.unit)) + 1]
                   ELSE e.post[i - Len(e.pre) - n * Len(e.unit)]

\* the items of a repeated (or singular) sub-message around the one with the run
LongInner(f, v, at, inner, n) ==
    [pre  |-> (IF f.label = "s" THEN <<>> ELSE Flatten([i \in 1..(at - 1) |-> EncAlways(f, v[i])]))
              \o TagBytes(f.num, 2) \o VarintNat(LongLen(inner, n)) \o inner.pre,
     unit |-> inner.unit,
     post |-> inner.post
              \o (IF f.label = "s" THEN <<>> ELSE Flatten([i \in 1..(Len(v) - at) |-> EncAlways(f, v[at + i])]))]

RECURSIVE EncLong(_, _, _, _, _)
EncLong(m, val, path, f, n) ==
    LET nf   == NumFields(m)
        no   == Len(Msgs[m].oneofs)
        slot == IF path = <<>> THEN f ELSE path[1][1]
        k    == IF slot <= nf THEN no + slot ELSE nf + no + 1 - slot
        Part(i) == IF i <= no THEN EncOneof(Msgs[m].oneofs[no + 1 - i], val[nf + no + 1 - i])
                   ELSE EncField(Msgs[m].fields[i - no], val[i - no])
        mine == IF path = <<>> THEN LongField(Msgs[m].fields[f], n)
                ELSE IF slot > nf
                THEN LET fld == Msgs[m].oneofs[slot - nf][val[slot][1]]
                     IN  LongInner([fld EXCEPT !.label = "s"], <<>>, 1,
                                   EncLong(fld.ref, val[slot][2], Tail(path), f, n), n)
                ELSE LET fld == Msgs[m].fields[slot]
                         at  == IF fld.label = "s" THEN 1 ELSE path[1][2]
                     IN  LongInner(fld, val[slot], at, EncLong(fld.ref, val[slot][at], Tail(path), f, n), n)
    IN  [pre  |-> Flatten([i \in 1..(k - 1) |-> Part(i)]) \o mine.pre,
         unit |-> mine.unit,
         post |-> mine.post \o Flatten([i \in 1..(nf + no - k) |-> Part(k + i)])]
=============================================================================
