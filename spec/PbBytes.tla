------------------------------ MODULE PbBytes ------------------------------
(***************************************************************************)
(* Byte-level arithmetic.  TLC integers are 32 bit, so every 64-bit value  *)
(* is a little-endian tuple of 8 bytes; a varint is a sequence of 7-bit    *)
(* groups (least significant first).                                       *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences

Byte == 0..255

P2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256>>          \* P2[i+1] = 2^i

Rep(b, n) == [i \in 1..n |-> b]
Zero8 == Rep(0, 8)

IsZero(bs) == \A i \in 1..Len(bs) : bs[i] = 0

\* the sign of a little-endian two's complement value
Neg(bs) == bs[Len(bs)] >= 128

SignExt(bs) == bs \o Rep(IF Neg(bs) THEN 255 ELSE 0, 8 - Len(bs))
ZeroExt(bs) == bs \o Rep(0, 8 - Len(bs))
Low(bs, n)  == SubSeq(bs, 1, n)
Compl(bs)   == [i \in 1..Len(bs) |-> 255 - bs[i]]
Shl1(bs)    == [i \in 1..Len(bs) |->
                  ((2 * bs[i]) % 256) + (IF i > 1 THEN bs[i-1] \div 128 ELSE 0)]
Shr1(bs)    == [i \in 1..Len(bs) |->
                  bs[i] \div 2 + (IF i < Len(bs) THEN 128 * (bs[i+1] % 2) ELSE 0)]

\* zigzag on 64 bits
ZigZag(bs)   == IF Neg(bs) THEN Compl(Shl1(bs)) ELSE Shl1(bs)
UnZigZag(bs) == IF bs[1] % 2 = 1 THEN Compl(Shr1(bs)) ELSE Shr1(bs)

\* the k-th (0-based) 7-bit group of an 8-byte value
Group(v, k) ==
    LET j == (7 * k) \div 8
        s == (7 * k) % 8
    IN  (v[j+1] \div P2[s+1] + (IF j < 7 THEN v[j+2] * P2[9-s] ELSE 0)) % 128

RECURSIVE Top(_, _)
Top(gs, n) == IF n = 1 \/ gs[n] # 0 THEN n ELSE Top(gs, n - 1)

\* minimal base-128 varint of an 8-byte value
VarintOf(v) ==
    LET gs == [k \in 1..10 |-> Group(v, k - 1)]
        n  == Top(gs, 10)
    IN  [k \in 1..n |-> IF k < n THEN gs[k] + 128 ELSE gs[k]]

\* the 8-byte value of a sequence of at most ten 7-bit groups (mod 2^64)
FromGroups(g) ==
    LET G(j) == IF j < Len(g) THEN g[j+1] ELSE 0
    IN  [m \in 1..8 |->
           LET j == (8 * (m - 1)) \div 7
               s == (8 * (m - 1)) % 7
           IN  (G(j) \div P2[s+1] + G(j+1) * P2[8-s]) % 256]

\* minimal varint of a TLC natural
RECURSIVE VarintNat(_)
VarintNat(n) == IF n < 128 THEN <<n>> ELSE <<(n % 128) + 128>> \o VarintNat(n \div 128)

\* tag of a field (number < 2^29), without computing number * 8
TagBytes(num, wt) ==
    LET g0 == (num % 16) * 8 + wt
        r  == num \div 16
    IN  IF r = 0 THEN <<g0>> ELSE <<g0 + 128>> \o VarintNat(r)

(***************************************************************************)
(* Reading.  B is the whole input, p the next position, hi the last        *)
(* readable position.  Results are records [e, p, g]: error code or 0,     *)
(* next position, groups.                                                  *)
(***************************************************************************)
BadWireType     == 1
OutOfData       == 2
OutOfMemory     == 3
BufferFull      == 4
BadFieldNumber  == 5
VarintOverflow  == 6
SeekOverflow    == 7
LengthOverflow  == 8

RECURSIVE FirstLow(_, _, _)
FirstLow(B, p, last) == IF p > last THEN 0
                        ELSE IF B[p] < 128 THEN p ELSE FirstLow(B, p + 1, last)

RdVarint(B, p, hi) ==
    LET last == IF hi < p + 9 THEN hi ELSE p + 9
        i    == FirstLow(B, p, last)
    IN  IF i = 0
        THEN [e |-> IF last = p + 9 THEN VarintOverflow ELSE OutOfData, p |-> hi + 1, g |-> <<>>]
        ELSE [e |-> 0, p |-> i + 1, g |-> [k \in 1..(i - p + 1) |-> B[p + k - 1] % 128]]

GroupAt(g, k) == IF k <= Len(g) THEN g[k] ELSE 0

\* a tag (a 64-bit value: the tenth group has one bit) has 32 bits; the number
\* of one that does not fit is 0, which is no field number
TagTooBig(g) ==
    \/ \E k \in 6..Len(g) : k < 10 /\ g[k] # 0
    \/ GroupAt(g, 10) % 2 = 1
    \/ GroupAt(g, 5) > 15
TagNum(g) == IF TagTooBig(g) THEN 0
             ELSE GroupAt(g, 1) \div 8 + GroupAt(g, 2) * 16 + GroupAt(g, 3) * 2048
             + GroupAt(g, 4) * 262144 + GroupAt(g, 5) * 33554432
TagWt(g)  == g[1] % 8

\* a length (a 64-bit value: the tenth group has one bit) must be below 2^31 - 1
LenTooBig(g) ==
    \/ \E k \in 6..Len(g) : k < 10 /\ g[k] # 0
    \/ GroupAt(g, 10) % 2 = 1
    \/ GroupAt(g, 5) > 7
    \/ GroupAt(g, 5) = 7 /\ \A k \in 1..4 : g[k] = 127
LenNat(g) == GroupAt(g, 1) + GroupAt(g, 2) * 128 + GroupAt(g, 3) * 16384
             + GroupAt(g, 4) * 2097152 + GroupAt(g, 5) * 268435456

RdLen(B, p, hi) ==
    LET r == RdVarint(B, p, hi)
    IN  IF r.e # 0 THEN [e |-> r.e, p |-> r.p, n |-> 0]
        ELSE IF LenTooBig(r.g) THEN [e |-> LengthOverflow, p |-> r.p, n |-> 0]
        ELSE [e |-> 0, p |-> r.p, n |-> LenNat(r.g)]

\* moving n bytes forward from p in a slice that starts at lo and ends at hi
\* (the position inside a slice is a C int)
SeekErr(p, lo, hi, n) == IF n > 2147483647 - (p - lo) THEN SeekOverflow
                         ELSE IF n > hi - p + 1 THEN OutOfData ELSE 0
=============================================================================
