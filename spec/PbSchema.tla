------------------------------ MODULE PbSchema ------------------------------
(***************************************************************************)
(* Schemas and message values.                                             *)
(*                                                                         *)
(* Msgs is a sequence of message descriptors                               *)
(*   [name, fields, oneofs, size]                                          *)
(* where fields is a sequence of field descriptors [num, kind, label, ref, *)
(* isz] ("s"ingular, "o"ptional, "r"epeated) and oneofs a sequence of      *)
(* sequences of field descriptors (label "u").  ref is the index of the    *)
(* message type for kind "message"; isz the in-memory size of one element  *)
(* of a repeated field; size the in-memory size of the message struct.     *)
(*                                                                         *)
(* The value of a message is a sequence of slots: one per field, then one  *)
(* per oneof.  Scalars are little-endian byte tuples, strings and bytes    *)
(* are byte sequences, an absent sub-message or optional is <<>>, a        *)
(* present one <<v>>, a oneof is <<case, value>> with case 0 for none.     *)
(***************************************************************************)
EXTENDS PbBytes

CONSTANT Msgs

Kinds32 == {"int32", "uint32", "sint32", "fixed32", "sfixed32", "float", "enum"}
Kinds64 == {"int64", "uint64", "sint64", "fixed64", "sfixed64", "double"}

IsFixed32(k) == k \in {"fixed32", "sfixed32", "float"}
IsFixed64(k) == k \in {"fixed64", "sfixed64", "double"}
IsLenDel(k)  == k \in {"string", "bytes", "message"}
IsScalar(k)  == ~ IsLenDel(k)
WireType(k)  == IF IsFixed32(k) THEN 5 ELSE IF IsFixed64(k) THEN 1
                ELSE IF IsLenDel(k) THEN 2 ELSE 0

ScalarSize(k) == IF k = "bool" THEN 1 ELSE IF k \in Kinds32 THEN 4 ELSE 8

DefaultOf(k) == IF IsLenDel(k) THEN <<>> ELSE Rep(0, ScalarSize(k))

NumFields(m) == Len(Msgs[m].fields)
NumSlots(m)  == NumFields(m) + Len(Msgs[m].oneofs)

DefaultSlot(f) == IF f.label = "s" THEN DefaultOf(f.kind) ELSE <<>>
DefaultMsg(m) == [i \in 1..NumSlots(m) |->
                    IF i <= NumFields(m) THEN DefaultSlot(Msgs[m].fields[i])
                    ELSE <<0, <<>>>>]

(* Field number -> [slot, mem, f]; mem is 0 for ordinary fields.  With two *)
(* occurrences of one number the first declaration counts (such schemas    *)
(* are invalid and never generated).                                       *)
AllTargets(m) ==
    [i \in 1..NumFields(m) |-> [slot |-> i, mem |-> 0, f |-> Msgs[m].fields[i]]]

TargetSet(m) ==
    {[slot |-> i, mem |-> 0, f |-> Msgs[m].fields[i]] : i \in 1..NumFields(m)}
    \cup UNION {{[slot |-> NumFields(m) + o, mem |-> j, f |-> Msgs[m].oneofs[o][j]]
                  : j \in 1..Len(Msgs[m].oneofs[o])} : o \in 1..Len(Msgs[m].oneofs)}

TagMapOf(m) == LET ts == TargetSet(m)
               IN [n \in {t.f.num : t \in ts} |-> CHOOSE t \in ts : t.f.num = n]

TagMap == [m \in 1..Len(Msgs) |-> TagMapOf(m)]

MsgAlign == 8

\* every oneof of the message has one of its members, or none
RECURSIVE Shaped(_, _)
ShapedField(f, v) == f.kind # "message" \/ \A n \in 1..Len(v) : Shaped(f.ref, v[n])
Shaped(m, val) ==
    \A i \in 1..NumSlots(m) :
        IF i <= NumFields(m) THEN ShapedField(Msgs[m].fields[i], val[i])
        ELSE LET o == Msgs[m].oneofs[i - NumFields(m)]
             IN  /\ val[i][1] \in 0..Len(o)
                 /\ val[i][1] # 0 /\ o[val[i][1]].kind = "message" => Shaped(o[val[i][1]].ref, val[i][2])
=============================================================================
