----------------------------- MODULE ProtoIdents -----------------------------
(* Identifiers, letter by letter.  TLC explores every name over Conf.letters of
   at most Conf.length characters and checks what the naming scheme promises:
   the two descriptions of it agree, names stay C identifiers, every word of the
   name survives, and a name that is a C name already is not changed.           *)
EXTENDS ProtoNames, Json, IOUtils

Conf == JsonDeserialize(IOEnv.PB_MODEL)
Letters == {Conf.letters[n] : n \in 1..Len(Conf.letters)}

VARIABLE name
Init == name \in {<<c>> : c \in Letters \cap Letter}
Next == Len(name) < Conf.length /\ \E c \in Letters : name' = Append(name, c)
Spec == Init /\ [][Next]_name

\* every name, and the C name it gets
Emit == Conf.print = 0 \/ PrintT(ToJson(<<Str(name'), Str(SnakeChars(name'))>>))

----------------------------------------------------------------------------
\* The scheme as the composition of three substitutions.
Lowers(t, i) == RunEnd(t, i, LowerSet)

RECURSIVE Sub1(_, _), Sub2(_, _), Sub3(_, _)
\* (.)([A-Z][a-z]+) -> \1_\2
Sub1(t, i) ==
  CASE i > Len(t) -> <<>>
    [] At(t, i + 1) \in UpperSet /\ At(t, i + 2) \in LowerSet ->
         LET e == Lowers(t, i + 2) IN <<t[i], "_">> \o SubSeq(t, i + 1, e - 1) \o Sub1(t, e)
    [] OTHER -> <<t[i]>> \o Sub1(t, i + 1)
\* _+ -> _
Sub2(t, i) ==
  CASE i > Len(t) -> <<>>
    [] t[i] = "_" -> <<"_">> \o Sub2(t, RunEnd(t, i, {"_"}))
    [] OTHER -> <<t[i]>> \o Sub2(t, i + 1)
\* ([a-z0-9])([A-Z]) -> \1_\2
Sub3(t, i) ==
  CASE i > Len(t) -> <<>>
    [] t[i] \in LowerSet \cup DigitSet /\ At(t, i + 1) \in UpperSet ->
         <<t[i], "_", t[i + 1]>> \o Sub3(t, i + 2)
    [] OTHER -> <<t[i]>> \o Sub3(t, i + 1)

Lower(t) == [n \in 1..Len(t) |-> IF t[n] \in UpperSet THEN ToLower[t[n]] ELSE t[n]]
Plain(t) == [n \in 1..Len(t) |-> IF t[n] \in Letter \cup DigitSet THEN t[n] ELSE "_"]
BySubstitution(t) == Lower(Sub3(Sub2(Sub1(Plain(t), 1), 1), 1))

----------------------------------------------------------------------------
Snake1 == SnakeChars(name)

Agree == Snake1 = BySubstitution(name)
CName == /\ \A n \in 1..Len(Snake1) : Snake1[n] \in LowerSet \cup DigitSet \cup {"_"}
         /\ Snake1[1] \in LowerSet
         /\ \A n \in 1..(Len(Snake1) - 1) : Snake1[n] # "_" \/ Snake1[n + 1] # "_"
\* only underscores and the case change
Words(t) == SelectSeq(Lower(t), LAMBDA c : c \in LowerSet \cup DigitSet)
Survives == Words(Snake1) = Words(name)
Stable == SnakeChars(Snake1) = Snake1
UpperStable == SnakeChars(Upper(Snake1)) = Snake1 \/ \E n \in 1..Len(name) : name[n] \in DigitSet
\* the parts of a dotted name do not influence each other
Apart == \A c \in Letters \cap Letter :
           SnakeChars(name \o <<".", c>>)
             = LET a == SnakeChars(name) IN (IF a[Len(a)] = "_" THEN a ELSE Append(a, "_")) \o Lower(<<c>>)
=============================================================================
