----------------------------- MODULE ProtoText -----------------------------
(* The lexical structure of a proto file.  A text is a sequence of one-character
   strings.  Lex(text) is either the tokens of the text, each with the position
   of its first character, or the position of the first lexical error:

     err = "comment"   an unterminated block comment, or a block comment inside
                       a block comment; reported before any other error
     err = "token"     a character that starts no token (this includes a quote
                       that is not closed on its line)
     err = ""          none

   Comment markers inside strings and inside line comments mean nothing.      *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

LowerSeq == <<"a","b","c","d","e","f","g","h","i","j","k","l","m",
              "n","o","p","q","r","s","t","u","v","w","x","y","z">>
UpperSeq == <<"A","B","C","D","E","F","G","H","I","J","K","L","M",
              "N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>
DigitSeq == <<"0","1","2","3","4","5","6","7","8","9">>

LowerSet == {LowerSeq[n] : n \in 1..26}
UpperSet == {UpperSeq[n] : n \in 1..26}
DigitSet == {DigitSeq[n] : n \in 1..10}
Letter   == LowerSet \cup UpperSet
Word     == Letter \cup DigitSet \cup {"_"}
HexSet   == DigitSet \cup {"a","b","c","d","e","f","A","B","C","D","E","F"}
Blank    == {" ", "\n", "\t", "\r"}
Punct    == {".", ",", "=", ";", "{", "}", "(", ")", "[", "]", "<", ">"}
Quote    == "\""
Back     == "\\"

ToLower == [u \in UpperSet |-> LowerSeq[CHOOSE n \in 1..26 : UpperSeq[n] = u]]
ToUpper == [l \in LowerSet |-> UpperSeq[CHOOSE n \in 1..26 : LowerSeq[n] = l]]
HexValue == [h \in HexSet |->
               CASE h \in DigitSet -> (CHOOSE n \in 1..10 : DigitSeq[n] = h) - 1
                 [] h \in LowerSet -> (CHOOSE n \in 1..6 : LowerSeq[n] = h) + 9
                 [] OTHER          -> (CHOOSE n \in 1..6 : UpperSeq[n] = h) + 9]

Str(chars) == FoldLeft(LAMBDA a, b : a \o b, "", chars)

\* The character at a position; "" beyond the end.
At(t, i) == IF i <= Len(t) THEN t[i] ELSE ""

\* The first position from i on whose character is not in S.
RunEnd(t, i, S) == CHOOSE j \in i..(Len(t) + 1) :
                      /\ At(t, j) \notin S
                      /\ \A n \in i..(j - 1) : t[n] \in S

\* The first position from i on that holds the characters a, b; 0 if none.
FindPair(t, i, a, b) ==
  LET hit(j) == t[j] = a /\ t[j + 1] = b
  IN IF \E j \in i..(Len(t) - 1) : hit(j)
     THEN CHOOSE j \in i..(Len(t) - 1) : hit(j) /\ \A n \in i..(j - 1) : ~hit(n)
     ELSE 0

\* The position of the quote that closes the string opened at i; 0 if the line
\* or the text ends first.  A backslash takes the next character with it.
RECURSIVE StringEnd(_, _)
StringEnd(t, j) ==
  LET c == At(t, j)
  IN CASE c = Quote -> j
       [] c = Back -> IF At(t, j + 1) \in {"", "\n"} THEN 0 ELSE StringEnd(t, j + 2)
       [] c \in {"", "\n"} -> 0
       [] OTHER -> StringEnd(t, RunEnd(t, j + 1, LowerSet))

\* Does the inside of a block comment (positions i..j) open another one?
RECURSIVE Nested(_, _, _)
Nested(t, i, j) ==
  CASE i >= j -> FALSE
    [] t[i] = "/" /\ t[i + 1] = "/" -> Nested(t, i + 2, j)
    [] t[i] = "/" /\ t[i + 1] = "*" -> TRUE
    [] OTHER -> Nested(t, i + 1, j)

\* One step of the lexer at position i: the next position and what was found.
\* what: "skip", "token" (with kind k), "bad" or "comment"
LexStep(t, i) ==
  LET c == t[i]
      d == At(t, i + 1)
      tok(k, j) == [what |-> "token", k |-> k, next |-> j]
      skip(j) == [what |-> "skip", k |-> "", next |-> j]
      bad(w, j) == [what |-> w, k |-> "", next |-> j]
  IN CASE c \in Blank -> skip(RunEnd(t, i, Blank))
       [] c = "/" /\ d = "/" ->
            skip(CHOOSE j \in (i + 2)..(Len(t) + 1) :
                    At(t, j) \in {"", "\n"} /\ \A n \in (i + 2)..(j - 1) : t[n] # "\n")
       [] c = "/" /\ d = "*" ->
            LET e == FindPair(t, i + 2, "*", "/")
            IN IF e = 0 \/ Nested(t, i + 2, e + 1) THEN bad("comment", Len(t) + 1) ELSE skip(e + 2)
       [] c = Quote ->
            LET e == StringEnd(t, i + 1)
            IN IF e = 0 THEN bad("bad", i + 1) ELSE tok("str", e + 1)
       [] c \in Letter -> tok("id", RunEnd(t, i, Word))
       [] c \in DigitSet \/ (c = "-" /\ d \in DigitSet) ->
            LET b == IF c = "-" THEN i + 1 ELSE i
            IN IF t[b] = "0" /\ At(t, b + 1) \in {"x", "X"} /\ At(t, b + 2) \in HexSet
               THEN tok("int", RunEnd(t, b + 2, HexSet))
               ELSE tok("int", RunEnd(t, b, DigitSet))
       [] c \in Punct -> tok("p", i + 1)
       [] OTHER -> bad("bad", i + 1)

\* A token: kind, text (of a string: what is between the quotes), characters, position.
Token(t, i, k, j) ==
  LET c == IF k = "str" THEN SubSeq(t, i + 1, j - 2) ELSE SubSeq(t, i, j - 1)
  IN [k |-> k, s |-> Str(c), c |-> c, p |-> i]

\* The lexer goes through the positions of the text; those inside a token or
\* comment (before st.next) are passed over.
LexAt(t, st, i) ==
  IF i < st.next THEN st
  ELSE LET s == LexStep(t, i)
       IN CASE s.what = "token" -> [st EXCEPT !.next = s.next, !.toks = Append(@, Token(t, i, s.k, s.next))]
            [] s.what = "skip" -> [st EXCEPT !.next = s.next]
            [] s.what = "bad" -> [st EXCEPT !.next = s.next, !.bad = IF @ = 0 THEN i ELSE @]
            [] OTHER -> [st EXCEPT !.next = s.next, !.comment = i]

Lex(t) ==
  LET st == FoldLeft(LAMBDA x, i : LexAt(t, x, i),
                     [next |-> 1, toks |-> <<>>, bad |-> 0, comment |-> 0],
                     [n \in 1..Len(t) |-> n])
  IN CASE st.comment # 0 -> [err |-> "comment", p |-> st.comment, toks |-> <<>>]
       [] st.bad # 0 -> [err |-> "token", p |-> st.bad, toks |-> <<>>]
       [] OTHER -> [err |-> "", p |-> 0, toks |-> st.toks]

\* Line and column (from 1) of a position.
Line(t, p) == 1 + Cardinality({n \in 1..(p - 1) : t[n] = "\n"})
Column(t, p) == p - (CHOOSE n \in 0..(p - 1) : (n = 0 \/ At(t, n) = "\n") /\ \A m \in (n + 1)..(p - 1) : t[m] # "\n")
=============================================================================
