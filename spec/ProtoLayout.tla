----------------------------- MODULE ProtoLayout -----------------------------
(* Texts, fragment by fragment.  TLC explores every text of at most Conf.length
   fragments and checks what the lexical structure promises: tokens are exactly
   what is not layout, layout between tokens does not matter, texts that are
   complete can be put together line by line, and every error has a place.  It
   prints every text; they are read by the real parser, whose answers ProtoTrace
   validates.                                                                  *)
EXTENDS ProtoText, Json, IOUtils

Conf == JsonDeserialize(IOEnv.PB_MODEL)
Frags == {Conf.frags[n] : n \in 1..Len(Conf.frags)}      \* sequences of characters

VARIABLES text, n
vars == <<text, n>>
Init == text = <<>> /\ n = 0
Next == n < Conf.length /\ n' = n + 1 /\ \E f \in Frags : text' = text \o f
Spec == Init /\ [][Next]_vars

Emit == Conf.print = 0 \/ PrintT(ToJson(<<Str(text')>>))
View == text

----------------------------------------------------------------------------
L == Lex(text)
Kinds(lx) == [i \in 1..Len(lx.toks) |-> <<lx.toks[i].k, lx.toks[i].s>>]
Insert(t, p, x) == SubSeq(t, 1, p - 1) \o x \o SubSeq(t, p, Len(t))

Size(tk) == Len(tk.c) + (IF tk.k = "str" THEN 2 ELSE 0)
EndOf(tk) == tk.p + Size(tk)
Gaps(lx) == [i \in 1..(Len(lx.toks) + 1) |->
               SubSeq(text, IF i = 1 THEN 1 ELSE EndOf(lx.toks[i - 1]),
                      IF i > Len(lx.toks) THEN Len(text) ELSE lx.toks[i].p - 1)]

\* Tokens are in order, do not overlap, and are what stands in the text; there are
\* no tokens between them.
Tiling ==
  L.err = "" =>
    /\ \A i \in 1..Len(L.toks) :
         /\ L.toks[i].p >= (IF i = 1 THEN 1 ELSE EndOf(L.toks[i - 1]))
         /\ EndOf(L.toks[i]) <= Len(text) + 1
         /\ L.toks[i].k # "str" => L.toks[i].c = SubSeq(text, L.toks[i].p, EndOf(L.toks[i]) - 1)
         /\ L.toks[i].k = "str" => /\ text[L.toks[i].p] = Quote /\ text[EndOf(L.toks[i]) - 1] = Quote
                                   /\ L.toks[i].c = SubSeq(text, L.toks[i].p + 1, EndOf(L.toks[i]) - 2)
    /\ \A g \in {Gaps(L)[i] : i \in 1..(Len(L.toks) + 1)} :
         LET x == Lex(g) IN x.err = "" /\ x.toks = <<>>

\* Layout in front of any token, or at the end, changes nothing.
Layouts == {<<" ">>, <<"\n">>, <<"/", "*", "*", "/">>, <<"/", "*", "/", "/", Quote, "*", "/">>,
            <<"/", "/", "/", "*", Quote, "\n">>}
Places(lx) == {lx.toks[i].p : i \in 1..Len(lx.toks)}
Inert ==
  L.err = "" =>
    \A p \in Places(L) : \A x \in Layouts :
      LET y == Lex(Insert(text, p, x)) IN y.err = "" /\ Kinds(y) = Kinds(L)
\* (at the end only after a line break: the text may end in a line comment)
InertAtEnd ==
  L.err = "" => \A x \in Layouts :
      LET y == Lex(text \o <<"\n">> \o x) IN y.err = "" /\ Kinds(y) = Kinds(L)

\* The tokens with one blank between them have the same tokens.
Spelled(tk) == IF tk.k = "str" THEN <<Quote>> \o tk.c \o <<Quote>> ELSE tk.c
Normal(lx) == FoldLeft(LAMBDA a, tk : a \o Spelled(tk) \o <<" ">>, <<>>, lx.toks)
NormalForm == L.err = "" => LET y == Lex(Normal(L)) IN y.err = "" /\ Kinds(y) = Kinds(L)

\* A complete text followed by another one on the next line.
Seconds == {<<"a">>, <<Quote, "/", "/", Quote>>, <<"/", "*", "\n", "*", "/", "b">>, <<"/", "/">>, <<"*", "/">>, <<Quote>>}
Composes ==
  L.err = "" =>
    \A x \in Seconds :
      LET y == Lex(text \o <<"\n">> \o x)
          z == Lex(x)
      IN y.err = z.err /\ (IF z.err = "" THEN Kinds(y) = Kinds(L) \o Kinds(z)
                           ELSE z.err = "comment" \/ y.p = Len(text) + 1 + z.p)

\* An error is at a character of the text that is no blank, and nothing that
\* follows the line of a bad character hides it, except an error in a comment.
Errors ==
  L.err # "" =>
    /\ L.p \in 1..Len(text)
    /\ text[L.p] \notin {" ", "\n"}
    /\ LET y == Lex(text \o <<"\n", "a">>)
       IN IF L.err = "comment" THEN y.err = "comment" ELSE y.err = "token" /\ y.p = L.p
    /\ Line(text, L.p) >= 1 /\ Column(text, L.p) >= 1
    /\ Line(text, L.p) = Line(text, L.p - 1) => L.p = 1 \/ Column(text, L.p) = Column(text, L.p - 1) + 1 \/ text[L.p - 1] = "\n"
=============================================================================
