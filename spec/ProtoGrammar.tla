----------------------------- MODULE ProtoGrammar -----------------------------
(* The grammar as productions, independent of the recursive-descent reading of it
   in ProtoParse.  TLC derives every file of at most Conf.length tokens (leftmost
   derivations), then damages it once (a token dropped, doubled, replaced or two
   exchanged), and checks that

     Complete   every derived file is read, with exactly the declarations the
                derivation made (so a file has one meaning),
     Balanced   what is read has matching brackets and ends at the end of a
                declaration, whatever was damaged.

   It prints every complete file as its tokens; the real parser reads them and
   ProtoTrace validates what it made of them.

   Symbols: "$X" is a nonterminal, "#x" counts a declaration of kind x, anything
   else is a token.                                                            *)
EXTENDS ProtoParse, Json, IOUtils

Conf == JsonDeserialize(IOEnv.PB_MODEL)
\* Conf.root, .length, .print, .damage (0/1), .ids, .types, .nums, .strs, .alphabet
Each1(x) == [n \in 1..Len(x) |-> <<x[n]>>]

Rules == [
  Root     |-> <<Conf.root>>,
  File     |-> << <<>>, <<"$Decl", "$File">> >>,
  Decl     |-> << <<"$Message">>, <<"$Enum">>, <<"$Service">>, <<"$Import">>, <<"#p", "package", "$FullId", ";">>,
                  <<"#t", "$Option">>, <<";">> >>,
  Import   |-> << <<"#i", "import", "$Weak", "$Str", ";">> >>,
  Weak     |-> << <<>>, <<"weak">>, <<"public">> >>,
  Option   |-> << <<"option", "$OptName", "=", "$Const", ";">> >>,
  OptName  |-> << <<"$FullId">>, <<"(", "$FullId", ")">>, <<"(", "$FullId", ")", ".", "$FullId">> >>,
  Const    |-> << <<"$FullId">>, <<"$Num">>, <<"$Str">>, <<"true">> >>,
  Message  |-> << <<"#m", "message", "$Id", "{", "$Body", "}">> >>,
  Body     |-> << <<>>, <<"$Member", "$Body">> >>,
  Member   |-> << <<"#f", "$Label", "$Type", "$Id", "=", "$Num", "$Opts", ";">>, <<"$Message">>, <<"$Enum">>,
                  <<"#o", "oneof", "$Id", "{", "$OneBody", "}">>,
                  <<"#f", "#m", "#k", "#k", "map", "<", "$Key", ",", "$Type", ">", "$Id", "=", "$Num", "$Opts", ";">>,
                  <<"reserved", "$Ranges", ";">>, <<"reserved", "$Strs", ";">>, <<"$Option">>, <<";">> >>,
  Label    |-> << <<>>, <<"repeated">>, <<"optional">> >>,
  Opts     |-> << <<>>, <<"[", "$Assigns", "]">> >>,
  Assigns  |-> << <<"$OptName", "=", "$Const">>, <<"$OptName", "=", "$Const", ",", "$Assigns">> >>,
  Ranges   |-> << <<"$Range">>, <<"$Range", ",", "$Ranges">> >>,
  Range    |-> << <<"$Num">>, <<"$Num", "to", "$Num">>, <<"$Num", "to", "max">> >>,
  Strs     |-> << <<"$Str">>, <<"$Str", ",", "$Strs">> >>,
  OneBody  |-> << <<>>, <<"#g", "$Type", "$Id", "=", "$Num", "$Opts", ";", "$OneBody">>, <<"$Option", "$OneBody">>,
                  <<";", "$OneBody">> >>,
  Enum     |-> << <<"#e", "enum", "$Id", "{", "$EnumBody", "}">> >>,
  EnumBody |-> << <<>>, <<"#v", "$Id", "=", "$Num", "$Opts", ";", "$EnumBody">>, <<"$Option", "$EnumBody">>,
                  <<";", "$EnumBody">> >>,
  Service  |-> << <<"#s", "service", "$Id", "{", "$SvcBody", "}">> >>,
  SvcBody  |-> << <<>>, <<"#r", "rpc", "$Id", "$Arg", "returns", "$Arg", "$RpcEnd", "$SvcBody">>,
                  <<"$Option", "$SvcBody">>, <<";", "$SvcBody">> >>,
  Arg      |-> << <<"(", "$Type", ")">>, <<"(", "stream", "$Type", ")">> >>,
  RpcEnd   |-> << <<";">>, <<"{", "$Options", "}">> >>,
  Options  |-> << <<>>, <<"$Option", "$Options">> >>,
  FullId   |-> << <<"$Id">>, <<"$Id", ".", "$FullId">> >>,
  Type     |-> Each1(Conf.types) \o (IF Conf.dotted = 1 THEN << <<"$FullId">>, <<".", "$FullId">> >> ELSE <<>>),
  Key      |-> << <<"int32">> >>,
  Id       |-> Each1(Conf.ids),
  Num      |-> Each1(Conf.nums),
  Str      |-> Each1(Conf.strs) ]
NonTerm == [s \in {"$" \o x : x \in DOMAIN Rules} |-> CHOOSE x \in DOMAIN Rules : "$" \o x = s]
Marks == {"#m", "#f", "#e", "#v", "#o", "#g", "#s", "#r", "#i", "#t", "#p", "#k"}

\* The least number of tokens a symbol derives.
RECURSIVE Least(_)
LeastSeq(w, t) == FoldLeft(LAMBDA a, s : a + (IF s \in Marks THEN 0 ELSE IF s \in DOMAIN NonTerm THEN t[NonTerm[s]] ELSE 1), 0, w)
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Least(k) == IF k = 0 THEN [x \in DOMAIN Rules |-> 99]
            ELSE LET t == Least(k - 1)
                 IN [x \in DOMAIN Rules |-> MinOf({99} \cup {LeastSeq(Rules[x][n], t) : n \in 1..Len(Rules[x])})]
Need == Least(8)

----------------------------------------------------------------------------
VARIABLES stack, toks, count, hurt
vars == <<stack, toks, count, hurt>>

Zeros == [s \in Marks |-> 0]
\* tokens and marks at the top of the stack are taken at once
Taken(st) == IF \E n \in 1..Len(st) : st[n] \in DOMAIN NonTerm
             THEN (CHOOSE n \in 1..Len(st) : st[n] \in DOMAIN NonTerm /\ \A k \in 1..(n - 1) : st[k] \notin DOMAIN NonTerm) - 1
             ELSE Len(st)
Settle(st, tk, ct) ==
  LET n == Taken(st)
      head == SubSeq(st, 1, n)
  IN /\ stack' = SubSeq(st, n + 1, Len(st))
     /\ toks' = tk \o SelectSeq(head, LAMBDA s : s \notin Marks)
     /\ count' = [s \in Marks |-> ct[s] + Len(SelectSeq(head, LAMBDA x : x = s))]

Init == stack = <<"$Root">> /\ toks = <<>> /\ count = Zeros /\ hurt = 0

Derive ==
  /\ stack # <<>>
  /\ \E n \in 1..Len(Rules[NonTerm[stack[1]]]) :
       LET st == Rules[NonTerm[stack[1]]][n] \o Tail(stack)
       IN /\ Len(toks) + LeastSeq(st, Need) <= Conf.length
          /\ Settle(st, toks, count)
  /\ hurt' = hurt

Alphabet == {Conf.alphabet[n] : n \in 1..Len(Conf.alphabet)}
Damage ==
  /\ stack = <<>> /\ hurt = 0 /\ Conf.damage = 1
  /\ hurt' = 1
  /\ \E n \in 1..Len(toks) :
       \/ toks' = SubSeq(toks, 1, n - 1) \o SubSeq(toks, n + 1, Len(toks))
       \/ toks' = SubSeq(toks, 1, n) \o SubSeq(toks, n, Len(toks))
       \/ \E a \in Alphabet : toks' = [toks EXCEPT ![n] = a]
       \/ \E a \in Alphabet : toks' = SubSeq(toks, 1, n) \o <<a>> \o SubSeq(toks, n + 1, Len(toks))
       \/ n > 1 /\ toks' = [toks EXCEPT ![n] = toks[n - 1], ![n - 1] = toks[n]]
       \/ toks' = SubSeq(toks, 1, n)
  /\ UNCHANGED <<stack, count>>

Finished == stack = <<>>
GNext == Derive \/ Damage
Spec == Init /\ [][GNext]_vars
View == <<stack, toks, hurt>>
Emit == Conf.print = 0 \/ stack' # <<>> \/ PrintT(ToJson(<<toks', hurt'>>))

----------------------------------------------------------------------------
\* Tokens as the lexer gives them.
KindOf(s) == CASE s \in {Conf.strs[n] : n \in 1..Len(Conf.strs)} -> "str"
               [] s \in {Conf.nums[n] : n \in 1..Len(Conf.nums)} -> "int"
               [] s \in Punct -> "p"
               [] OTHER -> "id"
CharsOf == [s \in DOMAIN Conf.chars |-> Conf.chars[s]]
Lexed == [n \in 1..Len(toks) |-> [k |-> KindOf(toks[n]), s |-> toks[n], p |-> n,
                                  c |-> IF KindOf(toks[n]) = "p" THEN <<toks[n]>> ELSE CharsOf[toks[n]]]]
Parsed == ParseFile(<<[k |-> "id", s |-> "syntax", c |-> <<>>, p |-> 0], [k |-> "p", s |-> "=", c |-> <<>>, p |-> 0],
                      [k |-> "str", s |-> "proto3", c |-> <<>>, p |-> 0], [k |-> "p", s |-> ";", c |-> <<>>, p |-> 0]>> \o Lexed)

\* declarations of a file, by kind
RECURSIVE InMessages(_)
Sum(s, op(_)) == FoldLeft(LAMBDA a, x : a + op(x), 0, s)
InEnums(es) == [e |-> Len(es), v |-> Sum(es, LAMBDA e : Len(e.values))]
InMessages(ms) ==
  LET sub == [n \in 1..Len(ms) |-> InMessages(ms[n].messages)]
      en == [n \in 1..Len(ms) |-> InEnums(ms[n].enums)]
  IN [m |-> Len(ms) + Sum(sub, LAMBDA x : x.m),
      f |-> Sum(ms, LAMBDA m : Len(m.fields)) + Sum(sub, LAMBDA x : x.f),
      o |-> Sum(ms, LAMBDA m : Len(m.oneofs)) + Sum(sub, LAMBDA x : x.o),
      g |-> Sum(ms, LAMBDA m : Sum(m.oneofs, LAMBDA u : Len(u.fields))) + Sum(sub, LAMBDA x : x.g),
      e |-> Sum(en, LAMBDA x : x.e) + Sum(sub, LAMBDA x : x.e),
      v |-> Sum(en, LAMBDA x : x.v) + Sum(sub, LAMBDA x : x.v)]

Complete ==
  Finished /\ hurt = 0 /\ Conf.strict = 1 =>
    LET r == Parsed
        f == r.v
        m == InMessages(f.messages)
        en == InEnums(f.enums)
    IN /\ r.ok
       /\ m.m = count["#m"] /\ m.f = count["#f"] + count["#k"] /\ m.o = count["#o"] /\ m.g = count["#g"]
       /\ m.e + en.e = count["#e"] /\ m.v + en.v = count["#v"]
       /\ Len(f.services) = count["#s"] /\ Sum(f.services, LAMBDA s : Len(s.rpcs)) = count["#r"]
       /\ Len(f.imports) = count["#i"] /\ Len(f.options) = count["#t"]
       /\ (f.pkg # <<>>) = (count["#p"] > 0)

Opens == {"{", "(", "[", "<"}
Closes == [c \in {"}", ")", "]", ">"} |-> CASE c = "}" -> "{" [] c = ")" -> "(" [] c = "]" -> "[" [] OTHER -> "<"]
\* the open brackets after all tokens; <<"?">> if one does not match
Brackets1 == FoldLeft(LAMBDA st, t :
               CASE t \in Opens -> Append(st, t)
                 [] t \in DOMAIN Closes -> IF st # <<>> /\ st[Len(st)] = Closes[t] THEN SubSeq(st, 1, Len(st) - 1) ELSE <<"?">>
                 [] OTHER -> st, <<>>, toks)
Balanced ==
  Finished /\ Parsed.ok =>
    /\ Brackets1 = <<>>
    /\ toks = <<>> \/ toks[Len(toks)] \in {";", "}"}
    /\ \A n \in 1..Len(toks) : toks[n] = "=" => n > 1 /\ n < Len(toks) /\ toks[n - 1] \notin Punct \ {")"} /\ toks[n + 1] \notin Punct
=============================================================================
