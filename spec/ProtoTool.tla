------------------------------ MODULE ProtoTool ------------------------------
(* What the tool makes of a file in a file system.

   fs      : Seq([path, text])   all files; path is relative to a common root
   main    : the path of the file
   search  : Seq(string)         directories of the import path, then the working
                                 directory ("" is the root)

   Outcome is [err, p, name, file, imports] where err is

     ""          the file means "file" (types resolved); imports is the sequence
                 of [path, found, package] of its import statements
     "comment", "token", "syntax"   main or an import is not a proto file; p is
                 the position of the error (0: not specified), name its file
     "import"    an import is found nowhere; names says which
     "type", "number"               names: any of the undefined names         *)
EXTENDS ProtoNames

InDir(d, name) == IF d = "" THEN name ELSE d \o "/" \o name

\* The file a path means, its steps "", "." and ".." taken (the directories it
\* goes through exist): a/./b, a//b and a/x/../b are a/b.
RECURSIVE PathSteps(_, _, _)
PathSteps(s, from, to) ==
  IF to > Len(s) THEN <<SubSeq(s, from, to - 1)>>
  ELSE IF SubSeq(s, to, to) = "/" THEN <<SubSeq(s, from, to - 1)>> \o PathSteps(s, to + 1, to + 1)
  ELSE PathSteps(s, from, to + 1)
Walked(steps) ==
  FoldLeft(LAMBDA at, x : IF x \in {"", "."} THEN at
                          ELSE IF x = ".." /\ at # <<>> THEN SubSeq(at, 1, Len(at) - 1)
                          ELSE Append(at, x), <<>>, steps)
Meant(path) == FoldLeft(LAMBDA at, x : InDir(at, x), "", Walked(PathSteps(path, 1, 1)))

\* Index in fs of the file an import statement means; 0 if there is none.
FileAt(fs, path) == IF \E n \in 1..Len(fs) : fs[n].path = path
                    THEN CHOOSE n \in 1..Len(fs) : fs[n].path = path ELSE 0
RECURSIVE Find(_, _, _)
Find(fs, search, name) ==
  IF search = <<>> THEN 0
  ELSE LET n == FileAt(fs, Meant(InDir(search[1], name)))
       IN IF n # 0 THEN n ELSE Find(fs, Tail(search), name)

\* One text: [err, p, file]
Read(text) ==
  LET lx == Lex(text)
      pr == ParseFile(lx.toks)
  IN CASE lx.err # "" -> [err |-> lx.err, p |-> lx.p, file |-> EmptyFile]
       [] ~pr.ok -> [err |-> "syntax", p |-> 0, file |-> EmptyFile]
       [] OTHER -> [err |-> "", p |-> 0, file |-> pr.v]

Failed(err, p, at, names) == [err |-> err, p |-> p, at |-> at, names |-> names, file |-> EmptyFile, imports |-> <<>>]

Outcome(fs, main, search) ==
  LET mi == FileAt(fs, main)
      m == Read(fs[mi].text)
  IN IF m.err # "" THEN Failed(m.err, m.p, mi, {})
     ELSE LET imps == m.file.imports
              where == [n \in 1..Len(imps) |-> Find(fs, search, imps[n])]
              read == [n \in 1..Len(imps) |-> IF where[n] = 0 THEN [err |-> "import", p |-> 0, file |-> EmptyFile]
                                              ELSE Read(fs[where[n]].text)]
              wrong == {n \in 1..Len(imps) : read[n].err # ""}
              first == CHOOSE n \in wrong : \A k \in wrong : n <= k
          IN IF wrong # {}
             THEN Failed(read[first].err, read[first].p, where[first], {imps[first]})
             ELSE LET t == Typed(m.file, [n \in 1..Len(imps) |-> read[n].file])
                      undef == UndefinedNames(t)
                  IN CASE BadNumbers(t) -> Failed("number", 0, mi, {})
                       [] undef # {} -> Failed("type", 0, mi, undef)
                       [] OTHER -> [err |-> "", p |-> 0, at |-> mi, names |-> {}, file |-> t,
                                    imports |-> [n \in 1..Len(imps) |->
                                                   [path |-> imps[n], found |-> fs[where[n]].path,
                                                    package |-> Join(read[n].file.pkg)]]]

\* The characters of every name in the files; a map also makes names.
MapChars(c) == <<"P","b","t","o","o","l","s","M","a","p">> \o Title(c)
CharsOf(fs) ==
  LET toks == FoldLeft(LAMBDA a, f : a \o Lex(f.text).toks, <<>>, fs)
      ids == {n \in 1..Len(toks) : toks[n].k = "id"}
      strs == {toks[n].s : n \in ids}
      plain == [s \in strs |-> toks[CHOOSE n \in ids : toks[n].s = s].c]
      maps == {MapChars(plain[s]) : s \in strs}
      made == [s \in {Str(m) : m \in maps} |-> CHOOSE m \in maps : Str(m) = s]
  IN plain @@ made @@ [s \in {"key"} |-> <<"k","e","y">>] @@ [s \in {"value"} |-> <<"v","a","l","u","e">>]

----------------------------------------------------------------------------
\* The guarantees an observed result breaks.
If(c, name) == IF c THEN {name} ELSE {}

SameNum(a, b) == a.neg = b.neg /\ a.limbs = b.limbs
SameValues(a, b) == Len(a) = Len(b) /\ \A n \in 1..Len(a) : a[n].name = b[n].name /\ SameNum(a[n].num, b[n].num)
SameEnums(a, b) == Len(a) = Len(b) /\ \A n \in 1..Len(a) : a[n].name = b[n].name /\ SameValues(a[n].values, b[n].values)
SameOptions(a, b) ==
  /\ Len(a) = Len(b)
  /\ \A n \in 1..Len(a) : /\ a[n].name = b[n].name /\ a[n].kind = b[n].kind
                          /\ a[n].s = b[n].s /\ SameNum(a[n].num, b[n].num)
SameFields(a, b) ==
  /\ Len(a) = Len(b)
  /\ \A n \in 1..Len(a) : a[n].name = b[n].name /\ a[n].label = b[n].label /\ SameNum(a[n].num, b[n].num)
SameTypes(a, b) ==
  /\ Len(a) = Len(b)
  /\ \A n \in 1..Len(a) : a[n].kind = b[n].kind /\ a[n].type = b[n].type
SameOneofs(a, b) ==
  /\ Len(a) = Len(b)
  /\ \A n \in 1..Len(a) : a[n].name = b[n].name /\ SameFields(a[n].fields, b[n].fields)

\* Messages are compared by name: their order is not specified here, and what
\* several messages of one name mean is not either.
Named1(ms, name) == {n \in 1..Len(ms) : ms[n].name = name}
RECURSIVE MessageClauses(_, _)
MessageClauses(a, b) ==
  IF Len(a) # Len(b) \/ \E n \in 1..Len(a) : Cardinality(Named1(b, a[n].name)) # Cardinality(Named1(a, a[n].name))
  THEN {"model.messages"}
  ELSE UNION { LET x == a[n]
                   y == b[CHOOSE k \in 1..Len(b) : b[k].name = x.name]
               IN If(~SameFields(x.fields, y.fields), "model.fields")
                  \cup If(~SameOneofs(x.oneofs, y.oneofs), "model.oneofs")
                  \cup If(~SameEnums(x.enums, y.enums), "model.enums")
                  \cup If(\/ ~SameTypes(x.fields, y.fields)
                          \/ \E k \in 1..Len(x.oneofs) :
                               k <= Len(y.oneofs) /\ ~SameTypes(x.oneofs[k].fields, y.oneofs[k].fields),
                          "model.types")
                  \cup MessageClauses(x.messages, y.messages) :
               n \in {k \in 1..Len(a) : Cardinality(Named1(a, a[k].name)) = 1} }

\* ev: [fs, main, search, ok, line, col, words, model, imports, abspath]
ParseClauses(ev) ==
  LET o == Outcome(ev.fs, ev.main, ev.search)
      t == ev.fs[o.at].text
  IN IF o.err = "" THEN
        IF ~ev.ok THEN {"rejects"}
        ELSE LET f == o.file
                 g == ev.model
             IN If(Join(f.pkg) # g.package, "model.package")
                \cup If(ev.abspath # ev.main, "model.file")
                \cup If(ev.imports # o.imports, "model.imports")
                \cup If(~SameOptions(f.options, g.options), "model.options")
                \cup If(~SameEnums(f.enums, g.enums), "model.enums")
                \cup If(f.services # g.services, "model.services")
                \cup MessageClauses(f.messages, g.messages)
     ELSE IF ev.ok THEN {"accepts." \o o.err}
     ELSE CASE o.err \in {"comment", "token"} ->
                 If(ev.line # Line(t, o.p) \/ ev.col # Column(t, o.p), "error.position")
            [] o.err = "syntax" -> If(ev.line < 1, "error.text")
            [] o.err \in {"import", "type"} ->
                 If(\A x \in o.names : \A n \in 1..Len(ev.words) : ev.words[n] # x, "error.text")
            [] OTHER -> {}
=============================================================================
