------------------------------ MODULE ProtoRuns ------------------------------
(* Runs of the command line tool in a file system.

   fs     the files of a case with a known text: Seq([path, text, id]); id names the text
   tree   everything there is: Seq([path, digest, stamp])
   memo   what was generated so far: Seq([key, digests]); it is kept when the file
          system is started over, because what is generated for a key may depend
          on nothing else

   The key of an input is the name of its output, the option, its text and the
   texts of its imports.                                                      *)
EXTENDS ProtoTool

VARIABLES fs, tree, memo
rvars == <<fs, tree, memo>>

RunsInit == fs = <<>> /\ tree = <<>> /\ memo = <<>>

TreeAt(t, path) == IF \E n \in 1..Len(t) : t[n].path = path
                   THEN t[CHOOSE n \in 1..Len(t) : t[n].path = path]
                   ELSE [path |-> path, digest |-> "", stamp |-> ""]
PathsOf(t) == {t[n].path : n \in 1..Len(t)}

\* The files a run writes for an input, by the language it generates.
Exts(lang) == CASE lang = "c" -> {".h", ".c"}  [] lang = "rust" -> {".rs"}  [] OTHER -> {".mys"}

\* The outcome of an input of a run, with what the generator does not support.
OutcomeIn(files, path, search) ==
  IF FileAt(files, path) = 0 THEN Failed("missing", 0, 0, {path})
  ELSE LET o == Outcome(files, path, search)
       IN IF o.err = "" /\ BadOptional(o.file) THEN Failed("optional", 0, 0, {}) ELSE o
InputOutcome(path, ev) ==
  IF ev.lang = "c" \/ FileAt(fs, path) = 0 THEN OutcomeIn(fs, path, ev.search) ELSE Outcome(fs, path, ev.search)
\* Which optional fields the generators of Rust and Mys support is not specified:
\* a file with others than scalars may be rejected.
Maybe(o, ev) == ev.lang # "c" /\ o.err = "" /\ OtherOptional(o.file)

KeyOf(in, o, ev) ==
  LET n == FileAt(fs, in.path)
  IN [name |-> Str(SnakeChars(in.base)), upper |-> ev.upper, lang |-> ev.lang, id |-> fs[n].id,
      imports |-> [k \in 1..Len(o.imports) |->
                     [path |-> o.imports[k].path, id |-> fs[FileAt(fs, o.imports[k].found)].id]]]

Recorded(key) == IF \E n \in 1..Len(memo) : memo[n].key = key
                 THEN memo[CHOOSE n \in 1..Len(memo) : memo[n].key = key] ELSE [key |-> key, digests |-> <<>>]

\* ev: [ins: Seq([path, base]), search, out, upper, rc, prefix, words, tree]
\* os: the outcome of every input
FactsOf(ev, os) ==
  LET wrong == {n \in 1..Len(os) : os[n].err # ""}
      stop == IF wrong = {} THEN 0 ELSE CHOOSE n \in wrong : \A k \in wrong : n <= k
      done == IF stop = 0 THEN Len(os) ELSE stop - 1
      keys == [n \in 1..done |-> KeyOf(ev.ins[n], os[n], ev)]
      \* of inputs with the same output name the last one counts
      last == {n \in 1..done : \A k \in (n + 1)..done : keys[k].name # keys[n].name}
      maybe == \E n \in 1..done : Maybe(os[n], ev)
  IN [stop |-> stop, maybe |-> maybe, err |-> IF stop = 0 THEN "" ELSE os[stop].err,
      names |-> IF stop = 0 THEN {} ELSE os[stop].names, keys |-> keys, last |-> last]
RunFacts(ev) == FactsOf(ev, [n \in 1..Len(ev.ins) |-> InputOutcome(ev.ins[n].path, ev)])

OutFile(ev, key, ext) == InDir(ev.out, key.name \o ext)
\* what is in the outputs of an input after a run: <<ext, digest>>
Digests(ev, key) == SetToSeq({<<x, TreeAt(ev.tree, OutFile(ev, key, x)).digest>> : x \in Exts(ev.lang)})

\* The inputs whose output a run has to leave behind.  A run that fails may have
\* written the output of earlier inputs or not, but what it wrote has to be right.
Written(ev, f) ==
  {n \in f.last : ev.rc = 0 \/ \E x \in Exts(ev.lang) :
                     TreeAt(tree, OutFile(ev, f.keys[n], x)) # TreeAt(ev.tree, OutFile(ev, f.keys[n], x))}

ClausesOf(ev, f) ==
  LET written == Written(ev, f)
      targets == {OutFile(ev, f.keys[n], x) : <<n, x>> \in f.last \X Exts(ev.lang)}
      has(n) == Digests(ev, f.keys[n])
      differs(n) == LET r == Recorded(f.keys[n]) IN r.digests # <<>> /\ r.digests # has(n)
      same(p) == TreeAt(tree, p) = TreeAt(ev.tree, p)
  IN If((ev.rc = 0) # (f.stop = 0) /\ ~(ev.rc # 0 /\ f.maybe), "run.exit")
     \cup If(ev.rc # 0 /\ (ev.rc # 1 \/ ev.prefix # "error: "), "run.error")
     \cup If(f.err \in {"import", "type", "missing"} /\ ~f.maybe /\ \A x \in f.names : \A n \in 1..Len(ev.words) : ev.words[n] # x,
             "run.message")
     \cup If(\E n \in written : \E k \in 1..Len(has(n)) : has(n)[k][2] = "", "run.missing")
     \cup If(\E n \in written : differs(n), "run.content")
     \cup If(\E p \in (PathsOf(tree) \cup PathsOf(ev.tree)) \ targets : ~same(p) /\ p \notin {ev.made[n] : n \in 1..Len(ev.made)},
             "run.touched")
RunClauses(ev) == ClausesOf(ev, RunFacts(ev))

Remember(ev, f) ==
  LET new == {n \in Written(ev, f) : Recorded(f.keys[n]).digests = <<>>}
      seqn == SetToSortSeq(new, <)
  IN memo \o [k \in 1..Len(seqn) |-> [key |-> f.keys[seqn[k]], digests |-> Digests(ev, f.keys[seqn[k]])]]

\* The steps
CaseStep(ev) == fs' = <<>> /\ tree' = <<>> /\ memo' = IF ev.keep THEN memo ELSE <<>>
WriteStep(ev) ==
  LET n == FileAt(fs, ev.path)
      new == [path |-> ev.path, text |-> ev.text, id |-> ev.id]
  IN /\ fs' = IF ~ev.proto THEN fs ELSE IF n = 0 THEN Append(fs, new) ELSE [fs EXCEPT ![n] = new]
     /\ tree' = ev.tree /\ UNCHANGED memo
RemoveStep(ev) ==
  /\ fs' = SelectSeq(fs, LAMBDA f : f.path # ev.path) /\ tree' = ev.tree /\ UNCHANGED memo
RunStep(ev, f) == tree' = ev.tree /\ memo' = Remember(ev, f) /\ UNCHANGED fs
=============================================================================
