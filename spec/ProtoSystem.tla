----------------------------- MODULE ProtoSystem -----------------------------
(* The command line tool as a closed system: a user who writes and removes files
   and runs the tool on them, and a tool that does exactly what ProtoRuns asks.
   TLC explores all histories of at most Conf.depth steps and checks

     ClausesHold   the clauses that traces of the real tool are judged by hold
                   together in every reachable state,
     Alone         what a run leaves for an input is what a run on that input
                   alone leaves, whatever the other inputs and their order,
     Again         a run that is repeated changes nothing,
     Untouched     a run changes nothing but the outputs of its inputs,
     OneMeaning    for one input there is one output, over the whole history.

   It prints a history for every transition; they are run on the real tool in a
   scratch directory and validated by ProtoTrace.                              *)
EXTENDS ProtoRuns, Json, IOUtils

Conf == JsonDeserialize(IOEnv.PB_MODEL)
\* Conf.files: Seq([path, base, texts: Seq([id, text])]); .most inputs of a run; .depth; .print; .cmds
Files == 1..Len(Conf.files)
File(f) == Conf.files[f]

VARIABLES hist, bad, outs        \* outs: the outcome of every file as an input
vars == <<fs, tree, memo, hist, bad, outs>>

----------------------------------------------------------------------------
\* The tool.  What it writes is named after the key it depends on.
PutTree(t, path, digest) ==
  LET new == [path |-> path, digest |-> digest, stamp |-> ""]
  IN IF path \in PathsOf(t) THEN [n \in 1..Len(t) |-> IF t[n].path = path THEN new ELSE t[n]] ELSE Append(t, new)

OutsOf(files) == [f \in Files |-> OutcomeIn(files, File(f).path, <<"">>)]
In(f) == [path |-> File(f).path, base |-> File(f).base]
RunEvent(ins, cmd) ==
  [ins |-> [n \in 1..Len(ins) |-> In(ins[n])], search |-> <<"">>, out |-> "out", upper |-> (cmd = "upper"),
   lang |-> IF cmd \in {"rust", "mys"} THEN cmd ELSE "c", rc |-> 0, made |-> <<"out">>]
ResultOn(t0, ins, cmd) ==
  LET ev == RunEvent(ins, cmd)
      f == FactsOf(ev, [n \in 1..Len(ins) |-> outs[ins[n]]])
      step(t, k) == FoldLeft(LAMBDA a, x : PutTree(a, OutFile(ev, k, x), ToString(<<x, k>>)), t, SetToSeq(Exts(ev.lang)))
  IN [facts |-> f, rc |-> IF f.stop = 0 THEN 0 ELSE 1, prefix |-> IF f.stop = 0 THEN "" ELSE "error: ",
            words |-> SetToSeq(f.names), tree |-> FoldLeft(step, t0, f.keys)] @@ ev
Result(ins, cmd) == ResultOn(tree, ins, cmd)

\* A tool with a flaw, to see that the clauses are not empty (Conf.flaw; 0: none).
Flawed(r, ins) ==
  CASE Conf.flaw = 1 /\ Len(ins) > 1 -> [r EXCEPT !.tree = tree]                 \* forgets all when there are several
    [] Conf.flaw = 2 -> [r EXCEPT !.rc = 0]                                      \* does not report errors
    [] Conf.flaw = 3 -> [r EXCEPT !.tree = PutTree(@, "out/more", "x")]          \* writes something else
    [] Conf.flaw = 4 /\ Len(hist) > 2 ->                                         \* depends on the history
         [r EXCEPT !.tree = [n \in 1..Len(@) |-> IF @[n].path = "out/a.h" THEN [@[n] EXCEPT !.digest = "other"] ELSE @[n]]]
    [] OTHER -> r

----------------------------------------------------------------------------
Runs == UNION {{s \in [1..k -> Files] : \A i, j \in 1..k : s[i] = s[j] => i = j} : k \in 1..Conf.most}

FileTree(f, v) == [path |-> File(f).path, digest |-> File(f).texts[v].id, stamp |-> ""]
SInit == /\ fs = [f \in Files |-> [path |-> File(f).path, text |-> File(f).texts[1].text, id |-> File(f).texts[1].id]]
         /\ tree = [f \in Files |-> FileTree(f, 1)]
         /\ memo = <<>> /\ hist = <<>> /\ bad = {} /\ outs = OutsOf(fs)

DoWrite(f, v) ==
  LET t == File(f).texts[v]
  IN /\ TreeAt(tree, File(f).path).digest # t.id
     /\ WriteStep([path |-> File(f).path, text |-> t.text, id |-> t.id, proto |-> TRUE, tree |-> PutTree(tree, File(f).path, t.id)])
     /\ hist' = Append(hist, <<"write", f, v>>) /\ bad' = {} /\ outs' = OutsOf(fs')
DoRemove(f) ==
  /\ File(f).path \in PathsOf(tree)
  /\ RemoveStep([path |-> File(f).path, tree |-> SelectSeq(tree, LAMBDA x : x.path # File(f).path)])
  /\ hist' = Append(hist, <<"remove", f>>) /\ bad' = {} /\ outs' = OutsOf(fs')
DoRun(ins, cmd) ==
  LET r == Flawed(Result(ins, cmd), ins)
  IN /\ RunStep(r, r.facts) /\ hist' = Append(hist, <<"run", ins, cmd>>) /\ bad' = ClausesOf(r, r.facts)
     /\ UNCHANGED outs

\* ways to call the tool: "c", "upper" (--enums-upper-case), "rust", "mys"
Cmds == {Conf.cmds[n] : n \in 1..Len(Conf.cmds)}
SNext == /\ Len(hist) < Conf.depth
         /\ \/ \E f \in Files : \E v \in 1..Len(File(f).texts) : DoWrite(f, v)
            \/ \E f \in Files : DoRemove(f)
            \/ \E ins \in Runs, u \in Cmds : DoRun(ins, u)
Spec == SInit /\ [][SNext]_vars
View == <<{fs[n] : n \in 1..Len(fs)}, {tree[n] : n \in 1..Len(tree)}, bad>>
Emit == Conf.print = 0 \/ hist'[Len(hist')][1] # "run" \/ PrintT(ToJson(hist'))

----------------------------------------------------------------------------
ClausesHold == bad = {}

Leaves(r, path) == TreeAt(r.tree, path).digest
OutPaths(f, cmd) == LET n == Str(SnakeChars(File(f).base))
                    IN {"out/" \o n \o x : x \in Exts(IF cmd \in {"rust", "mys"} THEN cmd ELSE "c")}
Alone ==
  \A ins \in Runs, u \in Cmds :
    LET r == Result(ins, u)
    IN r.rc = 0 => \A n \in 1..Len(ins) :
                     LET a == Result(<<ins[n]>>, u)
                     IN a.rc = 0 /\ \A p \in OutPaths(ins[n], u) : Leaves(r, p) = Leaves(a, p) /\ Leaves(r, p) # ""
Again ==
  \A ins \in Runs, u \in Cmds :
    LET r == Result(ins, u) IN ResultOn(r.tree, ins, u).tree = r.tree
Untouched ==
  [][LET h == hist'[Len(hist')]
     IN h[1] = "run" => \A p \in PathsOf(tree) \cup PathsOf(tree') :
          TreeAt(tree, p) = TreeAt(tree', p) \/ \E n \in 1..Len(h[2]) : p \in OutPaths(h[2][n], h[3])]_vars
OneMeaning == \A i, j \in 1..Len(memo) : memo[i].key = memo[j].key => i = j
=============================================================================
