----------------------------- MODULE ProtoIface -----------------------------
(* Writes the C interface of every file of a list of file systems: what the
   generated header has to declare, and the name of the header.                *)
EXTENDS ProtoTool, Json, IOUtils

Jobs == ndJsonDeserialize(IOEnv.PB_TRACE)

\* [ok, name, iface] of one job [fs, main, base, search, upper]; base: the
\* characters of the name of the file without its extension
Answer(j) ==
  LET o == Outcome(j.fs, j.main, j.search)
  IN IF o.err # "" \/ BadOptional(o.file) THEN [ok |-> FALSE, name |-> "", iface |-> <<>>]
     ELSE [ok |-> TRUE, name |-> Str(SnakeChars(j.base)),
           iface |-> Interface(o.file, CharsOf(j.fs), j.upper)]

VARIABLE l
Init == l = 1
Next == l <= Len(Jobs) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Written == ndJsonSerialize(IOEnv.PB_OUT, [n \in 1..Len(Jobs) |-> Answer(Jobs[n])])
=============================================================================
