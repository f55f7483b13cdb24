----------------------------- MODULE ProtoSearch -----------------------------
(* The import path, file by file: the imported name is put into one directory
   after the other.  TLC explores every set of directories that hold it and every
   search list of at most Conf.most directories followed by the working directory,
   and checks

     First      the file found is in the first directory of the list that has it,
     Nowhere    nothing is found exactly if no directory of the list has it,
     Later      directories behind the one where it was found do not matter,
     Elsewhere  a new copy changes the result only to itself, and only if its
                directory comes before the one where the file was found.

   It prints every pair of a set and a list.                                   *)
EXTENDS ProtoTool, Json, IOUtils

Conf == JsonDeserialize(IOEnv.PB_MODEL)
Dirs == {Conf.dirs[n] : n \in 1..Len(Conf.dirs)}          \* "" is the root
Cwds == {Conf.cwds[n] : n \in 1..Len(Conf.cwds)}
Name == Conf.name

VARIABLE has
Init == has = {}
Next == \E d \in Dirs \ has : has' = has \cup {d}
Spec == Init /\ [][Next]_has

Lists == UNION {{s \in [1..k -> Dirs] : \A i, j \in 1..k : s[i] = s[j] => i = j} : k \in 0..Conf.most}
FsOf(ds) == LET q == SetToSeq(ds) IN [n \in 1..Len(q) |-> [path |-> InDir(q[n], Name), text |-> <<>>]]
\* the directory where it is found, "?" if nowhere
FoundIn(ds, s) ==
  LET q == SetToSeq(ds)
      n == Find(FsOf(ds), s, Name)
  IN IF n = 0 THEN "?" ELSE q[n]
Searches == {s \o <<c>> : s \in Lists, c \in Cwds}

Where(s, d) == IF \E n \in 1..Len(s) : s[n] = d
               THEN CHOOSE n \in 1..Len(s) : s[n] = d /\ \A k \in 1..(n - 1) : s[k] # d ELSE 99
First == \A s \in Searches : LET d == FoundIn(has, s)
                             IN d # "?" => d \in has /\ Where(s, d) # 99 /\ \A n \in 1..(Where(s, d) - 1) : s[n] \notin has
Nowhere == \A s \in Searches : (FoundIn(has, s) = "?") = (\A n \in 1..Len(s) : s[n] \notin has)
Later == \A s \in Searches : LET d == FoundIn(has, s)
                             IN d # "?" => FoundIn(has, SubSeq(s, 1, Where(s, d))) = d
Elsewhere ==
  [][LET new == CHOOSE d \in has' : d \notin has
     IN \A s \in Searches :
          LET a == FoundIn(has, s)
              b == FoundIn(has', s)
          IN /\ a # b => b = new /\ (a = "?" \/ Where(s, new) < Where(s, a))
             /\ b = new => a # b]_has
Emit == Conf.print = 0 \/ PrintT(ToJson(<<SetToSeq(has')>>))
=============================================================================
