----------------------------- MODULE ProtoScopes -----------------------------
(* Scopes, declaration by declaration.  The skeleton is

     main file (package Conf.pkg, imports every file but "hidden")
       message Outer { message Mid { } }      message Third { message Own { } }
     same    a file of the same package       other   a file of package q
     flat    a file without a package         hidden  a file of the same package
                                                      that only "same" imports

   and each step declares X or Y, as an enumeration or a message, in one of the
   scopes.  TLC explores all placements of at most Conf.length declarations and
   checks what scoping promises for every name that can be used in a field of
   Mid, Outer, Own and Third; it prints every placement with the names that mean
   something in each place.                                                     *)
EXTENDS ProtoTypes, Json, IOUtils

Conf == JsonDeserialize(IOEnv.PB_MODEL)
Pkg == Conf.pkg                        \* a sequence of strings
Depth == Conf.length

\* enclosing: the chain of scopes, innermost first
Chain == [Mid |-> <<"Mid", "Outer", "main">>, Outer |-> <<"Outer", "main">>,
          Own |-> <<"Own", "Third", "main">>, Third |-> <<"Third", "main">>]
Locs == {"Mid", "Outer", "Own", "Third"}
Scopes == {"Mid", "Outer", "Own", "Third", "main", "same", "other", "flat", "hidden"}
PathOf == [s \in Scopes |->
             CASE s = "Mid" -> Pkg \o <<"Outer", "Mid">>  [] s = "Outer" -> Pkg \o <<"Outer">>
               [] s = "Own" -> Pkg \o <<"Third", "Own">>  [] s = "Third" -> Pkg \o <<"Third">>
               [] s = "other" -> <<"q">>                  [] s = "flat" -> <<>>
               [] OTHER -> Pkg]
Idents == {Conf.names[n] : n \in 1..Len(Conf.names)}

\* the names that are tried: [abs, path]
Q(abs, path) == [abs |-> abs, path |-> path]
Used(x) == {Q(FALSE, <<x>>), Q(TRUE, <<x>>), Q(FALSE, <<"q", x>>), Q(TRUE, <<"q", x>>), Q(FALSE, Append(Pkg, x)),
            Q(TRUE, Append(Pkg, x)), Q(FALSE, <<"Outer", x>>), Q(FALSE, <<"Mid", x>>), Q(FALSE, <<"Outer", "Mid", x>>),
            Q(FALSE, Pkg \o <<"Outer", x>>), Q(TRUE, Pkg \o <<"Outer", x>>), Q(FALSE, <<"p", x>>), Q(FALSE, <<"q", "p", x>>)}
Uses == UNION {Used(x) : x \in Idents}

\* What every name means in every place, for the declarations d: d[s][x] is "",
\* "enum" or "message".
Table(d) ==
  LET enums(s) == LET h == {x \in Idents : d[s][x] = "enum"} IN SetToSeq({[name |-> x, values |-> <<>>] : x \in h})
      plain(x) == [name |-> x, fields |-> <<>>, oneofs |-> <<>>, enums |-> <<>>, messages |-> <<>>]
      messages(s, more) == LET h == {x \in Idents : d[s][x] = "message"} IN SetToSeq({plain(x) : x \in h}) \o more
      scope(s, more) == [plain(s) EXCEPT !.enums = enums(s), !.messages = messages(s, more)]
      file(s, pkg, more) == [EmptyFile EXCEPT !.pkg = pkg, !.enums = enums(s), !.messages = messages(s, more)]
      mid == scope("Mid", <<>>)
      outer == scope("Outer", <<mid>>)
      own == scope("Own", <<>>)
      third == scope("Third", <<own>>)
      main == file("main", Pkg, <<outer, third>>)
      imports == <<file("same", Pkg, <<>>), file("other", <<"q">>, <<>>), file("flat", <<>>, <<>>)>>
      enclosing == [Mid |-> <<outer, mid>>, Outer |-> <<outer>>, Own |-> <<third, own>>, Third |-> <<third>>]
  IN [loc \in Locs |-> [u \in Uses |-> Resolve(u, enclosing[loc], main, imports)]]

VARIABLES decl, n, means
vars == <<decl, n, means>>
Meaning(loc, u) == means[loc][u]

Init == decl = [s \in Scopes |-> [x \in Idents |-> ""]] /\ n = 0 /\ means = Table(decl)
Declare(s, x, k) == decl[s][x] = "" /\ decl' = [decl EXCEPT ![s][x] = k]
Next == n < Depth /\ n' = n + 1 /\ \E s \in Scopes, x \in Idents, k \in {"enum", "message"} : Declare(s, x, k)
        /\ means' = Table(decl')
Spec == Init /\ [][Next]_vars
View == decl

\* what means something, for the test of this placement
Dotted(u) == (IF u.abs THEN "." ELSE "") \o Join(u.path)
Meant == {<<loc, Dotted(u)>> : <<loc, u>> \in {x \in Locs \X Uses : Meaning(x[1], x[2]).kind # ""}}
Placed == SetToSeq({<<s, x, decl[s][x]>> : <<s, x>> \in {y \in Scopes \X Idents : decl[y[1]][y[2]] # ""}})
Emit == Conf.print = 0 \/ PrintT(ToJson(<<Placed', SetToSeq(Meant')>>))

----------------------------------------------------------------------------
Final(u) == u.path[Len(u.path)]
\* The plain name of a scalar type, whatever is declared.
Scalar(u) == ~u.abs /\ Len(u.path) = 1 /\ u.path[1] \in Scalars
Builtin == \A loc \in Locs : \A u \in Uses : Scalar(u) <=> Meaning(loc, u).kind = "scalar"

\* A name that means something means a declaration that is there, of that kind.
Sound == \A loc \in Locs : \A u \in Uses :
           LET r == Meaning(loc, u)
           IN r.kind # "" /\ ~Scalar(u) => \E s \in Scopes \ {"hidden"} : decl[s][Final(u)] = r.kind /\ r.rpath = Append(PathOf[s], Final(u))

\* A plain name: the innermost enclosing scope that declares it, whatever else there is.
Innermost ==
  \A loc \in Locs : \A x \in Idents \ Scalars :
    LET c == Chain[loc] \o <<"same">> \o (IF Pkg = <<"q">> THEN <<"other">> ELSE <<>>) \o <<"flat">>
        r == Meaning(loc, Q(FALSE, <<x>>))
        has == {k \in 1..Len(c) : decl[c[k]][x] # ""}
    IN IF has = {} THEN r = Undefined
       ELSE LET k == CHOOSE k \in has : \A j \in has : k <= j
            IN r = [kind |-> decl[c[k]][x], rpath |-> Append(PathOf[c[k]], x)]

\* A qualified name does not depend on the place, and never means something nested.
Qualified ==
  \A u \in {u \in Uses : u.abs \/ Len(u.path) > 1} :
    /\ \A a, b \in Locs : Meaning(a, u) = Meaning(b, u)
    /\ LET r == Meaning("Mid", u) IN r.kind # "" => r.rpath = u.path

\* A new declaration changes the meaning of a name only to itself, and only where it is visible.
Monotone ==
  [][\A s \in Scopes : decl'[s] # decl[s] =>
       LET x == CHOOSE x \in Idents : decl'[s][x] # decl[s][x]
       IN \A loc \in Locs : \A u \in Uses :
            LET r == Meaning(loc, u)
                r1 == means'[loc][u]
            IN r1 # r => /\ Final(u) = x
                         /\ r1 = [kind |-> decl'[s][x], rpath |-> Append(PathOf[s], x)]
                         /\ s # "hidden"
                         /\ s \in {"Mid", "Outer", "Own", "Third"} => s \in {Chain[loc][k] : k \in 1..Len(Chain[loc])}]_vars
=============================================================================
