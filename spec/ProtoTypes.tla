----------------------------- MODULE ProtoTypes -----------------------------
(* Scopes: which declaration the type name of a field means.

   A file is the value of ParseFile; "imports" is the sequence of the directly
   imported files in the order of the import statements.  Only the top level of
   an imported file is visible (imports are not transitive).

     X        the innermost enclosing message that declares X, else the file,
              else an imported file of the same package, else an imported file
              without a package
     p.q.X    the top level of package p.q (this file first, then imports)
     .X       the top level of the files without a package
     .p.q.X   as p.q.X

   Anything else, such as a name qualified with a message, means nothing.      *)
EXTENDS ProtoParse

Scalars == {"int32", "int64", "sint32", "sint64", "uint32", "uint64", "fixed32", "fixed64",
            "sfixed32", "sfixed64", "float", "double", "bool", "string", "bytes"}

\* A resolved name: the kind of the declaration and its full path.
Undefined == [kind |-> "", rpath |-> <<>>]

\* The kind of the declaration X at one level.
KindIn(x, enums, messages) ==
  CASE \E n \in 1..Len(enums) : enums[n].name = x -> "enum"
    [] \E n \in 1..Len(messages) : messages[n].name = x -> "message"
    [] OTHER -> ""

InFile(x, f) == KindIn(x, f.enums, f.messages)

\* X in the imports of package p (the first that has it)
InImports(x, p, imports) ==
  LET has == {n \in 1..Len(imports) : imports[n].pkg = p /\ InFile(x, imports[n]) # ""}
  IN IF has = {} THEN "" ELSE InFile(x, imports[CHOOSE n \in has : \A k \in has : n <= k])

\* X at the top level of package p, seen from file f
TopLevel(x, p, f, imports) ==
  LET own == IF p = f.pkg THEN InFile(x, f) ELSE ""
      k == IF own # "" THEN own ELSE InImports(x, p, imports)
  IN IF k = "" THEN Undefined ELSE [kind |-> k, rpath |-> Append(p, x)]

\* scopes: the enclosing messages, outermost first
RECURSIVE InScopes(_, _, _, _)
InScopes(x, scopes, f, imports) ==
  IF scopes = <<>>
  THEN LET t == TopLevel(x, f.pkg, f, imports)
       IN IF t.kind # "" THEN t ELSE TopLevel(x, <<>>, f, imports)
  ELSE LET m == scopes[Len(scopes)]
           k == KindIn(x, m.enums, m.messages)
       IN IF k # ""
          THEN [kind |-> k, rpath |-> f.pkg \o [n \in 1..Len(scopes) |-> scopes[n].name] \o <<x>>]
          ELSE InScopes(x, SubSeq(scopes, 1, Len(scopes) - 1), f, imports)

Resolve(fld, scopes, f, imports) ==
  LET n == Len(fld.path)
      x == fld.path[n]
  IN CASE n = 1 /\ ~fld.abs /\ x \in Scalars -> [kind |-> "scalar", rpath |-> <<x>>]
       [] n = 1 /\ ~fld.abs -> InScopes(x, scopes, f, imports)
       [] OTHER -> TopLevel(x, SubSeq(fld.path, 1, n - 1), f, imports)

----------------------------------------------------------------------------
\* The file with the type of every field in place of the name used for it.
TypedField(fld, scopes, f, imports) ==
  LET r == Resolve(fld, scopes, f, imports)
  IN [name |-> fld.name, num |-> fld.num, label |-> fld.label, kind |-> r.kind, type |-> Join(r.rpath),
      rpath |-> r.rpath, ref |-> fld.path[Len(fld.path)]]

RECURSIVE TypedMessage(_, _, _, _)
TypedMessage(m, outer, f, imports) ==
  LET sc == Append(outer, m)
      ty(fs) == [n \in 1..Len(fs) |-> TypedField(fs[n], sc, f, imports)]
  IN [name |-> m.name, enums |-> m.enums, fields |-> ty(m.fields),
      oneofs |-> [n \in 1..Len(m.oneofs) |-> [name |-> m.oneofs[n].name, fields |-> ty(m.oneofs[n].fields)]],
      messages |-> [n \in 1..Len(m.messages) |-> TypedMessage(m.messages[n], sc, f, imports)]]

Typed(f, imports) ==
  [f EXCEPT !.messages = [n \in 1..Len(@) |-> TypedMessage(@[n], <<>>, f, imports)]]

\* All fields of typed messages, nested ones included.
RECURSIVE FieldsOf(_)
FieldsOf(ms) ==
  FoldLeft(LAMBDA acc, m : acc \o m.fields
                           \o FoldLeft(LAMBDA a, o : a \o o.fields, <<>>, m.oneofs)
                           \o FieldsOf(m.messages), <<>>, ms)

RECURSIVE EnumsOf(_)
EnumsOf(ms) == FoldLeft(LAMBDA acc, m : acc \o m.enums \o EnumsOf(m.messages), <<>>, ms)

\* What is wrong with a typed file.
UndefinedNames(t) == LET fs == FieldsOf(t.messages) IN {fs[n].ref : n \in {k \in 1..Len(fs) : fs[k].kind = ""}}
BadNumbers(t) ==
  LET fs == FieldsOf(t.messages)
      es == t.enums \o EnumsOf(t.messages)
  IN \/ \E n \in 1..Len(fs) : ~fs[n].num.ok
     \/ \E n \in 1..Len(es) : \E k \in 1..Len(es[n].values) : ~es[n].values[k].num.ok
     \/ \E n \in 1..Len(t.options) : ~t.options[n].num.ok
\* Not supported: optional messages.
BadOptional(t) ==
  LET fs == FieldsOf(t.messages) IN \E n \in 1..Len(fs) : fs[n].label = "optional" /\ fs[n].kind = "message"
\* Optional enumerations
OtherOptional(t) ==
  LET fs == FieldsOf(t.messages) IN \E n \in 1..Len(fs) : fs[n].label = "optional" /\ fs[n].kind # "scalar"
=============================================================================
