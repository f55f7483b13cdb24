----------------------------- MODULE ProtoNames -----------------------------
(* The C interface of a file: the name and type of everything the generated
   header declares for its users.

   Interface(file, chars, upper) is a sequence of records
     [d = "const",  name, num]           enumeration constant and its value
     [d = "member", st, name, type]      type of member "name" of st
     [d = "func",   name, type]
   chars[s] is the character sequence of the string s, for every identifier.    *)
EXTENDS ProtoTypes

\* Snake case of a (dotted) name: other characters become "_"; a capital that
\* follows a small letter or digit, or precedes a small letter, starts a new word.
SnakeChars(n) ==
  LET c == [k \in 1..Len(n) |-> IF n[k] \in Letter \cup DigitSet THEN n[k] ELSE "_"]
      new(k) == /\ k > 1 /\ c[k] \in UpperSet
                /\ \/ c[k - 1] \in LowerSet \cup DigitSet
                   \/ k < Len(c) /\ c[k + 1] \in LowerSet
      low(ch) == IF ch \in UpperSet THEN ToLower[ch] ELSE ch
      put(acc, ch) == IF ch = "_" /\ acc # <<>> /\ acc[Len(acc)] = "_" THEN acc ELSE Append(acc, ch)
  IN FoldLeft(LAMBDA acc, k : put(IF new(k) THEN put(acc, "_") ELSE acc, low(c[k])),
              <<>>, [k \in 1..Len(c) |-> k])

\* The same as the composition of substitutions, as the tool has it (lemma in ProtoLemmas):
\*   (.)([A-Z][a-z]+) -> \1_\2,   _+ -> _,   ([a-z0-9])([A-Z]) -> \1_\2,   lower case

DotChars(path, chars) ==
  FoldLeft(LAMBDA a, s : IF a = <<>> THEN chars[s] ELSE a \o <<".">> \o chars[s], <<>>, path)
Snake(path, chars) == Str(SnakeChars(DotChars(path, chars)))
Upper(c) == [k \in 1..Len(c) |-> IF c[k] \in LowerSet THEN ToUpper[c[k]] ELSE c[k]]

CType == [t \in Scalars |->
  CASE t \in {"int32", "sint32", "sfixed32"} -> "int32_t"
    [] t \in {"int64", "sint64", "sfixed64"} -> "int64_t"
    [] t \in {"uint32", "fixed32"} -> "uint32_t"
    [] t \in {"uint64", "fixed64"} -> "uint64_t"
    [] t = "string" -> "char *"
    [] t = "bytes" -> "struct pbtools_bytes_t"
    [] OTHER -> t]
RepeatedName == [t \in Scalars |->
  CASE t \in {"int32", "sint32", "sfixed32"} -> "int32"
    [] t \in {"int64", "sint64", "sfixed64"} -> "int64"
    [] t \in {"uint32", "fixed32"} -> "uint32"
    [] t \in {"uint64", "fixed64"} -> "uint64"
    [] OTHER -> t]

Member(st, name, type) == [d |-> "member", st |-> st, name |-> name, type |-> type]
Func(name, type) == [d |-> "func", name |-> name, type |-> type]

\* The C type of a field's value.
ValueType(f, chars) ==
  CASE f.kind = "scalar" -> CType[f.type]
    [] f.kind = "enum" -> "enum " \o Snake(f.rpath, chars) \o "_e"
    [] OTHER -> "struct " \o Snake(f.rpath, chars) \o "_t *"
\* Pointers end in _p.
Suffix(f) == IF f.kind = "message" \/ (f.kind = "scalar" /\ f.type = "string") THEN "_p" ELSE ""

\* self: struct tag without _t, fn: the same
FieldInterface(f, self, chars) ==
  LET st == "struct " \o self \o "_t"
      n == Snake(<<f.name>>, chars)
  IN CASE f.label = "repeated" ->
            <<Member(st, n, "struct " \o (CASE f.kind = "scalar" -> "pbtools_repeated_" \o RepeatedName[f.type] \o "_t"
                                            [] f.kind = "enum" -> "pbtools_repeated_int32_t"
                                            [] OTHER -> Snake(f.rpath, chars) \o "_repeated_t")),
              Func(self \o "_" \o n \o "_alloc", "int(" \o st \o " *, int)")>>
       [] f.label = "optional" ->
            <<Member(st, n \o ".is_present", "bool"),
              Member(st, n \o ".value" \o Suffix(f), ValueType(f, chars))>>
       [] OTHER ->
            <<Member(st, n \o Suffix(f), ValueType(f, chars))>>
            \o IF f.kind = "message" THEN <<Func(self \o "_" \o n \o "_alloc", "int(" \o st \o " *)")>> ELSE <<>>

OneofInterface(o, self, path, chars) ==
  LET st == "struct " \o self \o "_t"
      tag == Snake(Append(path, o.name), chars)
      const(s, k) == [d |-> "const", name |-> tag \o "_" \o s \o "_e", num |-> [neg |-> FALSE, limbs |-> IF k = 0 THEN <<>> ELSE <<k>>]]
  IN <<Member(st, Snake(<<o.name>>, chars), "enum " \o tag \o "_e"), const("none", 0)>>
     \o [k \in 1..Len(o.fields) |-> const(Snake(<<o.fields[k].name>>, chars), k)]
     \o FoldLeft(LAMBDA a, f :
          LET n == Snake(<<f.name>>, chars)
          IN a \o <<Member(st, n \o Suffix(f), ValueType(f, chars)),
                    IF f.kind = "message" THEN Func(self \o "_" \o n \o "_alloc", "int(" \o st \o " *)")
                    ELSE Func(self \o "_" \o n \o "_init", "void(" \o st \o " *)")>>, <<>>, o.fields)

\* Constants carry the name of the scope the enumeration is declared in.
EnumInterface(e, scope, chars, upper) ==
  [k \in 1..Len(e.values) |->
     LET c == SnakeChars(DotChars(scope, chars)) \o <<"_">> \o SnakeChars(chars[e.values[k].name]) \o <<"_", "e">>
     IN [d |-> "const", name |-> Str(IF upper THEN Upper(c) ELSE c), num |-> e.values[k].num,
         type |-> "enum " \o Snake(Append(scope, e.name), chars) \o "_e"]]

Each(s, op(_)) == FoldLeft(LAMBDA a, x : a \o op(x), <<>>, s)

RECURSIVE MessageInterface(_, _, _, _, _)
MessageInterface(m, scope, chars, upper, top) ==
  LET path == Append(scope, m.name)
      self == Snake(path, chars)
      st == "struct " \o self \o "_t"
      rep == "struct " \o self \o "_repeated_t"
  IN <<Member(rep, "length", "int"), Member(rep, "items_p", st \o " *")>>
     \o (IF top THEN <<Func(self \o "_new", st \o " *(void *, size_t)"),
                       Func(self \o "_encode", "int(" \o st \o " *, uint8_t *, size_t)"),
                       Func(self \o "_decode", "int(" \o st \o " *, const uint8_t *, size_t)")>> ELSE <<>>)
     \o Each(m.fields, LAMBDA f : FieldInterface(f, self, chars))
     \o Each(m.oneofs, LAMBDA o : OneofInterface(o, self, path, chars))
     \o Each(m.enums, LAMBDA e : EnumInterface(e, path, chars, upper))
     \o Each(m.messages, LAMBDA x : MessageInterface(x, path, chars, upper, FALSE))

Interface(file, chars, upper) ==
  LET scope == IF file.pkg = <<>> THEN <<>> ELSE file.pkg
  IN Each(file.enums, LAMBDA e : EnumInterface(e, scope, chars, upper))
     \o Each(file.messages, LAMBDA m : MessageInterface(m, scope, chars, upper, TRUE))
=============================================================================
