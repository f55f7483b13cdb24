----------------------------- MODULE ProtoParse -----------------------------
(* The grammar of the supported part of proto3 and the model a file means.

   ParseFile(tokens) is [ok, file] where file is

     [pkg : Seq(string) (empty if none), imports : Seq(string), options, enums,
      services, messages]
     message   [name, fields, oneofs, enums, messages]
     field     [name, num, label ("", "repeated", "optional"), abs, path]
     enum      [name, values]            value [name, num]
     oneof     [name, fields]
     service   [name, rpcs]              rpc [name, req, reqstream, res, resstream]
     option    [name, kind, s, num]

   A map field is a repeated field whose type is a nested message with the fields
   key = 1 and value = 2.  Choices are ordered: a statement of a message is the
   first that matches of option, field, enum, message, oneof, map, reserved, ";".
   Keywords are identifiers.  Options that are not at file level, reserved
   statements and empty statements mean nothing.

   Deviations from proto3 that the tool has and the specification states: the
   string "proto3" is not accepted as a string; a field whose type is named
   "option" is not a field; floats, aggregates, single quotes, string
   concatenation, groups, extensions and editions are not supported.            *)
EXTENDS ProtoText

Fail == [ok |-> FALSE, i |-> 0, v |-> <<>>]
Ok(i, v) == [ok |-> TRUE, i |-> i, v |-> v]

Eof == [k |-> "eof", s |-> "", c |-> <<>>, p |-> 0]
Tok(ts, i) == IF i <= Len(ts) THEN ts[i] ELSE Eof
Is(ts, i, s) == Tok(ts, i).k \in {"id", "p"} /\ ts[i].s = s
IsId(ts, i) == Tok(ts, i).k = "id"
IsInt(ts, i) == Tok(ts, i).k = "int"
IsStr(ts, i) == Tok(ts, i).k = "str" /\ ts[i].s # "proto3"

Join(path) == FoldLeft(LAMBDA a, b : IF a = "" THEN b ELSE a \o "." \o b, "", path)

----------------------------------------------------------------------------
\* Integers of any size: sign and limbs of 16 bits, least significant first.
RECURSIVE MulAdd(_, _, _)
MulAdd(limbs, base, d) ==
  IF limbs = <<>> THEN IF d = 0 THEN <<>> ELSE <<d>>
  ELSE LET x == limbs[1] * base + d
       IN <<x % 65536>> \o MulAdd(Tail(limbs), base, x \div 65536)

Number(chars) ==
  LET minus == chars[1] = "-"
      d == IF minus THEN Tail(chars) ELSE chars
      hex == Len(d) > 2 /\ d[2] \in {"x", "X"}
      oct == ~hex /\ d[1] = "0"
      base == IF hex THEN 16 ELSE IF oct THEN 8 ELSE 10
      digits == IF hex THEN SubSeq(d, 3, Len(d)) ELSE d
      val == FoldLeft(LAMBDA a, c : MulAdd(a, base, HexValue[c]), <<>>, digits)
      norm == IF \A n \in 1..Len(val) : val[n] = 0 THEN <<>> ELSE val
  IN [neg |-> minus /\ norm # <<>>, limbs |-> norm,
      ok |-> \A n \in 1..Len(digits) : HexValue[digits[n]] < base]

Zero == [neg |-> FALSE, limbs |-> <<>>, ok |-> TRUE]
NumOf(ts, i) == Number(ts[i].c)

----------------------------------------------------------------------------
\* a.b.c: the strings between the dots
RECURSIVE FullIdent(_, _)
FullIdent(ts, i) ==
  IF ~IsId(ts, i) THEN Fail
  ELSE IF Is(ts, i + 1, ".") /\ IsId(ts, i + 2)
       THEN LET r == FullIdent(ts, i + 2) IN Ok(r.i, <<ts[i].s>> \o r.v)
       ELSE Ok(i + 1, <<ts[i].s>>)

\* [.]a.b.c
TypeName(ts, i) ==
  LET abs == Is(ts, i, ".")
      r == FullIdent(ts, IF abs THEN i + 1 ELSE i)
  IN IF r.ok THEN Ok(r.i, [abs |-> abs, path |-> r.v]) ELSE Fail

\* { .name }
RECURSIVE DotNames(_, _, _)
DotNames(ts, i, name) ==
  IF Is(ts, i, ".") /\ IsId(ts, i + 1) THEN DotNames(ts, i + 2, name \o "." \o ts[i + 1].s)
  ELSE Ok(i, name)

OptionName(ts, i) ==
  IF IsId(ts, i) THEN DotNames(ts, i + 1, ts[i].s)
  ELSE IF ~Is(ts, i, "(") THEN Fail
  ELSE LET r == FullIdent(ts, i + 1)
       IN IF r.ok /\ Is(ts, r.i, ")")
          THEN DotNames(ts, r.i + 1, "(" \o Join(r.v) \o ")")
          ELSE Fail

Constant(ts, i) ==
  CASE Is(ts, i, "true") \/ Is(ts, i, "false") ->
         Ok(i + 1, [kind |-> "bool", s |-> ts[i].s, num |-> Zero])
    [] IsId(ts, i) -> LET r == FullIdent(ts, i)
                      IN Ok(r.i, [kind |-> "ident", s |-> Join(r.v), num |-> Zero])
    [] IsStr(ts, i) -> Ok(i + 1, [kind |-> "string", s |-> ts[i].s, num |-> Zero])
    [] IsInt(ts, i) -> Ok(i + 1, [kind |-> "integer", s |-> "", num |-> NumOf(ts, i)])
    [] OTHER -> Fail

\* name = constant
Assignment(ts, i) ==
  LET n == OptionName(ts, i)
  IN IF ~n.ok \/ ~Is(ts, n.i, "=") THEN Fail
     ELSE LET c == Constant(ts, n.i + 1)
          IN IF ~c.ok THEN Fail
             ELSE Ok(c.i, [name |-> n.v, kind |-> c.v.kind, s |-> c.v.s, num |-> c.v.num])

\* [ a = b, ... ]  or nothing
RECURSIVE Assignments(_, _)
Assignments(ts, i) ==
  LET a == Assignment(ts, i)
  IN IF ~a.ok THEN Fail
     ELSE IF Is(ts, a.i, ",") THEN Assignments(ts, a.i + 1) ELSE a

Brackets(ts, i) ==
  IF ~Is(ts, i, "[") THEN Ok(i, <<>>)
  ELSE LET a == Assignments(ts, i + 1)
       IN IF a.ok /\ Is(ts, a.i, "]") THEN Ok(a.i + 1, <<>>) ELSE Fail

\* [ options ] ;
Finish(ts, i, v) ==
  LET b == Brackets(ts, i) IN IF b.ok /\ Is(ts, b.i, ";") THEN Ok(b.i + 1, v) ELSE Fail

OptionStmt(ts, i) ==
  IF ~Is(ts, i, "option") THEN Fail
  ELSE LET a == Assignment(ts, i + 1)
       IN IF a.ok /\ Is(ts, a.i, ";") THEN Ok(a.i + 1, a.v) ELSE Fail

----------------------------------------------------------------------------
\* Enumerations
EnumValue(ts, i) ==
  IF IsId(ts, i) /\ Is(ts, i + 1, "=") /\ IsInt(ts, i + 2)
  THEN Finish(ts, i + 3, [name |-> ts[i].s, num |-> NumOf(ts, i + 2)])
  ELSE Fail

RECURSIVE EnumBody(_, _, _)
EnumBody(ts, i, vals) ==
  LET o == OptionStmt(ts, i)
      f == EnumValue(ts, i)
  IN CASE o.ok -> EnumBody(ts, o.i, vals)
       [] f.ok -> EnumBody(ts, f.i, Append(vals, f.v))
       [] Is(ts, i, ";") -> EnumBody(ts, i + 1, vals)
       [] Is(ts, i, "}") -> Ok(i + 1, vals)
       [] OTHER -> Fail

EnumDef(ts, i) ==
  IF ~(Is(ts, i, "enum") /\ IsId(ts, i + 1) /\ Is(ts, i + 2, "{")) THEN Fail
  ELSE LET b == EnumBody(ts, i + 3, <<>>)
       IN IF b.ok THEN Ok(b.i, [name |-> ts[i + 1].s, values |-> b.v]) ELSE Fail

----------------------------------------------------------------------------
\* Fields
Named(ts, i, label, ty) ==       \* name = number [options] ;
  IF IsId(ts, i) /\ Is(ts, i + 1, "=") /\ IsInt(ts, i + 2)
  THEN Finish(ts, i + 3, [name |-> ts[i].s, num |-> NumOf(ts, i + 2), label |-> label,
                          abs |-> ty.abs, path |-> ty.path])
  ELSE Fail

Unlabeled(ts, i, label) ==
  LET t == TypeName(ts, i) IN IF t.ok THEN Named(ts, t.i, label, t.v) ELSE Fail

FieldStmt(ts, i) ==
  IF Is(ts, i, "repeated") \/ Is(ts, i, "optional")
  THEN Unlabeled(ts, i + 1, ts[i].s)
  ELSE Unlabeled(ts, i, "")

RECURSIVE OneofBody(_, _, _)
OneofBody(ts, i, fs) ==
  LET o == OptionStmt(ts, i)
      f == Unlabeled(ts, i, "")
  IN CASE o.ok -> OneofBody(ts, o.i, fs)
       [] f.ok -> OneofBody(ts, f.i, Append(fs, f.v))
       [] Is(ts, i, ";") -> OneofBody(ts, i + 1, fs)
       [] Is(ts, i, "}") -> Ok(i + 1, fs)
       [] OTHER -> Fail

OneofDef(ts, i) ==
  IF ~(Is(ts, i, "oneof") /\ IsId(ts, i + 1) /\ Is(ts, i + 2, "{")) THEN Fail
  ELSE LET b == OneofBody(ts, i + 3, <<>>)
       IN IF b.ok THEN Ok(b.i, [name |-> ts[i + 1].s, fields |-> b.v]) ELSE Fail

\* Each run of letters starts with a capital and goes on in lower case.
Title(chars) ==
  [n \in 1..Len(chars) |->
     LET inner == n > 1 /\ chars[n - 1] \in Letter
     IN CASE chars[n] \in LowerSet /\ ~inner -> ToUpper[chars[n]]
          [] chars[n] \in UpperSet /\ inner -> ToLower[chars[n]]
          [] OTHER -> chars[n]]

One == [neg |-> FALSE, limbs |-> <<1>>, ok |-> TRUE]
Two == [neg |-> FALSE, limbs |-> <<2>>, ok |-> TRUE]

\* map<K, V> name = number [options] ;   Yields the field and the entry message.
MapStmt(ts, i) ==
  IF ~(Is(ts, i, "map") /\ Is(ts, i + 1, "<") /\ IsId(ts, i + 2) /\ Is(ts, i + 3, ",")) THEN Fail
  ELSE LET t == TypeName(ts, i + 4)
       IN IF ~t.ok \/ ~Is(ts, t.i, ">") \/ ~IsId(ts, t.i + 1) THEN Fail
          ELSE LET entry == "PbtoolsMap" \o Str(Title(ts[t.i + 1].c))
                   f == Named(ts, t.i + 1, "repeated", [abs |-> FALSE, path |-> <<entry>>])
               IN IF ~f.ok THEN Fail
                  ELSE Ok(f.i, [field |-> f.v,
                                entry |-> [name |-> entry, oneofs |-> <<>>, enums |-> <<>>, messages |-> <<>>,
                                  fields |-> <<[name |-> "key", num |-> One, label |-> "",
                                                abs |-> FALSE, path |-> <<ts[i + 2].s>>],
                                               [name |-> "value", num |-> Two, label |-> "",
                                                abs |-> t.v.abs, path |-> t.v.path]>>]])

----------------------------------------------------------------------------
\* reserved 1, 3 to 5, 9 to max;   reserved "a", "b";
RECURSIVE Ranges(_, _)
Ranges(ts, i) ==
  IF ~IsInt(ts, i) THEN Fail
  ELSE LET j == IF Is(ts, i + 1, "to") /\ (IsInt(ts, i + 2) \/ Is(ts, i + 2, "max")) THEN i + 3 ELSE i + 1
       IN IF Is(ts, j, ",") THEN Ranges(ts, j + 1) ELSE Ok(j, <<>>)

RECURSIVE Names(_, _)
Names(ts, i) ==
  IF ~IsStr(ts, i) THEN Fail
  ELSE IF Is(ts, i + 1, ",") THEN Names(ts, i + 2) ELSE Ok(i + 1, <<>>)

ReservedStmt(ts, i) ==
  IF ~Is(ts, i, "reserved") THEN Fail
  ELSE LET r == Ranges(ts, i + 1)
           n == Names(ts, i + 1)
       IN CASE r.ok /\ Is(ts, r.i, ";") -> Ok(r.i + 1, <<>>)
            [] n.ok /\ Is(ts, n.i, ";") -> Ok(n.i + 1, <<>>)
            [] OTHER -> Fail

----------------------------------------------------------------------------
\* Messages
RECURSIVE MessageDef(_, _), MessageBody(_, _, _)
MessageBody(ts, i, m) ==
  LET o == OptionStmt(ts, i)
      f == FieldStmt(ts, i)
      e == EnumDef(ts, i)
      s == MessageDef(ts, i)
      u == OneofDef(ts, i)
      a == MapStmt(ts, i)
      r == ReservedStmt(ts, i)
  IN CASE Is(ts, i, "}") -> Ok(i + 1, m)
       [] o.ok -> MessageBody(ts, o.i, m)
       [] f.ok -> MessageBody(ts, f.i, [m EXCEPT !.fields = Append(@, f.v)])
       [] e.ok -> MessageBody(ts, e.i, [m EXCEPT !.enums = Append(@, e.v)])
       [] s.ok -> MessageBody(ts, s.i, [m EXCEPT !.messages = Append(@, s.v)])
       [] u.ok -> MessageBody(ts, u.i, [m EXCEPT !.oneofs = Append(@, u.v)])
       [] a.ok -> MessageBody(ts, a.i, [m EXCEPT !.fields = Append(@, a.v.field),
                                                 !.messages = Append(@, a.v.entry)])
       [] r.ok -> MessageBody(ts, r.i, m)
       [] Is(ts, i, ";") -> MessageBody(ts, i + 1, m)
       [] OTHER -> Fail

MessageDef(ts, i) ==
  IF ~(Is(ts, i, "message") /\ IsId(ts, i + 1) /\ Is(ts, i + 2, "{")) THEN Fail
  ELSE MessageBody(ts, i + 3, [name |-> ts[i + 1].s, fields |-> <<>>, oneofs |-> <<>>,
                               enums |-> <<>>, messages |-> <<>>])

----------------------------------------------------------------------------
\* Services
\* ( [stream] type )   The tool tries "stream" first.
RpcArg(ts, i) ==
  IF ~Is(ts, i, "(") THEN Fail
  ELSE LET st == Is(ts, i + 1, "stream")
           t == TypeName(ts, IF st THEN i + 2 ELSE i + 1)
       IN IF t.ok /\ Is(ts, t.i, ")") THEN Ok(t.i + 1, [stream |-> st, type |-> Join(t.v.path)]) ELSE Fail

RECURSIVE OptionStmts(_, _)
OptionStmts(ts, i) == LET o == OptionStmt(ts, i) IN IF o.ok THEN OptionStmts(ts, o.i) ELSE i

RpcStmt(ts, i) ==
  IF ~(Is(ts, i, "rpc") /\ IsId(ts, i + 1)) THEN Fail
  ELSE LET a == RpcArg(ts, i + 2)
       IN IF ~a.ok \/ ~Is(ts, a.i, "returns") THEN Fail
          ELSE LET b == RpcArg(ts, a.i + 1)
                   e == IF ~b.ok THEN 0
                        ELSE IF Is(ts, b.i, ";") THEN b.i + 1
                        ELSE IF ~Is(ts, b.i, "{") THEN 0
                        ELSE LET j == OptionStmts(ts, b.i + 1) IN IF Is(ts, j, "}") THEN j + 1 ELSE 0
               IN IF e = 0 THEN Fail
                  ELSE Ok(e, [name |-> ts[i + 1].s, req |-> a.v.type, reqstream |-> a.v.stream,
                              res |-> b.v.type, resstream |-> b.v.stream])

RECURSIVE ServiceBody(_, _, _)
ServiceBody(ts, i, rs) ==
  LET o == OptionStmt(ts, i)
      r == RpcStmt(ts, i)
  IN CASE o.ok -> ServiceBody(ts, o.i, rs)
       [] r.ok -> ServiceBody(ts, r.i, Append(rs, r.v))
       [] Is(ts, i, ";") -> ServiceBody(ts, i + 1, rs)
       [] Is(ts, i, "}") -> Ok(i + 1, rs)
       [] OTHER -> Fail

ServiceDef(ts, i) ==
  IF ~(Is(ts, i, "service") /\ IsId(ts, i + 1) /\ Is(ts, i + 2, "{")) THEN Fail
  ELSE LET b == ServiceBody(ts, i + 3, <<>>)
       IN IF b.ok THEN Ok(b.i, [name |-> ts[i + 1].s, rpcs |-> b.v]) ELSE Fail

----------------------------------------------------------------------------
\* Files
ImportStmt(ts, i) ==
  IF ~Is(ts, i, "import") THEN Fail
  ELSE LET j == IF Is(ts, i + 1, "weak") \/ Is(ts, i + 1, "public") THEN i + 2 ELSE i + 1
       IN IF IsStr(ts, j) /\ Is(ts, j + 1, ";") THEN Ok(j + 2, ts[j].s) ELSE Fail

PackageStmt(ts, i) ==
  IF ~Is(ts, i, "package") THEN Fail
  ELSE LET r == FullIdent(ts, i + 1) IN IF r.ok /\ Is(ts, r.i, ";") THEN Ok(r.i + 1, r.v) ELSE Fail

RECURSIVE FileBody(_, _, _)
FileBody(ts, i, f) ==
  LET im == ImportStmt(ts, i)
      p == PackageStmt(ts, i)
      o == OptionStmt(ts, i)
      m == MessageDef(ts, i)
      e == EnumDef(ts, i)
      s == ServiceDef(ts, i)
  IN CASE i > Len(ts) -> Ok(i, f)
       [] im.ok -> FileBody(ts, im.i, [f EXCEPT !.imports = Append(@, im.v)])
       [] p.ok -> FileBody(ts, p.i, IF f.pkg = <<>> THEN [f EXCEPT !.pkg = p.v] ELSE f)
       [] o.ok -> FileBody(ts, o.i, [f EXCEPT !.options = Append(@, o.v)])
       [] m.ok -> FileBody(ts, m.i, [f EXCEPT !.messages = Append(@, m.v)])
       [] e.ok -> FileBody(ts, e.i, [f EXCEPT !.enums = Append(@, e.v)])
       [] s.ok -> FileBody(ts, s.i, [f EXCEPT !.services = Append(@, s.v)])
       [] Is(ts, i, ";") -> FileBody(ts, i + 1, f)
       [] OTHER -> Fail

EmptyFile == [pkg |-> <<>>, imports |-> <<>>, options |-> <<>>, messages |-> <<>>,
              enums |-> <<>>, services |-> <<>>]

ParseFile(ts) ==
  IF Is(ts, 1, "syntax") /\ Is(ts, 2, "=") /\ Tok(ts, 3).k = "str" /\ Tok(ts, 3).s = "proto3"
     /\ Is(ts, 4, ";")
  THEN FileBody(ts, 5, EmptyFile)
  ELSE Fail
=============================================================================
