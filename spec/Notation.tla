------------------------------ MODULE Notation ------------------------------
(***************************************************************************)
(* The notation schemas are written in.  A text is a sequence of           *)
(* characters, each a string (of one character for the printable ones and  *)
(* the white space, of more for all others).  Lex gives its lexical items; *)
(* WellFormed says whether they can be modules at all.                     *)
(*                                                                         *)
(* The grammar is generous: what it refuses is malformed under any reading *)
(* of X.680 (and its 1988 predecessor); what it admits may still be        *)
(* outside the notation.  Text between braces and parentheses is looked at *)
(* only where it is a list of components, alternatives or enumerations.    *)
(***************************************************************************)
EXTENDS Integers, Sequences

Upper == {"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}
Lower == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z"}
Digit == {"0","1","2","3","4","5","6","7","8","9"}
Letter == Upper \cup Lower
Space == {" ", "\t", "\n", "\r", "\f", "VT"}
NewLine == {"\n", "\r", "\f", "VT"}
Single == {"{", "}", "(", ")", "[", "]", ":", ";", ",", "-", ".", "|", "!", "<", "^", "@"}
Quote == "\""

Simple == {"BOOLEAN", "NULL", "REAL", "EXTERNAL", "UTCTime", "GeneralizedTime", "ObjectDescriptor", "DATE", "TIME", "DATE-TIME", "TIME-OF-DAY",
           "DURATION", "RELATIVE-OID", "OID-IRI", "OID_IRI", "RELATIVE-OID-IRI", "BMPString", "GeneralString", "GraphicString", "IA5String", "ISO646String",
           "NumericString", "PrintableString", "TeletexString", "T61String", "UniversalString", "UTF8String", "VideotexString", "VisibleString", "ANY"}
Constants == {"TRUE", "FALSE", "NULL", "MIN", "MAX", "PLUS-INFINITY", "PLUS_INFINITY", "MINUS-INFINITY", "NOT-A-NUMBER"}
Others == {"ABSENT", "ABSTRACT-SYNTAX", "ALL", "APPLICATION", "AUTOMATIC", "BEGIN", "BIT", "BY", "CHARACTER", "CHOICE", "CLASS", "COMPONENT", "COMPONENTS",
           "CONSTRAINED", "CONTAINING", "DEFAULT", "DEFINITIONS", "EMBEDDED", "ENCODED", "ENCODING-CONTROL", "END", "ENUMERATED", "EXCEPT", "EXPLICIT",
           "EXPORTS", "EXTENSIBILITY", "FROM", "IDENTIFIER", "IMPLICIT", "IMPLIED", "IMPORTS", "INCLUDES", "INSTANCE", "INSTRUCTIONS", "INTEGER",
           "INTERSECTION", "OBJECT", "OCTET", "OF", "OPTIONAL", "PATTERN", "PDV", "PRESENT", "PRIVATE", "SEQUENCE", "SET", "SETTINGS", "SIZE", "STRING",
           "SYNTAX", "TAGS", "TYPE-IDENTIFIER", "UNION", "UNIQUE", "UNIVERSAL", "WITH"}
Keywords == Simple \cup Constants \cup Others

-----------------------------------------------------------------------------
(* Lexical items: [k, s] with k one of U, l (names), kw, num, neg, real, cstr, bits, field, sym. *)
At(c, i) == IF i <= Len(c) THEN c[i] ELSE "EOF"
\* The first position from i on which is not a character of the set.
RECURSIVE While(_, _, _)
While(c, i, set) == IF At(c, i) \in set THEN While(c, i + 1, set) ELSE i
RECURSIVE Word(_, _)
Word(c, i) ==
  IF At(c, i) \in Letter \cup Digit \cup {"_"} THEN Word(c, i + 1)
  ELSE IF At(c, i) = "-" /\ At(c, i + 1) \in Letter \cup Digit \cup {"_"} THEN Word(c, i + 1)
  ELSE i
\* After a comment which began with --, and with / *; 0 if it does not end.
RECURSIVE Line(_, _)
Line(c, i) == IF At(c, i) = "EOF" THEN i ELSE IF At(c, i) \in NewLine THEN i ELSE IF At(c, i) = "-" /\ At(c, i + 1) = "-" THEN i + 2 ELSE Line(c, i + 1)
RECURSIVE Block(_, _)
Block(c, i) == IF At(c, i) = "EOF" THEN 0 ELSE IF At(c, i) = "*" /\ At(c, i + 1) = "/" THEN i + 2 ELSE Block(c, i + 1)
RECURSIVE Cstr(_, _)
Cstr(c, i) == IF At(c, i) = "EOF" THEN 0
              ELSE IF At(c, i) # Quote THEN Cstr(c, i + 1)
              ELSE IF At(c, i + 1) = Quote THEN Cstr(c, i + 2) ELSE i + 1
RECURSIVE Cat(_, _, _)
Cat(c, i, j) == IF i >= j THEN "" ELSE IF j = i + 1 THEN c[i] ELSE LET h == (i + j) \div 2 IN Cat(c, i, h) \o Cat(c, h, j)
Has(c, i, j, set) == \E k \in i..(j - 1) : c[k] \in set

Bad(o) == [o EXCEPT !.bad = TRUE]
Put(o, kind, text) == [o EXCEPT !.ts = Append(@, [k |-> kind, s |-> text])]
Odd(o, b) == IF b THEN [o EXCEPT !.odd = TRUE] ELSE o

\* o: items so far (ts), whether the text is malformed (bad) or outside what this module decides (odd).
RECURSIVE From(_, _, _)
From(c, i, o) ==
  LET x == At(c, i)  y == At(c, i + 1) IN
  IF x = "EOF" THEN o
  ELSE IF x \in Space THEN From(c, i + 1, Odd(o, x \in {"\r", "VT"} /\ ~(x = "\r" /\ y = "\n")))
  ELSE IF x = "-" /\ y = "-" THEN From(c, Line(c, i + 2), Odd(o, Has(c, i, Line(c, i + 2), {"EOT"})))
  ELSE IF x = "/" /\ y = "*" THEN LET j == Block(c, i + 2) IN
       IF j = 0 THEN Bad(o) ELSE From(c, j, Odd(o, \E k \in (i + 2)..(j - 3) : c[k] = "/" /\ c[k + 1] = "*"))
  ELSE IF x \in Letter THEN LET j == Word(c, i)  w == Cat(c, i, j) IN
       From(c, j, Odd(Put(o, IF w \in Keywords THEN "kw" ELSE IF x \in Upper THEN "U" ELSE "l", w), Has(c, i, j, {"_"})))
  ELSE IF x = "&" /\ y \in Letter THEN LET j == Word(c, i + 1) IN From(c, j, Put(o, "field", Cat(c, i, j)))
  ELSE IF x \in Digit \/ (x = "-" /\ y \in Digit) THEN
       LET b == IF x = "-" THEN i + 1 ELSE i
           j == While(c, b, Digit)
           r == At(c, j) = "." /\ At(c, j + 1) \in Digit
           e == IF r THEN While(c, j + 1, Digit) ELSE j
           odd == At(c, e) \in Letter \cup {"_"} \/ (c[b] = "0" /\ j > b + 1) \/ (r /\ x = "-") \/ (At(c, e) = "." /\ At(c, e + 1) # ".") IN
       From(c, e, Odd(Put(o, IF r THEN "real" ELSE IF x = "-" THEN "neg" ELSE "num", Cat(c, i, e)), odd))
  ELSE IF x = Quote THEN LET j == Cstr(c, i + 1) IN IF j = 0 THEN Bad(o) ELSE From(c, j, Put(o, "cstr", Cat(c, i, j)))
  ELSE IF x = "'" THEN
       LET j == While(c, i + 1, Digit \cup {"A","B","C","D","E","F"}) IN
       IF At(c, j) = "'" /\ At(c, j + 1) \in {"B", "H"} /\ At(c, j + 2) \notin Letter \cup Digit \cup {"_", "-"}
          /\ (At(c, j + 1) = "H" \/ \A k \in (i + 1)..(j - 1) : c[k] \in {"0", "1"})
       THEN From(c, j + 2, Put(o, "bits", Cat(c, i, j + 2)))
       ELSE Odd(o, TRUE)
  ELSE IF x = ":" /\ y = ":" /\ At(c, i + 2) = "=" THEN From(c, i + 3, Put(o, "sym", "::="))
  ELSE IF x = "." /\ y = "." THEN IF At(c, i + 2) = "." THEN From(c, i + 3, Put(o, "sym", "...")) ELSE From(c, i + 2, Put(o, "sym", ".."))
  ELSE IF x \in Single THEN From(c, i + 1, Put(o, "sym", x))
  \* A symbol of no item of any notation.
  ELSE IF x \in {"#", "$", "%", "?", "\\", "`", "~", "+", "=", "_", "&"} THEN Bad(o)
  ELSE Odd(o, TRUE)
Lex(c) == From(c, 1, [ts |-> <<>>, bad |-> FALSE, odd |-> FALSE])

-----------------------------------------------------------------------------
(* The grammar: each operator gives the position after what it recognises at p, or 0. *)
None == [k |-> "eof", s |-> ""]
I(t, p) == IF p >= 1 /\ p <= Len(t) THEN t[p] ELSE None
Is(t, p, s) == LET x == I(t, p) IN x.s = s /\ x.k \in {"sym", "kw"}
Kind(t, p, ks) == I(t, p).k \in ks
Tok(t, p, s) == IF Is(t, p, s) THEN p + 1 ELSE 0
OneOf(t, p, set) == LET x == I(t, p) IN x.s \in set /\ x.k \in {"sym", "kw"}

Open == {"{", "(", "["}
Close == {"}", ")", "]"}
Match(s) == CASE s = "{" -> "}" [] s = "(" -> ")" [] s = "[" -> "]"
\* After the bracket which closes the one at p.
RECURSIVE Inside(_, _)
Inside(t, p) ==           \* the first position not within nested brackets which is a closing one (or the end)
  IF Kind(t, p, {"eof"}) \/ OneOf(t, p, Close) THEN p
  ELSE IF OneOf(t, p, Open) THEN LET q == Inside(t, p + 1) IN IF Is(t, q, Match(I(t, p).s)) THEN Inside(t, q + 1) ELSE q
  ELSE Inside(t, p + 1)
Brackets(t, p) == LET q == Inside(t, p + 1) IN IF Is(t, q, Match(I(t, p).s)) THEN q + 1 ELSE 0
Braces(t, p) == IF Is(t, p, "{") THEN Brackets(t, p) ELSE 0
Full(t, p, s) == IF Is(t, p, s) /\ ~Is(t, p + 1, Match(s)) THEN Brackets(t, p) ELSE 0      \* with something between
\* Nested brackets are stepped over up to a comma or the closing brace.
RECURSIVE Run(_, _)
Run(t, p) == IF Kind(t, p, {"eof"}) \/ OneOf(t, p, Close) \/ Is(t, p, ",") THEN p
             ELSE IF OneOf(t, p, Open) THEN LET q == Brackets(t, p) IN IF q = 0 THEN 0 ELSE Run(t, q)
             ELSE Run(t, p + 1)

Numbering(t, p) == IF Kind(t, p, {"num", "neg", "l"}) THEN Tok(t, p + 1, ")")
                   ELSE IF Kind(t, p, {"U"}) /\ Is(t, p + 1, ".") /\ Kind(t, p + 2, {"l"}) THEN Tok(t, p + 3, ")") ELSE 0
NamedNumber(t, p) == IF Kind(t, p, {"l"}) /\ Is(t, p + 1, "(") THEN Numbering(t, p + 2) ELSE 0
Exception(t, p) == IF Is(t, p, "!") THEN (IF Run(t, p + 1) = p + 1 THEN 0 ELSE Run(t, p + 1)) ELSE p
EnumItem(t, p) == IF Is(t, p, "...") THEN Exception(t, p + 1)
                  ELSE IF ~Kind(t, p, {"l"}) THEN 0 ELSE IF Is(t, p + 1, "(") THEN Numbering(t, p + 2) ELSE p + 1
Argument(t, p) == LET q == Run(t, p) IN IF q = p THEN 0 ELSE q

RECURSIVE Type(_, _), Core(_, _), Value(_, _), Constraints(_, _), Fields(_, _), Item(_, _, _), Items(_, _, _)
Constraint(t, p) == IF Is(t, p, "SIZE") THEN Full(t, p + 1, "(") ELSE IF Is(t, p, "(") THEN Full(t, p, "(") ELSE 0
Constraints(t, p) == IF p = 0 THEN 0 ELSE IF Is(t, p, "(") \/ Is(t, p, "SIZE") THEN Constraints(t, Constraint(t, p)) ELSE p
Type(t, p) == Constraints(t, Core(t, p))
Fields(t, p) == IF ~Kind(t, p, {"field"}) THEN 0 ELSE IF Is(t, p + 1, ".") THEN Fields(t, p + 2) ELSE p + 1
Named(t, p) == IF Kind(t, p, {"l"}) /\ ~Is(t, p + 1, "<") /\ ~Is(t, p + 1, ".") THEN Type(t, p + 1) ELSE 0
NamedOrNot(t, p) == IF Kind(t, p, {"l"}) /\ ~Is(t, p + 1, "<") /\ ~Is(t, p + 1, ".") THEN Type(t, p + 1) ELSE Type(t, p)
Version(t, p) == IF Is(t, p, "[") /\ Is(t, p + 1, "[") THEN Brackets(t, p) ELSE 0
Component(t, p) ==
  IF Is(t, p, "...") THEN Exception(t, p + 1)
  ELSE IF Version(t, p) > 0 THEN Version(t, p)
  ELSE IF Is(t, p, "COMPONENTS") THEN IF Is(t, p + 1, "OF") THEN Type(t, p + 2) ELSE 0
  ELSE LET q == NamedOrNot(t, p) IN
       IF q = 0 THEN 0 ELSE IF Is(t, q, "OPTIONAL") THEN q + 1 ELSE IF Is(t, q, "DEFAULT") THEN Value(t, q + 1) ELSE q
Alternative(t, p) == IF Is(t, p, "...") THEN Exception(t, p + 1) ELSE IF Version(t, p) > 0 THEN Version(t, p) ELSE Named(t, p)
OfType(t, p) == IF Is(t, p, "OF") THEN NamedOrNot(t, p + 1) ELSE 0
\* Items of a kind, separated by commas, and a closing brace.
Item(t, p, kind) == CASE kind = "number" -> NamedNumber(t, p) [] kind = "enumerator" -> EnumItem(t, p) [] kind = "argument" -> Argument(t, p)
                      [] kind = "component" -> Component(t, p) [] kind = "alternative" -> Alternative(t, p)
Items(t, p, kind) ==
  LET q == Item(t, p, kind) IN
  IF q = 0 THEN 0 ELSE IF Is(t, q, ",") THEN Items(t, q + 1, kind) ELSE Tok(t, q, "}")
TagNumber(t, p) == LET q == IF OneOf(t, p, {"UNIVERSAL", "APPLICATION", "PRIVATE"}) THEN p + 1 ELSE p IN
                   IF Kind(t, q, {"num", "l"}) THEN Tok(t, q + 1, "]")
                   ELSE IF Kind(t, q, {"U"}) /\ OneOf(t, q + 1, {".", ":"}) THEN Brackets(t, p - 1) ELSE 0
Core(t, p) ==
  LET x == I(t, p) IN
  CASE x.k = "kw" /\ x.s \in Simple ->
         IF x.s = "ANY" /\ I(t, p + 1).s = "DEFINED" THEN (IF Is(t, p + 2, "BY") /\ Kind(t, p + 3, {"l"}) THEN p + 4 ELSE 0) ELSE p + 1
    [] x.k = "kw" /\ x.s = "INTEGER" -> IF Is(t, p + 1, "{") THEN Items(t, p + 2, "number") ELSE p + 1
    [] x.k = "kw" /\ x.s = "BIT" -> IF ~Is(t, p + 1, "STRING") THEN 0 ELSE IF Is(t, p + 2, "{") THEN Items(t, p + 3, "number") ELSE p + 2
    [] x.k = "kw" /\ x.s \in {"OCTET", "CHARACTER"} -> Tok(t, p + 1, "STRING")
    [] x.k = "kw" /\ x.s = "OBJECT" -> Tok(t, p + 1, "IDENTIFIER")
    [] x.k = "kw" /\ x.s = "EMBEDDED" -> Tok(t, p + 1, "PDV")
    [] x.k = "kw" /\ x.s = "INSTANCE" -> IF Is(t, p + 1, "OF") /\ I(t, p + 2).k \in {"U", "kw"} THEN (IF Is(t, p + 3, ".") THEN p + 5 ELSE p + 3) ELSE 0
    [] x.k = "kw" /\ x.s = "ENUMERATED" -> IF Is(t, p + 1, "{") THEN Items(t, p + 2, "enumerator") ELSE 0
    [] x.k = "kw" /\ x.s \in {"SEQUENCE", "SET"} ->
         IF Is(t, p + 1, "{") THEN (IF Is(t, p + 2, "}") THEN p + 3 ELSE Items(t, p + 2, "component"))
         ELSE IF Is(t, p + 1, "OF") THEN OfType(t, p + 1)
         ELSE LET q == Constraint(t, p + 1) IN IF q = 0 THEN 0 ELSE OfType(t, q)
    [] x.k = "kw" /\ x.s = "CHOICE" -> IF Is(t, p + 1, "{") THEN Items(t, p + 2, "alternative") ELSE 0
    [] x.k = "kw" /\ x.s \in {"TYPE-IDENTIFIER", "ABSTRACT-SYNTAX"} -> IF Is(t, p + 1, ".") THEN Fields(t, p + 2) ELSE 0
    [] x.k = "sym" /\ x.s = "[" -> LET q == TagNumber(t, p + 1) IN
                     IF q = 0 THEN 0 ELSE Type(t, IF OneOf(t, q, {"IMPLICIT", "EXPLICIT"}) THEN q + 1 ELSE q)
    [] x.k = "U" -> LET q == IF ~Is(t, p + 1, ".") THEN p + 1 ELSE IF Kind(t, p + 2, {"U"}) THEN p + 3 ELSE Fields(t, p + 2) IN
                    IF q > 0 /\ Is(t, q, "{") THEN Items(t, q + 1, "argument") ELSE q
    [] x.k = "l" -> IF Is(t, p + 1, "<") THEN Type(t, p + 2) ELSE IF Is(t, p + 1, ".") THEN Fields(t, p + 2) ELSE 0
    [] OTHER -> 0
Qualified(t, p) == IF Is(t, p + 1, ".") /\ Kind(t, p + 2, {"l", "U", "field"}) THEN p + 3 ELSE IF Is(t, p + 1, ".") THEN 0 ELSE p + 1
Value(t, p) ==
  LET x == I(t, p)
      q == CASE x.k \in {"num", "neg", "real", "cstr", "bits", "field"} -> p + 1
             [] x.k = "kw" /\ x.s = "CONTAINING" -> Value(t, p + 1)
             [] x.k = "kw" /\ x.s \in Constants -> p + 1
             [] x.k = "kw" -> p + 1                      \* what may begin a value of an open type, and more
             [] x.k = "sym" /\ x.s = "{" -> Braces(t, p)
             [] x.k = "sym" /\ x.s = "-" -> IF Kind(t, p + 1, {"num", "real"}) THEN p + 2 ELSE 0
             [] x.k \in {"U", "l"} -> LET e == Qualified(t, p) IN
                                      IF e = 0 THEN 0 ELSE IF Is(t, e, "{") THEN Braces(t, e) ELSE IF Is(t, e, "(") THEN Full(t, e, "(") ELSE e
             [] OTHER -> 0 IN
  IF q > 0 /\ OneOf(t, q, {":", "|"}) THEN Value(t, q + 1) ELSE q
\* The value of a value assignment (also of a set of values).
RECURSIVE Values(_, _)
Values(t, p) == LET q == Value(t, p) IN IF q > 0 /\ Is(t, q, ",") THEN Values(t, q + 1) ELSE q

Class(t, p) == IF ~Is(t, p + 1, "{") THEN 0
               ELSE LET q == Full(t, p + 1, "{") IN
                    IF q > 0 /\ Is(t, q, "WITH") THEN (IF Is(t, q + 1, "SYNTAX") THEN Braces(t, q + 2) ELSE 0) ELSE q
Defined(t, p) == IF Is(t, p, "CLASS") THEN Class(t, p)
                 ELSE IF Is(t, p, "{") THEN Braces(t, p)
                 ELSE IF OneOf(t, p, {"TYPE-IDENTIFIER", "ABSTRACT-SYNTAX"}) THEN p + 1
                 ELSE Type(t, p)
Assignment(t, p) ==
  LET q == IF Is(t, p + 1, "{") THEN Full(t, p + 1, "{") ELSE p + 1 IN
  IF ~Kind(t, p, {"U", "l"}) \/ q = 0 THEN 0
  ELSE IF Kind(t, p, {"U"}) /\ Is(t, q, "::=") THEN Defined(t, q + 1)
  ELSE LET r == IF OneOf(t, q, {"TYPE-IDENTIFIER", "ABSTRACT-SYNTAX"}) THEN q + 1 ELSE Type(t, q) IN
       IF r > 0 /\ Is(t, r, "::=") THEN Values(t, r + 1) ELSE 0
RECURSIVE Assignments(_, _)
Assignments(t, p) == IF p = 0 THEN 0 ELSE IF Kind(t, p, {"U", "l"}) THEN Assignments(t, Assignment(t, p)) ELSE p

RECURSIVE Symbols(_, _)
Symbols(t, p) ==
  LET q == IF ~Kind(t, p, {"U", "l"}) THEN 0 ELSE IF Is(t, p + 1, "{") THEN (IF Is(t, p + 2, "}") THEN p + 3 ELSE 0) ELSE p + 1 IN
  IF q > 0 /\ Is(t, q, ",") THEN Symbols(t, q + 1) ELSE q
Exports(t, p) == IF ~Is(t, p, "EXPORTS") THEN p
                 ELSE IF Is(t, p + 1, "ALL") THEN Tok(t, p + 2, ";") ELSE IF Is(t, p + 1, ";") THEN p + 2
                 ELSE LET q == Symbols(t, p + 1) IN IF q = 0 THEN 0 ELSE Tok(t, q, ";")
RECURSIVE Sources(_, _)
Sources(t, p) ==
  IF Is(t, p, ";") THEN p + 1
  ELSE LET q == Symbols(t, p) IN
       IF q = 0 \/ ~Is(t, q, "FROM") \/ ~Kind(t, q + 1, {"U"}) THEN 0
       ELSE IF Is(t, q + 2, "{") THEN LET r == Full(t, q + 2, "{") IN IF r = 0 THEN 0 ELSE Sources(t, r)
       ELSE IF Kind(t, q + 2, {"l"}) /\ (Is(t, q + 3, ";") \/ Kind(t, q + 3, {"U", "l"})) THEN Sources(t, q + 3)
       ELSE Sources(t, q + 2)
Imports(t, p) == IF p > 0 /\ Is(t, p, "IMPORTS") THEN Sources(t, p + 1) ELSE p

\* The position of the ::= of a module's header.
Header(t, p) ==
  LET a == IF Is(t, p + 1, "{") THEN Full(t, p + 1, "{") ELSE p + 1
      b == IF Kind(t, a, {"cstr"}) THEN a + 1 ELSE a
      d == IF b > 0 THEN Tok(t, b, "DEFINITIONS") ELSE 0
      e == IF d > 0 /\ Is(t, d + 1, "INSTRUCTIONS") THEN d + 2 ELSE d
      f == IF e > 0 /\ OneOf(t, e, {"EXPLICIT", "IMPLICIT", "AUTOMATIC"}) THEN Tok(t, e + 1, "TAGS") ELSE e
      g == IF f > 0 /\ Is(t, f, "EXTENSIBILITY") THEN Tok(t, f + 1, "IMPLIED") ELSE f IN
  IF ~Kind(t, p, {"U"}) \/ a = 0 \/ g = 0 THEN 0 ELSE g
Module(t, p) ==
  LET h == Header(t, p)
      b == IF h > 0 /\ Is(t, h, "::=") THEN Tok(t, h + 1, "BEGIN") ELSE 0
      x == IF b > 0 THEN Exports(t, b) ELSE 0
      i == Imports(t, x)
      a == IF i > 0 THEN Assignments(t, i) ELSE 0 IN
  IF a = 0 THEN 0 ELSE Tok(t, a, "END")
RECURSIVE Modules(_, _)
Modules(t, p) == LET q == Module(t, p) IN IF q = 0 THEN FALSE ELSE IF Kind(t, q, {"eof"}) THEN TRUE ELSE Modules(t, q)

\* "bad": malformed under any reading; "odd": not for this module to say; "fine": it may be a schema.
Reading(c) == LET l == Lex(c) IN IF l.odd THEN "odd" ELSE IF l.bad THEN "bad" ELSE IF Modules(l.ts, 1) THEN "fine" ELSE "bad"
=============================================================================
