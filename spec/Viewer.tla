------------------------------- MODULE Viewer -------------------------------
(***************************************************************************)
(* What the viewer prints for a file of octets: the first element in it,   *)
(* with all elements within, or null.                                      *)
(*                                                                         *)
(* A print is a sequence of pieces, each the set of texts which may stand  *)
(* there.  There is more than one where REALs are rounded and where        *)
(* contents are not a value of their type (these are never shown as one).  *)
(***************************************************************************)
EXTENDS Types, TLC

Ascii == <<" ", "!", "\"", "#", "$", "%", "&", "'", "(", ")", "*", "+", ",", "-", ".", "/", "0", "1", "2", "3", "4", "5", "6", "7", "8", "9",
           ":", ";", "<", "=", ">", "?", "@", "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U",
           "V", "W", "X", "Y", "Z", "[", "\\", "]", "^", "_", "`", "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q",
           "r", "s", "t", "u", "v", "w", "x", "y", "z", "{", "|", "}", "~">>
RECURSIVE Text(_)
Text(o) == IF o = <<>> THEN "" ELSE IF Len(o) = 1 THEN Ascii[o[1] - 31]
           ELSE LET h == Len(o) \div 2 IN Text(SubSeq(o, 1, h)) \o Text(SubSeq(o, h + 1, Len(o)))
Printable(o) == \A k \in 1..Len(o) : o[k] \in 32..126
\* Octets as they are.
Opaque(c) == IF Printable(c) THEN "\"" \o Text(c) \o "\"" ELSE "\"binary data\""

\* Numbers.
Pad4(n) == LET s == ToString(n) IN IF n < 10 THEN "000" \o s ELSE IF n < 100 THEN "00" \o s ELSE IF n < 1000 THEN "0" \o s ELSE s
RECURSIVE Limbs(_, _)
Limbs(a, k) == IF k = 0 THEN "" ELSE Pad4(a[k]) \o Limbs(a, k - 1)
Decimal(a) == IF a = <<>> THEN "0" ELSE ToString(a[Len(a)]) \o Limbs(a, Len(a) - 1)
\* The magnitude of eight octets of two's complement.
RECURSIVE Negated(_)
Negated(o) ==         \* 2^64 - o, for o # 0
  IF o[Len(o)] = 0 THEN Append(Negated(SubSeq(o, 1, Len(o) - 1)), 0)
  ELSE Append([k \in 1..(Len(o) - 1) |-> 255 - o[k]] \o <<>>, 256 - o[Len(o)])
Integral(o) == IF o[1] < 128 THEN Decimal(BigOfDigits(o, 256, <<>>)) ELSE "-" \o Decimal(BigOfDigits(Negated(o), 256, <<>>))

RECURSIVE Commas(_)
Commas(s) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o ", " \o Commas(Tail(s))
ArcList(v) == "[" \o Commas(Eager([k \in 1..Len(v) |-> Decimal(BigOfDigits(v[k], 128, <<>>))])) \o "]"

-----------------------------------------------------------------------------
(* REAL: six significant digits, as printf's %g; the last may be rounded   *)
(* either way.                                                             *)
\* The largest n below hi with n * 10^k <= b * 2^r.
RECURSIVE Fit(_, _, _, _, _)
Fit(lo, hi, k, b, r) == IF hi - lo <= 1 THEN lo
                        ELSE LET m == (lo + hi) \div 2 IN
                             IF CmpDec(Digits(m, 10), k, b, r) <= 0 THEN Fit(m, hi, k, b, r) ELSE Fit(lo, m, k, b, r)
RECURSIVE Stripped(_)
Stripped(d) == IF Len(d) > 1 /\ d[Len(d)] = 0 THEN Stripped(SubSeq(d, 1, Len(d) - 1)) ELSE d
Chars(d) == Text([k \in 1..Len(d) |-> 48 + d[k]] \o <<>>)
Two(n) == IF n < 10 THEN "0" \o ToString(n) ELSE ToString(n)
\* Six digits n (100000..1000000) with the first one at 10^x.
Shown(n, x) ==
  IF n = 1000000 THEN (IF x + 1 < -4 \/ x + 1 >= 6 THEN "1e" \o (IF x + 1 < 0 THEN "-" \o Two(-(x + 1)) ELSE "+" \o Two(x + 1))
                       ELSE IF x + 1 < 0 THEN "0." \o Chars(Zeros(-(x + 1) - 1)) \o "1" ELSE "1" \o Chars(Zeros(x + 1)))
  ELSE LET d == Stripped(Digits(n, 10)) IN
       IF x < -4 \/ x >= 6
       THEN Chars(<<d[1]>>) \o (IF Len(d) > 1 THEN "." \o Chars(Tail(d)) ELSE "") \o "e" \o (IF x < 0 THEN "-" \o Two(-x) ELSE "+" \o Two(x))
       ELSE IF x < 0 THEN "0." \o Chars(Zeros(-x - 1)) \o Chars(d)
       ELSE IF Len(d) <= x + 1 THEN Chars(d \o Zeros(x + 1 - Len(d)))
       ELSE Chars(SubSeq(d, 1, x + 1)) \o "." \o Chars(SubSeq(d, x + 2, Len(d)))
\* b * 2^r, not zero; guess: about its decimal exponent.
RECURSIVE Scale(_, _, _)
Scale(x, b, r) == IF CmpDec(<<1>>, x, b, r) > 0 THEN Scale(x - 1, b, r)
                  ELSE IF CmpDec(<<1>>, x + 1, b, r) <= 0 THEN Scale(x + 1, b, r) ELSE x
Rounded(b, r) ==
  LET p == r + Len(b) - 1
      x == Scale((p * 3) \div 10, b, r)
      n == Fit(100000, 1000000, x - 5, b, r)
      exact == CmpDec(Digits(n, 10), x - 5, b, r) = 0
      \* where twice the rest is more or less than half a digit
      half  == CmpDec(Digits(2 * n + 1, 10), x - 5, b, r + 1) IN
  IF exact THEN {Shown(n, x)}
  ELSE IF half > 0 THEN {Shown(n, x)} ELSE IF half < 0 THEN {Shown(n + 1, x)} ELSE {Shown(n, x), Shown(n + 1, x)}
Sign(neg, s) == IF neg THEN {"-" \o t : t \in s} ELSE s
OfDouble(v) == CASE v.kind = "zero" -> Sign(v.neg, {"0"})
                 [] v.kind = "inf" -> Sign(v.neg, {"inf"})
                 [] v.kind = "nan" -> {"nan", "-nan"}
                 [] OTHER -> Sign(v.neg, Rounded(v.bits, v.exp))
\* A decimal text: digits d times 10^e; the double next to it may be shown one digit off.
OfDecimal(t) ==
  LET d == Strip(t.dec)
      mag == Len(d) + t.e10 IN
  IF d = <<0>> THEN {"0", "-0"}
  ELSE IF mag > 305 THEN Sign(t.v.neg, {"inf", "1.79769e+308"}) \cup {"*"}
  ELSE IF mag < -300 THEN {"*"}
  ELSE LET x == mag - 1
           six == FromDigits(SubSeq(d \o Zeros(6), 1, 6), 10)
           more == \E k \in 7..Len(d) : d[k] # 0 IN
       Sign(t.v.neg, {Shown(six, x)} \cup (IF more THEN {Shown(six + 1, x)} ELSE {}))
Real(c) == LET t == DecReal(c) IN
           IF ~t.ok THEN {Opaque(c)}
           ELSE IF t.form = "dec" THEN OfDecimal(t)
           ELSE UNION {OfDouble(v) : v \in DoublesFor(t.v)} \cup (IF t.soft THEN {"0", "-0", Opaque(c)} ELSE {})

-----------------------------------------------------------------------------
(* Instants, in the zone tz seconds east of Greenwich.                     *)
Offset(tz) == LET a == (IF tz < 0 THEN -tz ELSE tz) \div 60 IN (IF tz < 0 THEN "-" ELSE "+") \o Two(a \div 60) \o ":" \o Two(a % 60)
Instant(day, sec, tz) ==
  LET s == sec + tz
      c == Civil(day + s \div 86400)
      r == s % 86400 IN
  ToString(c.y) \o "-" \o Two(c.m) \o "-" \o Two(c.d) \o "T" \o Two(r \div 3600) \o ":" \o Two((r \div 60) % 60) \o ":" \o Two(r % 60) \o Offset(tz)
When(c, tz) == LET t == ReadTime(c, tz) IN
               IF ~t.ok THEN {Opaque(c)}
               ELSE IF FromDigits([j \in 1..4 |-> c[j] - 48], 10) < 2 THEN {"*"}
               ELSE {Instant(t.day, t.sec, tz)} \cup (IF t.free THEN {Opaque(c)} ELSE {})

-----------------------------------------------------------------------------
ClassName == <<"Universal", "Application", "Context Specific", "Private">>
Named == [t \in 0..30 |->
  CASE t = 0 -> "Reserved" [] t = 1 -> "Boolean" [] t = 2 -> "Integer" [] t = 3 -> "Bit String" [] t = 4 -> "Octet String" [] t = 5 -> "Null"
    [] t = 6 -> "Object Identifier" [] t = 7 -> "Object Descriptor" [] t = 8 -> "Instance Of / External" [] t = 9 -> "Real" [] t = 10 -> "Enumerated"
    [] t = 11 -> "Embedded PDV" [] t = 12 -> "UTF8 String" [] t = 13 -> "Relative OID" [] t = 16 -> "Sequence / Sequence Of" [] t = 17 -> "Set / Set Of"
    [] t = 18 -> "Numeric String" [] t = 19 -> "Printable String" [] t = 20 -> "Teletex String / T161 String" [] t = 21 -> "Videotex String"
    [] t = 22 -> "IA5 String" [] t = 23 -> "UTC Time" [] t = 24 -> "Generalized Time" [] t = 25 -> "Graphic String" [] t = 26 -> "Visible String / ISO646 String"
    [] t = 27 -> "General String" [] t = 28 -> "Universal String" [] t = 29 -> "Character String" [] t = 30 -> "BMP String"
    [] OTHER -> "Unknown Universal Tag"]
Small(tag) == Len(tag) = 1 /\ tag[1] <= 30
Identifier(t) == "{ \"class\": \"" \o ClassName[t.cls + 1] \o "\", \"tag\": " \o
                 (IF t.cls # 0 THEN Decimal(BigOfDigits(t.tag, 128, <<>>))
                  ELSE "\"" \o (IF Small(t.tag) THEN Named[t.tag[1]] ELSE "Unknown Universal Tag") \o "\"") \o " }"

Shows(t, c, tz) ==
  IF t.cls # 0 \/ ~Small(t.tag) THEN {Opaque(c)}
  ELSE LET u == t.tag[1] IN
    CASE u = 1 -> IF OkBool(c) THEN {IF DecBool(c) THEN "true" ELSE "false"} ELSE {Opaque(c)}
      [] u \in {2, 10} -> IF OkInt(c) THEN {Integral(DecInt(c))} ELSE {Opaque(c)}
      [] u = 5 -> IF c = <<>> THEN {"null"} ELSE {"null", Opaque(c)}
      [] u = 6 -> IF DecOid(c) = NoOid THEN {Opaque(c), "[]"} ELSE {ArcList(DecOid(c))} \cup (IF Padded(c) THEN {Opaque(c), "[]"} ELSE {})
      [] u = 9 -> Real(c)
      [] u \in {23, 24} -> When(c, tz)
      [] OTHER -> {Opaque(c)}

\* Pieces: texts, and sets of more than one text.
Lit(s) == <<{s}>>
RECURSIVE Pieces(_, _, _), Children(_, _, _)
Pieces(b, t, tz) ==
  Lit("{ \"length\": " \o ToString(Size(t)) \o ", \"identifier\": " \o Identifier(t) \o ", \"content\": ") \o
  (IF t.cons = Primitive THEN <<Shows(t, Content(b, t), tz)>> \o Lit(" }")
   ELSE Lit("[") \o Children(Content(b, t), Elements(Content(b, t)), tz) \o Lit("] }"))
Children(c, es, tz) ==
  IF es = <<>> THEN <<>>
  ELSE Pieces(es[1], ParseTLV(es[1]), tz) \o (IF Len(es) = 1 THEN <<>> ELSE Lit(", ")) \o Children(c, Tail(es), tz)
PrintOf(b, tz) == LET t == ParseTLV(b) IN IF t.ok THEN Pieces(b, t, tz) ELSE Lit("null")

\* out from position p on is a print of the pieces from k on.  A piece "*" is any text up to the end of its element.
Piece(out, p, s) == p + Len(s) - 1 <= Len(out) /\ SubSeq(out, p, p + Len(s) - 1) = s
RECURSIVE Ends(_, _)
Ends(out, p) == IF p > Len(out) THEN p ELSE IF Piece(out, p, " }") THEN p ELSE Ends(out, p + 1)
RECURSIVE Fits(_, _, _, _)
Fits(out, p, ps, k) ==
  IF k > Len(ps) THEN p = Len(out) + 1
  ELSE \E s \in ps[k] : IF s = "*" THEN Fits(out, Ends(out, p), ps, k + 1) ELSE Piece(out, p, s) /\ Fits(out, p + Len(s), ps, k + 1)
=============================================================================
