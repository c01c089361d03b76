-------------------------------- MODULE Ber --------------------------------
(***************************************************************************)
(* BER transfer syntax (X.690, definite form), as pure operators over      *)
(* octet strings.  An octet string is a sequence of 0..255.                *)
(*                                                                         *)
(* TLC integers are 32 bit, so quantities that may be larger are kept as   *)
(* digit strings, most significant first and without leading zeros (at     *)
(* least one digit):                                                       *)
(*   tag numbers     base 128   (at most 9 digits: 63 bits)                *)
(*   lengths         base 256   (at most 8 digits: 64 bits)                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Octets == Seq(0..255)

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

\* The first n octets of s, and s without its first n octets.
Take(s, n) == SubSeq(s, 1, Min2(n, Len(s)))
Drop(s, n) == SubSeq(s, n + 1, Len(s))

RECURSIVE Strip(_)
Strip(d) == IF Len(d) > 1 /\ d[1] = 0 THEN Strip(Tail(d)) ELSE d

Zeros(n) == [i \in 1..n |-> 0]

\* The same sequence; makes TLC evaluate its elements once and for all.
Eager(f) == f \o <<>>

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
Flatten(ss) == Concat(Eager(ss))

\* Digits of a (small) natural number.
RECURSIVE Digits(_, _)
Digits(n, base) == IF n < base THEN <<n>>
                   ELSE Append(Digits(n \div base, base), n % base)

RECURSIVE FromDigits(_, _)
FromDigits(d, base) ==
  IF d = <<>> THEN 0
  ELSE FromDigits(SubSeq(d, 1, Len(d) - 1), base) * base + d[Len(d)]

\* Base 256 digits -> natural number when it is small enough for TLC.
FitsInt(d256) == LET s == Strip(d256) IN Len(s) < 4 \/ (Len(s) = 4 /\ s[1] < 128)
LenToInt(d256) == FromDigits(Strip(d256), 256)

-----------------------------------------------------------------------------
(* Identifier octets (X.690 8.1.2).                                        *)
Universal == 0  Application == 1  Context == 2  Private == 3
Primitive == 0  Constructed == 1

MaxTagDigits == 9            \* 63 bits
MaxLenOctets == 8            \* 64 bits

ClassOf(o)  == o \div 64
ConsOf(o)   == (o \div 32) % 2

EncIdentifier(cls, cons, tag) ==
  LET lead == cls * 64 + cons * 32 IN
  IF Len(tag) = 1 /\ tag[1] <= 30
  THEN <<lead + tag[1]>>
  ELSE <<lead + 31>> \o
       [i \in 1..Len(tag) |-> IF i < Len(tag) THEN tag[i] + 128 ELSE tag[i]]

IdentifierLength(tag) == IF Len(tag) = 1 /\ tag[1] <= 30 THEN 1 ELSE 1 + Len(tag)

\* Number of octets of the identifier at the front of b, 0 if truncated.
RECURSIVE TagEnd(_, _)
TagEnd(b, i) == IF i > Len(b) THEN 0
                ELSE IF b[i] < 128 THEN i ELSE TagEnd(b, i + 1)

BadTag == [ok |-> FALSE, n |-> 0, tag |-> <<0>>]

ParseIdentifier(b) ==
  IF b = <<>> THEN BadTag
  ELSE IF b[1] % 32 # 31 THEN [ok |-> TRUE, n |-> 1, tag |-> <<b[1] % 32>>]
  ELSE LET e == TagEnd(b, 2) IN
       IF e = 0 THEN BadTag
       ELSE LET d == Strip([i \in 1..(e - 1) |-> b[i + 1] % 128]) IN
            IF Len(d) > MaxTagDigits THEN BadTag
            ELSE [ok |-> TRUE, n |-> e, tag |-> d]

(* Length octets (X.690 8.1.3), definite form.                             *)
EncLength(len) ==      \* len: base 256 digits
  IF Len(len) = 1 /\ len[1] < 128 THEN len ELSE <<128 + Len(len)>> \o len

LengthLength(len) == IF Len(len) = 1 /\ len[1] < 128 THEN 1 ELSE 1 + Len(len)

BadLen == [ok |-> FALSE, n |-> 0, len |-> <<0>>]

ParseLength(b) ==      \* b begins at the length octets
  IF b = <<>> THEN BadLen
  ELSE IF b[1] < 128 THEN [ok |-> TRUE, n |-> 1, len |-> <<b[1]>>]
  ELSE LET k == b[1] - 128 IN
       IF k = 0 \/ k > MaxLenOctets \/ k + 1 > Len(b) THEN BadLen
       ELSE [ok |-> TRUE, n |-> k + 1, len |-> Strip(SubSeq(b, 2, k + 1))]

-----------------------------------------------------------------------------
(* One element.                                                            *)
Bad == [ok |-> FALSE, cls |-> 0, cons |-> 0, tag |-> <<0>>, idlen |-> 0, hdr |-> 0, len |-> 0]

ParseTLV(b) ==
  LET id == ParseIdentifier(b) IN
  IF ~id.ok THEN Bad
  ELSE LET l == ParseLength(Drop(b, id.n)) IN
       IF ~l.ok THEN Bad
       ELSE LET h == id.n + l.n IN
            IF ~FitsInt(l.len) THEN Bad
            ELSE IF LenToInt(l.len) > Len(b) - h THEN Bad
            ELSE [ok |-> TRUE, cls |-> ClassOf(b[1]), cons |-> ConsOf(b[1]),
                  tag |-> id.tag, idlen |-> id.n, hdr |-> h, len |-> LenToInt(l.len)]

Size(t)          == t.hdr + t.len
Element(b, t)    == Take(b, Size(t))
Content(b, t)    == SubSeq(b, t.hdr + 1, Size(t))

EncHeader(cls, cons, tag, clen) ==        \* clen a natural number
  EncIdentifier(cls, cons, tag) \o EncLength(Digits(clen, 256))

EncTLV(cls, cons, tag, content) == EncHeader(cls, cons, tag, Len(content)) \o content

\* The maximal well-formed prefix of sibling elements, as a sequence of
\* parse records extended with the offset.
RECURSIVE Siblings(_, _)
Siblings(b, off) ==
  LET t == ParseTLV(b) IN
  IF ~t.ok THEN <<>>
  ELSE <<[off |-> off, cls |-> t.cls, cons |-> t.cons, tag |-> t.tag,
          hdr |-> t.hdr, len |-> t.len]>> \o Siblings(Drop(b, Size(t)), off + Size(t))

\* The elements themselves.
RECURSIVE Elements(_)
Elements(b) ==
  LET t == ParseTLV(b) IN
  IF ~t.ok THEN <<>> ELSE <<Element(b, t)>> \o Elements(Drop(b, Size(t)))

-----------------------------------------------------------------------------
(* An identifier specification: a non-empty sequence of [cls, tag], outer  *)
(* to inner.  One entry: simple identifier; two: explicit wrapper.         *)
Ident(cls, tag) == [cls |-> cls, tag |-> tag]

RECURSIVE Wrap(_, _, _)
Wrap(ids, cons, content) ==
  IF Len(ids) = 1 THEN EncTLV(ids[1].cls, cons, ids[1].tag, content)
  ELSE EncTLV(ids[1].cls, Constructed, ids[1].tag, Wrap(Tail(ids), cons, content))

\* Matching an element against an identifier specification: the parse record
\* of the innermost element and its content, or not ok.
NoMatch == [ok |-> FALSE, content |-> <<>>, inner |-> <<>>]
RECURSIVE Unwrap(_, _, _)
Unwrap(ids, cons, b) ==
  LET t == ParseTLV(b) IN
  IF ~t.ok THEN NoMatch
  ELSE IF t.cls # ids[1].cls \/ t.tag # ids[1].tag THEN NoMatch
  ELSE IF Len(ids) = 1
       THEN IF t.cons = cons THEN [ok |-> TRUE, content |-> Content(b, t), inner |-> Element(b, t)]
            ELSE NoMatch
       ELSE IF t.cons # Constructed THEN NoMatch
            ELSE Unwrap(Tail(ids), cons, Content(b, t))
=============================================================================
