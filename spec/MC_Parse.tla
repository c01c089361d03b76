------------------------------ MODULE MC_Parse ------------------------------
(***************************************************************************)
(* Every octet string over Alphabet up to length MaxLen, one octet at a    *)
(* time.  Checks the laws the header layer must obey, and generates the    *)
(* inputs that are replayed into the code (TLC -dump).                     *)
(***************************************************************************)
EXTENDS Ber
CONSTANTS Alphabet, MaxLen
VARIABLE b

Init == b = <<>>
Next == Len(b) < MaxLen /\ \E o \in Alphabet : b' = Append(b, o)

T == ParseTLV(b)
TypeOK == b \in Seq(0..255)

\* A valid element lies inside the buffer and is parsed the same on its own
\* and whatever follows it.
Confined    == T.ok => Size(T) <= Len(b) /\ T.hdr >= 2 /\ T.idlen < T.hdr
Independent == T.ok => /\ ParseTLV(Element(b, T)) = T
                       /\ ParseTLV(b \o <<255, 0, 48>>) = T
\* A strict prefix of an element is not an element.
PrefixFree  == T.ok => \A n \in 0..(Size(T) - 1) : ~ParseTLV(Take(b, n)).ok
\* The encoder's header is no longer than any other header for the same
\* values, and is parsed back to the same values.
Minimal == T.ok => Len(EncHeader(T.cls, T.cons, T.tag, T.len)) <= T.hdr
Inverse == T.ok =>
  LET c == Content(b, T)
      e == EncTLV(T.cls, T.cons, T.tag, c)
      p == ParseTLV(e) IN
  p.ok /\ p.cls = T.cls /\ p.cons = T.cons /\ p.tag = T.tag /\ Content(e, p) = c /\ Size(p) = Len(e)
IdentifierLaw == LET id == ParseIdentifier(b) IN
  id.ok => IdentifierLength(id.tag) <= id.n
           /\ ParseIdentifier(EncIdentifier(ClassOf(b[1]), ConsOf(b[1]), id.tag)).tag = id.tag
LengthLaw == LET l == ParseLength(b) IN
  l.ok => LengthLength(l.len) <= l.n /\ ParseLength(EncLength(l.len)) = [ok |-> TRUE, n |-> LengthLength(l.len), len |-> l.len]
\* Siblings tile the buffer from its beginning.
Tiling == LET s == Siblings(b, 0) IN
  /\ \A k \in 1..Len(s) : s[k].off = (IF k = 1 THEN 0 ELSE s[k-1].off + s[k-1].hdr + s[k-1].len)
  /\ Flatten(Elements(b)) = Take(b, IF s = <<>> THEN 0 ELSE s[Len(s)].off + s[Len(s)].hdr + s[Len(s)].len)
  /\ Len(s) = Len(Elements(b))
=============================================================================
