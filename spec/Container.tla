----------------------------- MODULE Container -----------------------------
(***************************************************************************)
(* A pool of owning containers.  The state of an object is the octets of   *)
(* the element it stores; <<>> is an invalid object (only "raw", whose      *)
(* identifier is free, can be invalid).  Objects:                          *)
(*   [k |-> "raw" | "fix" | "small" | "str", ids |-> identifiers, cap]     *)
(* Outcomes gives the states an operation may lead to.                     *)
(***************************************************************************)
EXTENDS Ber

NoTag == <<0>>
RawElement(c) == EncTLV(Universal, Primitive, NoTag, c)

IsRaw(x) == x.k = "raw"
Invalid == <<>>

ContentOf(x, w) == IF w = <<>> THEN <<>>
                   ELSE IF IsRaw(x) THEN Content(w, ParseTLV(w))
                   ELSE Unwrap(x.ids, Primitive, w).content

Made(x, c) == IF IsRaw(x) THEN RawElement(c) ELSE Wrap(x.ids, Primitive, c)
Fresh(x)   == Made(x, <<>>)

Resized(c, n) == [j \in 1..n |-> IF j <= Len(c) THEN c[j] ELSE 0]

\* The same element with other contents; a raw object keeps its identifier octets.
WithContent(x, w, c) ==
  IF IsRaw(x)
  THEN LET v == IF w = <<>> THEN Fresh(x) ELSE w IN Take(v, ParseTLV(v).idlen) \o EncLength(Digits(Len(c), 256)) \o c
  ELSE Made(x, c)

\* Octet p (from 0) of the contents replaced.
Poked(x, w, p, v) ==
  LET at == Len(w) - Len(ContentOf(x, w)) + p + 1 IN [w EXCEPT ![at] = v]

\* What decoding b gives: not acceptable, or the octets that may then be stored.
Accepts(x, b) == IF IsRaw(x) THEN ParseTLV(b).ok
                 ELSE LET u == Unwrap(x.ids, Primitive, b) IN u.ok /\ (x.k = "small" => Len(u.content) <= x.cap)
Stored(x, b) ==
  IF IsRaw(x) THEN {Element(b, ParseTLV(b))}
  ELSE LET u == Unwrap(x.ids, Primitive, b) IN
       {Made(x, u.content)} \cup (IF Len(x.ids) = 1 THEN {u.inner} ELSE {})
Refused(x, w) == IF IsRaw(x) THEN {Invalid, w} ELSE {w}

FirstChild(x, w) == IF w = <<>> THEN <<>> ELSE ContentOf(x, w)

\* xs: the objects; st: their octets before; e: the operation.
Outcomes(xs, st, e) ==
  LET s == e.s
      x == xs[s]
      Put(ws) == {[st EXCEPT ![s] = w] : w \in ws} IN
  CASE e.op = "set"    -> Put({Made(x, e.b)})
    [] e.op = "hset"   -> Put({EncTLV(e.cls, e.cons, e.tag, e.b)})
    [] e.op = "hsub"   -> Put({EncTLV(e.cls, e.cons, e.tag, SubSeq(ContentOf(x, st[s]), e.off + 1, e.off + e.m))})
    [] e.op = "resize" -> Put({WithContent(x, st[s], Resized(ContentOf(x, st[s]), e.m))})
    [] e.op = "write"  -> Put({Poked(x, st[s], e.p, e.v)})
    [] e.op = "sub"    -> Put({Made(x, SubSeq(ContentOf(x, st[s]), e.off + 1, e.off + e.m))})
    [] e.op = "dec"    -> Put(IF Accepts(x, e.b) THEN Stored(x, e.b) ELSE Refused(x, st[s]))
    [] e.op = "child"  -> LET b == ContentOf(x, st[s]) IN
                          Put(IF Accepts(x, b) THEN Stored(x, b) ELSE Refused(x, st[s]))
    [] e.op = "self"   -> Put(IF st[s] = <<>> THEN {<<>>} ELSE Stored(x, st[s]))
    [] e.op = "copy"   -> Put({st[e.from]} \cup (IF IsRaw(x) THEN {} ELSE {Made(x, ContentOf(x, st[e.from]))}))
    [] e.op = "cross"  -> Put({Made(x, ContentOf(xs[e.from], st[e.from]))})
    [] e.op = "move"   ->
         LET f == e.from
             left == {st[f], Fresh(xs[f])} \cup (IF IsRaw(xs[f]) THEN {Invalid} ELSE {}) IN
         IF f = s THEN Put(left)
         ELSE {[st EXCEPT ![s] = st[f], ![f] = w] : w \in left}
    [] e.op = "swap"   -> {[st EXCEPT ![s] = st[e.from], ![e.from] = st[s]]}
    [] OTHER -> {st}

\* An array of fixed size does not clear the octets a resize uncovers.
Allowed(xs, st, e, nx) ==
  \/ nx \in Outcomes(xs, st, e)
  \/ /\ e.op = "resize" /\ xs[e.s].k = "small"
     /\ \A k \in 1..Len(st) : k # e.s => nx[k] = st[k]
     /\ LET c == ContentOf(xs[e.s], st[e.s])  d == ContentOf(xs[e.s], nx[e.s]) IN
        Len(d) = e.m /\ nx[e.s] = Made(xs[e.s], d) /\ Take(d, Min2(Len(c), Len(d))) = Take(c, Min2(Len(c), Len(d)))

D(field, got, exp) == IF got = exp THEN <<>> ELSE <<<<field, exp>>>>
T(field, got)      == D(field, got, TRUE)

\* All that can be read from an object follows from its octets.
Reads(x, w, o) ==
  D("enc", o.enc, w) \o T("guard", o.g) \o (IF w = <<>> THEN <<>> ELSE D("short", o.short, 1)) \o
  (IF IsRaw(x)
   THEN D("valid", o.ok, w # <<>>) \o
        (IF w = <<>> THEN <<>>
         ELSE LET t == ParseTLV(w) IN
              T("wellformed", t.ok /\ Size(t) = Len(w)) \o D("content", o.c, Content(w, t)) \o D("clen", o.cl, t.len) \o
              D("hdr", <<o.cls, o.cons, o.tag, o.idlen, o.hdr>>, <<t.cls, t.cons, t.tag, t.idlen, t.hdr>>))
   ELSE LET u == Unwrap(x.ids, Primitive, w) IN
        T("wellformed", u.ok /\ Size(ParseTLV(w)) = Len(w)) \o D("content", o.c, u.content) \o D("clen", o.cl, Len(u.content)) \o D("el", o.el, Len(w)))
  \o T("views", o.same)
=============================================================================
