-------------------------------- MODULE Prim --------------------------------
(***************************************************************************)
(* A pool of objects of primitive type.  The state of an object is its      *)
(* contents octets; operations set, copy, decode and encode objects.       *)
(* The specification is a relation: where several outcomes are legitimate   *)
(* (for instance how an object is left when a value is refused), the        *)
(* outcome is read off the observation.                                    *)
(***************************************************************************)
EXTENDS Types

IntTypes  == {"int", "enum8", "enum32", "enum64"}
TimeTypes == {"time", "utc"}
Width(ty) == CASE ty = "enum8" -> 1 [] ty = "enum32" -> 4 [] OTHER -> 8

\* Contents of a freshly made object.
Fresh(ty) == CASE ty = "bool" -> <<0>>
               [] ty \in IntTypes -> <<0>>
               [] ty \in {"null", "oid", "real"} -> <<>>
               [] ty \in TimeTypes -> TimeText(0, 0) \o <<90>>

\* Whether contents may be decoded into a type: "yes", "no", "may".
Admits(ty, c) ==
  CASE ty = "bool" -> IF OkBool(c) THEN "yes" ELSE "no"
    [] ty = "null" -> IF c = <<>> THEN "yes" ELSE "no"
    [] ty \in IntTypes -> IF OkInt(c) /\ FitsOctets(DecInt(c), Width(ty)) THEN "yes" ELSE "no"
    [] ty = "oid"  -> IF DecOid(c) = NoOid \/ Padded(c) THEN "may" ELSE "yes"
    [] ty = "real" -> IF Len(c) > 100 THEN "may"
                      ELSE IF DecReal(c).ok THEN (IF DecReal(c).soft THEN "may" ELSE "yes") ELSE "no"
    [] ty \in TimeTypes -> IF Len(c) < 10 \/ Len(c) > 23 THEN "no"
                           ELSE IF ReadTime(c, 0).ok /\ ~ReadTime(c, 0).free THEN "yes" ELSE "may"

\* Contents for a value being set; Valid says whether there are any.
Settable(ty, how, v) == CASE ty = "oid" -> ValidOid(v) [] OTHER -> TRUE
Contents(ty, how, v, c) ==        \* c: the contents observed (REAL has several encodings)
  CASE ty = "bool" -> EncBool(v)
    [] ty \in IntTypes -> EncInt(v)
    [] ty = "null" -> <<>>
    [] ty = "oid" -> EncOid(v)
    [] ty = "real" -> c
    [] ty \in TimeTypes ->
         CASE how \in {"univ", "ctor"} -> TimeText(v[1], v[2]) \o <<90>>
           [] how = "off" -> TimeText(v[1], v[2]) \o OffsetText(v[3])
           [] how = "local" -> CivilText(v)

D(field, got, exp) == IF got = exp THEN <<>> ELSE <<<<field, exp>>>>
T(field, got)      == D(field, got, TRUE)

\* What reading an object with contents c must give.
Reads(ty, c, o, tz) ==
  (CASE ty = "bool" -> D("val", o.val, DecBool(c))
     [] ty \in IntTypes -> D("val", o.val, DecInt(c))
     [] ty = "null" -> <<>>
     [] ty = "oid" -> LET v == DecOid(c) IN
          \* padded subidentifiers may be refused as a whole
          IF Padded(c) /\ o.val = <<>> THEN D("cnt", o.cnt, 0) \o T("past", o.past)
          ELSE D("val", o.val, v) \o D("cnt", o.cnt, Len(v)) \o D("each", o.each, v) \o T("past", o.past)
     [] ty = "real" -> IF DecReal(c).ok THEN T("val", RealReads(c, o.val)) ELSE <<>>
     [] ty \in TimeTypes -> LET t == ReadTime(c, tz) IN
          D("str", o.str, c) \o D("fmt", o.fmt, FormatOf(c)) \o
          (IF t.free /\ ~o.tok THEN <<>>
           ELSE D("tok", o.tok, t.ok) \o
                (IF t.ok /\ o.tok THEN D("instant", <<o.day, o.sec>>, <<t.day, t.sec>>) \o T("whole", o.whole) ELSE <<>>)))
  \o T("veq", o.veq)

\* Octets of the element an object encodes to: any well formed encoding of
\* the contents under the identifiers.
Encodes(ids, c, o) ==
  LET u == Unwrap(ids, Primitive, o.enc) IN
  T("eok", o.eok) \o T("guard", o.g) \o T("wellformed", u.ok) \o
  D("size", Size(ParseTLV(o.enc)), Len(o.enc)) \o D("el", o.el, Len(o.enc)) \o
  (IF u.ok THEN D("content", u.content, c) ELSE <<>>)
\* A value that was set uses the shortest header.
Canonical(ids, c, o) == D("enc", o.enc, Wrap(ids, Primitive, c))

Observed(ids, o) == Unwrap(ids, Primitive, o.enc).content

-----------------------------------------------------------------------------
\* The pool: sequence of [ty, ids, c, tz].
Start(e) == [k \in 1..Len(e.slots) |-> [ty |-> e.slots[k].ty, ids |-> e.slots[k].ids, c |-> Fresh(e.slots[k].ty), tz |-> e.tz]]

After(st, e) ==
  IF e.op \notin {"set", "copy", "dec", "enc"} THEN st ELSE
  LET x == st[e.s]
      ob == Observed(x.ids, e.o) IN
  CASE e.op = "set" ->
        [st EXCEPT ![e.s].c = IF Settable(x.ty, e.how, e.v) THEN Contents(x.ty, e.how, e.v, ob)
                              ELSE IF ob = x.c THEN x.c ELSE <<>>]
    [] e.op = "copy" -> [st EXCEPT ![e.s].c = st[e.from].c]
    [] e.op = "dec" ->
        LET u == Unwrap(x.ids, Primitive, e.b) IN
        IF u.ok /\ (Admits(x.ty, u.content) = "yes" \/ (Admits(x.ty, u.content) = "may" /\ e.ok))
        THEN [st EXCEPT ![e.s].c = u.content] ELSE st
    [] e.op = "enc" -> st

VStart(e) ==
  LET st == Start(e) IN
  Flatten([k \in 1..Len(st) |-> Reads(st[k].ty, st[k].c, e.obs[k], e.tz) \o Encodes(st[k].ids, st[k].c, e.obs[k])
                               \o Canonical(st[k].ids, st[k].c, e.obs[k])])

VPool(st, e) ==
  LET x  == st[e.s]
      y  == After(st, e)[e.s]
      u  == IF e.op = "dec" THEN Unwrap(x.ids, Primitive, e.b) ELSE NoMatch
      ad == IF u.ok THEN Admits(x.ty, u.content) ELSE "no" IN
  Reads(x.ty, y.c, e.o, x.tz) \o Encodes(x.ids, y.c, e.o) \o
  (CASE e.op = "set" ->
         LET ok == Settable(x.ty, e.how, e.v) IN
         (IF ok THEN Canonical(x.ids, y.c, e.o) ELSE <<>>) \o
         (IF x.ty = "oid" /\ e.how # "a" THEN <<>> ELSE D("ok", e.ok, ok)) \o
         (IF x.ty # "real" THEN <<>>
          ELSE T("denotes", RealDenotes(y.c, e.v)) \o T("back", DoubleValue(e.o.val) = DoubleValue(e.v))) \o
         (IF x.ty \in TimeTypes /\ e.how # "local"
          THEN D("back", <<e.o.day, e.o.sec>>, <<e.v[1], e.v[2]>>) ELSE <<>>)
     [] e.op = "copy" -> Reads(x.ty, y.c, e.src, x.tz) \o Encodes(st[e.from].ids, y.c, e.src)
     [] e.op = "dec" -> (IF ad = "may" THEN <<>> ELSE D("ok", e.ok, ad = "yes")) \o
         \* Contents that are no object identifier must not read as one.
         (IF x.ty = "oid" /\ u.ok /\ e.ok /\ DecOid(u.content) = NoOid THEN D("misread", e.o.val, <<>>) ELSE <<>>)
     [] e.op = "enc" ->
         LET w == e.o.enc
             fits == Len(w) <= e.buf IN
         D("ok", e.ok, fits) \o D("r", e.r, IF fits THEN Len(w) ELSE 0) \o
         D("out", e.out, IF fits THEN w ELSE <<>>) \o T("guard", e.g))

\* Content codecs on their own.
VCodec(e) ==
  CASE e.op = "oidd" ->
         LET v == DecOid(e.b) IN
         IF Padded(e.b) /\ ~e.ok THEN D("val", e.val, <<>>) \o D("cnt", e.cnt, 0)
         ELSE D("ok", e.ok, v # NoOid) \o D("val", e.val, v) \o D("cnt", e.cnt, Len(v)) \o D("each", e.each, v) \o T("past", e.past)
    [] e.op = "oide" ->
         LET ok == ValidOid(e.v)
             c  == IF ok THEN EncOid(e.v) ELSE <<>>
             fits == ok /\ Len(c) <= e.buf IN
         D("ok", e.ok, fits) \o D("r", e.r, IF fits THEN Len(c) ELSE 0) \o D("out", e.out, IF fits THEN c ELSE <<>>) \o
         (IF ok THEN D("p", e.p, Len(c)) ELSE <<>>) \o T("guard", e.g)
    [] e.op = "reald" ->
         LET t == DecReal(e.b) IN
         (IF t.soft THEN <<>> ELSE D("ok", e.ok, t.ok)) \o
         (IF t.ok /\ e.ok THEN T("val", RealReads(e.b, e.val)) ELSE <<>>)
    [] e.op = "reale" ->
         T("denotes", RealDenotes(e.out, e.v)) \o T("guard", e.g) \o T("bok", e.bok) \o
         T("back", DoubleValue(e.back) = DoubleValue(e.v))
    [] e.op = "intd" -> D("ok", e.ok, OkInt(e.b)) \o (IF OkInt(e.b) /\ e.ok THEN D("val", e.val, DecInt(e.b)) ELSE <<>>)
    [] e.op = "inte" ->
         LET c == EncInt(e.v)
             fits == Len(c) <= e.buf IN
         D("r", e.r, IF fits THEN Len(c) ELSE 0) \o D("out", e.out, IF fits THEN c ELSE <<>>) \o T("guard", e.g)
=============================================================================
