------------------------------- MODULE Schema -------------------------------
(***************************************************************************)
(* ASN.1 schemas (X.680, X.683) and what they mean on the wire (X.690).    *)
(*                                                                         *)
(* A schema is a set of modules of type and value assignments, kept as     *)
(* abstract syntax.  A type in its context is a closure                    *)
(*     [m |-> module, a |-> syntax, b |-> actual parameters]               *)
(* and Top gives its outermost structure: kind, identifiers from the      *)
(* outside in, and the syntax of the components.  Top resolves references *)
(* and imports, substitutes parameters, applies tags and tag defaults;     *)
(* Components writes out COMPONENTS OF and applies automatic tagging.      *)
(*                                                                         *)
(* Abstract values: BOOLEAN TRUE/FALSE; NULL TRUE; INTEGER and ENUMERATED  *)
(* eight octets; strings and times their octets; OBJECT IDENTIFIER arcs;   *)
(* REAL [c |-> contents, d |-> the double's octets, l |-> literal];        *)
(* SEQUENCE and SET one entry per component, <<>> absent or <<value>>;     *)
(* CHOICE <<alternative, value>>; SEQUENCE OF and SET OF the values.       *)
(***************************************************************************)
EXTENDS Types

CONSTANT Mods            \* module name -> [tags, imports, types, vals]
CONSTANT Resolved        \* the type expressions a of Mods that have a number, a.i, resolved beforehand; may be empty

Closure(m, a, b) == [m |-> m, a |-> a, b |-> b]
None == <<>>             \* no parameters

-----------------------------------------------------------------------------
(* References: the module's own definition, else the imported one.         *)
RECURSIVE TypeHome(_, _)
TypeHome(m, n) ==
  IF n \in DOMAIN Mods[m].types THEN m
  ELSE LET k == CHOOSE k \in 1..Len(Mods[m].imports) :
                  \E j \in 1..Len(Mods[m].imports[k].names) : Mods[m].imports[k].names[j] = n IN
       TypeHome(Mods[m].imports[k].from, n)
RECURSIVE ValHome(_, _)
ValHome(m, n) ==
  IF n \in DOMAIN Mods[m].vals THEN m
  ELSE LET k == CHOOSE k \in 1..Len(Mods[m].imports) :
                  \E j \in 1..Len(Mods[m].imports[k].names) : Mods[m].imports[k].names[j] = n IN
       ValHome(Mods[m].imports[k].from, n)

UTag(a) == CASE a.k = "bool" -> 1  [] a.k = "int" -> 2   [] a.k = "null" -> 5 [] a.k = "oid" -> 6
             [] a.k = "real" -> 9  [] a.k = "enum" -> 10 [] a.k = "seq" -> 16 [] a.k = "set" -> 17
             [] OTHER -> a.u                  \* strings, times, SEQUENCE OF, SET OF

\* The tagged type c, h being what it tags.
Tagged(c, h) ==
  LET id == Ident(c.a.cls, c.a.num)
      explicit == c.a.mode = "E" \/ (c.a.mode = "" /\ Mods[c.m].tags = "EXPLICIT") IN
  \* An untagged choice is always tagged explicitly (31.2.7 c).
  IF h.ids = <<>> THEN [h EXCEPT !.ids = <<id>>]
  ELSE IF explicit THEN [h EXCEPT !.ids = <<id>> \o h.ids]
  ELSE [h EXCEPT !.ids = <<id>> \o Tail(h.ids)]
RECURSIVE Top0(_)
Top0(c) ==
  LET a == c.a IN
  CASE a.k = "ref" ->
        IF a.mod = "" /\ a.n \in DOMAIN c.b THEN Top0(c.b[a.n])
        ELSE LET h   == TypeHome(IF a.mod = "" THEN c.m ELSE a.mod, a.n)
                 def == Mods[h].types[a.n] IN
             Top0(Closure(h, def.t,
                    IF def.params = <<>> THEN None ELSE
                    [p \in {def.params[k] : k \in 1..Len(def.params)} |->
                       LET k == CHOOSE k \in 1..Len(def.params) : def.params[k] = p IN
                       Closure(c.m, a.args[k], c.b)]))
    [] a.k = "tag" -> Tagged(c, Top0(Closure(c.m, a.t, c.b)))
    [] a.k = "choice" -> [k |-> "choice", ids |-> <<>>, a |-> a, m |-> c.m, b |-> c.b]
    [] OTHER -> [k |-> a.k, ids |-> <<Ident(Universal, <<UTag(a)>>)>>, a |-> a, m |-> c.m, b |-> c.b]

\* Components as written, COMPONENTS OF replaced by those components of the type which are no extensions (X.680 25.4).
Root(a) == IF "root" \in DOMAIN a THEN a.root ELSE Len(a.c)
RECURSIVE WrittenUpTo(_, _)
WrittenUpTo(h, last) ==
  Flatten([k \in 1..last |->
     LET x == h.a.c[k] IN
     IF x.p = "components" THEN LET i == Top0(Closure(h.m, x.t, h.b)) IN WrittenUpTo(i, Root(i.a))
     ELSE <<[n |-> x.n, t |-> Closure(h.m, x.t, h.b), p |-> x.p, dv |-> x.dv]>>])

Written(h) == WrittenUpTo(h, Len(h.a.c))

Automatic(h) == Mods[h.m].tags = "AUTOMATIC" /\ \A k \in 1..Len(h.a.c) : h.a.c[k].p = "components" \/ h.a.c[k].t.k # "tag"

Components0(h) ==
  LET w == Written(h) IN
  IF ~Automatic(h) THEN w
  ELSE Eager([k \in 1..Len(w) |->
          [w[k] EXCEPT !.t = Closure(w[k].t.m,
             [k |-> "tag", cls |-> Context, num |-> Digits(k - 1, 128), mode |-> "I", t |-> w[k].t.a], w[k].t.b)]])

Of(h) == Closure(h.m, h.a.t, h.b)

\* The identifiers an element of the type may begin with.
RECURSIVE Outer(_)
Outer(c) == LET h == Top0(c) IN
            IF h.ids # <<>> THEN {h.ids[1]}
            ELSE LET cs == Components0(h) IN UNION {Outer(cs[k].t) : k \in 1..Len(cs)}

\* X.680 25.6, 27.3, 29.3: the identifiers tell the components apart.
RECURSIVE Distinct(_)
Distinct(cs) == \A i, j \in 1..Len(cs) : i < j => Outer(cs[i].t) \cap Outer(cs[j].t) = {}
SeqDistinct(cs) ==
  \A i, j \in 1..Len(cs) :
     (i < j /\ cs[i].p # "m" /\ \A k \in (i + 1)..(j - 1) : cs[k].p # "m") => Outer(cs[i].t) \cap Outer(cs[j].t) = {}

-----------------------------------------------------------------------------
(* Values written in the schema.                                           *)
\* X.680 20.3: numbers of the enumerators.
RECURSIVE Assign(_, _, _, _)
Assign(items, k, next, used) ==
  IF k > Len(items) THEN <<>>
  ELSE IF items[k].v # <<>> THEN <<items[k].v[1]>> \o Assign(items, k + 1, next, used)
  ELSE LET free == CHOOSE x \in next..(next + Cardinality(used)) :
                     x \notin used /\ \A y \in next..(x - 1) : y \in used IN
       <<free>> \o Assign(items, k + 1, free + 1, used)
EnumNumbers(items) ==
  Assign(items, 1, 0, UNION {IF items[k].v # <<>> THEN {items[k].v[1]} ELSE {} : k \in 1..Len(items)})

Octets8(n) == [k \in 1..8 |-> IF k <= 4 THEN (IF n < 0 THEN 255 ELSE 0)
                              ELSE LET m == IF n < 0 THEN n + 2147483647 + 1 ELSE n     \* low 31 bits
                                       p == CASE k = 5 -> 16777216 [] k = 6 -> 65536 [] k = 7 -> 256 [] k = 8 -> 1
                                       d == (m \div p) % 256 IN
                                   IF k = 5 /\ n < 0 THEN d + 128 ELSE d]

\* The value denoted by the syntax v where a value of type c is expected, in module m.
RECURSIVE Denotes(_, _, _)
Denotes(m, c, v) ==
  LET h == Top0(c) IN
  CASE v.k = "name" ->
        IF h.k = "enum" /\ \E k \in 1..Len(h.a.items) : h.a.items[k].n = v.n THEN
          LET k == CHOOSE k \in 1..Len(h.a.items) : h.a.items[k].n = v.n IN Octets8(EnumNumbers(h.a.items)[k])
        ELSE IF h.k = "int" /\ \E k \in 1..Len(h.a.nn) : h.a.nn[k].n = v.n THEN
          h.a.nn[CHOOSE k \in 1..Len(h.a.nn) : h.a.nn[k].n = v.n].v
        ELSE LET w == ValHome(m, v.n) IN
             Denotes(w, Closure(w, Mods[w].vals[v.n].t, None), Mods[w].vals[v.n].v)
    [] v.k = "real" -> [c |-> <<>>, d |-> <<>>, l |-> <<v>>]
    [] OTHER -> v.v

-----------------------------------------------------------------------------
(* The type c resolved: Top0 with its components, each with the            *)
(* identifiers it may begin with and its default value.                    *)
Default0(x) == Denotes(x.t.m, x.t, x.dv)
Resolve(c) ==
  LET h == Top0(c)
      cs == IF h.k \in {"seq", "set", "choice"} THEN Components0(h) ELSE <<>> IN
  [k |-> h.k, ids |-> h.ids, a |-> h.a, m |-> h.m, b |-> h.b,
   cs |-> Eager([k \in 1..Len(cs) |-> [t |-> cs[k].t, p |-> cs[k].p, o |-> Outer(cs[k].t), d |-> IF cs[k].p = "d" THEN Default0(cs[k]) ELSE TRUE]])]
RECURSIVE Top(_)
Top(c) ==
  IF Resolved # <<>> /\ c.b = None /\ "i" \in DOMAIN c.a THEN Resolved[c.a.i]
  ELSE IF c.a.k = "tag" THEN Tagged(c, Top(Closure(c.m, c.a.t, c.b)))
  ELSE Resolve(c)
Components(h) == h.cs
Default(x) == x.d

RealSame(a, o) ==
  IF a = o THEN TRUE
  ELSE IF a.l # <<>> THEN DecimalOk([dec |-> a.l[1].dec, e10 |-> a.l[1].e10, v |-> [neg |-> a.l[1].neg]], DoubleValue(o.d))
  ELSE IF a.d # <<>> THEN a.d = o.d
  ELSE RealReads(a.c, o.d)

-----------------------------------------------------------------------------
\* The value o, observed, is the value a of type c.
RECURSIVE Same(_, _, _)
Same(c, a, o) ==
  LET h == Top(c) IN
  CASE h.k \in {"seq", "set"} ->
        LET cs == Components(h) IN
        Len(o) = Len(cs) /\ \A k \in 1..Len(cs) :
           Len(a[k]) = Len(o[k]) /\ (a[k] # <<>> => Same(cs[k].t, a[k][1], o[k][1]))
    [] h.k = "choice" -> a[1] = o[1] /\ Same(Components(h)[a[1]].t, a[2], o[2])
    [] h.k = "of" -> Len(a) = Len(o) /\ \A k \in 1..Len(a) : Same(Of(h), a[k], o[k])
    [] h.k = "real" -> RealSame(a, o)
    [] OTHER -> a = o

\* Unstated default components filled in.
RECURSIVE Fill(_, _)
Fill(c, v) ==
  LET h == Top(c) IN
  CASE h.k \in {"seq", "set"} ->
        LET cs == Components(h) IN
        Eager([k \in 1..Len(cs) |-> IF v[k] = <<>> THEN (IF cs[k].p = "d" THEN <<Default(cs[k])>> ELSE <<>>)
                                    ELSE <<Fill(cs[k].t, v[k][1])>>])
    [] h.k = "choice" -> <<v[1], Fill(Components(h)[v[1]].t, v[2])>>
    [] h.k = "of" -> Eager([k \in 1..Len(v) |-> Fill(Of(h), v[k])])
    [] OTHER -> v

-----------------------------------------------------------------------------
(* Encoding: definite lengths, components in order, defaults left out.     *)
RECURSIVE Enc(_, _)
Enc(c, v) ==
  LET h == Top(c) IN
  CASE h.k \in {"seq", "set"} ->
        LET cs == Components(h) IN
        Wrap(h.ids, Constructed,
             Flatten([k \in 1..Len(cs) |->
                IF v[k] = <<>> \/ (cs[k].p = "d" /\ Same(cs[k].t, Default(cs[k]), v[k][1])) THEN <<>>
                ELSE Enc(cs[k].t, v[k][1])]))
    [] h.k = "choice" ->
        LET e == Enc(Components(h)[v[1]].t, v[2]) IN
        IF h.ids = <<>> THEN e ELSE Wrap(h.ids, Constructed, e)
    [] h.k = "of" -> Wrap(h.ids, Constructed, Flatten([k \in 1..Len(v) |-> Enc(Of(h), v[k])]))
    [] h.k = "bool" -> Wrap(h.ids, Primitive, EncBool(v))
    [] h.k \in {"int", "enum"} -> Wrap(h.ids, Primitive, EncInt(v))
    [] h.k = "null" -> Wrap(h.ids, Primitive, <<>>)
    [] h.k = "oid" -> Wrap(h.ids, Primitive, EncOid(v))
    [] h.k = "real" -> Wrap(h.ids, Primitive, v.c)
    [] OTHER -> Wrap(h.ids, Primitive, v)

-----------------------------------------------------------------------------
(* Decoding.  s: "yes", "no", or "may" when contents are of a form which   *)
(* an implementation may or may not take.                                  *)
No == [s |-> "no", v |-> <<>>]
Both(s, t) == IF s = "no" \/ t = "no" THEN "no" ELSE IF s = "may" \/ t = "may" THEN "may" ELSE "yes"
IdOf(t) == Ident(t.cls, t.tag)

LeafAdmits(h, c) ==
  CASE h.k = "bool" -> IF OkBool(c) THEN "yes" ELSE "no"
    [] h.k = "null" -> IF c = <<>> THEN "yes" ELSE "no"
    [] h.k = "int"  -> IF OkInt(c) THEN "yes" ELSE "no"
    [] h.k = "enum" -> IF OkInt(c) /\ FitsOctets(DecInt(c), 4) THEN "yes" ELSE "no"
    [] h.k = "oid"  -> IF DecOid(c) = NoOid \/ Padded(c) THEN "may" ELSE "yes"
    [] h.k = "real" -> IF Len(c) > 100 THEN "may"
                       ELSE IF DecReal(c).ok THEN (IF DecReal(c).soft THEN "may" ELSE "yes") ELSE "no"
    [] h.k = "time" -> IF Len(c) < 10 \/ Len(c) > 23 THEN "no"
                       ELSE IF ReadTime(c, 0).ok /\ ~ReadTime(c, 0).free THEN "yes" ELSE "may"
    [] OTHER -> "yes"
LeafValue(h, c) ==
  CASE h.k = "bool" -> DecBool(c)
    [] h.k = "null" -> TRUE
    [] h.k \in {"int", "enum"} -> DecInt(c)
    [] h.k = "oid" -> IF Padded(c) THEN NoOid ELSE DecOid(c)
    [] h.k = "real" -> [c |-> c, d |-> <<>>, l |-> <<>>]
    [] OTHER -> c

RECURSIVE Dec(_, _)
RECURSIVE DecSeq(_, _, _, _)
RECURSIVE DecAll(_, _, _)
Alternative(cs, id) == {k \in 1..Len(cs) : id \in cs[k].o}

\* The first component whose value is not there ends the matching of cs with kids.
DecSeq(cs, k, kids, j) ==
  IF k > Len(cs) THEN [s |-> "yes", v |-> <<>>]
  ELSE LET x == cs[k]
           here == j <= Len(kids)
           match == here /\ IdOf(ParseTLV(kids[j])) \in x.o IN
       IF match \/ (x.p = "m" /\ here)
       THEN LET d == Dec(x.t, kids[j]) IN
            IF d.s = "no" THEN No
            ELSE LET r == DecSeq(cs, k + 1, kids, j + 1) IN
                 IF r.s = "no" THEN No ELSE [s |-> Both(d.s, r.s), v |-> <<<<d.v>>>> \o r.v]
       ELSE IF x.p = "m" THEN No
       ELSE LET r == DecSeq(cs, k + 1, kids, j) IN
            IF r.s = "no" THEN No
            ELSE [r EXCEPT !.v = <<IF x.p = "d" THEN <<Default(x)>> ELSE <<>>>> \o r.v]

DecSet(cs, ext, kids) ==
  LET which == Eager([j \in 1..Len(kids) |-> LET id == IdOf(ParseTLV(kids[j])) IN {k \in 1..Len(cs) : id \in cs[k].o}])
      at(k) == {j \in 1..Len(kids) : k \in which[j]} IN
  IF (~ext /\ \E j \in 1..Len(kids) : which[j] = {}) \/
     (\E k \in 1..Len(cs) : Cardinality(at(k)) > 1 \/ (cs[k].p = "m" /\ at(k) = {})) THEN No
  ELSE LET ds == Eager([k \in 1..Len(cs) |-> IF at(k) = {} THEN [s |-> "yes", v |-> IF cs[k].p = "d" THEN <<Default(cs[k])>> ELSE <<>>]
                                       ELSE LET d == Dec(cs[k].t, kids[CHOOSE j \in at(k) : TRUE]) IN
                                            [s |-> d.s, v |-> <<d.v>>]]) IN
       IF \E k \in 1..Len(cs) : ds[k].s = "no" THEN No
       ELSE [s |-> IF \E k \in 1..Len(cs) : ds[k].s = "may" THEN "may" ELSE "yes", v |-> Eager([k \in 1..Len(cs) |-> ds[k].v])]

DecAll(c, kids, j) ==
  IF j > Len(kids) THEN [s |-> "yes", v |-> <<>>]
  ELSE LET d == Dec(c, kids[j]) IN
       IF d.s = "no" THEN No
       ELSE LET r == DecAll(c, kids, j + 1) IN
            IF r.s = "no" THEN No ELSE [s |-> Both(d.s, r.s), v |-> <<d.v>> \o r.v]

DecChoice(cs, b) ==
  LET t == ParseTLV(b) IN
  IF ~t.ok THEN No
  ELSE LET w == Alternative(cs, IdOf(t)) IN
       IF w = {} THEN No
       ELSE LET k == CHOOSE k \in w : \A l \in w : k <= l
                d == Dec(cs[k].t, b) IN
            IF d.s = "no" THEN No ELSE [s |-> d.s, v |-> <<k, d.v>>]

Dec(c, b) ==
  LET h == Top(c) IN
  IF h.k = "choice" /\ h.ids = <<>> THEN DecChoice(Components(h), b)
  ELSE LET u == Unwrap(h.ids, IF h.k \in {"seq", "set", "of", "choice"} THEN Constructed ELSE Primitive, b) IN
       IF ~u.ok THEN No
       ELSE CASE h.k = "seq" -> DecSeq(Components(h), 1, Elements(u.content), 1)
              [] h.k = "set" -> DecSet(Components(h), h.a.ext, Elements(u.content))
              [] h.k = "of"  -> DecAll(Of(h), Elements(u.content), 1)
              [] h.k = "choice" -> DecChoice(Components(h), u.content)
              [] OTHER -> LET s == LeafAdmits(h, u.content) IN
                          IF s = "no" THEN No ELSE [s |-> s, v |-> LeafValue(h, u.content)]
=============================================================================
