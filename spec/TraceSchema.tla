---------------------------- MODULE TraceSchema ----------------------------
(***************************************************************************)
(* Judges what generated code did with values and octets of the types of a *)
(* schema (G01 to G08, E01, C01 to C03, C05) against Schema.               *)
(***************************************************************************)
EXTENDS Types, TLC, IOUtils, Json

Trace == ndJsonDeserialize(IOEnv.TRACE)
N     == Len(Trace)
Chunk == 32

\* The schemas: modules, and their type expressions in the order of their numbers (g: not within a parameterized
\* definition, so that they can be resolved once and for all).
File  == JsonDeserialize(IOEnv.SCHEMAS)
Mods  == File.mods
Nodes == File.nodes
Plain == INSTANCE Schema WITH Mods <- Mods, Resolved <- <<>>
Table == Eager([k \in 1..Len(Nodes) |->
                  IF Nodes[k].g THEN Plain!Resolve([m |-> Nodes[k].m, a |-> Nodes[k].a, b |-> <<>>]) ELSE <<>>])
INSTANCE Schema WITH Mods <- Mods, Resolved <- Table

VARIABLE i

D(field, got, exp) == IF got = exp THEN <<>> ELSE <<<<field, exp>>>>
T(field, got)      == D(field, got, TRUE)
Type(e) == [m |-> e.t[1], a |-> [k |-> "ref", mod |-> "", n |-> e.t[2], args |-> <<>>], b |-> <<>>]

\* What holds of any object whatever its value: prediction, buffers, copies.
VObject(e) ==
  D("el", e.el, Len(e.out)) \o T("exact", e.exact) \o T("larger", e.larger) \o T("smaller", e.smaller) \o
  T("guard", e.guard) \o T("copy", e.copy) \o T("back", e.back) \o
  (IF e.noreal THEN T("eq", e.eq) \o D("ne", e.ne, FALSE) ELSE <<>>)

\* Decoding octets.
VD(e) ==
  LET d == Dec(Type(e), e.b) IN
  (IF d.s = "may" THEN <<>> ELSE D("ok", e.ok, d.s = "yes")) \o
  T("dirty", e.dirty) \o T("trail", e.trail) \o
  (IF ~e.ok \/ d.s = "no" THEN <<>>
   ELSE (IF d.s = "may" \/ Same(Type(e), d.v, e.v) THEN <<>> ELSE <<<<"value", d.v>>>>) \o
        VObject(e) \o
        (LET r == Dec(Type(e), e.out) IN
         IF r.s = "no" THEN <<<<"re-encoding", e.out>>>>
         ELSE D("whole", Size(ParseTLV(e.out)), Len(e.out)) \o
              (IF d.s = "may" \/ r.s = "may" \/ Same(Type(e), r.v, e.v) THEN <<>> ELSE <<<<"re-encoded value", r.v>>>>)))

\* Encoding a value that was built.
VE(e) ==
  LET v == Fill(Type(e), e.want) IN
  D("out", e.out, Enc(Type(e), v)) \o
  (IF Same(Type(e), v, e.v) THEN <<>> ELSE <<<<"value", v>>>>) \o
  VObject(e) \o T("again", e.again)

\* Comparing two values.
VQ(e) == (IF e.noreal THEN D("eq", e.eq, e.a = e.c) \o D("ne", e.ne, e.a # e.c) \o D("qe", e.qe, e.a = e.c) ELSE <<>>) \o
         (LET a == Fill(Type(e), e.wa) IN IF Same(Type(e), a, e.a) THEN <<>> ELSE <<<<"a", a>>>>) \o
         (LET a == Fill(Type(e), e.wc) IN IF Same(Type(e), a, e.c) THEN <<>> ELSE <<<<"c", a>>>>)

\* Comparing what two octet strings decode to: only their values count.
VP(e) ==
  LET a == Dec(Type(e), e.ba)
      c == Dec(Type(e), e.bc) IN
  (IF a.s = "may" THEN <<>> ELSE D("oka", e.oka, a.s = "yes")) \o
  (IF c.s = "may" THEN <<>> ELSE D("okc", e.okc, c.s = "yes")) \o
  (IF ~e.oka \/ ~e.okc THEN <<>>
   ELSE (IF e.noreal THEN D("eq", e.eq, e.a = e.c) \o D("ne", e.ne, e.a # e.c) \o D("qe", e.qe, e.a = e.c) ELSE <<>>) \o
        (IF a.s = "yes" /\ ~Same(Type(e), a.v, e.a) THEN <<<<"a", a.v>>>> ELSE <<>>) \o
        (IF c.s = "yes" /\ ~Same(Type(e), c.v, e.c) THEN <<<<"c", c.v>>>> ELSE <<>>))

\* Named values: enumerators and value assignments.
VN(e) == D("val", e.val, Octets8(EnumNumbers(e.items)[e.k]))
VV(e) ==
  LET x == Mods[e.t[1]].vals[e.t[2]]
      c == [m |-> e.t[1], a |-> x.t, b |-> <<>>]
      v == Denotes(e.t[1], c, x.v) IN
  IF Same(c, v, e.v) THEN <<>> ELSE <<<<"value", v>>>>

Verdict(e) ==
  CASE e.op = "D" -> VD(e)
    [] e.op = "E" -> VE(e)
    [] e.op = "Q" -> VQ(e)
    [] e.op = "P" -> VP(e)
    [] e.op = "N" -> VN(e)
    [] e.op = "V" -> VV(e)

Init == i \in {k \in 1..N : k % Chunk = 1}
Next == i % Chunk # 0 /\ i < N /\ i' = i + 1
Check == LET v == Verdict(Trace[i]) IN
         v = <<>> \/ PrintT("REJECT " \o ToString(<<Trace[i].n, v>>))
=============================================================================
