--------------------------- MODULE TraceCompiler ---------------------------
(***************************************************************************)
(* Judges what the compiler did with the texts it was given (C04).  An     *)
(* event has its exit status rc, whether it crashed or hung (crash), gave  *)
(* a diagnostic (diag) and wrote all of its outputs (made).                *)
(*   op "a": modules as data (ms), printed; sound: they hold to the rules  *)
(*           Legal does not know                                           *)
(*   op "x": files, as characters                                          *)
(*   op "l": a file (text) and another layout of it (other); same: the     *)
(*           outputs are equal                                             *)
(***************************************************************************)
EXTENDS TLC, IOUtils, Json, Notation
L == INSTANCE Legal

Trace == ndJsonDeserialize(IOEnv.TRACE)
N     == Len(Trace)
Chunk == 32
VARIABLE i

Refused(e) == e.rc # 0
Expect(name, ok) == IF ok THEN <<>> ELSE <<name>>
Crash(e) == Expect("crash", e.crash = "")
\* Who refuses says why.
Diagnosed(e) == Expect("diagnostic", Refused(e) => e.diag)

VA(e) == LET v == L!Legality(e.ms) IN
         CASE v = "bad" -> Expect("refusal", Refused(e))
           [] v = "good" /\ e.sound -> Expect("acceptance", ~Refused(e)) \o Expect("outputs", Refused(e) \/ e.made)
           [] OTHER -> <<>>
VX(e) == Expect("refusal of malformed text", Refused(e) \/ \A k \in 1..Len(e.files) : Reading(e.files[k]) # "bad")
\* White space and comments make no difference.
VL(e) == LET a == Lex(e.text)  b == Lex(e.other) IN
         IF a.bad \/ b.bad \/ a.odd \/ b.odd \/ a.ts # b.ts THEN <<"not a layout">>
         ELSE Expect("acceptance", e.rc = 0) \o Expect("outputs", e.rc # 0 \/ e.same)
Verdict(e) == Crash(e) \o
  (IF e.crash # "" THEN <<>>
   ELSE Diagnosed(e) \o (CASE e.op = "a" -> VA(e) [] e.op = "x" -> VX(e) [] e.op = "l" -> VL(e)))

Init == i \in {k \in 1..N : k % Chunk = 1}
Next == i % Chunk # 0 /\ i < N /\ i' = i + 1
Check == LET v == Verdict(Trace[i]) IN
         v = <<>> \/ PrintT("REJECT " \o ToString(<<Trace[i].n, v>>))
=============================================================================
