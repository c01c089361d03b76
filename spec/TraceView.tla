----------------------------- MODULE TraceView -----------------------------
(***************************************************************************)
(* Judges prints of the viewer (V01).                                      *)
(*   op "view": the octets b, printed (out), with the local zone tz      *)
(*              seconds east of Greenwich; rc: exit status of the program, or 0 / 255 for a view that *)
(*              is valid / is not                                          *)
(*   op "deep": k constructed elements, each but the innermost containing  *)
(*              the next; the number of elements printed, and of brackets  *)
(*              opened and closed                                          *)
(***************************************************************************)
EXTENDS Viewer, TraceBase
VARIABLE i

Expect(name, ok, what) == IF ok THEN <<>> ELSE <<<<name, what>>>>
VView(e) == LET ps == Eager(PrintOf(e.b, e.tz)) IN
            Expect("status", e.rc = (IF ParseTLV(e.b).ok THEN 0 ELSE 255), ParseTLV(e.b).ok) \o Expect("the same print again", e.again, TRUE) \o Expect("print", Fits(e.out, 1, ps, 1), ps)
VDeep(e) == Expect("status", e.rc = 0, 0) \o Expect("elements", e.elements = e.k /\ e.opened = e.k /\ e.closed = e.k, e.k)
Verdict(e) == CASE e.op = "view" -> VView(e) [] e.op = "deep" -> VDeep(e)

Init == i \in {k \in 1..N : k % Chunk = 1}
Next == i % Chunk # 0 /\ i < N /\ i' = i + 1
Check == LET v == Verdict(Trace[i]) IN
         v = <<>> \/ PrintT("REJECT " \o ToString(<<Trace[i].n, v>>))
=============================================================================
