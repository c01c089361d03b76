------------------------------ MODULE TraceRuns ------------------------------
(***************************************************************************)
(* Judges recorded runs of the compiler (C06).  Each event is a step of    *)
(* Runs: runs (a sequence of [key, out, gave]) and the outputs and other   *)
(* files of the directory before (only when it is another directory than   *)
(* that of the event before: fresh) and after, each with a digest of its   *)
(* content.                                                                *)
(***************************************************************************)
EXTENDS Runs, IOUtils, Json
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
VARIABLES i, memo, disk, bad

Files(fs) == [f \in {fs[k].f : k \in 1..Len(fs)} |-> (fs[CHOOSE k \in 1..Len(fs) : fs[k].f = f]).d]
Expect(name, ok) == IF ok THEN <<>> ELSE <<name>>
Verdict(m, d, e) == Expect("no crash", e.crash = "") \o Expect("outputs of their own", Apart(e.runs)) \o Expect("the same outcome as before", Agrees(m, e.runs)) \o Expect("the same outcome at once", Alike(e.runs))
                    \o Expect("outputs as given and nothing else", Leaves(d, e.runs, Files(e.after)))
Do(m, d, e) == LET before == IF e.fresh THEN Files(e.before) ELSE d IN
               /\ bad' = Verdict(m, before, e)
               /\ memo' = Learn(m, e.runs)
               /\ disk' = Files(e.after)
Init == i = 0 /\ memo = [k \in {} |-> <<>>] /\ disk = [f \in {} |-> <<>>] /\ bad = <<>>
Next == i < N /\ i' = i + 1 /\ Do(memo, disk, Trace[i + 1])
Check == i = 0 \/ bad = <<>> \/ PrintT("REJECT " \o ToString(<<Trace[i].n, bad>>))
=============================================================================
