----------------------------- MODULE TracePrim -----------------------------
(* Judges recorded sessions on a pool of primitive objects (B04 to B07).   *)
EXTENDS Prim, TraceBase

VARIABLES i, st, bad
vars == <<i, st, bad>>

IsNew(k) == Trace[k].op = "new"
IsCodec(k) == Trace[k].op \in {"oidd", "oide", "reald", "reale", "intd", "inte"}
\* Sessions begin at "new"; codec events stand alone.
Init == /\ i \in {k \in 1..N : IsNew(k) \/ IsCodec(k)}
        /\ st = IF IsNew(i) THEN Start(Trace[i]) ELSE <<>>
        /\ bad = IF IsNew(i) THEN VStart(Trace[i]) ELSE VCodec(Trace[i])
Next == /\ i < N
        /\ ~IsNew(i + 1) /\ ~IsCodec(i + 1) /\ ~IsCodec(i)
        /\ i' = i + 1
        /\ st' = After(st, Trace[i + 1])
        /\ bad' = VPool(st, Trace[i + 1])
Check == bad = <<>> \/ PrintT("REJECT " \o ToString(<<Trace[i].n, bad>>))
=============================================================================
