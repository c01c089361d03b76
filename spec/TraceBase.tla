----------------------------- MODULE TraceBase -----------------------------
(***************************************************************************)
(* Common part of the trace specifications for stateless operations: the   *)
(* recorded events are walked in parallel chunks and each is judged by     *)
(* Verdict (given by the instantiating module): the set of what is wrong   *)
(* with the event, empty when the specification allows it.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, IOUtils, Json

Trace == ndJsonDeserialize(IOEnv.TRACE)
N     == Len(Trace)
Chunk == 32
=============================================================================
