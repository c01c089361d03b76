-------------------------------- MODULE Runs --------------------------------
(***************************************************************************)
(* Runs of the compiler in a directory.  A run is given texts and an       *)
(* output name; what matters of these is its key.  Files are of two kinds: *)
(* outputs, known by the name they were asked for, each with a content,    *)
(* and all others.                                                         *)
(*                                                                         *)
(*    disk   : output name -> content    (what is not there is not in it)  *)
(*    memo   : key -> what it gave: the content, or Refusal                *)
(*                                                                         *)
(* A step is a set of runs, each with an output of its own, at once: [key, *)
(* out, gave] where gave is Refusal or the content.  Nothing else may be   *)
(* part of it: not the environment, the directory, nor earlier runs.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Refusal == <<"refusal">>
Outs(runs) == {runs[k].out : k \in 1..Len(runs)}
\* What each run gives is what it has always given.
Agrees(memo, runs) == \A k \in 1..Len(runs) : runs[k].key \in DOMAIN memo => memo[runs[k].key] = runs[k].gave
\* and the same within the step
Alike(runs) == \A j, k \in 1..Len(runs) : runs[j].key = runs[k].key => runs[j].gave = runs[k].gave
Learn(memo, runs) == [k \in DOMAIN memo \cup {runs[j].key : j \in 1..Len(runs)} |->
                        IF k \in DOMAIN memo THEN memo[k] ELSE runs[CHOOSE j \in 1..Len(runs) : runs[j].key = k].gave]
\* Files after a step: outputs as given; those of a refused run are not said anything of; the others stay as they are.
Leaves(disk, runs, after) ==
  /\ \A k \in 1..Len(runs) : runs[k].gave # Refusal => (runs[k].out \in DOMAIN after /\ after[runs[k].out] = runs[k].gave)
  /\ \A f \in (DOMAIN disk \cup DOMAIN after) \ Outs(runs) : f \in DOMAIN disk /\ f \in DOMAIN after /\ after[f] = disk[f]
Apart(runs) == \A j, k \in 1..Len(runs) : j # k => runs[j].out # runs[k].out
=============================================================================
