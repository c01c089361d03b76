------------------------------- MODULE MC_Runs -------------------------------
(***************************************************************************)
(* All histories of up to MaxSteps steps of one or two runs on three       *)
(* outputs.  The histories are replayed into the real compiler.            *)
(***************************************************************************)
EXTENDS Runs
CONSTANTS MaxSteps
VARIABLES disk, memo, hist

Inputs == {"A", "B", "AB", "BA", "Bad"}
Names  == {"x", "y", "sub-x"}
Base(o) == IF o = "y" THEN "y" ELSE "x"
Key(in, o) == <<in, Base(o)>>
Gave(in, o) == IF in = "Bad" THEN Refusal ELSE Key(in, o)
Run(in, o) == [key |-> Key(in, o), out |-> o, gave |-> Gave(in, o)]
Place(o)  == IF o = "x" THEN 1 ELSE IF o = "y" THEN 2 ELSE 3
Single == {<<[in |-> i, out |-> o]>> : i \in Inputs, o \in Names}
Double == {s \in {<<[in |-> i, out |-> o], [in |-> j, out |-> p]>> : i, j \in Inputs, o, p \in Names} : Place(s[1].out) < Place(s[2].out)}
\* Whatever is left of the outputs of refused runs.
Rests == {"none", "empty", "as it was"}
Init == disk = [f \in {} |-> <<>>] /\ memo = [k \in {} |-> <<>>] /\ hist = <<>>
Next == /\ Len(hist) < MaxSteps
        /\ \E step \in Single \cup Double, rest \in Rests :
             LET runs == [k \in 1..Len(step) |-> Run(step[k].in, step[k].out)]
                 after(f) == IF \E k \in 1..Len(runs) : runs[k].out = f /\ runs[k].gave # Refusal THEN <<Gave((CHOOSE s \in {step[k] : k \in 1..Len(step)} : s.out = f).in, f)>>
                             ELSE IF f \in Outs(runs) /\ rest # "as it was" THEN (IF rest = "empty" THEN <<<<"">>>> ELSE <<>>)
                             ELSE IF f \in DOMAIN disk THEN <<disk[f]>> ELSE <<>>
                 new == [f \in {n \in Names : after(n) # <<>>} |-> after(f)[1]] IN
             /\ hist' = Append(hist, step)
             /\ disk' = new
             /\ memo' = Learn(memo, runs)
\* The laws, of the last step: an output is that of the last run that gave one, whatever there was before.
LastOf(f) == LET RECURSIVE Back(_)
                 Back(k) == IF k = 0 THEN <<>> ELSE IF \E j \in 1..Len(hist[k]) : hist[k][j].out = f
                            THEN <<hist[k][CHOOSE j \in 1..Len(hist[k]) : hist[k][j].out = f].in>> ELSE Back(k - 1) IN Back(Len(hist))
Fresh == \A f \in Names : LET l == LastOf(f) IN (l # <<>> /\ l[1] # "Bad") => (f \in DOMAIN disk /\ disk[f] = Key(l[1], f))
\* Every step is one Leaves and Agrees allow.
Steps == [][\A s \in {hist'[Len(hist')]} : LET runs == [k \in 1..Len(s) |-> Run(s[k].in, s[k].out)] IN
              Apart(runs) /\ Alike(runs) /\ Agrees(memo, runs) /\ Leaves(disk, runs, disk')]_<<disk, memo, hist>>
Spec == Init /\ [][Next]_<<disk, memo, hist>>
=============================================================================
