------------------------------- MODULE MC_View -------------------------------
(***************************************************************************)
(* Elements built from within: octets are put before b, or b becomes the   *)
(* contents of a constructed element.  Checks the laws prints must obey;   *)
(* the files reached are replayed into the viewer (TLC -dump).             *)
(***************************************************************************)
EXTENDS Viewer
CONSTANTS MaxSteps
VARIABLES b, steps

Pool == {<<2, 1, 255>>, <<2, 0>>, <<10, 2, 1, 0>>, <<1, 1, 0>>, <<5, 0>>, <<6, 2, 42, 3>>, <<9, 3, 128, 251, 5>>, <<9, 1, 64>>, <<4, 2, 65, 34>>, <<12, 1, 10>>,
         <<159, 129, 0, 1, 66>>, <<19, 129, 1, 32>>, <<31, 31, 0>>, <<2, 1>>, <<36, 0>>}
Heads == {<<48>>, <<177>>, <<255, 129, 1>>}
Init == b = <<>> /\ steps = 0
Next == steps < MaxSteps /\ steps' = steps + 1 /\ b' \in {p \o b : p \in Pool} \cup {h \o EncLength(Digits(Len(b), 256)) \o b : h \in Heads}

T == ParseTLV(b)
One(ps) == [k \in 1..Len(ps) |-> CHOOSE s \in ps[k] : TRUE]
RECURSIVE Join(_)
Join(s) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE LET h == Len(s) \div 2 IN Join(SubSeq(s, 1, h)) \o Join(SubSeq(s, h + 1, Len(s)))
RECURSIVE Count(_)
Count(x) == LET t == ParseTLV(x) IN
            IF ~t.ok THEN 0 ELSE IF t.cons = Primitive THEN 1
            ELSE LET RECURSIVE Sum(_)
                     Sum(es) == IF es = <<>> THEN 0 ELSE Count(es[1]) + Sum(Tail(es)) IN 1 + Sum(Elements(Content(x, t)))
P == Eager(PrintOf(b, 0))
\* Octets after an element do not show.
Prefix == T.ok => P = PrintOf(Element(b, T), 0)
\* One piece with values for every primitive element; as many elements as there are.
Headed(s) == LET h == "{ \"length\": " IN Len(s) > Len(h) /\ SubSeq(s, 1, Len(h)) = h
All == Count(b) = (IF T.ok THEN Len(SelectSeq(One(P) \o <<>>, Headed)) ELSE 0)
\* A print is a print, of this and of no shorter one.
Itself == LET s == Join(One(P) \o <<>>) IN Fits(s, 1, P, 1) /\ ~Fits(SubSeq(s, 1, Len(s) - 1), 1, P, 1)
=============================================================================
