-------------------------------- MODULE Big --------------------------------
(* Natural numbers of any size, as sequences of limbs, least significant   *)
(* first, base 10000, without zero limbs at the end.                       *)
EXTENDS Integers, Sequences
BigBase == 10000

RECURSIVE MulAdd(_, _, _)
MulAdd(a, k, carry) ==            \* a * k + carry, k <= 10000
  IF a = <<>> THEN (IF carry = 0 THEN <<>> ELSE IF carry < BigBase THEN <<carry>>
                    ELSE <<carry % BigBase>> \o MulAdd(<<>>, 1, carry \div BigBase))
  ELSE LET t == Head(a) * k + carry IN <<t % BigBase>> \o MulAdd(Tail(a), k, t \div BigBase)

RECURSIVE BigTimesPow2(_, _)
BigTimesPow2(a, n) == IF n = 0 THEN a
                      ELSE IF n >= 13 THEN BigTimesPow2(MulAdd(a, 8192, 0), n - 13)
                      ELSE MulAdd(a, 2 ^ n, 0)
BigTimesPow10(a, n) == IF a = <<>> THEN a
                       ELSE [k \in 1..(n \div 4) |-> 0] \o MulAdd(a, 10 ^ (n % 4), 0)

RECURSIVE BigOfDigits(_, _, _)
BigOfDigits(d, base, acc) == IF d = <<>> THEN acc ELSE BigOfDigits(Tail(d), base, MulAdd(acc, base, Head(d)))
BigOfDecimal(d) == BigOfDigits(d, 10, <<>>)
BigOfBits(b) == BigOfDigits(b, 2, <<>>)

RECURSIVE CmpLimbs(_, _, _)
CmpLimbs(a, b, k) == IF k = 0 THEN 0
                     ELSE IF a[k] < b[k] THEN -1 ELSE IF a[k] > b[k] THEN 1 ELSE CmpLimbs(a, b, k - 1)
BigCmp(a, b) == IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1) ELSE CmpLimbs(a, b, Len(a))

\* One less than a bit string that is not zero.
RECURSIVE Decr(_)
Decr(b) == IF b[Len(b)] = 1 THEN SubSeq(b, 1, Len(b) - 1) \o <<0>>
           ELSE Append(Decr(SubSeq(b, 1, Len(b) - 1)), 1)
=============================================================================
