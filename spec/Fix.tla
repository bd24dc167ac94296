-------------------------------- MODULE Fix --------------------------------
(* Fixed-point arithmetic in TLC's 32-bit integers.  A real x is the integer
   round(x * One).  Operands of Mul must stay below 10 in magnitude and its
   result below 20, which every caller guarantees by normalising the data.   *)
EXTENDS Integers, Sequences, SequencesExt, TLC

One  == 100000000          \* 10^8
Half == 50000000
Base == 10000              \* One = Base * Base

AbsI(a) == IF a < 0 THEN -a ELSE a
MaxI(a, b) == IF a > b THEN a ELSE b
MinI(a, b) == IF a < b THEN a ELSE b

MulPos(a, b) ==
  LET a1 == a \div Base   a0 == a % Base
      b1 == b \div Base   b0 == b % Base
  IN  a1 * b1 + (a1 * b0 + a0 * b1 + ((a0 * b0) \div Base)) \div Base

Mul(a, b) ==
  IF a = 0 \/ b = 0 THEN 0
  ELSE IF (a < 0) = (b < 0) THEN MulPos(AbsI(a), AbsI(b))
       ELSE -MulPos(AbsI(a), AbsI(b))

Idx(n) == [i \in 1..n |-> i]
SumI(n, F(_)) == FoldLeft(LAMBDA acc, i : acc + F(i), 0, Idx(n))
MaxOf(n, F(_)) == FoldLeft(LAMBDA acc, i : MaxI(acc, F(i)), 0, Idx(n))

(* binary long division; 0 <= a, 0 < b < 10.7 * One, quotient below 20 *)
DivPos(a, b) ==
  LET q0 == a \div b
      r0 == a % b
      \* 27 further bits: value = q0 + bits / 2^27
      go == FoldLeft(LAMBDA st, i :
                LET r2 == 2 * st[1] IN
                IF r2 >= b THEN <<r2 - b, 2 * st[2] + 1>> ELSE <<r2, 2 * st[2]>>,
                <<r0, 0>>, Idx(27))
      frac27 == go[2]          \* fraction in units of 2^-27 (134217728)
      hi == frac27 \div 16384  \* units of 2^-13
      lo == frac27 % 16384
      \* frac27 * 10^8 / 2^27 = hi * 10^8 / 2^13 + lo * 10^8 / 2^27
      \* 10^8 / 2^13 = 12207 + 1/32
      part1 == hi * 12207 + hi \div 32
  IN  q0 * One + part1 + ((lo * 7451) \div 10000)
Div(a, b) == IF (a < 0) = (b < 0) THEN DivPos(AbsI(a), AbsI(b)) ELSE -DivPos(AbsI(a), AbsI(b))

(* p / q for small integers 0 <= p, 0 < q < 10^5 and p / q < 20 *)
Rat(p, q) ==
  LET r1 == (p % q) * Base
      r2 == (r1 % q) * Base
  IN  (p \div q) * One + (r1 \div q) * Base + r2 \div q

(* square root of 0 <= a <= 16 by bisection on the integer result (<= 4*One) *)
Sqrt(a) ==
  IF a <= 0 THEN 0 ELSE
  LET step == FoldLeft(LAMBDA st, i :
                LET mid == (st[1] + st[2]) \div 2 IN
                IF Mul(mid, mid) <= a THEN <<mid, st[2]>> ELSE <<st[1], mid>>,
                <<0, 400000001>>, Idx(31))
  IN step[1]

(* e^-n for n = 0..20 *)
ExpTable == << 100000000, 36787944, 13533528, 4978707, 1831564, 673795, 247875, 91188, 33546, 12341,
               4540, 1670, 614, 226, 83, 31, 11, 4, 2, 1, 0 >>
InvFact == << 100000000, 50000000, 16666667, 4166667, 833333, 138889, 19841, 2480, 276, 28, 3 >>
(* exp(-x), x >= 0 *)
ExpNeg(x) ==
  IF x >= 20 * One THEN 0
  ELSE LET n == x \div One
           f == x % One
           \* e^-f = 1 - f/1! + f^2/2! - ...  (Horner in -f with coefficients 1/k!)
           horner == FoldLeft(LAMBDA acc, k : InvFact[12 - k] - Mul(f, acc), 0, Idx(11))
       IN  Mul(ExpTable[n + 1], One - Mul(f, horner))

(* observations: a value that is not a finite number is logged as Bad *)
Bad == 2000000000
IsBad(a) == a >= Bad \/ a <= -Bad
Near(a, b, tol) == ~IsBad(a) /\ ~IsBad(b) /\ AbsI(a - b) <= tol
NearSeq(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i], b[i], tol)
Finite(a) == \A i \in 1..Len(a) : ~IsBad(a[i])

(* six-point Gauss-Legendre rule on [0, 1] *)
GX == << 3376524, 16939531, 38069041, 61930959, 83060469, 96623476 >>
GW == << 8566225, 18038079, 23395697, 23395697, 18038079, 8566225 >>

Pi == 314159265
=============================================================================
