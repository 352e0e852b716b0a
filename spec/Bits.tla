-------------------------------- MODULE Bits --------------------------------
(* Arithmetic of byte vectors: what an arithmetic unit computes.             *)
EXTENDS Bytes
LOCAL BW == INSTANCE Bitwise

BAnd(a, b) == [i \in 1..Len(a) |-> BW!&(a[i], b[i])]
BOr(a, b) == [i \in 1..Len(a) |-> BW!|(a[i], b[i])]
BXor(a, b) == [i \in 1..Len(a) |-> BW!^^(a[i], b[i])]

Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256>>
P2(k) == Pow2[k + 1]

IsZero(a) == \A i \in 1..Len(a) : a[i] = 0
Top(a) == a[Len(a)] \div 128                      \* sign bit
BitOf(a, k) == (a[(k \div 8) + 1] \div P2(k % 8)) % 2
RECURSIVE Carry(_, _, _, _)
Carry(a, b, c, i) == IF i > Len(a) THEN c ELSE Carry(a, b, (a[i] + b[i] + c) \div 256, i + 1)

\* Shifts by k bits, 0 <= k < 8 * Len(a).
ByteAt(a, i, fill) == IF i < 1 THEN 0 ELSE IF i > Len(a) THEN fill ELSE a[i]
ShlBits(a, k) ==
  LET q == k \div 8 r == k % 8
  IN [i \in 1..Len(a) |-> ((ByteAt(a, i - q, 0) * P2(r)) % 256) + (ByteAt(a, i - q - 1, 0) \div P2(8 - r))]
ShrFill(a, k, fill) ==
  LET q == k \div 8 r == k % 8
  IN [i \in 1..Len(a) |-> (ByteAt(a, i + q, fill) \div P2(r)) + ((ByteAt(a, i + q + 1, fill) * P2(8 - r)) % 256)]
ShrBits(a, k) == ShrFill(a, k, 0)
SarBits(a, k) == ShrFill(a, k, IF Top(a) = 1 THEN 255 ELSE 0)
RolBits(a, k) == IF k = 0 THEN a ELSE BOr(ShlBits(a, k), ShrBits(a, 8 * Len(a) - k))

\* Product modulo 256^Len(a); Len(b) = Len(a).
RECURSIVE SumTo(_, _, _, _)
SumTo(a, b, i, j) == IF j > i THEN 0 ELSE a[j] * b[i - j + 1] + SumTo(a, b, i, j + 1)
RECURSIVE MulC(_, _, _, _)
MulC(a, b, c, i) ==
  IF i > Len(a) THEN <<>>
  ELSE LET t == c + SumTo(a, b, i, 1) IN <<t % 256>> \o MulC(a, b, t \div 256, i + 1)
Mul(a, b) == MulC(a, b, 0, 1)

\* Unsigned comparison a < b.
RECURSIVE LtU(_, _, _)
LtU(a, b, i) == IF i = 0 THEN FALSE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LtU(a, b, i - 1)
Below(a, b) == LtU(a, b, Len(a))

Ones(b) == (b % 2) + ((b \div 2) % 2) + ((b \div 4) % 2) + ((b \div 8) % 2)
           + ((b \div 16) % 2) + ((b \div 32) % 2) + ((b \div 64) % 2) + (b \div 128)
RECURSIVE SumOnes(_, _)
SumOnes(a, i) == IF i > Len(a) THEN 0 ELSE Ones(a[i]) + SumOnes(a, i + 1)
PopCount(a) == SumOnes(a, 1)
\* Position of the lowest / highest one bit; a is not zero.
RECURSIVE LowBit(_, _)
LowBit(a, k) == IF BitOf(a, k) = 1 THEN k ELSE LowBit(a, k + 1)
RECURSIVE HighBit(_, _)
HighBit(a, k) == IF BitOf(a, k) = 1 THEN k ELSE HighBit(a, k - 1)
Highest(a) == HighBit(a, 8 * Len(a) - 1)
=============================================================================
