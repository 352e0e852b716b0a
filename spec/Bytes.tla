------------------------------- MODULE Bytes -------------------------------
(* Little-endian byte vectors.  Every machine quantity that does not fit     *)
(* TLC's 32-bit integers (64-bit immediates, absolute addresses, register    *)
(* contents) is a sequence of bytes, least significant byte first.           *)
EXTENDS Integers, Sequences

Byte == 0..255

\* The low n bytes (two's complement) of the integer v.
RECURSIVE LE(_, _)
LE(v, n) == IF n = 0 THEN <<>> ELSE <<v % 256>> \o LE(v \div 256, n - 1)

Take(s, n) == SubSeq(s, 1, n)

Fill(b, n) == [i \in 1..n |-> b]

Negative(s) == Len(s) > 0 /\ s[Len(s)] >= 128

\* Sign / zero extension (or truncation) of s to n bytes.
SExt(s, n) == IF Len(s) >= n THEN Take(s, n)
              ELSE s \o Fill(IF Negative(s) THEN 255 ELSE 0, n - Len(s))
ZExt(s, n) == IF Len(s) >= n THEN Take(s, n) ELSE s \o Fill(0, n - Len(s))

\* v (a wider vector) is the sign / zero extension of its low n bytes.
FitsS(v, n) == SExt(Take(v, n), Len(v)) = v
FitsU(v, n) == ZExt(Take(v, n), Len(v)) = v

\* Signed value of a vector of at most 4 bytes.
SVal(s) ==
  LET n  == Len(s)
      hi == IF n = 0 THEN 0 ELSE IF s[n] >= 128 THEN s[n] - 256 ELSE s[n]
  IN CASE n = 0 -> 0
       [] n = 1 -> hi
       [] n = 2 -> hi * 256 + s[1]
       [] n = 3 -> hi * 65536 + s[2] * 256 + s[1]
       [] OTHER -> hi * 16777216 + s[3] * 65536 + s[2] * 256 + s[1]

\* Addition with carry-in; result has the length of a (b is at least as long).
RECURSIVE AddC(_, _, _, _)
AddC(a, b, c, i) ==
  IF i > Len(a) THEN <<>>
  ELSE LET t == a[i] + b[i] + c
       IN <<t % 256>> \o AddC(a, b, t \div 256, i + 1)
Add(a, b) == AddC(a, b, 0, 1)
Not(a) == [i \in 1..Len(a) |-> 255 - a[i]]
Neg(a) == AddC(Not(a), Fill(0, Len(a)), 1, 1)
Sub(a, b) == AddC(a, Not(b), 1, 1)
=============================================================================
