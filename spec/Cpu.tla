-------------------------------- MODULE Cpu --------------------------------
(* What executing a statement of the language does to a machine: registers,  *)
(* status flags, xmm registers and a window of memory.                       *)
(*                                                                           *)
(*   r[0..15]  general registers, 8-byte vectors                             *)
(*   f         flags cf pf zf sf of: 0, 1 or 2 (left undefined by the        *)
(*             architecture; the auxiliary carry flag is not modelled)       *)
(*   m         the window, a sequence of bytes; wb its address (8 bytes)     *)
(*   x[0..15]  xmm registers, 16-byte vectors                                *)
(* Operands are as in Asm, and <<"s", k>> for memory at offset k of the      *)
(* window (a label operand).                                                 *)
EXTENDS Asm, Bits

U == 2
Flags == {"cf", "pf", "zf", "sf", "of"}
NoTouch == [cf |-> 3, pf |-> 3, zf |-> 3, sf |-> 3, of |-> 3]   \* 3: unchanged
Undef == [cf |-> U, pf |-> U, zf |-> U, sf |-> U, of |-> U]
NewFlags(f, g) == [k \in Flags |-> IF g[k] = 3 THEN f[k] ELSE g[k]]

B1(c) == IF c THEN 1 ELSE 0
Parity(v) == 1 - (Ones(v[1]) % 2)
\* Flags that follow from the result alone.
Szp(v, g) == [g EXCEPT !.sf = Top(v), !.zf = B1(IsZero(v)), !.pf = Parity(v)]
Logic(v) == Szp(v, [NoTouch EXCEPT !.cf = 0, !.of = 0])

-----------------------------------------------------------------------------
(* Effective addresses, relative to the window. *)
Scaled(v, s) == CASE s = 1 -> v [] s = 2 -> ShlBits(v, 1) [] s = 4 -> ShlBits(v, 2) [] OTHER -> ShlBits(v, 3)
EaVec(o, st) ==
  Add(Add(st.r[o[2]], IF o[3] = -1 THEN Fill(0, 8) ELSE Scaled(st.r[o[3]], o[4])), LE(o[5], 8))
Outside == 100000
OffOf(v, st) == LET d == Sub(v, st.wb)
                IN IF \A i \in 3..8 : d[i] = 0 THEN d[1] + 256 * d[2] ELSE Outside
Ea(o, st) == IF o[1] = "s" THEN o[2] ELSE OffOf(EaVec(o, st), st)
In(off, n, st) == off + n <= Len(st.m)

IsMem(o) == o[1] \in {"m", "s"}
MemGet(st, off, n) == [i \in 1..n |-> st.m[off + i]]
MemPut(st, off, v) == [st EXCEPT !.m = [i \in 1..Len(@) |-> IF i > off /\ i <= off + Len(v) THEN v[i - off] ELSE @[i]]]

\* Operand as an n-byte value / writing an n-byte value to it.
Val(o, n, st) ==
  CASE o[1] = "r" -> Take(st.r[o[2]], n)
    [] IsMem(o) -> MemGet(st, Ea(o, st), n)
    [] OTHER -> Take(ImmVal(o), n)
\* A 32-bit register write clears the upper half; 8 and 16 bits merge.
Merge(old, v) == CASE Len(v) = 8 -> v [] Len(v) = 4 -> v \o Fill(0, 4)
                   [] OTHER -> v \o SubSeq(old, Len(v) + 1, 8)
Put(o, v, st) == IF o[1] = "r" THEN [st EXCEPT !.r[o[2]] = Merge(@, v)] ELSE MemPut(st, Ea(o, st), v)
Fl(g, st) == [st EXCEPT !.f = NewFlags(@, g)]

-----------------------------------------------------------------------------
(* Arithmetic. *)
AddF(a, b, c) ==
  LET v == AddC(a, b, c, 1)
  IN [v |-> v, g |-> Szp(v, [NoTouch EXCEPT !.cf = Carry(a, b, c, 1),
                                            !.of = B1(Top(a) = Top(b) /\ Top(v) # Top(a))])]
SubF(a, b, c) ==
  LET v == AddC(a, Not(b), 1 - c, 1)
  IN [v |-> v, g |-> Szp(v, [NoTouch EXCEPT !.cf = 1 - Carry(a, Not(b), 1 - c, 1),
                                            !.of = B1(Top(a) # Top(b) /\ Top(v) # Top(a))])]
AluF(o, a, b, cf) ==
  CASE o = "add" -> AddF(a, b, 0)
    [] o = "adc" -> AddF(a, b, cf)
    [] o \in {"sub", "cmp"} -> SubF(a, b, 0)
    [] o = "sbb" -> SubF(a, b, cf)
    [] o \in {"and", "test"} -> LET v == BAnd(a, b) IN [v |-> v, g |-> Logic(v)]
    [] o = "or" -> LET v == BOr(a, b) IN [v |-> v, g |-> Logic(v)]
    [] o = "xor" -> LET v == BXor(a, b) IN [v |-> v, g |-> Logic(v)]

ShiftF(o, a, k) ==
  LET w == 8 * Len(a)
  IN IF k = 0 THEN [v |-> a, g |-> NoTouch]
     ELSE CASE o = "shl" ->
                 LET v == ShlBits(a, k) c == BitOf(a, w - k)
                 IN [v |-> v, g |-> Szp(v, [NoTouch EXCEPT !.cf = c, !.of = IF k = 1 THEN B1(Top(v) # c) ELSE U])]
            [] o = "shr" ->
                 LET v == ShrBits(a, k)
                 IN [v |-> v, g |-> Szp(v, [NoTouch EXCEPT !.cf = BitOf(a, k - 1), !.of = IF k = 1 THEN Top(a) ELSE U])]
            [] o = "sar" ->
                 LET v == SarBits(a, k)
                 IN [v |-> v, g |-> Szp(v, [NoTouch EXCEPT !.cf = BitOf(a, k - 1), !.of = IF k = 1 THEN 0 ELSE U])]
            [] o = "rol" ->
                 LET v == RolBits(a, k)
                 IN [v |-> v, g |-> [NoTouch EXCEPT !.cf = v[1] % 2, !.of = IF k = 1 THEN B1(Top(v) # v[1] % 2) ELSE U]]
            [] o = "ror" ->
                 LET v == RolBits(a, w - k)
                 IN [v |-> v, g |-> [NoTouch EXCEPT !.cf = Top(v), !.of = IF k = 1 THEN B1(Top(v) # BitOf(v, w - 2)) ELSE U]]

CountF(o, a) ==
  LET w == 8 * Len(a)
      n == CASE o = "popcnt" -> PopCount(a)
             [] IsZero(a) -> w
             [] o = "lzcnt" -> w - 1 - Highest(a)
             [] OTHER -> LowBit(a, 0)
  IN [v |-> LE(n, Len(a)),
      g |-> IF o = "popcnt" THEN [cf |-> 0, pf |-> 0, zf |-> B1(IsZero(a)), sf |-> 0, of |-> 0]
            ELSE [Undef EXCEPT !.cf = B1(IsZero(a)), !.zf = B1(n = 0)]]

\* Condition c of 0..15; 2 if it depends on an undefined flag.
Xor1(a, b) == IF a = U \/ b = U THEN U ELSE B1(a # b)
Or1(a, b) == IF a = 1 \/ b = 1 THEN 1 ELSE IF a = U \/ b = U THEN U ELSE 0
Flip(a) == IF a = U THEN U ELSE 1 - a
Base8(c, f) == CASE c = 0 -> f.of [] c = 1 -> f.cf [] c = 2 -> f.zf [] c = 3 -> Or1(f.cf, f.zf)
                 [] c = 4 -> f.sf [] c = 5 -> f.pf [] c = 6 -> Xor1(f.sf, f.of)
                 [] OTHER -> Or1(f.zf, Xor1(f.sf, f.of))
Cond(c, f) == IF c % 2 = 0 THEN Base8(c \div 2, f) ELSE Flip(Base8(c \div 2, f))

-----------------------------------------------------------------------------
(* Double precision, for values that are exact.                              *)
\* An exact double: the value (-1)^neg * mag * 2^sc, mag an 8-byte vector.
\* mag has more than 53 significant bits: the nearest (ties to even) 53 of them.
Nearest53(mag, k) ==
  LET d == k - 52
      q == ShrBits(mag, d)
      half == BitOf(mag, d - 1) = 1
      below == \E i \in 0..(d - 2) : BitOf(mag, i) = 1
  IN IF half /\ (below \/ q[1] % 2 = 1) THEN Add(q, One) ELSE q
RECURSIVE DEnc(_, _, _)
DEnc(neg, mag, sc) ==
  IF IsZero(mag) THEN Fill(0, 7) \o <<128 * neg>>
  ELSE LET k == Highest(mag)
       IN IF k > 52 THEN DEnc(neg, Nearest53(mag, k), sc + k - 52)
          ELSE LET e == 1023 + k + sc
                   t == ShlBits(mag, 52 - k)                           \* the top bit is the hidden one
               IN [i \in 1..8 |-> IF i <= 6 THEN t[i] ELSE IF i = 7 THEN (t[7] % 16) + 16 * (e % 16)
                                  ELSE 128 * neg + e \div 16]
DNeg(v) == v[8] \div 128
DExp(v) == (v[8] % 128) * 16 + v[7] \div 16
DZero(v) == IsZero(Take(v, 7)) /\ v[8] % 128 = 0
DMant(v) == Take(v, 6) \o <<16 + (v[7] % 16), 0>>                      \* with the hidden bit
DNaN(v) == DExp(v) = 2047 /\ ~(IsZero(Take(v, 6)) /\ v[7] % 16 = 0)
\* The value in sixteenths, as an integer (for small exact values).
DFix(v) ==
  IF DZero(v) THEN 0
  ELSE LET s == 1023 + 48 - DExp(v)                                  \* value*16 = mant >> s
           n == SVal(Take(ShrBits(DMant(v), s), 4))
       IN IF DNeg(v) = 1 THEN -n ELSE n
Abs(n) == IF n < 0 THEN -n ELSE n
FixEnc(neg, n) == DEnc(neg, LE(Abs(n), 8), -4)
FixOf(n) == FixEnc(B1(n < 0), n)
RECURSIVE Root(_, _)
Root(n, k) == IF k * k >= n THEN k ELSE Root(n, k + 1)

FloorDiv(n) == n \div 16                                             \* towards minus infinity
CeilDiv(n) == -((-n) \div 16)
NearDiv(n) == LET q == n \div 16 r == n % 16
              IN IF r < 8 THEN q ELSE IF r > 8 THEN q + 1 ELSE q + (q % 2)
Rounded(mode, n) == CASE mode = 1 -> FloorDiv(n) [] mode = 2 -> CeilDiv(n)
                      [] mode = 3 -> (IF n < 0 THEN CeilDiv(n) ELSE FloorDiv(n)) [] OTHER -> NearDiv(n)
RoundF(m, a) == LET k == IF m[1] >= 4 /\ (m[1] \div 4) % 2 = 1 THEN 0 ELSE m[1] % 4
                IN FixEnc(DNeg(a), 16 * Rounded(k, DFix(a)))

\* cvttsd2si: towards zero, or the "indefinite" value.
TruncF(a) ==
  LET e == DExp(a) - 1075
      m == DMant(a)
      big == DExp(a) >= 1023 + 63
      v == IF e >= 0 THEN ShlBits(m, e) ELSE IF e <= -64 THEN Fill(0, 8) ELSE ShrBits(m, -e)
  IN IF DZero(a) THEN Fill(0, 8)
     ELSE IF big THEN Fill(0, 7) \o <<128>>
     ELSE IF DNeg(a) = 1 THEN Neg(v) ELSE v
FromInt(a) == IF Top(a) = 1 THEN DEnc(1, Neg(a), 0) ELSE DEnc(0, a, 0)

SdF(o, a, b) ==
  LET x == DFix(a) y == DFix(b)
      sg == (DNeg(a) + DNeg(b)) % 2
  IN CASE o = "addsd" -> IF DZero(a) /\ DZero(b) THEN FixEnc(DNeg(a) * DNeg(b), 0) ELSE FixOf(x + y)
       [] o = "subsd" -> IF DZero(a) /\ DZero(b) THEN FixEnc(DNeg(a) * (1 - DNeg(b)), 0) ELSE FixOf(x - y)
       [] o = "mulsd" -> FixEnc(sg, (x * y) \div 16)
       [] o = "divsd" -> FixEnc(sg, (Abs(x) * 16) \div Abs(y))
       [] o = "minsd" -> IF x < y THEN a ELSE b
       [] o = "maxsd" -> IF x > y THEN a ELSE b
       [] o = "sqrtsd" -> IF DZero(b) THEN b ELSE FixOf(4 * Root(y, 0))
UcomiF(a, b) ==
  LET un == DNaN(a) \/ DNaN(b)
  IN [cf |-> B1(un \/ DFix(a) < DFix(b)), pf |-> B1(un), zf |-> B1(un \/ DFix(a) = DFix(b)), sf |-> 0, of |-> 0]

Lo(v) == Take(v, 8)
Hi(v) == SubSeq(v, 9, 16)
XVal(o, n, st) == IF o[1] = "x" THEN Take(st.x[o[2]], n) ELSE MemGet(st, Ea(o, st), n)
PutX(o, v, st) == [st EXCEPT !.x[o[2]] = v]

-----------------------------------------------------------------------------
(* One statement that does not transfer control.                             *)
Rsp == 4
Push(v, st) ==
  LET s1 == [st EXCEPT !.r[Rsp] = Sub(@, LE(8, 8))]
  IN MemPut(s1, OffOf(s1.r[Rsp], s1), v)

\* Division is specified by what it must satisfy: quotient q, remainder r.
DivOk(sgn, hi, lo, d, q, r) ==
  LET n == Len(d)
      ex(v) == IF sgn THEN SExt(v, 2 * n) ELSE ZExt(v, 2 * n)
      absv(v) == IF sgn /\ Top(v) = 1 THEN Neg(v) ELSE v
  IN /\ Add(Mul(ex(q), ex(d)), ex(r)) = lo \o hi
     /\ Below(absv(r), absv(d))
     /\ sgn => IsZero(r) \/ Top(r) = Top(hi)

Exec(mn, ops, st) ==
  LET e == Tab[mn]
      n == e.w \div 8
      o1 == ops[1]
      o2 == ops[2]
  IN
  CASE e.c = "alu" ->
         LET t == AluF(e.o, Val(o1, n, st), Val(o2, n, st), st.f.cf)
         IN Fl(t.g, IF e.o = "cmp" THEN st ELSE Put(o1, t.v, st))
    [] e.c = "test" -> Fl(AluF("test", Val(o1, n, st), Val(o2, n, st), 0).g, st)
    [] e.c = "mov" ->
         IF o1[1] = "x" THEN PutX(o1, (IF o2[1] = "r" THEN st.r[o2[2]] ELSE XVal(o2, 8, st)) \o Fill(0, 8), st)
         ELSE IF o2[1] = "x" THEN Put(o1, Lo(st.x[o2[2]]), st)
         ELSE Put(o1, Val(o2, n, st), st)
    [] e.c = "movx" ->
         (CASE e.o = "movsx32" -> Put(o1, SExt(Val(o2, 4, st), 8), st)
            [] e.o = "movsx16" -> Put(o1, SExt(Val(o2, 2, st), 8), st)
            [] e.o = "movsx8" -> Put(o1, SExt(Val(o2, 1, st), 8), st)
            [] e.o = "movzx16" -> Put(o1, ZExt(Val(o2, 2, st), 8), st)
            [] OTHER -> Put(o1, ZExt(Val(o2, 1, st), 8), st))
    [] e.c = "lea" -> Put(o1, IF o2[1] = "s" THEN Add(st.wb, LE(o2[2], 8)) ELSE EaVec(o2, st), st)
    [] e.c = "xchg" ->
         LET a == Val(o1, 8, st) b == Val(o2, 8, st)
         \* the memory operand's address is that of the unchanged registers
         IN IF IsMem(o1) THEN [MemPut(st, Ea(o1, st), b) EXCEPT !.r[o2[2]] = a]
            ELSE IF IsMem(o2) THEN [MemPut(st, Ea(o2, st), a) EXCEPT !.r[o1[2]] = b]
            ELSE Put(o2, a, Put(o1, b, st))
    [] e.c = "un" /\ e.o = "neg" ->
         LET a == Val(o1, n, st) t == SubF(Fill(0, n), a, 0) IN Fl(t.g, Put(o1, t.v, st))
    [] e.c = "un" /\ e.o = "push" -> Push(Val(o1, 8, st), st)
    [] e.c = "un" /\ e.o = "pop" ->
         LET v == MemGet(st, OffOf(st.r[Rsp], st), 8)
             s1 == [st EXCEPT !.r[Rsp] = Add(@, LE(8, 8))]
         IN Put(o1, v, s1)
    [] e.c = "rrm" /\ e.o = "imul" ->
         LET a == Val(o1, 8, st) b == Val(o2, 8, st)
             p == Mul(SExt(a, 16), SExt(b, 16))
             c == B1(p # SExt(Take(p, 8), 16))
         IN Fl([Undef EXCEPT !.cf = c, !.of = c], Put(o1, Take(p, 8), st))
    [] e.c = "rrm" -> LET t == CountF(e.o, Val(o2, n, st)) IN Fl(t.g, Put(o1, t.v, st))
    [] e.c = "shift" ->
         LET k == (IF IsImm(o2) THEN ImmVal(o2)[1] ELSE st.r[1][1]) % e.w
             t == ShiftF(e.o, Val(o1, n, st), k)
         IN Fl(t.g, Put(o1, t.v, st))
    [] e.c = "set" -> Put(o1, <<Cond(e.cc, st.f)>>, st)
    [] e.c = "cmov" -> Put(o1, IF Cond(e.cc, st.f) = 1 THEN Val(o2, n, st) ELSE Val(o1, n, st), st)
    [] e.c = "bare" /\ e.o = "cdq" -> Put(<<"r", 2>>, Fill(255 * Top(Take(st.r[0], n)), n), st)
    [] e.c = "bare" /\ e.o = "leave" ->
         LET off == OffOf(st.r[5], st)
         IN [st EXCEPT !.r[Rsp] = Add(st.r[5], LE(8, 8)), !.r[5] = MemGet(st, off, 8)]
    [] e.c = "sse" ->
         (CASE e.o = "ucomisd" -> Fl(UcomiF(XVal(o1, 8, st), XVal(o2, 8, st)), st)
            [] e.o = "andpd" -> PutX(o1, BAnd(XVal(o1, 16, st), XVal(o2, 16, st)), st)
            [] e.o \in {"xorps", "xorpd"} -> PutX(o1, BXor(XVal(o1, 16, st), XVal(o2, 16, st)), st)
            [] e.o = "sqrtpd" -> LET v == XVal(o2, 16, st)
                                 IN PutX(o1, SdF("sqrtsd", v, Lo(v)) \o SdF("sqrtsd", v, Hi(v)), st)
            [] OTHER -> PutX(o1, SdF(e.o, XVal(o1, 8, st), XVal(o2, 8, st)) \o Hi(st.x[o1[2]]), st))
    [] e.c = "movsd" ->
         IF o1[1] # "x" THEN MemPut(st, Ea(o1, st), Lo(st.x[o2[2]]))
         ELSE IF o2[1] = "x" THEN PutX(o1, Lo(st.x[o2[2]]) \o Hi(st.x[o1[2]]), st)
         ELSE PutX(o1, XVal(o2, 8, st) \o Fill(0, 8), st)
    [] e.c = "round" ->
         LET v == XVal(o2, 16, st) m == ImmVal(ops[3])
         IN PutX(o1, RoundF(m, Lo(v)) \o RoundF(m, Hi(v)), st)
    [] e.c = "cvtix" -> PutX(o1, FromInt(Val(o2, 8, st)) \o Hi(st.x[o1[2]]), st)
    [] e.c = "cvtxi" -> Put(o1, TruncF(XVal(o2, 8, st)), st)
=============================================================================
