-------------------------------- MODULE Enc --------------------------------
(* A reference encoder: all the encodings (within the forms an assembler     *)
(* would choose from) that the architecture manual gives for a statement.    *)
(* The code under test need not use any of them; they exist to verify the    *)
(* oracle: every legal statement has an encoding, and the decoder gives back *)
(* the statement from each of them and from nothing else (EncMC).            *)
EXTENDS Asm

S8(d) == -128 <= d /\ d <= 127
Log2(s) == CASE s = 1 -> 0 [] s = 2 -> 1 [] s = 4 -> 2 [] OTHER -> 3
\* md, rm, rest: ModRM without its reg field; rx, rb: REX bits.
RM(md, rm, rest, x, b) == [md |-> md, rm |-> rm, rest |-> rest, x |-> x \div 8, b |-> b \div 8]

\* Displacement forms: <<mod, bytes>>.
DispForms(b, d) ==
       (IF d = 0 /\ b % 8 # 5 THEN {<<0, <<>>>>} ELSE {})
  \cup (IF S8(d) THEN {<<1, LE(d, 1)>>} ELSE {})
  \cup {<<2, LE(d, 4)>>}
Sib(s, i, b) == <<64 * Log2(s) + 8 * (i % 8) + (b % 8)>>
Indexed(b, i, s, d) == {RM(f[1], 4, Sib(s, i, b) \o f[2], i, b) : f \in DispForms(b, d)}
\* len: bytes of the instruction outside ModRM's field (for labels).
RmForms(o, rest) ==
  CASE o[1] \in {"r", "x"} -> {RM(3, o[2] % 8, <<>>, 0, o[2])}
    [] o[1] = "ml" -> {RM(0, 5, LE(o[2] - rest - 5, 4), 0, 0)}
    [] o[2] = 16 -> {RM(0, 5, LE(o[5], 4), 0, 0)}
    [] o[3] = -1 ->
         (IF o[2] % 8 = 4 THEN {} ELSE {RM(f[1], o[2] % 8, f[2], 0, o[2]) : f \in DispForms(o[2], o[5])})
         \cup {RM(f[1], 4, Sib(s, 4, o[2]) \o f[2], 0, o[2]) : f \in DispForms(o[2], o[5]), s \in {1, 8}}
    [] OTHER ->
         Indexed(o[2], o[3], o[4], o[5])
         \cup (IF o[4] = 1 /\ o[2] # 4 THEN Indexed(o[3], o[2], 1, o[5]) ELSE {})

\* REX prefixes for W, R, X, B; need: one must be present.
Rexes(w, r, x, b, need) ==
  LET v == 64 + 8 * w + 4 * r + 2 * x + b
  IN IF v > 64 \/ need THEN {<<v>>} ELSE {<<>>, <<64>>}
LowByte(o) == o[1] = "r" /\ o[2] \in 4..7

\* Prefix, REX, opcode, ModRM with reg field g, immediate.
Ins(pf, w, op, g, o, imm, need) ==
  UNION {LET m == md
         IN {pf \o rx \o op \o <<64 * m.md + 8 * (g % 8) + m.rm>> \o m.rest \o imm :
               rx \in Rexes(w, g \div 8, m.x, m.b, need)} :
         md \in RmForms(o, 0)}
\* The same with a label: the displacement depends on the length of the rest.
InsL(pf, w, op, g, o, imm, need) ==
  IF o[1] # "ml" THEN Ins(pf, w, op, g, o, imm, need)
  ELSE {pf \o rx \o op \o <<8 * (g % 8) + 5>> \o LE(o[2] - (Len(pf) + Len(rx) + Len(op) + 5 + Len(imm)), 4) \o imm :
          rx \in Rexes(w, g \div 8, 0, 0, need)}
Plus(pf, w, op, n, imm, need) == {pf \o rx \o <<op + (n % 8)>> \o imm : rx \in Rexes(w, 0, 0, n \div 8, need)}

W(w) == IF w = 64 THEN 1 ELSE 0
P66(w) == IF w = 16 THEN <<102>> ELSE <<>>
\* Opcode of the byte form or of the others.
B(op, w) == IF w = 8 THEN <<op>> ELSE <<op + 1>>
ImmBytes(v, n) == Take(v, n)
FullImm(w) == IF w = 8 THEN 1 ELSE IF w = 16 THEN 2 ELSE 4

AluNo(o) == (CHOOSE k \in 1..8 : AluName[k] = o) - 1
ShiftNo(o) == CASE o = "rol" -> 0 [] o = "ror" -> 1 [] o = "shl" -> 4 [] o = "shr" -> 5 [] OTHER -> 7

\* r/m, r   and   r, r/m  for opcodes in the usual arrangement
MR(op, w, a, b) == InsL(P66(w), W(w), B(op, w), b[2], a, <<>>, w = 8 /\ (LowByte(a) \/ LowByte(b)))
MRF(op, w, a, b) == InsL(P66(w), W(w), <<op>>, b[2], a, <<>>, w = 8 /\ (LowByte(a) \/ LowByte(b)))
MI(op, dig, w, a, imm) == InsL(P66(w), W(w), <<op>>, dig, a, imm, w = 8 /\ LowByte(a))

ArithEnc(e, a, b) ==
  LET k == 8 * AluNo(e.o) IN
  CASE IsImm(b) ->
         LET v == ImmVal(b)
             n == FullImm(e.w)
         IN (IF FitsS(v, n) THEN MI(IF e.w = 8 THEN 128 ELSE 129, AluNo(e.o), e.w, a, ImmBytes(v, n)) ELSE {})
            \cup (IF e.w # 8 /\ FitsS(v, 1) THEN MI(131, AluNo(e.o), e.w, a, ImmBytes(v, 1)) ELSE {})
            \cup (IF a = R(0) /\ FitsS(v, n)
                  THEN {P66(e.w) \o (IF e.w = 64 THEN <<72>> ELSE <<>>) \o <<k + (IF e.w = 8 THEN 4 ELSE 5)>> \o ImmBytes(v, n)}
                  ELSE {})
    [] OTHER -> (IF b[1] = "r" THEN MR(k, e.w, a, b) ELSE {}) \cup (IF a[1] = "r" THEN MR(k + 2, e.w, b, a) ELSE {})

MovEnc(e, a, b) ==
  IF a[1] = "x" /\ b[1] = "r" THEN InsL(<<102>>, 1, <<15, 110>>, a[2], b, <<>>, FALSE)
  ELSE IF a[1] = "r" /\ b[1] = "x" THEN InsL(<<102>>, 1, <<15, 126>>, b[2], a, <<>>, FALSE)
  ELSE IF a[1] = "x" THEN InsL(<<243>>, 0, <<15, 126>>, a[2], b, <<>>, FALSE)
                          \cup (IF b[1] = "x" THEN InsL(<<102>>, 0, <<15, 214>>, b[2], a, <<>>, FALSE)
                                ELSE InsL(<<102>>, 1, <<15, 110>>, a[2], b, <<>>, FALSE))
  ELSE IF b[1] = "x" THEN InsL(<<102>>, 0, <<15, 214>>, b[2], a, <<>>, FALSE)
                          \cup InsL(<<102>>, 1, <<15, 126>>, b[2], a, <<>>, FALSE)
  ELSE IF IsImm(b) THEN
    LET v == ImmVal(b)
        n == FullImm(e.w)
    IN (IF FitsS(v, n) THEN MI(IF e.w = 8 THEN 198 ELSE 199, 0, e.w, a, ImmBytes(v, n)) ELSE {})
       \cup (IF a[1] # "r" THEN {}
             ELSE IF e.w = 64
             THEN Plus(<<>>, 1, 184, a[2], v, FALSE)
                  \cup (IF FitsU(v, 4) THEN Plus(<<>>, 0, 184, a[2], ImmBytes(v, 4), FALSE) ELSE {})
             ELSE IF FitsS(v, n) THEN Plus(P66(e.w), 0, IF e.w = 8 THEN 176 ELSE 184, a[2], ImmBytes(v, n), e.w = 8 /\ LowByte(a))
             ELSE {})
  ELSE (IF b[1] = "r" THEN MR(136, e.w, a, b) ELSE {}) \cup (IF a[1] = "r" THEN MR(138, e.w, b, a) ELSE {})

SseOpc(o) == CASE o = "addsd" -> <<242, 88>> [] o = "subsd" -> <<242, 92>> [] o = "mulsd" -> <<242, 89>>
               [] o = "divsd" -> <<242, 94>> [] o = "minsd" -> <<242, 93>> [] o = "maxsd" -> <<242, 95>>
               [] o = "sqrtsd" -> <<242, 81>> [] o = "sqrtpd" -> <<102, 81>> [] o = "xorps" -> <<0, 87>>
               [] o = "xorpd" -> <<102, 87>> [] o = "andpd" -> <<102, 84>> [] OTHER -> <<102, 46>>
Pre(p) == IF p = 0 THEN <<>> ELSE <<p>>

UnEnc(e, a) ==
  CASE e.o = "neg" -> MI(247, 3, e.w, a, <<>>)
    [] e.o = "div" -> MI(247, 6, e.w, a, <<>>)
    [] e.o = "idiv" -> MI(247, 7, e.w, a, <<>>)
    [] e.o = "push" -> InsL(<<>>, 0, <<255>>, 6, a, <<>>, FALSE) \cup (IF a[1] = "r" THEN Plus(<<>>, 0, 80, a[2], <<>>, FALSE) ELSE {})
    [] OTHER -> InsL(<<>>, 0, <<143>>, 0, a, <<>>, FALSE) \cup (IF a[1] = "r" THEN Plus(<<>>, 0, 88, a[2], <<>>, FALSE) ELSE {})

RelTo(op, t) == {op \o LE(t - Len(op) - 4, 4)}
                \cup (IF op \in {<<233>>} /\ S8(t - 2) THEN {<<235>> \o LE(t - 2, 1)} ELSE {})
                \cup (IF Len(op) = 2 /\ S8(t - 2) THEN {<<op[2] - 16>> \o LE(t - 2, 1)} ELSE {})

Encodings(mn, ops) ==
  LET e == Tab[mn]
      a == ops[1]
      b == ops[2]
  IN
  CASE e.c = "alu" -> ArithEnc(e, a, b)
    [] e.c = "mov" -> MovEnc(e, a, b)
    [] e.c = "movx" ->
         CASE e.o = "movsx32" -> InsL(<<>>, 1, <<99>>, a[2], b, <<>>, FALSE)
           [] e.o = "movzx8" -> InsL(<<>>, 1, <<15, 182>>, a[2], b, <<>>, FALSE) \cup InsL(<<>>, 0, <<15, 182>>, a[2], b, <<>>, LowByte(b))
           [] e.o = "movzx16" -> InsL(<<>>, 1, <<15, 183>>, a[2], b, <<>>, FALSE) \cup InsL(<<>>, 0, <<15, 183>>, a[2], b, <<>>, FALSE)
           [] e.o = "movsx8" -> InsL(<<>>, 1, <<15, 190>>, a[2], b, <<>>, FALSE)
           [] OTHER -> InsL(<<>>, 1, <<15, 191>>, a[2], b, <<>>, FALSE)
    [] e.c = "xchg" -> (IF b[1] = "r" THEN MR(134, 64, a, b) ELSE {}) \cup (IF a[1] = "r" THEN MR(134, 64, b, a) ELSE {})
                       \cup (IF a = R(0) /\ b[1] = "r" THEN Plus(<<>>, 1, 144, b[2], <<>>, FALSE) ELSE {})
    [] e.c = "un" -> UnEnc(e, a)
    [] e.c = "lea" -> InsL(<<>>, 1, <<141>>, a[2], b, <<>>, FALSE)
    [] e.c = "rrm" -> IF e.o = "imul" THEN InsL(<<>>, 1, <<15, 175>>, a[2], b, <<>>, FALSE)
                      ELSE InsL(<<243>>, W(e.w), <<15, CASE e.o = "popcnt" -> 184 [] e.o = "tzcnt" -> 188 [] OTHER -> 189>>, a[2], b, <<>>, FALSE)
    [] e.c = "test" ->
         IF IsImm(b)
         THEN LET v == ImmVal(b)
                  n == FullImm(e.w)
              IN IF ~FitsS(v, n) THEN {}
                 ELSE MI(IF e.w = 8 THEN 246 ELSE 247, 0, e.w, a, ImmBytes(v, n))
                      \cup (IF a = R(0) THEN {(IF e.w = 64 THEN <<72>> ELSE <<>>) \o <<IF e.w = 8 THEN 168 ELSE 169>> \o ImmBytes(v, n)} ELSE {})
         ELSE MR(132, e.w, a, b)
    [] e.c = "shift" ->
         IF IsImm(b)
         THEN MI(193, ShiftNo(e.o), e.w, a, ImmBytes(ImmVal(b), 1))
              \cup (IF ImmVal(b) = LE(1, 8) THEN MI(209, ShiftNo(e.o), e.w, a, <<>>) ELSE {})
         ELSE MI(211, ShiftNo(e.o), e.w, a, <<>>)
    [] e.c = "set" -> InsL(<<>>, 0, <<15, 144 + e.cc>>, 0, a, <<>>, LowByte(a))
    [] e.c = "cmov" -> InsL(P66(e.w), W(e.w), <<15, 64 + e.cc>>, a[2], b, <<>>, FALSE)
    [] e.c = "jcc" -> RelTo(<<15, 128 + e.cc>>, a[2])
    [] e.c = "sse" -> InsL(Pre(SseOpc(e.o)[1]), 0, <<15, SseOpc(e.o)[2]>>, a[2], b, <<>>, FALSE)
    [] e.c = "movsd" -> (IF a[1] = "x" THEN InsL(<<242>>, 0, <<15, 16>>, a[2], b, <<>>, FALSE) ELSE {})
                        \cup (IF b[1] = "x" THEN InsL(<<242>>, 0, <<15, 17>>, b[2], a, <<>>, FALSE) ELSE {})
    [] e.c = "round" -> InsL(<<102>>, 0, <<15, 58, 9>>, a[2], b, ImmBytes(ImmVal(ops[3]), 1), FALSE)
    [] e.c = "cvtix" -> InsL(<<242>>, 1, <<15, 42>>, a[2], b, <<>>, FALSE)
    [] e.c = "cvtxi" -> InsL(<<242>>, 1, <<15, 44>>, a[2], b, <<>>, FALSE)
    [] e.c = "call" -> IF a[1] = "l" THEN RelTo(<<232>>, a[2])
                       ELSE IF a[1] = "d" THEN {<<232>> \o LE(a[2], 4)}
                       ELSE InsL(<<>>, 0, <<255>>, 2, a, <<>>, FALSE)
    [] e.c = "jmp" -> IF a[1] = "l" THEN RelTo(<<233>>, a[2]) ELSE InsL(<<>>, 0, <<255>>, 4, a, <<>>, FALSE)
    [] OTHER -> CASE e.o = "cdq" -> {IF e.w = 64 THEN <<72, 153>> ELSE <<153>>}
                  [] e.o = "int3" -> {<<204>>} [] e.o = "ret" -> {<<195>>} [] e.o = "leave" -> {<<201>>}
                  [] OTHER -> {<<15, 5>>}
=============================================================================
