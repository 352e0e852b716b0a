-------------------------------- MODULE X86 --------------------------------
(* A decoder for the x86-64 instruction subset that monoasm targets, written *)
(* from the architecture manual and independent of monoasm's encoder.  It is *)
(* the oracle for "what do these bytes mean to the processor".               *)
(*                                                                           *)
(* An instruction is a triple <<op, width, operands>>; an operand is         *)
(*   <<"r", n>>            general register n (0..15), at the given width    *)
(*   <<"h", n>>            legacy high-byte register ah/ch/dh/bh             *)
(*   <<"x", n>>            xmm register n                                    *)
(*   <<"m", b, i, s, d>>   [b + i*s + d], b = 16 is rip, -1 is "none",       *)
(*                         d a 4-byte vector                                 *)
(*   <<"i", v>>            immediate, sign-extended to the operand width     *)
(*   <<"rel", v>>          pc-relative displacement (4-byte vector)          *)
(*   <<"c", n>>            condition code n                                  *)
(* Equivalent encodings decode to equal triples: this is what lets the       *)
(* specification accept any correct encoding rather than one byte pattern.   *)
EXTENDS Bytes, FiniteSets, TLC

At(bs, i) == IF i \in 1..Len(bs) THEN bs[i] ELSE 256
Slice(bs, i, n) == SubSeq(bs, i, i + n - 1)   \* callers bound i + n

R(n) == <<"r", n>>
X(n) == <<"x", n>>
I(v) == <<"i", v>>
Cc(n) == <<"c", n>>

\* [b + i*1 + d] and [i + b*1 + d] address the same byte.
Mem(b, i, s, d) ==
  IF i = -1 THEN <<"m", b, -1, 1, d>>
  ELSE IF s = 1 /\ b # -1 /\ b # 16 /\ i < b THEN <<"m", i, b, 1, d>>
  ELSE IF s = 1 /\ b = -1 THEN <<"m", i, -1, 1, d>>
  ELSE <<"m", b, i, s, d>>

GReg(n, w, rex) == IF w = 8 /\ ~rex /\ n \in 4..7 THEN <<"h", n - 4>> ELSE R(n)

Bad == [len |-> 0, ins |-> <<"bad", 0, <<>>>>]

-----------------------------------------------------------------------------
(* Prefixes. *)
RECURSIVE Legacy(_, _, _)
Legacy(bs, i, acc) ==
  IF At(bs, i) \in {102, 242, 243} /\ i < 8
  THEN Legacy(bs, i + 1, acc \cup {At(bs, i)})
  ELSE [i |-> i, set |-> acc]

(* ModRM, SIB and displacement; i is the index of the ModRM byte. *)
ModRM(bs, i, rr, rx, rb) ==
  LET b   == At(bs, i)
      md  == b \div 64
      reg == ((b \div 8) % 8) + 8 * rr
      rm  == b % 8
  IN IF b = 256 THEN [ok |-> FALSE]
     ELSE IF md = 3
     THEN [ok |-> TRUE, isreg |-> TRUE, reg |-> reg, dig |-> (b \div 8) % 8,
           n |-> rm + 8 * rb, nx |-> i + 1]
     ELSE
       LET sib    == At(bs, i + 1)
           hasSib == rm = 4
           sbase  == sib % 8
           noBase == hasSib /\ sbase = 5 /\ md = 0
           rip    == ~hasSib /\ rm = 5 /\ md = 0
           dl     == IF md = 1 THEN 1
                     ELSE IF md = 2 \/ noBase \/ rip THEN 4 ELSE 0
           di     == IF hasSib THEN i + 2 ELSE i + 1
           idx    == ((sib \div 8) % 8) + 8 * rx
           base   == IF rip THEN 16
                     ELSE IF noBase THEN -1
                     ELSE IF hasSib THEN sbase + 8 * rb
                     ELSE rm + 8 * rb
           index  == IF ~hasSib \/ idx = 4 THEN -1 ELSE idx
           scale  == CASE sib \div 64 = 0 -> 1 [] sib \div 64 = 1 -> 2
                       [] sib \div 64 = 2 -> 4 [] OTHER -> 8
       IN IF di + dl - 1 > Len(bs) THEN [ok |-> FALSE]
          ELSE [ok |-> TRUE, isreg |-> FALSE, reg |-> reg, dig |-> (b \div 8) % 8,
                m |-> Mem(base, index, scale, SExt(Slice(bs, di, dl), 4)),
                nx |-> di + dl]

RmG(mr, w, rex) == IF mr.isreg THEN GReg(mr.n, w, rex) ELSE mr.m
RmX(mr) == IF mr.isreg THEN X(mr.n) ELSE mr.m

AluName == <<"add", "or", "adc", "sbb", "and", "sub", "xor", "cmp">>
ShiftName == <<"rol", "ror", "rcl", "rcr", "shl", "shr", "shl", "sar">>

\* Canonical forms for operations with several equivalent spellings.
Lower(a, b) == \/ a[1] = "m" /\ b[1] # "m"
               \/ a[1] = b[1] /\ a[1] # "m" /\ a[2] <= b[2]
Sym(op, w, a, b) == IF Lower(a, b) THEN <<op, w, <<a, b>>>> ELSE <<op, w, <<b, a>>>>
Xchg(w, a, b) == IF w = 64 /\ a = b THEN <<"nop", 0, <<>>>> ELSE Sym("xchg", w, a, b)
Test(w, a, b) == IF b[1] = "i" THEN <<"test", w, <<a, b>>>> ELSE Sym("test", w, a, b)
\* A 32-bit register write zero-extends, so "mov r32, imm32" is a 64-bit move.
MovI(w, a, v) ==
  IF w = 32 /\ a[1] = "r" THEN <<"mov", 64, <<a, I(ZExt(v, 8))>>>>
  ELSE <<"mov", w, <<a, I(v)>>>>

(* Two-byte-opcode SSE arithmetic: prefix, opcode -> name. *)
SseName(p, op) ==
  CASE p = 242 /\ op = 81 -> "sqrtsd"
    [] p = 102 /\ op = 81 -> "sqrtpd"
    [] p = 242 /\ op = 88 -> "addsd"
    [] p = 242 /\ op = 89 -> "mulsd"
    [] p = 242 /\ op = 92 -> "subsd"
    [] p = 242 /\ op = 93 -> "minsd"
    [] p = 242 /\ op = 94 -> "divsd"
    [] p = 242 /\ op = 95 -> "maxsd"
    [] p = 102 /\ op = 84 -> "andpd"
    [] p = 0   /\ op = 84 -> "andps"
    [] p = 0   /\ op = 87 -> "xorps"
    [] p = 102 /\ op = 87 -> "xorpd"
    [] p = 102 /\ op = 46 -> "ucomisd"
    [] p = 0   /\ op = 46 -> "ucomiss"
    [] p = 102 /\ op = 47 -> "comisd"
    [] p = 102 /\ op = 88 -> "addpd"
    [] p = 102 /\ op = 89 -> "mulpd"
    [] p = 102 /\ op = 92 -> "subpd"
    [] p = 102 /\ op = 93 -> "minpd"
    [] p = 102 /\ op = 94 -> "divpd"
    [] p = 102 /\ op = 95 -> "maxpd"
    [] p = 243 /\ op = 81 -> "sqrtss"
    [] p = 243 /\ op = 88 -> "addss"
    [] p = 243 /\ op = 89 -> "mulss"
    [] p = 243 /\ op = 92 -> "subss"
    [] p = 243 /\ op = 93 -> "minss"
    [] p = 243 /\ op = 94 -> "divss"
    [] p = 243 /\ op = 95 -> "maxss"
    [] p = 0   /\ op = 81 -> "sqrtps"
    [] OTHER -> "none"

(* Opcode map 0F.  i: index of the byte after 0F. *)
Decode0F(bs, i, p, w, rex, rr, rx, rb) ==
  LET op == At(bs, i)
      mr == ModRM(bs, i + 1, rr, rx, rb)
      L(ins) == [len |-> mr.nx - 1, ins |-> ins]
  IN
  IF op = 5 THEN [len |-> i, ins |-> <<"syscall", 0, <<>>>>]
  ELSE IF op \in 128..143
  THEN IF i + 4 > Len(bs) THEN Bad
       ELSE [len |-> i + 4, ins |-> <<"jcc", 0, <<Cc(op - 128), <<"rel", Slice(bs, i + 1, 4)>>>>>>]
  ELSE IF op = 58
  THEN LET m3 == ModRM(bs, i + 2, rr, rx, rb)
       IN IF At(bs, i + 1) # 9 \/ p # 102 \/ ~m3.ok THEN Bad
          ELSE IF m3.nx > Len(bs) THEN Bad
          ELSE [len |-> m3.nx,
                ins |-> <<"roundpd", 0, <<X(m3.reg), RmX(m3), I(<<bs[m3.nx]>>)>>>>]
  ELSE IF ~mr.ok THEN Bad
  ELSE CASE op = 16 /\ p = 242 -> L(<<"movsd", 0, <<X(mr.reg), RmX(mr)>>>>)
         [] op = 17 /\ p = 242 -> L(<<"movsd", 0, <<RmX(mr), X(mr.reg)>>>>)
         [] op = 31 /\ p = 0 -> L(<<"nop", 0, <<>>>>)
         [] op = 42 /\ p = 242 -> L(<<"cvtsi2sd", IF w = 64 THEN 64 ELSE 32, <<X(mr.reg), RmG(mr, w, rex)>>>>)
         [] op = 44 /\ p = 242 -> L(<<"cvttsd2si", IF w = 64 THEN 64 ELSE 32, <<R(mr.reg), RmX(mr)>>>>)
         [] op = 45 /\ p = 242 -> L(<<"cvtsd2si", IF w = 64 THEN 64 ELSE 32, <<R(mr.reg), RmX(mr)>>>>)
         [] op \in {46, 47, 81, 84, 87, 88, 89, 92, 93, 94, 95} ->
              L(<<SseName(p, op), 0, <<X(mr.reg), RmX(mr)>>>>)
         [] op \in 64..79 /\ p \in {0, 102} -> L(<<"cmov", w, <<Cc(op - 64), R(mr.reg), RmG(mr, w, rex)>>>>)
         [] op = 110 /\ p = 102 ->
              IF w = 64 /\ ~mr.isreg THEN L(<<"movq", 0, <<X(mr.reg), mr.m>>>>)
              ELSE L(<<IF w = 64 THEN "movq" ELSE "movd", 0, <<X(mr.reg), RmG(mr, 64, rex)>>>>)
         [] op = 126 /\ p = 102 ->
              IF w = 64 /\ ~mr.isreg THEN L(<<"movq", 0, <<mr.m, X(mr.reg)>>>>)
              ELSE L(<<IF w = 64 THEN "movq" ELSE "movd", 0, <<RmG(mr, 64, rex), X(mr.reg)>>>>)
         [] op = 126 /\ p = 243 -> L(<<"movq", 0, <<X(mr.reg), RmX(mr)>>>>)
         [] op = 214 /\ p = 102 -> L(<<"movq", 0, <<RmX(mr), X(mr.reg)>>>>)
         [] op \in 144..159 -> L(<<"set", 8, <<Cc(op - 144), RmG(mr, 8, rex)>>>>)
         [] op = 175 -> L(<<"imul", w, <<R(mr.reg), RmG(mr, w, rex)>>>>)
         \* movzx to a 32-bit register zero-extends to 64.
         [] op = 182 -> L(<<"movzx8", IF w = 32 THEN 64 ELSE w, <<R(mr.reg), RmG(mr, 8, rex)>>>>)
         [] op = 183 -> L(<<"movzx16", IF w = 32 THEN 64 ELSE w, <<R(mr.reg), RmG(mr, 16, rex)>>>>)
         [] op = 190 -> L(<<"movsx8", w, <<R(mr.reg), RmG(mr, 8, rex)>>>>)
         [] op = 191 -> L(<<"movsx16", w, <<R(mr.reg), RmG(mr, 16, rex)>>>>)
         [] op = 184 /\ p = 243 -> L(<<"popcnt", w, <<R(mr.reg), RmG(mr, w, rex)>>>>)
         [] op = 188 -> L(<<IF p = 243 THEN "tzcnt" ELSE "bsf", w, <<R(mr.reg), RmG(mr, w, rex)>>>>)
         [] op = 189 -> L(<<IF p = 243 THEN "lzcnt" ELSE "bsr", w, <<R(mr.reg), RmG(mr, w, rex)>>>>)
         [] OTHER -> Bad

(* The instruction starting at bs[1]; len is the number of bytes it takes.   *)
Decode(bs) ==
  LET pf   == Legacy(bs, 1, {})
      i0   == pf.i
      b0   == At(bs, i0)
      rex  == b0 \in 64..79
      rw   == rex /\ b0 >= 72
      rr   == IF rex THEN (b0 \div 4) % 2 ELSE 0
      rx   == IF rex THEN (b0 \div 2) % 2 ELSE 0
      rb   == IF rex THEN b0 % 2 ELSE 0
      i    == IF rex THEN i0 + 1 ELSE i0
      op   == At(bs, i)
      p66  == 102 \in pf.set
      \* mandatory prefix: F2/F3 take precedence over 66
      p    == IF 243 \in pf.set THEN 243 ELSE IF 242 \in pf.set THEN 242
              ELSE IF p66 THEN 102 ELSE 0
      w    == IF rw THEN 64 ELSE IF p66 THEN 16 ELSE 32
      wb   == IF op % 2 = 0 THEN 8 ELSE w        \* opcodes whose bit 0 selects the size
      isz(x) == IF x = 8 THEN 1 ELSE IF x = 16 THEN 2 ELSE 4
      mr   == ModRM(bs, i + 1, rr, rx, rb)
      L(ins) == [len |-> mr.nx - 1, ins |-> ins]
      \* immediate of n bytes at index k, as a value of width x bits
      fits(k, n) == k + n - 1 <= Len(bs)
      imm(k, n, x) == SExt(Slice(bs, k, n), x \div 8)
      rep == 242 \in pf.set \/ 243 \in pf.set
  IN
  IF op = 256 \/ op \in {102, 242, 243} \cup (64..79) THEN Bad
  ELSE IF op = 15 THEN Decode0F(bs, i + 1, p, w, rex, rr, rx, rb)
  ELSE IF rep THEN Bad
  ELSE CASE op < 64 /\ op % 8 < 4 ->
       IF ~mr.ok THEN Bad
       ELSE LET nm == AluName[(op \div 8) + 1]
                g  == GReg(mr.reg, wb, rex)
                e  == RmG(mr, wb, rex)
            IN L(IF op % 8 < 2 THEN <<nm, wb, <<e, g>>>> ELSE <<nm, wb, <<g, e>>>>)
    [] op < 64 /\ op % 8 \in {4, 5} ->
       LET n == isz(wb)
       IN IF ~fits(i + 1, n) THEN Bad
          ELSE [len |-> i + n, ins |-> <<AluName[(op \div 8) + 1], wb, <<R(0), I(imm(i + 1, n, wb))>>>>]
    [] op \in 80..87 -> [len |-> i, ins |-> <<"push", IF p66 THEN 16 ELSE 64, <<R(op - 80 + 8 * rb)>>>>]
    [] op \in 88..95 -> [len |-> i, ins |-> <<"pop", IF p66 THEN 16 ELSE 64, <<R(op - 88 + 8 * rb)>>>>]
    [] op = 99 -> IF ~mr.ok THEN Bad ELSE L(<<"movsx32", w, <<R(mr.reg), RmG(mr, 32, rex)>>>>)
    [] op \in 112..127 ->
       IF ~fits(i + 1, 1) THEN Bad
       ELSE [len |-> i + 1, ins |-> <<"jcc", 0, <<Cc(op - 112), <<"rel", imm(i + 1, 1, 32)>>>>>>]
    [] op \in {128, 129, 131} ->
       IF ~mr.ok THEN Bad
       ELSE LET n == IF op = 131 THEN 1 ELSE isz(wb)
            IN IF ~fits(mr.nx, n) THEN Bad
               ELSE [len |-> mr.nx + n - 1,
                     ins |-> <<AluName[mr.dig + 1], wb, <<RmG(mr, wb, rex), I(imm(mr.nx, n, wb))>>>>]
    [] op \in {132, 133} -> IF ~mr.ok THEN Bad ELSE L(Test(wb, RmG(mr, wb, rex), GReg(mr.reg, wb, rex)))
    [] op \in {134, 135} -> IF ~mr.ok THEN Bad ELSE L(Xchg(wb, RmG(mr, wb, rex), GReg(mr.reg, wb, rex)))
    [] op \in {136, 137} -> IF ~mr.ok THEN Bad ELSE L(<<"mov", wb, <<RmG(mr, wb, rex), GReg(mr.reg, wb, rex)>>>>)
    [] op \in {138, 139} -> IF ~mr.ok THEN Bad ELSE L(<<"mov", wb, <<GReg(mr.reg, wb, rex), RmG(mr, wb, rex)>>>>)
    [] op = 141 -> IF ~mr.ok THEN Bad ELSE IF mr.isreg THEN Bad ELSE L(<<"lea", w, <<R(mr.reg), mr.m>>>>)
    [] op = 143 -> IF ~mr.ok THEN Bad ELSE IF mr.dig # 0 THEN Bad
                   ELSE L(<<"pop", IF p66 THEN 16 ELSE 64, <<RmG(mr, 64, rex)>>>>)
    [] op \in 144..151 -> [len |-> i, ins |-> IF op = 144 /\ rb = 0 THEN <<"nop", 0, <<>>>>
                                              ELSE Xchg(w, R(0), R(op - 144 + 8 * rb))]
    [] op = 152 -> [len |-> i, ins |-> <<"cbw", w, <<>>>>]
    [] op = 153 -> [len |-> i, ins |-> <<"cdq", w, <<>>>>]
    [] op \in {168, 169} ->
       LET n == isz(wb)
       IN IF ~fits(i + 1, n) THEN Bad
          ELSE [len |-> i + n, ins |-> Test(wb, R(0), I(imm(i + 1, n, wb)))]
    [] op \in 176..183 ->
       IF ~fits(i + 1, 1) THEN Bad
       ELSE [len |-> i + 1, ins |-> MovI(8, GReg(op - 176 + 8 * rb, 8, rex), imm(i + 1, 1, 8))]
    [] op \in 184..191 ->
       LET n == IF w = 64 THEN 8 ELSE isz(w)
       IN IF ~fits(i + 1, n) THEN Bad
          ELSE [len |-> i + n, ins |-> MovI(w, R(op - 184 + 8 * rb), imm(i + 1, n, w))]
    [] op \in {192, 193} ->
       IF ~mr.ok THEN Bad
       ELSE IF ~fits(mr.nx, 1) THEN Bad
       ELSE [len |-> mr.nx, ins |-> <<ShiftName[mr.dig + 1], wb, <<RmG(mr, wb, rex), I(<<bs[mr.nx]>>)>>>>]
    [] op \in {208, 209} ->
       IF ~mr.ok THEN Bad ELSE L(<<ShiftName[mr.dig + 1], wb, <<RmG(mr, wb, rex), I(<<1>>)>>>>)
    [] op \in {210, 211} ->
       IF ~mr.ok THEN Bad ELSE L(<<ShiftName[mr.dig + 1], wb, <<RmG(mr, wb, rex), R(1)>>>>)
    [] op = 195 -> [len |-> i, ins |-> <<"ret", 0, <<>>>>]
    [] op \in {198, 199} ->
       IF ~mr.ok THEN Bad
       ELSE LET n == isz(wb)
            IN IF mr.dig # 0 \/ ~fits(mr.nx, n) THEN Bad
               ELSE [len |-> mr.nx + n - 1, ins |-> MovI(wb, RmG(mr, wb, rex), imm(mr.nx, n, wb))]
    [] op = 201 -> [len |-> i, ins |-> <<"leave", 0, <<>>>>]
    [] op = 204 -> [len |-> i, ins |-> <<"int3", 0, <<>>>>]
    [] op \in {232, 233} ->
       IF ~fits(i + 1, 4) THEN Bad
       ELSE [len |-> i + 4, ins |-> <<IF op = 232 THEN "call" ELSE "jmp", 0, <<<<"rel", Slice(bs, i + 1, 4)>>>>>>]
    [] op = 235 ->
       IF ~fits(i + 1, 1) THEN Bad
       ELSE [len |-> i + 1, ins |-> <<"jmp", 0, <<<<"rel", imm(i + 1, 1, 32)>>>>>>]
    [] op \in {246, 247} ->
       IF ~mr.ok THEN Bad
       ELSE IF mr.dig \in {0, 1}
       THEN LET n == isz(wb)
            IN IF ~fits(mr.nx, n) THEN Bad
               ELSE [len |-> mr.nx + n - 1, ins |-> Test(wb, RmG(mr, wb, rex), I(imm(mr.nx, n, wb)))]
       ELSE L(<<(<<"not", "neg", "mul", "imul1", "div", "idiv">>)[mr.dig - 1], wb, <<RmG(mr, wb, rex)>>>>)
    [] op = 255 ->
       IF ~mr.ok THEN Bad
       ELSE CASE mr.dig = 2 -> L(<<"call", 0, <<RmG(mr, 64, rex)>>>>)
              [] mr.dig = 4 -> L(<<"jmp", 0, <<RmG(mr, 64, rex)>>>>)
              [] mr.dig = 6 -> L(<<"push", IF p66 THEN 16 ELSE 64, <<RmG(mr, 64, rex)>>>>)
              [] OTHER -> Bad
    [] OTHER -> Bad
=============================================================================
