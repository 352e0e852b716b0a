-------------------------------- MODULE Prog --------------------------------
(* Whole programs: the machine of Cpu plus control transfer.                 *)
(*                                                                           *)
(* A program p is                                                            *)
(*   p.ins   the instructions in the order they were written, each           *)
(*           <<mnemonic, operands, address, address after it>>; addresses    *)
(*           are where the assembler put them (8-byte vectors)               *)
(*   p.lab   for each label the index of the instruction it was bound before *)
(*   p.exit  index of the instruction that ends the program                  *)
(* An operand <<"L", k>> is label k.  Memory is one vector: the scratch      *)
(* window, followed by the constants and data items (operands <<"s", off>>). *)
(*                                                                           *)
(* A machine state is a state of Cpu with a program counter pc, the index of *)
(* the next instruction; pc = 0 means the processor has left the program,    *)
(* and pc = -1 that the outcome depends on something undefined.              *)
EXTENDS Cpu

Addr(p, i) == p.ins[i][3]
After(p, i) == p.ins[i][4]
LabelAddr(p, k) == Addr(p, p.lab[k])
IsLabel(o) == o[1] = "L"

\* The instruction at an address.
InsAt(p, v) == IF \E i \in 1..Len(p.ins) : Addr(p, i) = v
            THEN CHOOSE i \in 1..Len(p.ins) : Addr(p, i) = v ELSE 0

Target(p, o, st) == IF IsLabel(o) THEN p.lab[o[2]] ELSE InsAt(p, Val(o, 8, st))

\* A signed quotient towards zero; operands are small.
TDiv(a, b) == LET q == Abs(a) \div Abs(b) IN IF (a < 0) # (b < 0) THEN -q ELSE q
SmallDiv(mn, o, st) ==
  LET n == Tab[mn].w \div 8
      a == SVal(Take(st.r[0], 4))
      d == SVal(Take(Val(o, n, st), 4))
      q == TDiv(a, d)
  IN Fl(Undef, Put(<<"r", 2>>, LE(a - q * d, n), Put(<<"r", 0>>, LE(q, n), st)))

Reads(mn) == CASE Tab[mn].c \in {"jcc", "set", "cmov"} -> TRUE
               [] Tab[mn].o \in {"adc", "sbb"} -> TRUE
               [] OTHER -> FALSE
Known(mn, st) == CASE Tab[mn].c \in {"jcc", "set", "cmov"} -> Cond(Tab[mn].cc, st.f) # U
                   [] Tab[mn].o \in {"adc", "sbb"} -> st.f.cf # U
                   [] OTHER -> TRUE

Step(p, st) ==
  LET i == st.pc
      mn == p.ins[i][1]
      ops == p.ins[i][2]
      e == Tab[mn]
      go(k, s) == [s EXCEPT !.pc = k]
  IN CASE ~Known(mn, st) -> go(-1, st)
       [] e.c = "jmp" -> go(Target(p, ops[1], st), st)
       [] e.c = "jcc" -> go(IF Cond(e.cc, st.f) = 1 THEN p.lab[ops[1][2]] ELSE i + 1, st)
       [] e.c = "call" -> go(Target(p, ops[1], st), Push(After(p, i), st))
       [] e.o = "ret" ->
            LET v == MemGet(st, OffOf(st.r[Rsp], st), 8)
            IN go(InsAt(p, v), [st EXCEPT !.r[Rsp] = Add(@, LE(8, 8))])
       [] e.c = "lea" /\ IsLabel(ops[2]) -> go(i + 1, Put(ops[1], LabelAddr(p, ops[2][2]), st))
       [] e.o \in {"div", "idiv"} -> go(i + 1, SmallDiv(mn, ops[1], st))
       [] OTHER -> go(i + 1, Exec(mn, ops, st))
=============================================================================
