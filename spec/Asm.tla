-------------------------------- MODULE Asm --------------------------------
(* The monoasm source language: which statements exist, which operands they  *)
(* take, and which machine instruction each one denotes.                     *)
(*                                                                           *)
(* A statement is a mnemonic and a sequence of operand values:               *)
(*   <<"r", n>>  <<"x", n>>         registers                                *)
(*   <<"m", b, i, s, d>>            [b + i*s + d]; i = -1: no index; d an    *)
(*                                  integer (or an 8-byte vector)            *)
(*   <<"ml", t>>                    [rip + label], label t bytes after the   *)
(*                                  first byte of the instruction            *)
(*   <<"mb", b, i>>                 a label displacement on a base that is   *)
(*                                  not rip, or subtracted: no such operand  *)
(*   <<"bad">>                      anything else the grammar does not have  *)
(*   <<"l", t>>                     label as jump/call destination           *)
(*   <<"n", k>>  <<"i", v>>         immediate, as an integer or as 8 bytes   *)
(*   <<"d", k>>  <<"D", v>>         explicit branch displacement             *)
EXTENDS X86

Sizes == {<<"q", 64>>, <<"l", 32>>, <<"w", 16>>, <<"b", 8>>}

E(mn, c, o, w, cc) == [mn |-> mn, c |-> c, o |-> o, w |-> w, cc |-> cc]

Conds == [o |-> 0, no |-> 1, b |-> 2, c |-> 2, nae |-> 2, ae |-> 3, nc |-> 3,
          eq |-> 4, e |-> 4, z |-> 4, ne |-> 5, nz |-> 5, be |-> 6, na |-> 6,
          a |-> 7, nbe |-> 7, s |-> 8, ns |-> 9, p |-> 10, pe |-> 10,
          np |-> 11, po |-> 11, lt |-> 12, l |-> 12, nge |-> 12, ge |-> 13,
          nl |-> 13, le |-> 14, ng |-> 14, gt |-> 15, g |-> 15, nle |-> 15]
\* jl and jg are not in the language (jlt and jgt are).
JConds == DOMAIN Conds \ {"l", "g"}

SdOps == {"addsd", "subsd", "mulsd", "divsd", "minsd", "maxsd", "xorps",
          "ucomisd", "andpd", "xorpd", "sqrtpd", "sqrtsd"}

Entries ==
       {E(o \o s[1], "alu", o, s[2], 0) :
          o \in {"add", "or", "adc", "sbb", "and", "sub", "xor", "cmp"}, s \in Sizes}
  \cup {E("mov" \o s[1], "mov", "mov", s[2], 0) : s \in Sizes}
  \cup {E("movsxl", "movx", "movsx32", 64, 0), E("movzxw", "movx", "movzx16", 64, 0),
        E("movsxw", "movx", "movsx16", 64, 0), E("movzxb", "movx", "movzx8", 64, 0),
        E("movsxb", "movx", "movsx8", 64, 0)}
  \cup {E("xchgq", "xchg", "xchg", 64, 0)}
  \cup {E("negq", "un", "neg", 64, 0),
        E("idiv", "un", "idiv", 64, 0), E("idivq", "un", "idiv", 64, 0),
        E("idivl", "un", "idiv", 32, 0), E("div", "un", "div", 64, 0),
        E("divq", "un", "div", 64, 0), E("divl", "un", "div", 32, 0)}
  \cup {E("imul", "rrm", "imul", 64, 0), E("lea", "lea", "lea", 64, 0)}
  \cup {E("testq", "test", "test", 64, 0), E("testb", "test", "test", 8, 0)}
  \cup {E(o[1] \o s[1], "shift", o[2], s[2], 0) :
          o \in {<<"shl", "shl">>, <<"shr", "shr">>, <<"sal", "shl">>, <<"sar", "sar">>,
                 <<"rol", "rol">>, <<"ror", "ror">>},
          s \in {<<"q", 64>>, <<"l", 32>>}}
  \cup {E(o \o s[1], "rrm", o, s[2], 0) :
          o \in {"lzcnt", "tzcnt", "popcnt"}, s \in {<<"q", 64>>, <<"l", 32>>}}
  \cup {E("set" \o a, "set", "set", 8, Conds[a]) : a \in DOMAIN Conds}
  \cup {E("cmov" \o a \o s[1], "cmov", "cmov", s[2], Conds[a]) :
          a \in DOMAIN Conds, s \in {<<"q", 64>>, <<"l", 32>>, <<"w", 16>>}}
  \cup {E("j" \o a, "jcc", "jcc", 0, Conds[a]) : a \in JConds}
  \cup {E("cqo", "bare", "cdq", 64, 0), E("cdq", "bare", "cdq", 32, 0),
        E("int3", "bare", "int3", 0, 0), E("ret", "bare", "ret", 0, 0),
        E("syscall", "bare", "syscall", 0, 0), E("leave", "bare", "leave", 0, 0)}
  \cup {E(o, "sse", o, 0, 0) : o \in SdOps}
  \cup {E("movsd", "movsd", "movsd", 0, 0), E("roundpd", "round", "roundpd", 0, 0),
        E("cvtsi2sdq", "cvtix", "cvtsi2sd", 64, 0), E("cvttsd2siq", "cvtxi", "cvttsd2si", 64, 0)}
  \cup {E("pushq", "un", "push", 64, 0), E("popq", "un", "pop", 64, 0)}
  \cup {E("call", "call", "call", 0, 0), E("jmp", "jmp", "jmp", 0, 0)}
  \cup {E("dq", "dq", "dq", 0, 0)}

Mnemonics == {e.mn : e \in Entries}
Tab == [m \in Mnemonics |-> CHOOSE e \in Entries : e.mn = m]

-----------------------------------------------------------------------------
(* Operand shapes.  r general register, x xmm, m memory, i immediate,        *)
(* k shift-count register (must be cl), Q "qword" immediate, N register      *)
(* given by name, l label, d explicit displacement, q 8 literal bytes.       *)
Shapes(e) ==
  CASE e.c = "alu" -> {<<"r", "r">>, <<"r", "m">>, <<"m", "r">>, <<"r", "i">>, <<"m", "i">>}
    [] e.c = "mov" -> {<<"r", "r">>, <<"r", "m">>, <<"m", "r">>, <<"r", "i">>, <<"m", "i">>}
                      \cup (IF e.w = 64
                            THEN {<<"x", "r">>, <<"r", "x">>, <<"x", "m">>, <<"m", "x">>,
                                  <<"x", "x">>, <<"r", "Q">>}
                            ELSE {})
    [] e.c \in {"movx", "rrm", "cmov"} -> {<<"r", "r">>, <<"r", "m">>}
    [] e.c = "xchg" -> {<<"r", "r">>, <<"m", "r">>, <<"r", "m">>}
    [] e.c \in {"un", "set"} -> {<<"r">>, <<"m">>}
    [] e.c = "lea" -> {<<"r", "m">>}
    [] e.c = "test" -> {<<"r", "r">>, <<"m", "r">>, <<"r", "i">>, <<"m", "i">>}
    [] e.c = "shift" -> {<<"r", "i">>, <<"m", "i">>, <<"r", "k">>, <<"m", "k">>}
    [] e.c = "sse" -> {<<"x", "x">>, <<"x", "m">>}
    [] e.c = "movsd" -> {<<"x", "x">>, <<"x", "m">>, <<"m", "x">>}
    [] e.c = "round" -> {<<"x", "x", "i">>, <<"x", "m", "i">>}
    [] e.c = "cvtix" -> {<<"x", "r">>, <<"x", "m">>}
    [] e.c = "cvtxi" -> {<<"r", "x">>, <<"r", "m">>}
    [] e.c = "call" -> {<<"N">>, <<"m">>, <<"l">>, <<"d">>}
    [] e.c = "jmp" -> {<<"N">>, <<"m">>, <<"l">>}
    [] e.c = "jcc" -> {<<"l">>}
    [] e.c = "dq" -> {<<"q">>}
    [] OTHER -> {<<>>}

-----------------------------------------------------------------------------
(* Immediate values.  v is the 64-bit value the program wrote. *)
ImmVal(o) == IF o[1] \in {"n", "d"} THEN LE(o[2], 8) ELSE o[2]
\* The immediate as a w-bit value, if the written value is a w-bit value at
\* all (signed or unsigned reading); otherwise something nothing decodes to.
ImmAt(v, w) ==
  LET n == w \div 8
  IN IF n = 8 \/ FitsS(v, n) \/ FitsU(v, n) THEN I(Take(v, n)) ELSE <<"unencodable", v>>

\* Operand as the processor sees it; len is the instruction's length.
Opnd(o, len) ==
  CASE o[1] = "m" -> Mem(o[2], o[3], o[4], LE(o[5], 4))
    [] o[1] = "mq" -> Mem(o[2], o[3], o[4], IF FitsS(o[5], 4) THEN Take(o[5], 4) ELSE o[5])
    [] o[1] = "ml" -> <<"m", 16, -1, 1, LE(o[2] - len, 4)>>
    [] OTHER -> o

IsImm(o) == o[1] \in {"n", "i"}

(* The instruction a statement denotes. *)
Expected(mn, ops, len) ==
  LET e == Tab[mn]
      a == Opnd(ops[1], len)
      b == Opnd(ops[2], len)
  IN
  CASE e.c = "alu" ->
         <<e.o, e.w, <<a, IF IsImm(ops[2]) THEN ImmAt(ImmVal(ops[2]), e.w) ELSE b>>>>
    [] e.c = "mov" ->
         IF a[1] = "x" \/ b[1] = "x" THEN <<"movq", 0, <<a, b>>>>
         ELSE IF ~IsImm(ops[2]) THEN <<"mov", e.w, <<a, b>>>>
         ELSE LET v == ImmAt(ImmVal(ops[2]), e.w)
              IN IF v[1] = "i" THEN MovI(e.w, a, v[2]) ELSE <<"mov", e.w, <<a, v>>>>
    [] e.c \in {"movx", "rrm", "lea", "cvtix", "cvtxi"} -> <<e.o, e.w, <<a, b>>>>
    [] e.c = "cmov" -> <<"cmov", e.w, <<Cc(e.cc), a, b>>>>
    [] e.c = "xchg" -> Xchg(64, a, b)
    [] e.c = "un" -> <<e.o, e.w, <<a>>>>
    [] e.c = "set" -> <<"set", 8, <<Cc(e.cc), a>>>>
    [] e.c = "test" -> IF IsImm(ops[2]) THEN <<"test", e.w, <<a, ImmAt(ImmVal(ops[2]), e.w)>>>>
                       ELSE Test(e.w, a, b)
    [] e.c = "shift" -> <<e.o, e.w, <<a, IF IsImm(ops[2]) THEN ImmAt(ImmVal(ops[2]), 8) ELSE b>>>>
    [] e.c \in {"sse", "movsd"} -> <<e.o, 0, <<a, b>>>>
    [] e.c = "round" -> <<"roundpd", 0, <<a, b, ImmAt(ImmVal(ops[3]), 8)>>>>
    [] e.c \in {"call", "jmp"} ->
         IF ops[1][1] = "l" THEN <<e.o, 0, <<<<"rel", LE(ops[1][2] - len, 4)>>>>>>
         ELSE IF ops[1][1] \in {"d", "D"}
         THEN LET v == ImmVal(ops[1]) IN <<e.o, 0, <<<<"rel", IF FitsS(v, 4) THEN Take(v, 4) ELSE v>>>>>>
         ELSE <<e.o, 0, <<a>>>>
    [] e.c = "jcc" -> <<"jcc", 0, <<Cc(e.cc), <<"rel", LE(ops[1][2] - len, 4)>>>>>>
    [] OTHER -> <<e.o, e.w, <<>>>>

-----------------------------------------------------------------------------
(* Legal operand values: a statement all of whose operands are legal must be *)
(* accepted; one that is accepted must mean what it says (Expected).  The    *)
(* two together force rejection of everything that has no encoding.          *)
LegalMem(o) == /\ o[2] \in 0..16
               /\ (o[2] = 16 => o[3] = -1)
               /\ o[3] \in (-1..15) \ {4}
               /\ o[4] \in {1, 2, 4, 8}
Kind(o) == CASE o[1] \in {"m", "mq", "ml"} -> "m" [] o[1] \in {"n", "i"} -> "i"
             [] o[1] \in {"d", "D"} -> "d" [] OTHER -> o[1]
ShapeKind(k) == CASE k \in {"k", "N"} -> "r" [] k \in {"Q", "q"} -> "i" [] OTHER -> k
LegalShape(e, ops) == \E sh \in Shapes(e) :
  Len(sh) = Len(ops) /\ \A k \in 1..Len(ops) : Kind(ops[k]) = ShapeKind(sh[k])
LegalOpnd(o) ==
  CASE o[1] \in {"r", "x"} -> o[2] \in 0..15
    [] o[1] = "m" -> LegalMem(o)
    [] o[1] = "mq" -> LegalMem(o) /\ FitsS(o[5], 4)
    [] o[1] \in {"ml", "l", "d"} -> TRUE
    [] o[1] = "D" -> FitsS(o[2], 4)
    [] o[1] \in {"mb", "bad"} -> FALSE
    [] OTHER -> TRUE
\* Width in bytes of the widest encodable immediate, sign-extended.
ImmMax(e, dst) == IF e.c = "mov" /\ e.w = 64 /\ dst[1] = "r" THEN 8
                  ELSE IF e.w >= 32 THEN 4 ELSE e.w \div 8
LegalImm(e, ops) ==
  CASE e.c \in {"alu", "mov", "test"} /\ IsImm(ops[2]) -> FitsS(ImmVal(ops[2]), ImmMax(e, ops[1]))
    [] e.c = "shift" /\ IsImm(ops[2]) ->
         LET v == ImmVal(ops[2]) IN FitsU(v, 1) /\ v[1] < e.w
    [] e.c = "shift" -> ops[2] = R(1)
    [] e.c = "round" -> FitsU(ImmVal(ops[3]), 1)
    [] OTHER -> TRUE
Legal(mn, ops) == /\ LegalShape(Tab[mn], ops)
                  /\ \A k \in 1..Len(ops) : LegalOpnd(ops[k])
                  /\ LegalImm(Tab[mn], ops)

-----------------------------------------------------------------------------
(* Outcome of assembling one statement: out is the byte sequence emitted, or *)
(* <<-1>> if the statement was rejected (a panic or a compile error).        *)
Rejected == <<-1>>
Means(mn, ops, out) ==
  IF Tab[mn].c = "dq" THEN out = ImmVal(ops[1])
  ELSE LET d == Decode(out)
       IN d.len = Len(out) /\ d.ins = Expected(mn, ops, Len(out))
AsmOk(mn, ops, out) ==
  IF mn \notin Mnemonics THEN out = Rejected
  ELSE IF out = Rejected THEN ~Legal(mn, ops)
  ELSE /\ \A k \in 1..Len(ops) : ops[k][1] \notin {"mb", "bad"}
       /\ LegalShape(Tab[mn], ops)
       /\ Means(mn, ops, out)

(* Operand expressions belong to the caller: each is evaluated exactly once, *)
(* and at most once when the statement is rejected while being assembled.    *)
EvaluatedOnce(evals) == \A k \in 1..Len(evals) : evals[k] = 1
EvaluatedAtMostOnce(evals) == \A k \in 1..Len(evals) : evals[k] <= 1
EvaluationOk(out, evals) == IF out = Rejected THEN EvaluatedAtMostOnce(evals) ELSE EvaluatedOnce(evals)

-----------------------------------------------------------------------------
(* Corner values for conformance runs. *)
ZeroX(s) == ZExt(s, 8)
SignX(s) == SExt(s, 8)
MaxOf(n) == Fill(255, n - 1) \o <<127>>     \* 2^(8n-1) - 1
MinOf(n) == Fill(0, n - 1) \o <<128>>       \* 2^(8n-1)
One == LE(1, 8)
Around(v) == {v, Add(v, One), Sub(v, One)}
ImmCorners ==
  UNION {Around(LE(0, 8)), Around(LE(42, 8)), Around(LE(63, 8)), Around(LE(31, 8)),
         UNION {Around(ZeroX(MaxOf(n))) : n \in {1, 2, 4, 8}},
         UNION {Around(SignX(MinOf(n))) : n \in {1, 2, 4, 8}},
         UNION {Around(ZeroX(Fill(255, n))) : n \in {1, 2, 4}},
         {<<16, 50, 84, 118, 152, 186, 220, 254>>, <<120, 86, 52, 18, 0, 0, 0, 0>>,
          <<0, 0, 0, 0, 1, 0, 0, 0>>, <<5, 0, 0, 0, 1, 0, 0, 0>>,
          <<0, 1, 0, 0, 0, 0, 0, 0>>, <<3, 1, 0, 0, 0, 0, 0, 0>>}}
DispCorners ==
  {0, 1, -1, 2, 4, 5, 8, 16, 100, 126, 127, 128, 129, 130, -2, -8, -126, -127, -128, -129, -130,
   255, 256, 257, -255, -256, -257, 4095, 4096, 32767, 32768, -32768, -32769, 65535, 65536,
   8388607, 16777216, 305419896, -305419896, 2147483647, 2147483646, -2147483647, -2147483647 - 1}
=============================================================================
