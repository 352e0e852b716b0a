------------------------------- MODULE EncMC -------------------------------
(* The oracle of C01-C08 examined by itself.  One state per statement form   *)
(* and operand value of its first position; in every state, for all operand  *)
(* values of the other positions:                                            *)
(*   Encodable    a legal statement has an encoding                          *)
(*   Accepted      each encoding is accepted for its statement, and its       *)
(*                prefixes and extensions are not                            *)
(*   Discriminates  an encoding is accepted for another statement of the     *)
(*                same mnemonic only if both mean the same                   *)
EXTENDS Enc, IOUtils, SequencesExt

CONSTANTS Regs, Bases, Indices, Classes, Wide

Disps == {0, 1, -1, 128, -129} \cup IF Wide THEN {127, -128, 32768, 2147483647} ELSE {}
Mems == {<<"m", b, -1, 1, d>> : b \in Bases \cup {16}, d \in Disps}
        \cup {<<"m", b, i, s, d>> : b \in Bases, i \in Indices \ {4}, s \in {1, 2, 8}, d \in {x \in Disps : x \in {0, 1, 128}}}
        \cup {<<"ml", t>> : t \in {-1000, 0, 5, 200}}
Imms == {<<"n", k>> : k \in {0, 1, -1, 5, 127, 128, -128, -129, 255, 32767, -32768, 65535, 2147483647}}
        \cup {<<"i", v>> : v \in {<<0, 0, 0, 128, 0, 0, 0, 0>>, <<1, 2, 3, 4, 5, 6, 7, 8>>, <<255, 255, 255, 255, 0, 0, 0, 0>>}}
Dom(k) == CASE k \in {"r", "N"} -> {R(n) : n \in Regs}
            [] k = "x" -> {X(n) : n \in Regs}
            [] k = "m" -> Mems
            [] k \in {"i", "Q"} -> Imms
            [] k = "k" -> {R(1), R(3)}
            [] k = "l" -> {<<"l", t>> : t \in {-1000, -3, 0, 2, 129, 130, 5000}}
            [] k = "d" -> {<<"d", t>> : t \in {-1000, 0, 130, 2147483647}}
Others(sh) == CASE Len(sh) <= 1 -> {<<>>}
                [] Len(sh) = 2 -> {<<o>> : o \in Dom(sh[2])}
                [] OTHER -> {<<o, p>> : o \in Dom(sh[2]), p \in {<<"n", 0>>, <<"n", 9>>, <<"n", 255>>}}

\* One entry per (mnemonic, shape, first operand).
Firsts(sh) == IF sh = <<>> THEN {<<>>} ELSE {<<o>> : o \in Dom(sh[1])}
Jobs == SetToSeq(UNION {UNION {{<<e.mn, sh, f>> : f \in Firsts(sh)} : sh \in Shapes(e)} :
                        e \in {x \in Entries : x.c \in Classes /\ x.c # "dq"}})
N == Len(Jobs)
Chains == 64

VARIABLE l
Init == l \in 1..(IF N < Chains THEN N ELSE Chains)
Next == l + Chains <= N /\ l' = l + Chains
Spec == Init /\ [][Next]_l

Ops == {Jobs[l][3] \o r : r \in Others(Jobs[l][2])}
Mn == Jobs[l][1]

Encodable == \A ops \in Ops : Legal(Mn, ops) => Encodings(Mn, ops) # {}
Accepted == \A ops \in Ops : Legal(Mn, ops) =>
             \A bs \in Encodings(Mn, ops) :
               /\ AsmOk(Mn, ops, bs)
               /\ ~AsmOk(Mn, ops, Take(bs, Len(bs) - 1))
               /\ ~AsmOk(Mn, ops, bs \o <<144>>)
               /\ ~AsmOk(Mn, ops, Rejected)
\* The same address, or an operation whose operands may be exchanged.
Same(ops, q) ==
  \/ \A k \in 1..Len(ops) : Opnd(ops[k], 9) = Opnd(q[k], 9)
  \/ Tab[Mn].c \in {"xchg", "test"} /\ ops[1] = q[2] /\ ops[2] = q[1]
  \/ \A k \in 1..Len(ops) : \/ ops[k] = q[k]
                            \/ ops[k][1] = "ml" /\ q[k][1] = "m" /\ q[k][2] = 16
                            \/ q[k][1] = "ml" /\ ops[k][1] = "m" /\ ops[k][2] = 16
                            \/ IsImm(ops[k]) /\ IsImm(q[k]) /\ ~FitsS(ImmVal(q[k]), ImmMax(Tab[Mn], ops[1]))
\* Statements that differ from ops in one operand.
Neighbours(ops) ==
  LET sh == Jobs[l][2]
  IN UNION {{[ops EXCEPT ![k] = o] : o \in IF sh[k] = "m" THEN {m \in Mems : m[1] = "m" /\ m[5] = 0} ELSE Dom(sh[k])} : k \in 1..Len(ops)}
     \cup (IF Len(ops) = 2 /\ sh[1] = sh[2] THEN {<<ops[2], ops[1]>>} ELSE {})
Discriminates == \A ops \in Ops : (Legal(Mn, ops) /\ (ops = <<>> \/ Mn # "")) =>
  LET bs == CHOOSE x \in Encodings(Mn, ops) : TRUE
  IN \A q \in Neighbours(ops) : Same(ops, q) \/ ~AsmOk(Mn, q, bs)
=============================================================================
