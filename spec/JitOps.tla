------------------------------- MODULE JitOps -------------------------------
(* Operation scripts for the assembler object.  An operation is a sequence   *)
(* whose first element names it; Apply gives its effect on the model.        *)
EXTENDS Jit

T(src, mn, ops, bytes, fld) == [src |-> src, mn |-> mn, ops |-> ops, bytes |-> bytes, fld |-> fld]
L0 == <<"l", 0>>
M0 == <<"ml", 0>>
Z == <<0, 0, 0, 0>>

(* Statements that mention a label, with one correct encoding each (the code *)
(* under test may choose another).  fld: offset of the 4-byte field.         *)
LabelStmts == <<
  T("jmp l", "jmp", <<L0>>, <<233>> \o Z, 1),
  T("call l", "call", <<L0>>, <<232>> \o Z, 1),
  T("jz l", "jz", <<L0>>, <<15, 132>> \o Z, 2),
  T("movb [rip + l], 7", "movb", <<M0, <<"n", 7>>>>, <<198, 5>> \o Z \o <<7>>, 2),
  T("movq rax, [rip + l]", "movq", <<R(0), M0>>, <<72, 139, 5>> \o Z, 3),
  T("lea r9, [rip + l]", "lea", <<R(9), M0>>, <<76, 141, 13>> \o Z, 3),
  T("movw [rip + l], 700", "movw", <<M0, <<"n", 700>>>>, <<102, 199, 5>> \o Z \o <<188, 2>>, 3),
  T("movl [rip + l], 70000", "movl", <<M0, <<"n", 70000>>>>, <<199, 5>> \o Z \o <<112, 17, 1, 0>>, 2),
  T("movq [rip + l], 70000", "movq", <<M0, <<"n", 70000>>>>, <<72, 199, 5>> \o Z \o <<112, 17, 1, 0>>, 3),
  T("addq [rip + l], 5", "addq", <<M0, <<"n", 5>>>>, <<72, 131, 5>> \o Z \o <<5>>, 3),
  T("addq [rip + l], 500", "addq", <<M0, <<"n", 500>>>>, <<72, 129, 5>> \o Z \o <<244, 1, 0, 0>>, 3),
  T("cmpw [rip + l], 5", "cmpw", <<M0, <<"n", 5>>>>, <<102, 131, 61>> \o Z \o <<5>>, 3),
  T("subw [rip + l], 500", "subw", <<M0, <<"n", 500>>>>, <<102, 129, 45>> \o Z \o <<244, 1>>, 3),
  T("xorb [rip + l], 5", "xorb", <<M0, <<"n", 5>>>>, <<128, 53>> \o Z \o <<5>>, 2),
  T("andl [rip + l], 500", "andl", <<M0, <<"n", 500>>>>, <<129, 37>> \o Z \o <<244, 1, 0, 0>>, 2),
  T("testb [rip + l], 5", "testb", <<M0, <<"n", 5>>>>, <<246, 5>> \o Z \o <<5>>, 2),
  T("testq [rip + l], 5", "testq", <<M0, <<"n", 5>>>>, <<72, 247, 5>> \o Z \o <<5, 0, 0, 0>>, 3),
  T("shlq [rip + l], 1", "shlq", <<M0, <<"n", 1>>>>, <<72, 209, 37>> \o Z, 3),
  T("sarl [rip + l], 9", "sarl", <<M0, <<"n", 9>>>>, <<193, 61>> \o Z \o <<9>>, 2),
  T("rolq [rip + l], rcx", "rolq", <<M0, R(1)>>, <<72, 211, 5>> \o Z, 3),
  T("roundpd xmm3, [rip + l], 1", "roundpd", <<X(3), M0, <<"n", 1>>>>, <<102, 15, 58, 9, 29>> \o Z \o <<1>>, 5),
  T("movsd xmm9, [rip + l]", "movsd", <<X(9), M0>>, <<242, 68, 15, 16, 13>> \o Z, 5),
  T("movsd [rip + l], xmm1", "movsd", <<M0, X(1)>>, <<242, 15, 17, 13>> \o Z, 4),
  T("movq [rip + l], xmm1", "movq", <<M0, X(1)>>, <<102, 15, 214, 13>> \o Z, 4),
  T("cvtsi2sdq xmm1, [rip + l]", "cvtsi2sdq", <<X(1), M0>>, <<242, 72, 15, 42, 13>> \o Z, 5),
  T("call [rip + l]", "call", <<M0>>, <<255, 21>> \o Z, 2),
  T("jmp [rip + l]", "jmp", <<M0>>, <<255, 37>> \o Z, 2),
  T("pushq [rip + l]", "pushq", <<M0>>, <<255, 53>> \o Z, 2),
  T("popq [rip + l]", "popq", <<M0>>, <<143, 5>> \o Z, 2),
  T("negq [rip + l]", "negq", <<M0>>, <<72, 247, 29>> \o Z, 3),
  T("setz [rip + l]", "setz", <<M0>>, <<15, 148, 5>> \o Z, 3),
  T("cmovew r10, [rip + l]", "cmovew", <<R(10), M0>>, <<102, 68, 15, 68, 21>> \o Z, 5),
  T("movzxb rdx, [rip + l]", "movzxb", <<R(2), M0>>, <<72, 15, 182, 21>> \o Z, 4),
  T("lzcntl rdx, [rip + l]", "lzcntl", <<R(2), M0>>, <<243, 15, 189, 21>> \o Z, 4),
  T("movb r14, [rip + l]", "movb", <<R(14), M0>>, <<68, 138, 53>> \o Z, 3),
  T("movb [rip + l], rsi", "movb", <<M0, R(6)>>, <<64, 136, 53>> \o Z, 3),
  T("xchgq [rip + l], rbx", "xchgq", <<M0, R(3)>>, <<72, 135, 29>> \o Z, 3),
  T("idivl [rip + l]", "idivl", <<M0>>, <<247, 61>> \o Z, 2),
  T("jns l", "jns", <<L0>>, <<15, 137>> \o Z, 2),
  T("jnle l", "jnle", <<L0>>, <<15, 143>> \o Z, 2)
>>

(* Plain statements, as filler between references. *)
PlainStmts == <<
  T("ret", "ret", <<>>, <<195>>, 0),
  T("movq rax, rcx", "movq", <<R(0), R(1)>>, <<72, 137, 200>>, 0),
  T("pushq r12", "pushq", <<R(12)>>, <<65, 84>>, 0),
  T("addl [rbp], 1000", "addl", <<<<"m", 5, -1, 1, 0>>, <<"n", 1000>>>>, <<129, 69, 0, 232, 3, 0, 0>>, 0),
  T("dq 81985529216486895", "dq", <<<<"i", <<239, 205, 171, 137, 103, 69, 35, 1>>>>>>,
    <<239, 205, 171, 137, 103, 69, 35, 1>>, 0),
  T("movq r15, (0x0123456789abcdefi64)", "movq", <<R(15), <<"i", <<239, 205, 171, 137, 103, 69, 35, 1>>>>>>,
    <<73, 191, 239, 205, 171, 137, 103, 69, 35, 1>>, 0)
>>

\* The table itself obeys the language specification.
TablesOk ==
  /\ \A k \in 1..Len(LabelStmts) :
       LET t == LabelStmts[k]
           d == 1000
           n == Len(t.bytes)
           bs == [i \in 1..n |-> IF i \in (t.fld + 1)..(t.fld + 4)
                                 THEN LE(d - n, 4)[i - t.fld] ELSE t.bytes[i]]
       IN AsmOk(t.mn, WithDistance(t.ops, d), bs)
  /\ \A k \in 1..Len(PlainStmts) : AsmOk(PlainStmts[k].mn, PlainStmts[k].ops, PlainStmts[k].bytes)

-----------------------------------------------------------------------------
(* Effect of one operation on the model.                                     *)
(*   <<"label">> <<"labels", n>> <<"bind", l>> <<"bindp", p, l>> <<"sel", p>> *)
(*   <<"emit", kind, bytes>> <<"pemit", p, kind, bytes>>                      *)
(*   <<"al", n>> <<"pal", p, n>>                                             *)
(*   <<"st", k, l>> <<"pl", k>> <<"raw", l, off>>                            *)
(*   <<"con", c>> <<"dat", c>> <<"fin">> <<"patch", j, l>> <<"patcha", j, l>> *)
(*   <<"poke", pos, byte>> <<"ppoke", p, pos, byte>> <<"peek", p, pos>>      *)
(*                                    (access by position)                   *)
RECURSIVE NewLabels(_, _)
NewLabels(s, n) == IF n = 0 THEN s ELSE NewLabels(NewLabel(s), n - 1)
Apply(base, s, op) ==
  CASE op[1] = "label" -> NewLabel(s)
    [] op[1] = "labels" -> NewLabels(s, op[2])
    [] op[1] = "bind" -> Bind(s, op[2])
    [] op[1] = "bindp" -> BindAt(s, op[2], op[3])
    [] op[1] = "sel" -> IF op[2] \in Code THEN Select(s, op[2]) ELSE s
    [] op[1] = "emit" -> Emit(s, op[3])
    [] op[1] = "pemit" -> Store(s, op[2], op[4])
    [] op[1] = "al" -> Align(s, op[2])
    [] op[1] = "pal" -> AlignOn(s, op[2], op[3])
    [] op[1] = "st" -> LET t == LabelStmts[op[2]]
                       IN Emit(AddRef(s, StRef(s, op[3], Len(t.bytes), t.fld, t.mn, t.ops)), t.bytes)
    [] op[1] = "pl" -> Emit(s, PlainStmts[op[2]].bytes)
    [] op[1] = "raw" -> Emit(AddRef(s, RelRef(s, op[2], op[3])), Z)
    [] op[1] = "poke" -> Poke(s, s.page, op[2], op[3])
    [] op[1] = "ppoke" -> Poke(s, op[2], op[3], op[4])
    [] op[1] = "con" -> Declare(s, "cons", op[2])
    [] op[1] = "dat" -> Declare(s, "dat", op[2])
    [] op[1] = "fin" -> Finalize(base, s)
    [] op[1] \in {"patch", "patcha"} ->
         IF Bound(s, op[2]) /\ Bound(s, op[3]) THEN Patch(s, s.lab[op[2]], op[3]) ELSE s
    [] OTHER -> s

(* Whether the pages have room for an operation; one without room is refused *)
(* (the real code panics) and changes nothing that was there before.         *)
Room(s, op) ==
  CASE op[1] = "emit" -> Fits(s, s.page, Len(op[3]))
    [] op[1] = "pemit" -> Fits(s, op[2], Len(op[4]))
    [] op[1] = "st" -> Fits(s, s.page, Len(LabelStmts[op[2]].bytes))
    [] op[1] = "pl" -> Fits(s, s.page, Len(PlainStmts[op[2]].bytes))
    [] op[1] = "raw" -> Fits(s, s.page, 4)
    [] op[1] = "poke" -> op[2] < PageSize
    [] op[1] \in {"ppoke", "peek"} -> op[3] < PageSize
    [] op[1] = "fin" -> /\ \A p \in Code : PoolEnd(s.cur[p], s.cons[p]) <= PageSize
                        /\ PoolEnd(s.cur[Data], s.dat[0] \o s.dat[1]) <= PageSize
    [] OTHER -> TRUE
Refuse(s) == IF s.pan = <<>> THEN [s EXCEPT !.pan = s.cur] ELSE s
Do(base, s, op) == IF Room(s, op) THEN Apply(base, s, op) ELSE Refuse(s)
=============================================================================
