------------------------------ MODULE ProgTrace ------------------------------
(* Conformance: every recorded run of a program must end in the state that   *)
(* the model reaches by executing its source text step by step.              *)
EXTENDS Prog, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)

VARIABLES ev, st, n
vars == <<ev, st, n>>

FlagRec(f) == [cf |-> f[1], pf |-> f[2], zf |-> f[3], sf |-> f[4], of |-> f[5]]
Regs(s) == [k \in 0..15 |-> s[k + 1]]
\* An item that holds the address of a label is given as <<"L", label>>.
Mem0(e) == [k \in 1..Len(e.m) |-> e.m[k]]
Abs8(e, m) == [i \in 1..Len(m) |->
                 IF \E a \in 1..Len(e.abs) : i > e.abs[a][1] /\ i <= e.abs[a][1] + 8
                 THEN LET a == CHOOSE a \in 1..Len(e.abs) : i > e.abs[a][1] /\ i <= e.abs[a][1] + 8
                      IN LabelAddr(e, e.abs[a][2])[i - e.abs[a][1]]
                 ELSE m[i]]
First(e) == [r |-> Regs(e.r), f |-> FlagRec(e.f), m |-> Abs8(e, Mem0(e)), wb |-> e.wb, x |-> Regs(e.x), pc |-> e.entry]

Ran(e) == e.out[1] = 0
Init == /\ ev \in 1..N
        /\ n = 0
        /\ st = IF Ran(Trace[ev]) THEN First(Trace[ev]) ELSE [pc |-> 0]
Next == /\ Ran(Trace[ev]) /\ st.pc > 0 /\ st.pc # Trace[ev].exit
        /\ n < 20000
        /\ st' = Step(Trace[ev], st)
        /\ n' = n + 1
        /\ UNCHANGED ev
Spec == Init /\ [][Next]_vars

\* A statement of the program was rejected, or the run crashed: not allowed,
\* the generated programs are legal and stay within their window.
EndOk(e) ==
  /\ st.r = Regs(e.out[2])
  /\ \A k \in Flags : st.f[k] \in {U, FlagRec(e.out[3])[k]}
  /\ st.m = [k \in 1..Len(e.out[4]) |-> e.out[4][k]]
  /\ st.x = Regs(e.out[5])
  /\ e.out[6] = 0
Deviates == PrintT(<<"BAD", ev, n>>)
Conforms ==
  LET e == Trace[ev]
  IN CASE ~Ran(e) -> Deviates
       [] st.pc = 0 \/ st.pc > Len(e.ins) -> Deviates
       [] st.pc = -1 -> PrintT(<<"UNDEF", ev, n>>)
       [] st.pc = e.exit -> PrintT(<<"END", ev, n>>) /\ (EndOk(e) \/ Deviates)
       [] OTHER -> TRUE
=============================================================================
