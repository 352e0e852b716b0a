------------------------------ MODULE EncTrace ------------------------------
(* Conformance: every recorded assembly event must be one Asm allows.        *)
(* The trace is an NDJSON file, one group of events per line:                *)
(*   {"mn": mnemonic, "cs": [[operands, out], ...]}                          *)
(* An event may carry a third component: how often each operand expression   *)
(* of the statement was evaluated.                                           *)
(* A group is one state; the groups are walked in W independent chains so    *)
(* that TLC's workers share them.                                            *)
EXTENDS Asm, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
W == 16

VARIABLE l
Init == l \in 1..(IF N < W THEN N ELSE W)
Next == l + W <= N /\ l' = l + W
Spec == Init /\ [][Next]_l

EventOk(g, c) == /\ AsmOk(g.mn, c[1], c[2])
                 /\ Len(c) = 3 => EvaluationOk(c[2], c[3])
\* Reports instead of stopping, so one run lists every deviating event.
Conforms == \A k \in 1..Len(Trace[l].cs) :
              \/ EventOk(Trace[l], Trace[l].cs[k])
              \/ PrintT(<<"BAD", l, k>>)
=============================================================================
