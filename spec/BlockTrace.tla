----------------------------- MODULE BlockTrace -----------------------------
(* Conformance: every recorded block reads as its items.  One behaviour      *)
(* step reads one item.  A trace line is                                     *)
(*   {"its": items, "bytes": code, "same": 1}                                *)
(* same: the block was assembled in another assembler with its statements    *)
(* grouped differently into macro calls and gave the same bytes.             *)
EXTENDS Block, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
W == 16

VARIABLES l, k, pos
vars == <<l, k, pos>>
Init == l \in 1..(IF N < W THEN N ELSE W) /\ k = 0 /\ pos = 0

It == Trace[l].its
Bs == Trace[l].bytes
Adv == IF k < Len(It) THEN LenAt(It[k + 1], Bs, pos) ELSE -1
Advances == k < Len(It) /\ Adv >= 0 /\ pos + Adv <= Len(Bs)
Next == IF Advances THEN k' = k + 1 /\ pos' = pos + Adv /\ l' = l
        ELSE l + W <= N /\ l' = l + W /\ k' = 0 /\ pos' = 0
Spec == Init /\ [][Next]_vars

Conforms == /\ Advances \/ (k = Len(It) /\ pos = Len(Bs)) \/ PrintT(<<"BAD", l, k + 1>>)
            /\ k = 0 => (Trace[l].same = 1 \/ PrintT(<<"BAD", l, 0>>))
=============================================================================
