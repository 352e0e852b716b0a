------------------------------ MODULE RefTrace ------------------------------
(* Conformance of label references in every statement form that can carry    *)
(* one: whatever the instruction otherwise is (that is C01-C06's matter),    *)
(* the address it mentions is the label's.  Same trace format as EncTrace.   *)
EXTENDS Asm, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
W == 16

VARIABLE l
Init == l \in 1..(IF N < W THEN N ELSE W)
Next == l + W <= N /\ l' = l + W
Spec == Init /\ [][Next]_l

Mentions(ins) == {k \in 1..Len(ins[3]) : ins[3][k][1] = "rel" \/ (ins[3][k][1] = "m" /\ ins[3][k][2] = 16)}
Targets(ins) == {<<ins[3][k][1], ins[3][k][Len(ins[3][k])]>> : k \in Mentions(ins)}
RefOk(mn, ops, out) ==
  IF out = Rejected THEN ~Legal(mn, ops)
  ELSE LET d == Decode(out)
       IN d.len = Len(out) => Targets(d.ins) = Targets(Expected(mn, ops, Len(out)))
Conforms == \A k \in 1..Len(Trace[l].cs) :
              \/ RefOk(Trace[l].mn, Trace[l].cs[k][1], Trace[l].cs[k][2])
              \/ PrintT(<<"BAD", l, k>>)
=============================================================================
