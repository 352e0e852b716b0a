----------------------------- MODULE JitExport -----------------------------
(* Exports the statement tables of JitOps, from which the driver is made.    *)
EXTENDS JitOps, Json, IOUtils
ASSUME TablesOk
ASSUME JsonSerialize(IOEnv.OPS_OUT,
         [label |-> [k \in 1..Len(LabelStmts) |-> LabelStmts[k].src],
          plain |-> [k \in 1..Len(PlainStmts) |-> PlainStmts[k].src]])
VARIABLE x
Init == x = 0
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
=============================================================================
