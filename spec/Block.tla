------------------------------- MODULE Block -------------------------------
(* A block of statements is the code of its statements, one after the other. *)
(* An item of a block is                                                     *)
(*   <<"s", mn, ops>>   a statement; label operands hold the distance of the *)
(*                      label from the start of the block                    *)
(*   <<"b", off>>       a label binding; off is where the label turned out   *)
(*                      to be, counted from the start of the block           *)
(* Reading a block: k items are read, the next one is expected at offset pos. *)
EXTENDS Asm

FromHere(ops, pos) ==
  [i \in 1..Len(ops) |-> IF ops[i][1] \in {"ml", "l"} THEN <<ops[i][1], ops[i][2] - pos>> ELSE ops[i]]
Window(bytes, pos) == SubSeq(bytes, pos + 1, IF pos + 15 < Len(bytes) THEN pos + 15 ELSE Len(bytes))

\* Length of the code of item it at pos; -1 if something else is there.
LenAt(it, bytes, pos) ==
  CASE it[1] = "b" -> IF it[2] = pos THEN 0 ELSE -1
    [] Tab[it[2]].c = "dq" -> IF SubSeq(bytes, pos + 1, pos + 8) = ImmVal(it[3][1]) THEN 8 ELSE -1
    [] OTHER -> LET d == Decode(Window(bytes, pos))
                IN IF d.len >= 1 /\ d.ins = Expected(it[2], FromHere(it[3], pos), d.len) THEN d.len ELSE -1

RECURSIVE Reads(_, _, _, _)
\* items k.. are exactly what bytes hold from pos on
Reads(items, bytes, k, pos) ==
  IF k > Len(items) THEN pos = Len(bytes)
  ELSE LET n == LenAt(items[k], bytes, pos)
       IN n >= 0 /\ pos + n <= Len(bytes) /\ Reads(items, bytes, k + 1, pos + n)
=============================================================================
