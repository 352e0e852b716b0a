-------------------------------- MODULE Life --------------------------------
(* Lifetime of assemblers and of the code they produced: creation, moves,    *)
(* page selection, generating functions on either code page (plain ones and  *)
(* ones that use the data page), dropping the assembler, calling everything. *)
(*                                                                           *)
(* s.inst[i]  [alive, page]        instance i                                *)
(* s.fns[k]   [i, p, kind, n]      function k, made by instance i on page p; *)
(*            a "fn" returns n for ever, a "cnt" counts its calls in n       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Code == 0..1
PageSize == 268435456

Init0 == [inst |-> <<>>, fns |-> <<>>]

Alive(s) == {i \in 1..Len(s.inst) : s.inst[i].alive}
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Sorted(S \ {m})
Made(s, i, kind) == [i |-> i, p |-> s.inst[i].page, kind |-> kind, n |-> IF kind = "fn" THEN 1000 + Len(s.fns) ELSE 0]
\* m functions of alternating kinds from instance i
RECURSIVE Several(_, _, _)
Several(s, i, m) == IF m = 0 THEN s
                    ELSE LET t == Several(s, i, m - 1)
                         IN [t EXCEPT !.fns = Append(@, Made(t, i, IF m % 2 = 1 THEN "fn" ELSE "cnt"))]
RECURSIVE Everybody(_, _, _)
Everybody(s, is, m) == IF is = <<>> THEN s ELSE Everybody(Several(s, Head(is), m), Tail(is), m)
Apply(s, op) ==
  CASE op[1] = "new" -> [s EXCEPT !.inst = Append(@, [alive |-> TRUE, page |-> 0])]
    [] op[1] = "sel" -> [s EXCEPT !.inst[op[2]].page = op[3]]
    [] op[1] \in {"fn", "cnt"} ->
         [s EXCEPT !.fns = Append(@, Made(s, op[2], op[1]))]
    \* The same done on another thread, which ends afterwards.
    [] op[1] = "tnew" -> [s EXCEPT !.inst = Append(@, [alive |-> TRUE, page |-> 0])]
    [] op[1] = "tcnt" -> [s EXCEPT !.fns = Append(@, Made(s, op[2], "cnt"))]
    \* op[2] threads create an assembler each at the same time; all live assemblers generate op[2] functions each at the same
    \* time on threads of their own.  They share nothing, so no schedule can make a difference.
    [] op[1] = "pnew" -> [s EXCEPT !.inst = @ \o [k \in 1..op[2] |-> [alive |-> TRUE, page |-> 0]]]
    [] op[1] = "par" -> Everybody(s, Sorted(Alive(s)), op[2])
    [] op[1] \in {"drop", "tdrop"} -> [s EXCEPT !.inst[op[2]].alive = FALSE]
    \* "use": everything else the interface offers; "far": a gap of megabytes before what comes next
    [] OTHER -> s
\* Every function is called once after every operation.
Called(s) == [s EXCEPT !.fns = [k \in 1..Len(s.fns) |->
                                  IF s.fns[k].kind = "cnt" THEN [s.fns[k] EXCEPT !.n = @ + 1] ELSE s.fns[k]]]
Returns(s) == [k \in 1..Len(s.fns) |-> Called(s).fns[k].n]
\* The membership query of instance i about the address at `off` of instance j.
Member(i, j, off) == i = j /\ off >= 0 /\ off < 2 * PageSize
Perms == <<"rwx", "rwx", "rw-">>
=============================================================================
