-------------------------------- MODULE Jit --------------------------------
(* The assembler object: two code pages and a data page with their cursors,  *)
(* labels, pending references, constant and data pools, finalization rounds, *)
(* reported code blocks and jump patches.                                    *)
(*                                                                           *)
(* The state is a record s and every operation a function of it, so that the *)
(* same definitions serve exhaustive exploration (JitMC), generation of      *)
(* operation scripts (JitGen) and judging recorded runs (JitTrace).          *)
(*                                                                           *)
(* An address is p * PageSize + pos: the offset from the start of page 0.    *)
(* Labels are numbered from 1 in order of creation.                          *)
EXTENDS Asm, SequencesExt

CONSTANT PageSize

Pages == 0..2
Code == 0..1
Data == 2

Addr(p, pos) == p * PageSize + pos
PageOf(a) == a \div PageSize

Unbound == -1

Init0 ==
  [page |-> 0,
   cur |-> [p \in Pages |-> 0],
   mem |-> <<>>,                      \* address :> byte; absent: never written
   lab |-> <<>>,                      \* label -> address or Unbound
   refs |-> {},                       \* references not yet completed
   done |-> {},                       \* completed references, with their target
   cons |-> [p \in Code |-> <<>>],    \* declared, not yet placed
   dat |-> [p \in Code |-> <<>>],
   top |-> [p \in Pages |-> 0],       \* where the open block starts
   blocks |-> [p \in Pages |-> <<>>],
   fin |-> 0,                         \* completed finalizations
   pan |-> <<>>,                      \* cursors when an operation was first refused
   bust |-> FALSE]                    \* a finalization was refused: its items may be lost

Here(s) == Addr(s.page, s.cur[s.page])

\* Memory nothing was emitted to is zero, or (a run marked by the cell -1) holds
\* arbitrary bytes at the start of each page.
Used == 1536
Blank(mem, a) == IF -1 \in DOMAIN mem /\ (a % PageSize) < Used THEN ((a % PageSize) % 251) + 1 ELSE 0
Peek(mem, a) == IF a \in DOMAIN mem THEN mem[a] ELSE Blank(mem, a)
Read(mem, a, n) == [k \in 1..n |-> Peek(mem, a + k - 1)]
\* The bytes bs at address a, as a memory fragment.
Frag(a, bs) == [x \in a..(a + Len(bs) - 1) |-> bs[x - a + 1]]
RECURSIVE Join(_)
Join(fs) == IF fs = <<>> THEN <<>> ELSE Head(fs) @@ Join(Tail(fs))

AlignUp(c, n) == ((c + n - 1) \div n) * n

-----------------------------------------------------------------------------
(* Operations on the selected page (page 2 is never selected).               *)
Fits(s, p, n) == s.cur[p] + n <= PageSize
Store(s, p, bs) ==
  [s EXCEPT !.mem = Frag(Addr(p, s.cur[p]), bs) @@ @, !.cur[p] = @ + Len(bs)]
Emit(s, bs) == Store(s, s.page, bs)
\* One byte, given by its position.
Poke(s, p, pos, b) == [s EXCEPT !.mem = (Addr(p, pos) :> b) @@ @]
AlignOn(s, p, n) == [s EXCEPT !.cur[p] = AlignUp(@, n)]
Align(s, n) == AlignOn(s, s.page, n)
Select(s, p) == [s EXCEPT !.page = p]
NewLabel(s) == [s EXCEPT !.lab = Append(@, Unbound)]
BindAt(s, p, l) == [s EXCEPT !.lab[l] = Addr(p, s.cur[p])]
Bind(s, l) == BindAt(s, s.page, l)

(* References.                                                               *)
(*  "st"   a statement at [at, at+len) whose operand k is the label; mn and  *)
(*         ops are as in Asm, with 0 in place of the distance                *)
(*  "rel"  a raw 4-byte field at `at`, relative to at + off                  *)
(*  "abs"  an 8-byte absolute address at `at`                                *)
StRef(s, l, len, fld, mn, ops) ==
  [k |-> "st", l |-> l, at |-> Here(s), len |-> len, fld |-> fld, mn |-> mn, ops |-> ops]
RelRef(s, l, off) == [k |-> "rel", l |-> l, at |-> Here(s), off |-> off]
AddRef(s, r) == [s EXCEPT !.refs = @ \cup {r}]

\* Operands of a label statement when the label is t bytes after its start.
WithDistance(ops, t) ==
  [i \in 1..Len(ops) |-> IF ops[i][1] \in {"ml", "l"} THEN <<ops[i][1], t>> ELSE ops[i]]

\* Absolute address as 8 bytes, given the absolute address of page 0.
AbsBytes(base, a) == Add(base, LE(a, 8))

\* The memory at reference r is exactly a reference to address a.
RefOk(base, mem, r, a) ==
  CASE r.k = "st" -> AsmOk(r.mn, WithDistance(r.ops, a - r.at), Read(mem, r.at, r.len))
    [] r.k = "rel" -> Read(mem, r.at, 4) = LE(a - r.at - r.off, 4)
    [] r.k = "abs" -> Read(mem, r.at, 8) = AbsBytes(base, a)
\* The cells completing r may write.
RefCells(r) ==
  CASE r.k = "st" -> r.at..(r.at + r.len - 1)
    [] r.k = "rel" -> r.at..(r.at + 3)
    [] r.k = "abs" -> r.at..(r.at + 7)

-----------------------------------------------------------------------------
(* Constants and data: c is a declared item, l its label.                    *)
(*   <<"u64", bytes>> <<"u32", bytes>> <<"bytes", n>> <<"abs", label>> <<"al8">> *)
ItemAlign(c) == CASE c[1] \in {"u64", "bytes"} -> 16 [] c[1] = "u32" -> 4 [] OTHER -> 8
ItemSize(c) == CASE c[1] = "u64" -> 8 [] c[1] = "u32" -> 4 [] c[1] = "bytes" -> c[2]
                 [] c[1] = "abs" -> 8 [] OTHER -> 0
ItemBytes(c) == CASE c[1] \in {"u64", "u32"} -> c[2] [] OTHER -> Fill(0, ItemSize(c))

Declare(s, pool, c) ==
  LET n == NewLabel(s)
      it == [c |-> c, l |-> Len(n.lab)]
  IN IF pool = "cons" THEN [n EXCEPT !.cons[s.page] = Append(@, it)]
     ELSE [n EXCEPT !.dat[s.page] = Append(@, it)]

\* Places one item on page p.
Place(s, p, it) ==
  LET a == AlignOn(s, p, ItemAlign(it.c))
      b == BindAt(a, p, it.l)
      at == Addr(p, a.cur[p])
      c == IF it.c[1] = "abs"
           THEN [b EXCEPT !.refs = @ \cup {[k |-> "abs", l |-> it.c[2], at |-> at]}] ELSE b
  IN Store(c, p, ItemBytes(it.c))
RECURSIVE PlaceAll(_, _, _)
PlaceAll(s, p, its) == IF its = <<>> THEN s ELSE PlaceAll(Place(s, p, Head(its)), p, Tail(its))

Pools(s) ==
  LET a == PlaceAll(s, 0, s.cons[0])
      b == PlaceAll(a, 1, s.cons[1])
      d == PlaceAll(b, Data, s.dat[0] \o s.dat[1])
  IN [d EXCEPT !.cons = [p \in Code |-> <<>>], !.dat = [p \in Code |-> <<>>]]

\* Positions of the items a finalization will place: label :> [p, pos, item].
RECURSIVE Layout(_, _, _)
Layout(p, c, its) ==
  IF its = <<>> THEN <<>>
  ELSE LET it == Head(its)
           a == AlignUp(c, ItemAlign(it.c))
       IN (it.l :> [a |-> Addr(p, a), p |-> p, c |-> it.c])
          @@ Layout(p, a + ItemSize(it.c), Tail(its))
RECURSIVE PoolEnd(_, _)
PoolEnd(c, its) ==
  IF its = <<>> THEN c
  ELSE PoolEnd(AlignUp(c, ItemAlign(Head(its).c)) + ItemSize(Head(its).c), Tail(its))

Bound(s, l) == s.lab[l] # Unbound

\* The bytes with which the machine completes r (used when generating states;
\* recorded runs are judged by RefOk only).
Fixup(base, s, r) ==
  LET a == s.lab[r.l]
  IN CASE r.k = "st" -> Frag(r.at + r.fld, LE(a - (r.at + r.len), 4))
       [] r.k = "rel" -> Frag(r.at, LE(a - (r.at + r.off), 4))
       [] r.k = "abs" -> Frag(r.at, AbsBytes(base, a))

Finalize(base, s) ==
  LET q == Pools(s)
      ready == {r \in q.refs : Bound(q, r.l)}
      fix == Join(SetToSeq({Fixup(base, q, r) : r \in ready}))
  IN [q EXCEPT !.mem = fix @@ @,
               !.refs = @ \ ready,
               !.done = @ \cup {[r |-> r, a |-> q.lab[r.l]] : r \in ready},
               !.blocks = [p \in Pages |->
                 Append(@[p], <<s.top[p], s.cur[p], q.cur[p]>>)],
               !.top = q.cur,
               !.fin = @ + 1]

(* Patching the completed jump at address j. *)
JumpAt(s, j) == Read(s.mem, j, 5)[1] = 233
\* A jump may be patched once its own reference is completed (or it has none).
Patchable(s, j) == /\ JumpAt(s, j)
                   /\ \A r \in s.refs : RefCells(r) \cap (j..(j + 4)) = {}
JumpOk(mem, j, a) == AsmOk("jmp", <<<<"l", a - j>>>>, Read(mem, j, 5))
Patch(s, j, l) ==
  [s EXCEPT !.mem = Frag(j + 1, LE(s.lab[l] - (j + 5), 4)) @@ @,
            !.done = {d \in @ : d.r.at # j}
                     \cup {[r |-> [k |-> "st", l |-> l, at |-> j, len |-> 5, fld |-> 1,
                                   mn |-> "jmp", ops |-> <<<<"l", 0>>>>],
                            a |-> s.lab[l]]}]

-----------------------------------------------------------------------------
(* The properties, as predicates on reachable states and steps.              *)
\* C09: every completed reference refers to the address its label had.
RefsReach(base, s) ==
  /\ \A d \in s.done : RefOk(base, s.mem, d.r, d.a) /\ s.lab[d.r.l] = d.a
\* Everything left pending waits for an unbound label once a round is over.
PendingOnly(s, clean) == clean => \A r \in s.refs : ~Bound(s, r.l)
\* C14: the blocks of a page tile it from 0 and nest code before constants.
BlocksTile(s) ==
  \A p \in Pages :
    LET b == s.blocks[p]
    IN /\ Len(b) = s.fin
       /\ \A k \in 1..Len(b) : /\ b[k][1] <= b[k][2] /\ b[k][2] <= b[k][3]
                               /\ b[k][1] = IF k = 1 THEN 0 ELSE b[k - 1][3]
       /\ s.top[p] = IF b = <<>> THEN 0 ELSE b[Len(b)][3]
       /\ s.top[p] <= s.cur[p]
\* Nothing lies beyond its page's cursor.
Within(s) == \A a \in DOMAIN s.mem : a - Addr(PageOf(a), 0) < s.cur[PageOf(a)]
=============================================================================
