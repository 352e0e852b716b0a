------------------------------ MODULE JitTrace ------------------------------
(* Conformance of recorded runs of the assembler object.                     *)
(*                                                                           *)
(* The trace is NDJSON, one run per line: b (absolute address of page 0, 8   *)
(* bytes), d (memory did not start as zeros) and ev, the events.  An event records the operation o, whether it  *)
(* panicked (r), and what was observed afterwards: selected page g and its   *)
(* cursor c, changed memory cells ch (pairs address, byte), changed label    *)
(* addresses la (pairs label, address), changed block lists bl (page, number *)
(* of blocks, last block), and, where asked, cursors of the code pages cu,   *)
(* code slices sl (length, offset from the page start) and the code dump du  *)
(* (pairs position, byte); x lists disagreeing answers of the public API; y  *)
(* is 1 if reading by position disagrees with the memory.                    *)
(*                                                                           *)
(* Each property is judged on its own, against the observed past: a run that *)
(* breaks one property does not drag the others along.                       *)
EXTENDS JitOps, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
N == Len(Trace)
W == 16

VARIABLES l, i, s
vars == <<l, i, s>>

Ev == Trace[l].ev
Base == Trace[l].b

Start(k) == [NewLabels(Init0, 2) EXCEPT !.mem = IF Trace[k].d = 1 THEN (-1 :> 1) ELSE <<>>]
Init == l \in 1..(IF N < W THEN N ELSE W) /\ i = 0 /\ s = Start(l)

-----------------------------------------------------------------------------
RECURSIVE Fn(_)
Fn(ps) == IF ps = <<>> THEN <<>> ELSE (Head(ps)[1] :> Head(ps)[2]) @@ Fn(Tail(ps))
Pairs(ps) == LET D == {ps[k][1] : k \in 1..Len(ps)}
             IN [a \in D |-> ps[CHOOSE k \in 1..Len(ps) : ps[k][1] = a][2]]
\* The page and position of an access by position.
Poked(st, op) == IF op[1] = "poke" THEN <<st.page, op[2], op[3]>> ELSE <<op[2], op[3], op[4]>>
Pokes == {"poke", "ppoke"}
\* Labels created by the operation itself.
Created(op) == CASE op[1] = "labels" -> op[2] [] op[1] \in {"label", "con", "dat"} -> 1 [] OTHER -> 0
LabsAfter(st, e) ==
  LET n == Len(st.lab) + Created(e.o)
      m == Pairs(e.la)
  IN [k \in 1..n |-> IF k \in DOMAIN m THEN m[k] ELSE IF k <= Len(st.lab) THEN st.lab[k] ELSE Unbound]
MemAfter(st, e) == IF e.ch = <<>> THEN st.mem ELSE Fn(e.ch) @@ st.mem

Chg(e) == {e.ch[k][1] : k \in 1..Len(e.ch)}
NoMem(e) == e.ch = <<>>
NoLab(e) == e.la = <<>>
NoBlk(e) == e.bl = <<>>
Quiet(st, e) == NoMem(e) /\ NoLab(e) /\ NoBlk(e) /\ e.g = st.page /\ e.c = st.cur[st.page]

Items(st, p) == IF p = Data THEN st.dat[0] \o st.dat[1] ELSE st.cons[p]
LayoutAll(st) == Layout(0, st.cur[0], Items(st, 0)) @@ Layout(1, st.cur[1], Items(st, 1))
                 @@ Layout(Data, st.cur[Data], Items(st, Data))
\* References known at the end of a finalization: old ones and new absolute
\* addresses, at the address their own label really got.
AbsRefs(st, labs) ==
  {[k |-> "abs", l |-> it.c[2], at |-> labs[it.l]] :
     it \in {j \in UNION {{Items(st, p)[k] : k \in 1..Len(Items(st, p))} : p \in Pages} : j.c[1] = "abs"}}
\* Items of a refused finalization may or may not have been placed.
AllRefs(st, labs) == st.refs \cup (IF st.bust THEN {} ELSE AbsRefs(st, labs))

StmtOps == {"st", "pl"}

(* What the next state of the model is, given what was observed. *)
After(st, e) ==
  LET labs == LabsAfter(st, e)
      mem1 == MemAfter(st, e)
      t == [st EXCEPT !.lab = labs, !.mem = mem1, !.page = e.g, !.cur[e.g] = e.c]
      op == e.o
      here == Here(st)
  IN IF e.r = 1 THEN [t EXCEPT !.cur = (0 :> e.cu[1]) @@ (1 :> e.cu[2]) @@ @,
                               !.pan = IF @ = <<>> THEN st.cur ELSE @,
                               !.bust = @ \/ op[1] = "fin"]
     ELSE
     CASE op[1] = "st" ->
            [t EXCEPT !.refs = @ \cup {[k |-> "st", l |-> op[3], at |-> here, len |-> e.c - st.cur[st.page], fld |-> 0,
                                        mn |-> LabelStmts[op[2]].mn, ops |-> LabelStmts[op[2]].ops]}]
       [] op[1] = "raw" -> [t EXCEPT !.refs = @ \cup {[k |-> "rel", l |-> op[2], at |-> here, off |-> op[3]]}]
       [] op[1] = "pemit" /\ op[2] # e.g -> [t EXCEPT !.cur[op[2]] = @ + Len(op[4])]
       [] op[1] = "pal" /\ op[2] # e.g -> [t EXCEPT !.cur[op[2]] = AlignUp(@, op[3])]
       [] op[1] \in {"con", "dat"} ->
            LET it == [c |-> op[2], l |-> Len(labs)]
            IN IF op[1] = "con" THEN [t EXCEPT !.cons[st.page] = Append(@, it)]
               ELSE [t EXCEPT !.dat[st.page] = Append(@, it)]
       [] op[1] = "fin" ->
            LET ends == [p \in Pages |->
                           LET bs == SelectSeq(e.bl, LAMBDA b : b[1] = p)
                           IN IF p \in Code THEN e.cu[p + 1]
                              ELSE IF bs = <<>> THEN st.cur[p] ELSE bs[1][5]]
                btop == [p \in Pages |->
                           LET bs == SelectSeq(e.bl, LAMBDA b : b[1] = p)
                           IN IF bs = <<>> THEN st.top[p] ELSE bs[1][5]]
            IN [t EXCEPT !.cur = ends, !.top = btop, !.fin = @ + 1,
                         !.refs = {r \in AllRefs(st, labs) : labs[r.l] = Unbound},
                         !.cons = [p \in Code |-> <<>>], !.dat = [p \in Code |-> <<>>]]
       [] op[1] = "fill" -> t
       [] OTHER -> t

-----------------------------------------------------------------------------
(* C09 *)
C09(st, e) ==
  LET op == e.o labs == LabsAfter(st, e) mem1 == MemAfter(st, e)
  IN /\ e.x = <<>>
     /\ CASE op[1] \in {"bind", "bindp", "label", "labels", "st", "raw", "con", "dat", "fin"} -> e.r = 0
          [] OTHER -> TRUE
     \* binding gives the label this very address, and no other label moves
     /\ op[1] = "bind" => e.la = <<<<op[2], Here(st)>>>>
     /\ op[1] = "bindp" => e.la = <<<<op[3], Addr(op[2], st.cur[op[2]])>>>>
     /\ op[1] \notin {"bind", "bindp", "fin"} => NoLab(e)
     /\ op[1] = "fin" =>
          /\ \A k \in 1..Len(st.lab) : st.lab[k] # Unbound => labs[k] = st.lab[k]
          /\ \A r \in AllRefs(st, labs) :
               IF labs[r.l] # Unbound THEN RefOk(Base, mem1, r, labs[r.l])
               ELSE r \in st.refs => Chg(e) \cap RefCells(r) = {}

(* C10 *)
C10(st, e) ==
  LET op == e.o labs == LabsAfter(st, e) mem1 == MemAfter(st, e)
  IN /\ op[1] \in {"con", "dat"} => e.r = 0 /\ NoMem(e) /\ NoLab(e) /\ e.c = st.cur[st.page]
     /\ op[1] = "fin" =>
          LET lay == LayoutAll(st)
          IN /\ e.r = 0
             /\ \A k \in DOMAIN lay :
                  /\ labs[k] = lay[k].a
                  /\ lay[k].c[1] \in {"u64", "u32", "bytes"} =>
                       Read(mem1, lay[k].a, ItemSize(lay[k].c)) = ItemBytes(lay[k].c)
                  \* an address not known yet has no value
                  /\ (lay[k].c[1] = "abs" /\ labs[lay[k].c[2]] # Unbound) =>
                       Read(mem1, lay[k].a, 8) = AbsBytes(Base, labs[lay[k].c[2]])
             /\ \A p \in Code : e.cu[p + 1] = PoolEnd(st.cur[p], Items(st, p))

(* C11 *)
C11(st, e) ==
  LET op == e.o labs == LabsAfter(st, e)
      final == {a \in Chg(e) : PageOf(a) \in Pages /\ a < Addr(PageOf(a), st.top[PageOf(a)])}
      items(p) == Items(st, p)
      \* cells the placed items may fill, where the specification or their labels put them
      lay == LayoutAll(st)
      filled(a) == \E k \in DOMAIN lay :
                     LET n == ItemSize(lay[k].c)
                     IN (a >= lay[k].a /\ a < lay[k].a + n) \/ (a >= labs[k] /\ a < labs[k] + n)
      \* ... but never where something was already emitted
      fresh(a) == filled(a) /\ PageOf(a) \in Pages /\ a >= Addr(PageOf(a), st.cur[PageOf(a)])
      fixed == UNION {RefCells(r) : r \in {q \in AllRefs(st, labs) : labs[q.l] # Unbound}}
  IN /\ \A k \in 1..Len(st.lab) : st.lab[k] # Unbound => labs[k] = st.lab[k]
     /\ CASE op[1] = "fin" ->
               /\ e.r = 0
               /\ \A a \in Chg(e) : a \in fixed \/ fresh(a)
          [] op[1] \in {"patch", "patcha"} ->
               final \subseteq (st.lab[op[2]]..(st.lab[op[2]] + 4))
          [] op[1] \in Pokes -> final \subseteq {Addr(Poked(st, op)[1], Poked(st, op)[2])}
          [] OTHER -> final = {}

(* C12 *)
Span(a, n) == a..(a + n - 1)
C12(st, e) ==
  LET op == e.o
      p == st.page
      mem1 == MemAfter(st, e)
      stays == NoLab(e) /\ NoBlk(e) /\ e.g = p
      emitted(q, bs) ==
        /\ e.r = 0 /\ stays
        /\ Chg(e) \subseteq Span(Addr(q, st.cur[q]), Len(bs))
        /\ Read(mem1, Addr(q, st.cur[q]), Len(bs)) = bs
        /\ e.c = st.cur[p] + (IF q = p THEN Len(bs) ELSE 0)
      aligned(q, n) ==
        /\ e.r = 0 /\ stays /\ NoMem(e)
        /\ e.c = IF q = p THEN AlignUp(st.cur[p], n) ELSE st.cur[p]
  IN CASE op[1] = "emit" -> emitted(p, op[3])
       [] op[1] = "pemit" -> emitted(op[2], op[4])
       [] op[1] = "raw" -> emitted(p, Z)
       [] op[1] = "al" -> aligned(p, op[2])
       [] op[1] \in Pokes ->
            LET k == Poked(st, op) a == Addr(k[1], k[2])
            IN k[2] < PageSize => /\ e.r = 0 /\ e.y = 0 /\ stays /\ e.c = st.cur[p]
                                  /\ Chg(e) \subseteq {a} /\ Peek(mem1, a) = k[3]
       [] op[1] = "peek" -> (op[3] < PageSize => e.r = 0 /\ e.y = 0) /\ Quiet(st, e)
       [] op[1] = "pal" -> aligned(op[2], op[3])
       [] op[1] = "skip" -> e.r = 0 /\ stays /\ e.c = (st.cur[p] \div 4096 + op[2]) * 4096
                            /\ Chg(e) \subseteq Span(Addr(p, st.cur[p]), e.c - st.cur[p])
       [] op[1] = "sel" -> IF op[2] \in Code
                           THEN /\ e.r = 0 /\ NoMem(e) /\ NoLab(e) /\ NoBlk(e)
                                /\ e.g = op[2] /\ e.c = st.cur[op[2]]
                           ELSE Quiet(st, e)
       [] op[1] \in StmtOps -> /\ e.r = 0 /\ stays /\ e.c > st.cur[p]
                               /\ Chg(e) \subseteq Span(Addr(p, st.cur[p]), e.c - st.cur[p])
       [] op[1] \in {"label", "labels"} -> e.r = 0 /\ Quiet(st, e)
       [] op[1] = "bind" -> /\ e.r = 0 /\ NoMem(e) /\ NoBlk(e) /\ e.g = p /\ e.c = st.cur[p]
                            /\ e.la = <<<<op[2], Here(st)>>>>
       [] op[1] = "bindp" -> /\ e.r = 0 /\ NoMem(e) /\ NoBlk(e) /\ e.g = p /\ e.c = st.cur[p]
                             /\ e.la = <<<<op[3], Addr(op[2], st.cur[op[2]])>>>>
       [] op[1] \in {"con", "dat"} -> e.r = 0 /\ Quiet(st, e)
       [] op[1] \in {"patch", "patcha"} -> NoLab(e) /\ NoBlk(e) /\ e.g = p /\ e.c = st.cur[p]
       \* a finalization leaves the page selected and only moves a page's cursor if it has constants
       [] op[1] = "fin" -> e.r = 0 /\ e.g = p /\ \A q \in Code : Items(st, q) = <<>> => e.cu[q + 1] = st.cur[q]
       [] OTHER -> TRUE

(* C13 *)
C13(st, e) ==
  LET op == e.o mem1 == MemAfter(st, e)
  IN CASE op[1] \in {"patch", "patcha"} ->
            LET j == st.lab[op[2]]
            IN /\ e.r = 0 /\ NoLab(e) /\ NoBlk(e) /\ e.g = st.page /\ e.c = st.cur[st.page]
               /\ Chg(e) \subseteq (j + 1)..(j + 4)
               /\ JumpOk(mem1, j, st.lab[op[3]])
       \* patched jumps (kept in done) stay as they are
       [] op[1] \in Pokes -> TRUE
       [] OTHER -> \A d \in st.done : Chg(e) \cap (d.j..(d.j + 4)) = {}

(* C14 *)
DumpOk(mem1, p, from, to, du) ==
  /\ \A k \in 1..Len(du) : /\ du[k][1] >= 0 /\ du[k][1] < to - from
                           /\ Peek(mem1, Addr(p, from + du[k][1])) = du[k][2]
                           /\ k > 1 => du[k][1] > du[k - 1][1]
  \* the disassembler elides runs of zero bytes
  /\ LET listed == {du[k][1] : k \in 1..Len(du)}
     IN \A q \in 0..(to - from - 1) : q \in listed \/ Peek(mem1, Addr(p, from + q)) = 0
C14(st, e) ==
  LET op == e.o mem1 == MemAfter(st, e) labs == LabsAfter(st, e)
  IN IF op[1] # "fin" THEN NoBlk(e)
     ELSE /\ e.r = 0
          /\ \A p \in Pages : \E k \in 1..Len(e.bl) :
               LET b == e.bl[k]
               IN /\ b[1] = p /\ b[2] = st.fin + 1
                  /\ b[3] = st.top[p] /\ b[4] = st.cur[p]
                  /\ p \in Code => b[5] = e.cu[p + 1]
                  /\ p = Data => IF Items(st, Data) = <<>> THEN b[5] = b[4]
                                 ELSE LET it == Last(Items(st, Data))
                                      IN b[5] = labs[it.l] - Addr(Data, 0) + ItemSize(it.c)
          /\ Len(e.bl) = 3
          /\ e.sl = <<<<st.cur[0], 0>>, <<st.cur[1], 0>>>>
          /\ e.du # <<<<-2, 0>>>> => DumpOk(mem1, st.page, st.top[st.page], st.cur[st.page], e.du)

(* C15 *)
InPage(p, from) == Addr(p, from)..(Addr(p, PageSize) - 1)
C15(st, e) ==
  LET op == e.o
      p == st.page
      labs == LabsAfter(st, e)
      mem1 == MemAfter(st, e)
      first == st.pan = <<>>          \* nothing was refused so far
      emitted(q, n) ==
        IF st.cur[q] + n <= PageSize
        THEN /\ e.r = 0
             /\ Chg(e) \subseteq Span(Addr(q, st.cur[q]), n)
             /\ e.c = st.cur[p] + (IF q = p THEN n ELSE 0)
        ELSE /\ e.r = 1
             /\ Chg(e) \subseteq InPage(q, st.cur[q])
             /\ e.c \in st.cur[p]..(IF q = p THEN PageSize ELSE st.cur[p])
             /\ \A x \in Code : e.cu[x + 1] \in st.cur[x]..PageSize
      stmt ==
        IF e.r = 0
        THEN /\ e.c > st.cur[p] /\ e.c <= PageSize
             /\ Chg(e) \subseteq Span(Addr(p, st.cur[p]), e.c - st.cur[p])
        ELSE /\ st.cur[p] + 15 > PageSize      \* the longest instruction may not fit
             /\ Chg(e) \subseteq InPage(p, st.cur[p])
             /\ e.c \in st.cur[p]..PageSize
      \* what a finalization may write on page q
      mayFill(q) == InPage(q, IF first THEN st.cur[q] ELSE st.pan[q])
      mayFix == {a \in UNION {RefCells(r) : r \in st.refs} : PageOf(a) \in Pages}
  IN e.x = <<>> /\
     \* whatever was refused, a label stays where it was bound
     (op[1] \notin {"bind", "bindp"} => \A k \in 1..Len(st.lab) : st.lab[k] # Unbound => labs[k] = st.lab[k]) /\
     CASE op[1] = "emit" -> emitted(p, Len(op[3]))
       [] op[1] = "pemit" -> emitted(op[2], Len(op[4]))
       [] op[1] = "raw" -> emitted(p, 4)
       [] op[1] \in StmtOps -> stmt
       [] op[1] \in {"al", "pal"} -> e.r = 0 /\ NoMem(e) /\ e.c <= PageSize
       [] op[1] = "fill" -> e.r = 0 /\ NoMem(e) /\ e.c = op[2]
       [] op[1] = "fin" ->
            /\ Chg(e) \subseteq UNION {mayFill(q) : q \in Pages} \cup mayFix
            /\ \A q \in Code : e.cu[q + 1] <= PageSize
            /\ ~st.bust => (e.r = 0 <=> Room(st, op))
            \* ... and the references that were accepted are completed
            /\ e.r = 0 => \A r \in st.refs : labs[r.l] # Unbound => RefOk(Base, mem1, r, labs[r.l])
       [] op[1] \in {"patch", "patcha"} -> TRUE
       \* access by position: within the page or not at all
       [] op[1] \in Pokes ->
            LET k == Poked(st, op) a == Addr(k[1], k[2])
            IN IF k[2] < PageSize THEN e.r = 0 /\ e.y = 0 /\ Chg(e) \subseteq {a} /\ Peek(mem1, a) = k[3]
               ELSE e.r = 1 /\ NoMem(e)
       [] op[1] = "peek" -> NoMem(e) /\ e.y = 0 /\ (e.r = 0 <=> op[3] < PageSize)
       [] OTHER -> NoMem(e)

-----------------------------------------------------------------------------
Judge(st, e) ==
  CASE Prop = "C09" -> C09(st, e)
    [] Prop = "C10" -> C10(st, e)
    [] Prop = "C11" -> C11(st, e)
    [] Prop = "C12" -> C12(st, e)
    [] Prop = "C13" -> C13(st, e)
    [] Prop = "C14" -> C14(st, e)
    [] Prop = "C15" -> C15(st, e)

\* done holds the patched jumps of the run.
Track(st, e, t) ==
  IF e.o[1] \in {"patch", "patcha"} /\ e.r = 0
  THEN [t EXCEPT !.done = {d \in @ : d.j # st.lab[e.o[2]]} \cup {[j |-> st.lab[e.o[2]]]}]
  ELSE t

Next == IF i < Len(Ev)
        THEN /\ i' = i + 1 /\ l' = l
             /\ s' = Track(s, Ev[i + 1], After(s, Ev[i + 1]))
        ELSE /\ l + W <= N /\ l' = l + W /\ i' = 0 /\ s' = Start(l + W)
Spec == Init /\ [][Next]_vars
View == <<l, i>>

Conforms == i < Len(Ev) => \/ Judge(s, Ev[i + 1])
                           \/ PrintT(<<"BAD", l, i + 1>>)
=============================================================================
