------------------------------- MODULE JitMC -------------------------------
(* Exhaustive exploration of short histories of the assembler object over a  *)
(* small alphabet: the design-level properties hold in every reachable state *)
(* and step, and every history of length ScriptLen is exported as a script   *)
(* to be replayed on the real code.                                          *)
EXTENDS JitOps, Json, IOUtils

CONSTANTS Depth, ScriptLen, Alpha

Base == <<0, 0, 0, 0, 16, 32, 0, 0>>

\* One alphabet per aspect, so that each can be explored deeper.
Binds == {<<"bind", l>> : l \in 1..2}
Sels == {<<"sel", p>> : p \in Code}
Nop == <<"emit", "b", <<144>>>>
Fin == <<"fin">>
Jumps == {<<"st", 1, l>> : l \in 1..2}
U64 == <<"u64", <<1, 2, 3, 4, 5, 6, 7, 8>>>>
U32 == <<"u32", <<1, 2, 3, 4>>>>
Alphabet ==
  CASE Alpha = "refs" ->
         Binds \cup Sels \cup Jumps \cup {<<"bindp", 1, 1>>, <<"st", 4, 1>>, <<"raw", 1, 6>>, <<"con", <<"abs", 2>>>>, Fin}
    [] Alpha = "pools" ->
         Sels \cup {Nop, Fin, <<"con", U64>>, <<"con", U32>>, <<"con", <<"bytes", 3>>>>, <<"con", <<"al8">>>>,
                   <<"con", <<"abs", 1>>>>, <<"bind", 1>>, <<"dat", U64>>, <<"dat", U32>>, <<"dat", <<"bytes", 5>>>>}
    [] Alpha = "stable" ->
         Binds \cup Jumps \cup {<<"sel", 1>>, Nop, Fin, <<"con", U32>>, <<"dat", U32>>, <<"patch", 1, 2>>}
    [] Alpha = "pages" ->
         Sels \cup Binds \cup {Nop, <<"pemit", 1, "w", <<17, 34>>>>, <<"pal", 0, 4>>, <<"al", 8>>, <<"al", 16>>, <<"st", 1, 1>>,
                             <<"con", U32>>, <<"pl", 2>>, Fin, <<"poke", 0, 85>>, <<"ppoke", 1, 1, 86>>, <<"peek", 0, 2>>}
    [] Alpha = "patch" ->
         Binds \cup Jumps \cup {<<"sel", 1>>, <<"sel", 0>>, Nop, Fin, <<"patch", 1, 2>>, <<"patch", 2, 1>>, <<"patcha", 1, 1>>}
    [] Alpha = "blocks" ->
         Sels \cup {Nop, Fin, <<"al", 16>>, <<"con", U32>>, <<"con", <<"bytes", 3>>>>, <<"dat", U64>>, <<"st", 1, 1>>}
    [] Alpha = "room" ->
         Sels \cup {Nop, <<"emit", "w", <<1, 2>>>>, <<"emit", "l", <<1, 2, 3, 4>>>>, <<"emit", "q", <<1, 2, 3, 4, 5, 6, 7, 8>>>>,
                   <<"emit", "s", <<9, 8, 7, 6, 5, 4, 3, 2, 1>>>>, <<"pemit", 1, "q", <<1, 2, 3, 4, 5, 6, 7, 8>>>>, <<"al", 8>>, <<"al", 16>>,
                   <<"bind", 1>>, <<"st", 1, 1>>, <<"st", 8, 1>>, <<"pl", 6>>,
                   <<"con", U32>>, <<"con", U64>>, <<"con", <<"bytes", 3>>>>, <<"dat", U32>>, <<"dat", <<"bytes", 16>>>>, <<"dat", <<"bytes", 17>>>>, Fin}

\* Emitted bytes that belong to no reference.
Plain(s, a) == /\ a \in DOMAIN s.mem
               /\ \A r \in s.refs \cup {d.r : d \in s.done} : a \notin RefCells(r)
Enabled(s, op) ==
  CASE op[1] = "bind" -> ~Bound(s, op[2])
    [] op[1] = "bindp" -> op[2] # s.page /\ ~Bound(s, op[3])
    [] op[1] = "sel" -> op[2] # s.page
    [] op[1] \in {"patch", "patcha"} -> Bound(s, op[2]) /\ Bound(s, op[3]) /\ Patchable(s, s.lab[op[2]])
    [] op[1] = "poke" -> Plain(s, Addr(s.page, op[2]))
    [] op[1] = "ppoke" -> Plain(s, Addr(op[2], op[3]))
    [] op[1] = "peek" -> Addr(op[2], op[3]) \in DOMAIN s.mem
    [] op[1] = "fin" -> s.fin < 4
    [] OTHER -> TRUE

VARIABLES s, h, last
vars == <<s, h, last>>
\* Histories are only kept while they may become scripts.
Note(op) == IF Len(h) < ScriptLen THEN Append(h, op) ELSE <<<<"long">>>>
Init == s = NewLabels(Init0, 2) /\ h = <<>> /\ last = <<"label">>
Step(op) == /\ Enabled(s, op)
            /\ s' = Do(Base, s, op)
            /\ h' = IF h = <<<<"long">>>> THEN h ELSE Note(op)
            /\ last' = op
Next == \E op \in Alphabet : Step(op)
Spec == Init /\ [][Next]_vars
Bounded == TLCGet("level") <= Depth

\* States of the object that matter; the history only labels them.
View == IF h = <<<<"long">>>> THEN <<s, last>> ELSE <<s, last, h>>

-----------------------------------------------------------------------------
ASSUME TablesOk
InvRefs == RefsReach(Base, s)
InvPending == PendingOnly(s, last = <<"fin">> /\ s.pan = <<>>)
InvBlocks == BlocksTile(s)
InvWithin == Within(s) /\ \A p \in Pages : s.cur[p] <= PageSize
\* C11 and C13: a step changes only fields it completes, patches or appends.
OldCells == DOMAIN s.mem
Stable ==
  LET touched == {a \in OldCells : s'.mem[a] # s.mem[a]}
  IN CASE last'[1] = "fin" ->
            touched \subseteq UNION {RefCells(r) : r \in {q \in s.refs : s'.lab[q.l] # Unbound}}
       [] last'[1] = "poke" -> touched \subseteq {Addr(s.page, last'[2])}
       [] last'[1] = "ppoke" -> touched \subseteq {Addr(last'[2], last'[3])}
       [] last'[1] \in {"patch", "patcha"} -> touched \subseteq (s.lab[last'[2]] + 1)..(s.lab[last'[2]] + 4)
       [] OTHER -> touched = {}
\* Labels never move.
LabelsStay == \A l \in 1..Len(s.lab) : s.lab[l] # Unbound => s'.lab[l] = s.lab[l]
\* C12: only the page an operation names can move.
OnePage ==
  last'[1] # "fin" =>
    \A p \in Pages : s'.cur[p] # s.cur[p] =>
      p = IF last'[1] \in {"pemit", "pal"} THEN last'[2] ELSE s.page
\* C10: what a finalization places is aligned, disjoint and in order.
Placed ==
  (last'[1] = "fin" /\ Room(s, last')) =>
    LET its(p) == IF p = Data THEN s.dat[0] \o s.dat[1] ELSE s.cons[p]
    IN \A p \in Pages : \A k \in 1..Len(its(p)) :
         LET c == its(p)[k].c
             a == s'.lab[its(p)[k].l]
             floor == IF k = 1 THEN Addr(p, s.cur[p])
                      ELSE s'.lab[its(p)[k - 1].l] + ItemSize(its(p)[k - 1].c)
         IN /\ a % ItemAlign(c) = 0
            /\ a >= floor /\ a < floor + ItemAlign(c)
            /\ a + ItemSize(c) <= Addr(p, s'.cur[p])
            /\ c[1] \in {"u64", "u32", "bytes"} => Read(s'.mem, a, ItemSize(c)) = ItemBytes(c)
\* C15: an operation without room changes nothing.
Refused == ~Room(s, last') => s' = Refuse(s)
StepOk == [][Stable /\ LabelsStay /\ OnePage /\ Placed /\ Refused]_vars

\* Export: one line per history of the wanted length.
Export == (Len(h) = ScriptLen /\ h # <<<<"long">>>>) => PrintT("SCRIPT " \o ToJson(h))
=============================================================================
