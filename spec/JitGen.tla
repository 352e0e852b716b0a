------------------------------- MODULE JitGen -------------------------------
(* Random long histories of the assembler object, generated from the model   *)
(* (tlc -simulate): each behaviour prints one operation script.              *)
EXTENDS JitOps, Json

CONSTANTS Steps, Focus

Base == <<0, 0, 0, 0, 16, 32, 0, 0>>

VARIABLES s, h, user, pps
vars == <<s, h, user, pps>>
\* user: labels that may be bound by the script; pps: labels at jumps
Init == s = NewLabels(Init0, 2) /\ h = <<>> /\ user = {1, 2} /\ pps = {}

RECURSIVE ApplyAll(_, _)
ApplyAll(x, ops) == IF ops = <<>> THEN x ELSE ApplyAll(Do(Base, x, Head(ops)), Tail(ops))

Rnd(S) == RandomElement(S)
RBytes(n) == [i \in 1..n |-> Rnd(0..(255 + 0 * i))]
AnyLabel(x) == Rnd(1..Len(x.lab))
\* A recent label, or any.
SomeLabel(x) == LET n == Len(x.lab) IN IF Rnd(1..3) = 1 THEN Rnd(1..n) ELSE Rnd((IF n > 6 THEN n - 6 ELSE 1)..n)
Free == {l \in user : ~Bound(s, l)}
RealPatch == {j \in pps : Bound(s, j) /\ Patchable(s, s.lab[j])}
BoundLabels == {l \in 1..Len(s.lab) : Bound(s, l)}

Kinds == <<"b", "w", "l", "q">>
Widths == <<1, 2, 4, 8>>
Pick(f(_), S) == f(Rnd(S))
EmitK(k) == IF k = 5 THEN <<"emit", "s", RBytes(Rnd(0..9))>> ELSE <<"emit", Kinds[k], RBytes(Widths[k])>>
EmitOp(x) == Pick(EmitK, 1..5)
\* The data page can be named too.
Named == IF Focus = "pages" THEN Pages ELSE Code
PEmitK(k) == <<"pemit", Rnd(Named), Kinds[k], RBytes(Widths[k])>>
PEmitOp(x) == Pick(PEmitK, 1..4)
ConK(k) == CASE k <= 2 -> <<"u64", RBytes(8)>>
                [] k <= 4 -> <<"u32", RBytes(4)>>
                [] k = 5 -> <<"bytes", Rnd({0, 1, 3, 8, 15, 16, 17, 33})>>
                [] k = 6 -> <<"al8">>
                [] OTHER -> <<"abs", SomeLabel(s)>>
ConItem(x) == Pick(ConK, 1..8)
F64Item(x) == <<"f64", RBytes(8)>>
DatK(k) == CASE k <= 2 -> <<"u64", RBytes(8)>>
                [] k = 3 -> <<"u32", RBytes(4)>>
                [] OTHER -> <<"bytes", Rnd({0, 1, 3, 8, 15, 16, 17, 33})>>

DatItem(x) == Pick(DatK, 1..4)

\* A class of operations; weights per focus.
Weights ==
  CASE Focus = "refs" -> <<"st", "st", "st", "st", "st", "new", "bind", "bind", "bind", "bindnew", "bindp", "raw", "con", "dat", "emit", "al", "sel", "sel", "fin", "fin", "jump", "pl">>
    [] Focus = "pools" -> <<"con", "con", "con", "con", "dat", "dat", "dat", "st", "st", "bind", "bindnew", "emit", "al", "sel", "sel", "fin", "fin">>
    [] Focus = "stable" -> <<"jump", "jump", "patch", "patch", "st", "st", "bind", "con", "dat", "emit", "sel", "fin", "fin", "fin", "bindnew", "al", "raw", "poke">>
    [] Focus = "pages" -> <<"emit", "emit", "emit", "pemit", "pemit", "al", "al", "pal", "pal", "sel", "sel", "sel", "st", "pl", "pl", "bind", "bindnew", "bindp", "poke", "poke", "con", "dat", "fin">>
    [] Focus = "patch" -> <<"jump", "jump", "jump", "patch", "patch", "patch", "bindnew", "bind", "emit", "sel", "sel", "fin", "fin", "con", "rawjump", "rawjump", "st", "al">>
    [] Focus = "room" -> <<"emit", "emit", "emit", "pemit", "pl", "st", "al", "pal", "con", "con", "dat", "bind", "raw", "sel", "sel", "fin">>
    [] Focus = "blocks" -> <<"emit", "pl", "st", "con", "dat", "al", "sel", "sel", "fin", "fin", "fin", "bindnew", "pal">>

\* Bytes that belong to no reference and no jump to be patched.
Plain == {a \in DOMAIN s.mem : a >= 0} \
         (UNION {RefCells(r) : r \in s.refs} \cup UNION {RefCells(d.r) : d \in s.done}
          \cup UNION {s.lab[j]..(s.lab[j] + 4) : j \in {k \in pps : Bound(s, k)}})
PokeAt(a) == LET p == PageOf(a) pos == a % PageSize
             IN <<IF p = s.page /\ Rnd(1..2) = 1 THEN <<"poke", pos, Rnd(0..255)>> ELSE <<"ppoke", p, pos, Rnd(0..255)>>,
                  <<"peek", p, pos>>>>
RawK(off) == <<<<"raw", SomeLabel(s), off>>, <<"emit", "s", RBytes(off - 4)>>>>
Chosen(c) ==
  LET n == Len(s.lab)
  IN CASE c = "st" -> <<<<"st", Rnd(1..Len(LabelStmts)), SomeLabel(s)>>>>
       [] c = "pl" -> <<<<"pl", Rnd(1..Len(PlainStmts))>>>>
       [] c = "new" -> <<<<"label">>>>
       [] c = "bind" /\ Free # {} -> <<<<"bind", Rnd(Free)>>>>
       [] c = "bindp" /\ Free # {} -> <<<<"bindp", Rnd(Named), Rnd(Free)>>>>
       [] c = "bindnew" -> <<<<"label">>, <<"bind", n + 1>>>>
       [] c = "raw" -> RawK(Rnd({4, 5, 6, 8, 12}))
       [] c = "con" -> <<<<"con", IF Rnd(1..6) = 1 THEN F64Item(s) ELSE ConItem(s)>>>>
       [] c = "dat" -> <<<<"dat", DatItem(s)>>>>
       [] c = "pemit" -> <<PEmitOp(s)>>
       [] c = "al" -> <<<<"al", Rnd({4, 8, 16})>>>>
       [] c = "poke" /\ Plain # {} -> PokeAt(Rnd(Plain))
       [] c = "pal" -> <<<<"pal", Rnd(Named), Rnd({4, 8, 16})>>>>
       [] c = "sel" -> <<<<"sel", IF Rnd(1..5) = 1 THEN s.page ELSE 1 - s.page>>>>
       [] c = "fin" -> <<<<"fin">>>>
       [] c = "jump" -> <<<<"label">>, <<"bind", n + 1>>, <<"st", 1, Rnd((IF n > 6 THEN n - 6 ELSE 1)..(n + 1))>>>>
       [] c = "rawjump" -> <<<<"label">>, <<"bind", n + 1>>, <<"emit", "b", <<233>>>>, <<"emit", "l", RBytes(4)>>>>
       [] c = "patch" /\ RealPatch # {} -> <<<<Rnd({"patch", "patcha"}), Rnd(RealPatch), Rnd(BoundLabels)>>>>
       [] OTHER -> <<EmitOp(s)>>

\* f64 constants are 64-bit values to the model.
Norm(op) == IF op[1] = "con" /\ op[2][1] = "f64" THEN <<"con", <<"u64", op[2][2]>>>> ELSE op
Made(c, ops) ==
  LET n == Len(s.lab)
  IN CASE c \in {"new", "bindnew", "jump", "rawjump"} -> {n + 1} [] OTHER -> {}

Next ==
  /\ Len(h) < Steps
  \* bound by \E so that each random choice is made once
  /\ \E c \in {Weights[Rnd(1..Len(Weights))]} : \E ops \in {Chosen(c)} :
        /\ s' = ApplyAll(s, [i \in 1..Len(ops) |-> Norm(ops[i])])
        /\ h' = h \o ops
        /\ user' = user \cup Made(c, ops)
        /\ pps' = IF c \in {"jump", "rawjump"} THEN pps \cup {Len(s.lab) + 1} ELSE pps
Done == Len(h) >= Steps => PrintT("SCRIPT " \o ToJson(h))
Spec == Init /\ [][Next]_vars
=============================================================================
