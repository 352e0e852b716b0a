------------------------------ MODULE PtrTrace ------------------------------
(* Recorded uses of handles.  Each event holds the operation o and then, for *)
(* every assembler: its page bases (base), its cursor (cur), the address of  *)
(* the cursor (here), every label's address from the four accessors, <<>>    *)
(* when refused (lab), the eight bytes found there for constants and data    *)
(* (mem), the label numbers (ids), label equalities (eq); further pointers   *)
(* of all assemblers (ptrs), pairs of them <<a, b, a - b, <, <=, >, >=, =>>  *)
(* and sums <<a, n, a + n>> (adds).                                          *)
EXTENDS Ptr, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
W == 16
VARIABLES l, i, s
vars == <<l, i, s>>
Ev == Trace[l].ev
Start(k) == Init0(Trace[k].n)
Init == l \in 1..(IF N < W THEN N ELSE W) /\ i = 0 /\ s = Start(l)
\* The cursor is taken from the observation (how it moves is C12's matter).
Seen(t, e) == [a \in 1..Len(t) |-> [t[a] EXCEPT !.cur[t[a].page + 1] = e.cur[a]]]
Next == IF i < Len(Ev)
        THEN i' = i + 1 /\ l' = l /\ s' = Seen(Apply(s, Ev[i + 1].o), Ev[i + 1])
        ELSE l + W <= N /\ l' = l + W /\ i' = 0 /\ s' = Start(l + W)
Spec == Init /\ [][Next]_vars

Four(x, v) == x = <<v, v, v, v>>
LabelOk(lab, base, seen, mem) ==
  IF lab.at = <<>> THEN Four(seen, <<>>)
  ELSE IF lab.at = <<"placed">> THEN /\ seen[1] # <<>> /\ Four(seen, seen[1])
                                     /\ mem = LE(lab.val, 8)
  ELSE Four(seen, Addr(base[lab.at[1] + 1], lab.at[2]))
Ok(e) ==
  LET t == Apply(s, e.o)
  IN /\ \A a \in 1..Len(t) :
          /\ e.here[a] = Addr(e.base[a][t[a].page + 1], e.cur[a])
          /\ Len(e.lab[a]) = Len(t[a].labels)
          /\ \A k \in 1..Len(t[a].labels) : LabelOk(t[a].labels[k], e.base[a], e.lab[a][k], e.mem[a][k])
          /\ Len(e.ids[a]) = Len(t[a].labels)
          /\ Cardinality({e.ids[a][k] : k \in 1..Len(e.ids[a])}) = Len(e.ids[a])
          /\ \A j, k \in 1..Len(t[a].labels) : (e.eq[a][j][k] = 1) <=> (j = k)
     /\ \A k \in 1..Len(e.pairs) :
          LET x == e.pairs[k]  p == e.ptrs[x[1]]  q == e.ptrs[x[2]] IN
          /\ x[3] = Distance(p, q)
          /\ (x[4] = 1) <=> Less(p, q)
          /\ (x[5] = 1) <=> ~Less(q, p)
          /\ (x[6] = 1) <=> Less(q, p)
          /\ (x[7] = 1) <=> ~Less(p, q)
          /\ (x[8] = 1) <=> (p = q)
     /\ \A k \in 1..Len(e.adds) :
          LET x == e.adds[k] IN x[3] = Addr(e.ptrs[x[1]], x[2])
Conforms == i < Len(Ev) => \/ Ok(Ev[i + 1])
                           \/ PrintT(<<"BAD", l, i + 1>>)
=============================================================================
