------------------------------ MODULE CpuTrace ------------------------------
(* Conformance: what executing an assembled statement on the processor did   *)
(* to its state must be what Cpu says the statement does.  An event is       *)
(*   <<operands, registers, flags, window, window address, xmm, outcome>>    *)
(* with unmentioned registers left empty; the outcome is <<-1>> (statement   *)
(* rejected), <<-2, status>> (the process died), or                          *)
(*   <<0, changed registers, flags, changed window bytes, changed xmm,       *)
(*     anything else changed>>                                               *)
EXTENDS Cpu, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
W == 16

VARIABLE l
Init == l \in 1..(IF N < W THEN N ELSE W)
Next == l + W <= N /\ l' = l + W
Spec == Init /\ [][Next]_l

FlagRec(f) == [cf |-> f[1], pf |-> f[2], zf |-> f[3], sf |-> f[4], of |-> f[5]]
Before(c) == [r |-> [k \in 0..15 |-> c[2][k + 1]], f |-> FlagRec(c[3]), m |-> c[4], wb |-> c[5],
              x |-> [k \in 0..15 |-> c[6][k + 1]]]
Changed(ds, k) == \E i \in 1..Len(ds) : ds[i][1] = k
New(ds, k, old) == IF Changed(ds, k) THEN ds[CHOOSE i \in 1..Len(ds) : ds[i][1] = k][2] ELSE old

\* Division leaves the choice of quotient and remainder to DivOk.
IsDiv(mn) == Tab[mn].o \in {"div", "idiv"}
DivEffect(mn, ops, st, q, r) ==
  LET n == Tab[mn].w \div 8
      ok == DivOk(Tab[mn].o = "idiv", Take(st.r[2], n), Take(st.r[0], n), Val(ops[1], n, st), Take(q, n), Take(r, n))
  IN IF ok THEN Fl(Undef, Put(<<"r", 2>>, Take(r, n), Put(<<"r", 0>>, Take(q, n), st))) ELSE [st EXCEPT !.r = <<>>]

AsLabel(o) == IF o[1] = "s" THEN <<"ml", 0>> ELSE o
EventOk(mn, c) ==
  LET out == c[7]
      ops == c[1]
  IN CASE out[1] = -1 -> ~Legal(mn, [k \in 1..Len(ops) |-> AsLabel(ops[k])])
       [] out[1] = -2 -> FALSE
       [] OTHER ->
           LET st == Before(c)
               aft == [st EXCEPT !.r = [k \in 0..15 |-> New(out[2], k, st.r[k])],
                                 !.x = [k \in 0..15 |-> New(out[5], k, st.x[k])],
                                 !.m = [k \in 1..Len(st.m) |-> New(out[4], k - 1, st.m[k])]]
               e == IF IsDiv(mn) THEN DivEffect(mn, ops, st, aft.r[0], aft.r[2]) ELSE Exec(mn, ops, st)
               f == FlagRec(out[3])
           IN /\ out[6] = 0
              /\ e.r = aft.r /\ e.x = aft.x /\ e.m = aft.m
              /\ Len(st.m) = 0 => Len(out[4]) = 0
              /\ \A k \in Flags : e.f[k] = U \/ e.f[k] = f[k]

Conforms == \A k \in 1..Len(Trace[l].cs) :
              \/ EventOk(Trace[l].mn, Trace[l].cs[k])
              \/ PrintT(<<"BAD", l, k>>)
=============================================================================
