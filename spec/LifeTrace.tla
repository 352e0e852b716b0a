------------------------------ MODULE LifeTrace ------------------------------
(* Recorded lifetimes.  An event holds the operation o, the values returned  *)
(* by calling every function so far (ret), the access rights of the three    *)
(* pages of every live instance (perm: instance, rights found per page), the *)
(* answers of membership queries (inc: instance, owner of the address or 0   *)
(* for foreign memory, offset, answer), the page size seen (ps) and the      *)
(* distances between instances (dist: i, j, distance, clamped).  pos: for     *)
(* every function the rights where its code lies, the rights where its       *)
(* counter lies (if any), and, per live instance, whether it counts the      *)
(* code (the counter) as its own code.                                       *)
EXTENDS Life, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
W == 16
VARIABLES l, i, s
vars == <<l, i, s>>
Ev == Trace[l].ev
Init == l \in 1..(IF N < W THEN N ELSE W) /\ i = 0 /\ s = Init0
Next == IF i < Len(Ev)
        THEN i' = i + 1 /\ l' = l /\ s' = Called(Apply(s, Ev[i + 1].o))
        ELSE l + W <= N /\ l' = l + W /\ i' = 0 /\ s' = Init0
Spec == Init /\ [][Next]_vars

Abs(x) == IF x < 0 THEN -x ELSE x
Ok(e) ==
  LET t == Apply(s, e.o)
  IN /\ e.ret = Returns(t)
     /\ {e.perm[k][1] : k \in 1..Len(e.perm)} = Alive(t)
     /\ \A k \in 1..Len(e.perm) : e.perm[k][2] = <<<<Perms[1]>>, <<Perms[2]>>, <<Perms[3]>>>>
     /\ \A k \in 1..Len(e.inc) : (e.inc[k][4] = 1) <=> Member(e.inc[k][1], e.inc[k][2], e.inc[k][3])
     /\ Len(e.pos) = Len(t.fns)
     /\ \A k \in 1..Len(e.pos) :
          /\ e.pos[k][1] = <<Perms[t.fns[k].p + 1]>>
          /\ e.pos[k][2] = IF t.fns[k].kind = "cnt" THEN <<Perms[3]>> ELSE <<>>
          /\ {e.pos[k][3][m][1] : m \in 1..Len(e.pos[k][3])} = Alive(t)
          /\ \A m \in 1..Len(e.pos[k][3]) :
               /\ e.pos[k][3][m][2] = (IF e.pos[k][3][m][1] = t.fns[k].i THEN 1 ELSE 0)
               /\ e.pos[k][3][m][3] = 0
     /\ \A k \in 1..Len(e.dist) : Abs(e.dist[k][3]) >= 3 * PageSize
     /\ \A a \in Alive(t), b \in 1..Len(t.inst) : a # b =>
          \E k \in 1..Len(e.dist) : e.dist[k][1] = a /\ e.dist[k][2] = b
     /\ \A a \in Alive(t) : \E k \in 1..Len(e.inc) : e.inc[k][1] = a
Conforms == i < Len(Ev) => \/ Ok(Ev[i + 1])
                           \/ PrintT(<<"BAD", l, i + 1>>)
=============================================================================
