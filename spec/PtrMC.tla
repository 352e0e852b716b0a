-------------------------------- MODULE PtrMC --------------------------------
(* All histories of a bounded length and the laws of the handles in them.    *)
EXTENDS Ptr, Json, TLC
CONSTANTS Depth, Assemblers, MaxLabels

VARIABLES s, h
vars == <<s, h>>
Init == s = Init0(Assemblers) /\ h = <<>>
Unbound(i) == {k \in 1..Len(s[i].labels) : s[i].labels[k].kind = "code" /\ s[i].labels[k].at = <<>>}
Ops == UNION {
     {<<"sel", i, 1 - s[i].page>>, <<"emit", i, 5>>, <<"fin", i>>}
     \cup (IF Len(s[i].labels) < MaxLabels
           THEN {<<"label", i>>, <<"const", i, 77 + Len(s[i].labels)>>, <<"data", i, 99 + Len(s[i].labels)>>} ELSE {})
     \cup {<<"bind", i, k>> : k \in Unbound(i)} : i \in 1..Assemblers}
Next == Len(h) < Depth /\ \E op \in Ops : s' = Apply(s, op) /\ h' = Append(h, op)
Spec == Init /\ [][Next]_vars
Export == Len(h) = Depth => PrintT("SCRIPT " \o ToJson(h))

\* Two pages and two assemblers at addresses of full width.
Base(i, p) == Add(<<0, 16, 0, 0, 250 + i, 127, 0, 0>>, <<0, 0, 0, 16 * p, 0, 0, 0, 0>>)
Places == UNION {{<<i, s[i].labels[k].at>> : k \in {k \in 1..Len(s[i].labels) : Len(s[i].labels[k].at) = 2}} : i \in 1..Assemblers}
Address(x) == Addr(Base(x[1], x[2][1]), x[2][2])
Laws == \A x, y \in Places :
          LET p == Address(x)  q == Address(y) IN
          /\ Add(q, Distance(p, q)) = p
          /\ Distance(q, p) = Neg(Distance(p, q))
          /\ (p = q) <=> (x = y)
          /\ ~(Less(p, q) /\ Less(q, p))
          /\ Less(p, q) \/ Less(q, p) \/ p = q
          /\ Less(p, q) <=> Negative(Distance(p, q))
          /\ (x[1] = y[1] /\ x[2][1] = y[2][1]) => Distance(p, q) = LE(x[2][2] - y[2][2], 8)
Inside == \A i \in 1..Assemblers, k \in 1..MaxLabels : k <= Len(s[i].labels) =>
            LET at == s[i].labels[k].at IN Len(at) = 2 => at[2] <= s[i].cur[at[1] + 1]
\* Once known, an address stays.
Fixed == [][\A i \in 1..Assemblers, k \in 1..MaxLabels : k <= Len(s[i].labels) =>
              (s[i].labels[k].at # <<>> => s'[i].labels[k] = s[i].labels[k])]_vars
=============================================================================
