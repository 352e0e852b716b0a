------------------------------- MODULE LifeMC -------------------------------
(* All histories of a bounded length, exported as scripts.                   *)
EXTENDS Life, Json
CONSTANTS Depth, MaxInst

VARIABLES s, h
vars == <<s, h>>
Init == s = Apply(Init0, <<"new">>) /\ h = <<<<"new">>>>
Ops ==
  (IF Len(s.inst) < MaxInst THEN {<<"new">>, <<"tnew">>} ELSE {})
  \cup (IF Len(s.inst) + 1 < MaxInst THEN {<<"pnew", 2>>} ELSE {})
  \cup UNION {{<<"sel", i, 1 - s.inst[i].page>>, <<"fn", i>>, <<"cnt", i>>, <<"box", i>>, <<"drop", i>>,
             <<"tcnt", i>>, <<"tdrop", i>>, <<"use", i>>} : i \in Alive(s)}
  \cup {<<"thr">>, <<"grow">>, <<"par", 3>>}
\* Operations that change nothing are only worth trying on something.
Useful(op) == CASE op[1] \in {"thr"} -> s.fns # <<>>
                [] op[1] = "use" -> \A k \in 1..Len(h) : h[k][1] # "use"
                [] op[1] = "par" -> Alive(s) # {}
                [] op[1] = "grow" -> Len(h) > 1 /\ h[Len(h)] # <<"grow">>
                [] OTHER -> TRUE
Next == /\ Len(h) < Depth
        /\ \E op \in Ops : Useful(op) /\ s' = Called(Apply(s, op)) /\ h' = Append(h, op)
Spec == Init /\ [][Next]_vars
Export == Len(h) = Depth => PrintT("SCRIPT " \o ToJson(h))

\* Functions belong to instances that existed and keep what they are.
Belongs == \A k \in 1..Len(s.fns) : s.fns[k].i \in 1..Len(s.inst) /\ s.fns[k].p \in Code
Lasting == [][\A k \in 1..Len(s.fns) : /\ s'.fns[k].kind = s.fns[k].kind /\ s'.fns[k].p = s.fns[k].p
                                       /\ (s.fns[k].kind = "fn" => s'.fns[k].n = s.fns[k].n)]_vars
NeverBack == [][\A i \in 1..Len(s.inst) : ~s.inst[i].alive => ~s'.inst[i].alive]_vars
=============================================================================
