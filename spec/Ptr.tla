--------------------------------- MODULE Ptr ---------------------------------
(* Labels and code pointers as handles on addresses.  An address is a vector *)
(* of eight bytes.                                                           *)
(*                                                                           *)
(* s[i]  [page, cur, labels]   assembler i: selected page, cursor per page,  *)
(*                             labels with kind, value and place             *)
(* A place is <<>> (unbound), <<page, offset>> or <<"placed">> (a constant   *)
(* or data item after finalization; where exactly is C10's matter).          *)
EXTENDS Integers, Sequences, FiniteSets, Bytes

Init0(n) == [i \in 1..n |-> [page |-> 0, cur |-> <<0, 0>>, labels |-> <<>>]]
Cursor(a) == a.cur[a.page + 1]
Label(kind, val) == [kind |-> kind, val |-> val, at |-> <<>>]
Round16(x) == ((x + 15) \div 16) * 16
Settled(l) == IF l.kind = "code" THEN l ELSE [l EXCEPT !.at = <<"placed">>]

Apply(s, op) ==
  LET i == op[2]
      a == s[i]
  IN CASE op[1] = "sel"   -> [s EXCEPT ![i].page = op[3]]
       [] op[1] = "emit"  -> [s EXCEPT ![i].cur[a.page + 1] = @ + op[3]]
       [] op[1] = "label" -> [s EXCEPT ![i].labels = Append(@, Label("code", 0))]
       [] op[1] = "const" -> [s EXCEPT ![i].labels = Append(@, Label("const", op[3]))]
       [] op[1] = "data"  -> [s EXCEPT ![i].labels = Append(@, Label("data", op[3]))]
       [] op[1] = "bind"  -> [s EXCEPT ![i].labels[op[3]].at = <<a.page, Cursor(a)>>]
       [] op[1] = "fin"   -> [s EXCEPT ![i].labels = [k \in 1..Len(@) |-> Settled(@[k])],
                                       ![i].cur = [p \in 1..2 |-> Round16(@[p]) + 8]]

\* The address at an offset from a base, the distance in bytes, the order.
Addr(base, off) == Add(base, LE(off, 8))
Distance(p, q) == Sub(p, q)
RECURSIVE Below(_, _, _)
Below(p, q, k) == IF k = 0 THEN FALSE ELSE p[k] < q[k] \/ (p[k] = q[k] /\ Below(p, q, k - 1))
Less(p, q) == Below(p, q, 8)
=============================================================================
