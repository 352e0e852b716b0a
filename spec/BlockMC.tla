------------------------------ MODULE BlockMC ------------------------------
(* Blocks built from the reference encoder: programs of up to Depth          *)
(* statements over a small alphabet, every encoding of each.                 *)
(*   Readable   the block reads as its statements                            *)
(*   OnlyThat   and as no other sequence of the same length over the alphabet *)
EXTENDS Block, Enc

CONSTANTS Depth

Alphabet == {
  <<"s", "movq", <<R(0), R(9)>>>>, <<"s", "movl", <<<<"m", 12, -1, 1, 0>>, <<"n", 5>>>>>>,
  <<"s", "addb", <<R(4), R(7)>>>>, <<"s", "pushq", <<R(12)>>>>, <<"s", "ret", <<>>>>,
  <<"s", "jmp", <<<<"l", 3>>>>>>, <<"s", "jne", <<<<"l", -40>>>>>>, <<"s", "movsd", <<X(9), <<"ml", 100>>>>>>,
  <<"s", "testq", <<<<"m", 5, 2, 4, 300>>, <<"n", -1>>>>>>, <<"s", "cqo", <<>>>>, <<"s", "setb", <<R(6)>>>>,
  <<"s", "roundpd", <<X(1), X(8), <<"n", 9>>>>>>, <<"s", "movw", <<R(8), <<"n", 700>>>>>>}

VARIABLES its, bs
Init == its = <<>> /\ bs = <<>>
Next == /\ Len(its) < Depth
        /\ \E it \in Alphabet :
             /\ its' = Append(its, it)
             /\ \E e \in Encodings(it[2], FromHere(it[3], Len(bs))) : bs' = bs \o e
Spec == Init /\ [][Next]_<<its, bs>>

Readable == Reads(its, bs, 1, 0)
OnlyThat == \A k \in 1..Len(its) : \A it \in Alphabet \ {its[k]} : ~Reads([its EXCEPT ![k] = it], bs, 1, 0)
=============================================================================
