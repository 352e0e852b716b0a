------------------------------- MODULE Forms -------------------------------
(* Exports the language tables of Asm to JSON; the Rust drivers are          *)
(* generated from that file, so the specification is their only source.      *)
EXTENDS Asm, Json, IOUtils, SequencesExt
FormRec(e) == [mn |-> e.mn, c |-> e.c, o |-> e.o, w |-> e.w, cc |-> e.cc,
               sh |-> SetToSeq(Shapes(e))]
ASSUME JsonSerialize(IOEnv.FORMS_OUT,
         [forms |-> SetToSeq({FormRec(e) : e \in Entries}),
          imms |-> SetToSeq(ImmCorners),
          disps |-> SetToSeq(DispCorners),
          conds |-> Conds])
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
