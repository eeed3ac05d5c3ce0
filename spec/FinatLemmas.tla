---------------------------- MODULE FinatLemmas ----------------------------
(* Lemmas about the cell complexes themselves, decided by evaluation.       *)
EXTENDS FinatCells
ASSUME NestLemma
ASSUME EulerLemma
VARIABLE done
Init == done = FALSE
Next == ~done /\ done' = TRUE
=============================================================================
