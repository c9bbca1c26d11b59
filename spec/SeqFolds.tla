-------------------------------- MODULE SeqFolds --------------------------------
(* Folds over sequences, without the integer operators that SequencesExt      *)
(* brings along (module Real defines its own).                                *)
LOCAL INSTANCE SequencesExt
Fold(op(_, _), base, seq) == FoldLeft(op, base, seq)
Elements(seq) == { seq[i] : i \in DOMAIN seq }
AsSeq(set) == SetToSeq(set)
=============================================================================
