------------------------------- MODULE MCBnB -------------------------------
(* constants for model checking BnB (configuration files cannot hold negative numbers) *)
EXTENDS BnB
CutZero == {0}
CutNeg == {-2, 0}
CutPos == {0, 2}
CutBoth == {-2, 0, 2}
CutAll == {-100, -2, -1, 0, 1, 2, 100}
============================================================================
