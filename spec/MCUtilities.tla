----------------------------- MODULE MCUtilities -----------------------------
EXTENDS Utilities
Few == {-2, -1, 0, 2}
===============================================================================
