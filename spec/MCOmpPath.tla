------------------------------ MODULE MCOmpPath ------------------------------
EXTENDS OmpPath
Trits == -1..1
Target3 == <<1, 2, -4>>
Target4 == <<2, -1, 0, 3>>
===============================================================================
