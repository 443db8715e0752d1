------------------------------ MODULE MCStream ------------------------------
EXTENDS Stream
L3 == <<1, 2, 1>>
L4 == <<2, 1, 3, 1>>
=============================================================================
