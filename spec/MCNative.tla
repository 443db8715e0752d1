------------------------------ MODULE MCNative ------------------------------
EXTENDS Native
CONSTANTS a, b, c
MCId == (a :> 1) @@ (b :> 1) @@ (c :> 2)
=============================================================================
