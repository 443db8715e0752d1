----------------------------- MODULE MCManager -----------------------------
EXTENDS Manager
OffersA == [s \in Servers |-> IF s = 1 THEN {"i", "a"} ELSE {"i", "b", "x"}]
FactoriesA == {"i", "a", "b"}
=============================================================================
