----------------------------- MODULE MCFraming -----------------------------
EXTENDS Framing
M(i, n, d) == [id |-> i, name |-> n, data |-> d]
\* payloads that look like lengths and ids; empty names and empty payloads
MsgsA == [w \in {1, 2} |-> IF w = 1 THEN <<M(1, <<2>>, <<1, 1, 0>>), M(0, <<>>, <<>>)>> ELSE <<M(2, <<1>>, <<2, 0>>)>>]
MsgsB == [w \in {1, 2} |-> IF w = 1 THEN <<M(1, <<2>>, <<1, 1, 0, 2>>), M(0, <<>>, <<>>), M(3, <<0, 1>>, <<1>>)>>
                           ELSE <<M(2, <<1>>, <<2, 0>>), M(0, <<1>>, <<0, 0, 0>>)>>]
=============================================================================
