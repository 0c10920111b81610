------------------------------ MODULE MCSaScore ------------------------------
EXTENDS SaScore
MapsQuick == {<<1, 2, 3, 4>>, <<4, 3, 2, 1>>, <<2, 1, 2, 3>>, <<1, 1, 1, 1>>, <<3, 1, 4, 2>>}
MapsThorough == {f \in [1..4 -> 1..4] : \A i \in 1..4 : f[i] <= 1 + Cardinality({f[j] : j \in 1..4})}
==============================================================================
