--------------------------- MODULE ThreadPoolMC ---------------------------
EXTENDS ThreadPool
B0 == <<>>
B21 == <<2, 1>>
B202 == <<2, 0, 2>>
B13 == <<1, 3>>
B2 == <<2>>
B211 == <<2, 1, 1>>
N0 == {}
NX == {<<1, 1, 2>>, <<1, 0, 0>>}
=====================================================================
