----------------------------- MODULE MC_Kernel ------------------------------
EXTENDS Kernel
DimsQ == {<<1, 2>>, <<1, 1, 1>>}
DimsT == {<<1, 2>>, <<2, 2>>, <<1, 1, 2>>, <<1, 2, 1>>}
Odds1 == {<<1, 3>>}
Odds2 == {<<1, 1>>, <<1, 3>>}
Ls2 == {1, 2}
=============================================================================
