----------------------------- MODULE MC_Static ------------------------------
EXTENDS Static
K23 == {2, 3}
K2 == {2}
=============================================================================
