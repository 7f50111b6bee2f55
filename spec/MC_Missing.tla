----------------------------- MODULE MC_Missing -----------------------------
EXTENDS Missing
=============================================================================
