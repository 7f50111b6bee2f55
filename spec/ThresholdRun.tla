---------------------------- MODULE ThresholdRun ----------------------------
EXTENDS Threshold, Events
=============================================================================
