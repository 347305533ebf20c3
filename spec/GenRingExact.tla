---------------------------- MODULE GenRingExact ----------------------------
EXTENDS GenExact, GenRing
=============================================================================
