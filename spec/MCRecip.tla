------------------------------- MODULE MCRecip -------------------------------
EXTENDS Recip
==============================================================================
