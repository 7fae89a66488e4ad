----------------------------- MODULE MCGradient ------------------------------
EXTENDS Gradient
points == {-1, 0, 2}
=============================================================================
