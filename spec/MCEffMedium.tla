---------------------------- MODULE MCEffMedium ------------------------------
EXTENDS EffMedium, Emit
few == {<<1, 1>>, <<2, 1>>, <<9, 4>>, <<6, 1>>}
many == {<<1, 1>>, <<3, 2>>, <<2, 1>>, <<9, 4>>, <<3, 1>>, <<4, 1>>, <<6, 1>>}
EmitMedium == n = MaxPoints => Emit("MEDIUM", [pts |-> pts, direct |-> [a \in Axes |-> Eff("direct", a)], inverse |-> [a \in Axes |-> Eff("inverse", a)],
                                                grooved |-> [a \in Axes |-> EffOf(Grooved(pts), "inverse", a)]])
=============================================================================
