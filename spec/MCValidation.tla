---------------------------- MODULE MCValidation -----------------------------
(* Sessions: accepted and rejected calls in any order on the same objects.   *)
EXTENDS Validation, Emit
CONSTANTS Steps, Random
VARIABLES s, calls, good
vars == <<s, calls, good>>
Hs == {<<0, 0>>} \cup {<<1, 0>>, <<-1, 0>>}
Sets == {Hs \cup X : X \in SUBSET {<<2, 0>>, <<0, 1>>, <<0, -1>>, <<-3, 1>>, <<1, -2>>}}
Sessions == [dim : {1, 2}, disc : {<<8, 8>>, <<9, 8>>}, H : Sets]
Own(x) == (x.dim = 1 => \A h \in x.H : h[2] = 0) /\ Ample(x)
Pick(S) == IF Random THEN {RandomElement(S)} ELSE S
Menu == ({"lattice"} \X {"circular", "parallelogrammic", "square", "Circular", "", "none"})
  \cup ({"harmonics"} \X {"integer", "whole", "fraction"})
  \cup ({"shape"} \X (Shapes \cup {"stripe"}))
  \cup ({"layer"} \X {"zero", "positive", "none", "negative", "barely negative"} \X {"one", "one float", "one complex", "two", "lossy", "tensor", "pattern", "zero"})
  \cup ({"simulation"} \X {"distinct", "adjacent twins", "far twins", "same layer twice"} \X {"same", "other first", "other inner", "other last", "equal inner", "grid first", "grid inner", "grid last", "harmonics first", "harmonics inner"}
        \X {"original", "tangent", "jones", "pol", "Original", "", "none", "normal"} \X (2..9) \X (2..9))
  \cup ({"identify"} \X {"get_layer", "get_epsilon", "get_field_fourier", "get_field_grid", "get_z_stress_tensor_integral", "get_layer_by_name", "build_matrix"}
        \X (Numbered \cup Named \cup {"unknown", "empty", "beyond", "before", "stranger", "float", "none", "list", "true", "numpy int", "case"}))
  \cup ({"field"} \X {"get_field_grid", "get_Efield_grid", "get_Hfield_grid"} \X {"all", "E", "H", "e", "D", "", "none"} \X {"all", "x", "y", "z", "X", "xy", "none", ""})
  \cup ({"order"} \X {"pair", "list", "negative pair", "integer", "absent integer", "absent pair", "far pair", "triple", "single", "empty", "none", "float", "text", "half pair", "array"})
  \cup ({"tangent"} \X {"opt", "fft", "min", "Opt", "none", ""} \X Formulations)
  \cup ({"uniform tensor"} \X {"inner", "copied"})
  \cup ({"anisotropic"} \X Formulations)
  \cup ({"plot"} \X {"re", "im", "abs", "", "none"} \X {"integer", "pair", "list", "float", "triple", "none"})
  \cup ({"backend"} \X {"cupy", "", "Numpy", "none"})
  \cup {<<"gradient">>}
(* every kind of call as often as the others *)
Tags == {"lattice", "harmonics", "shape", "layer", "simulation", "identify", "field", "order", "tangent", "uniform tensor", "anisotropic", "plot", "backend", "gradient"}
ByTag == [t \in Tags |-> {c \in Menu : c[1] = t}]
(* sizes and names that pass alone, so that a single fault decides *)
Likely(t) == IF t # "simulation" THEN ByTag[t]
             ELSE {c \in ByTag[t] : Cardinality({k \in 2..4 : c[k] \notin {"distinct", "same", "original", "tangent", "pol"}}) <= 1}
(* and simulations whose number of points alone decides *)
LikelyBy == [t \in Tags \cup {"sizes"} |-> IF t = "sizes" THEN {c \in ByTag["simulation"] : c[2] = "distinct" /\ c[3] = "same" /\ c[4] = "original"} ELSE Likely(t)]
Owned == {x \in Sessions : Own(x)}
Start == [dim |-> 1, disc |-> <<8, 8>>, H |-> Hs]
Init == s = Start /\ calls = <<>> /\ good = -1
Open == good = -1 /\ s' \in Pick(Owned) /\ good' = 0 /\ UNCHANGED calls
Call == /\ Len(calls) < Steps /\ good >= 0
        /\ \E t \in Pick(Tags \cup {"sizes"}) : \E c \in Pick(LikelyBy[t]) :
             /\ calls' = Append(calls, c)
             /\ good' = good + (IF Verdict(s, c).v = "reject" THEN 0 ELSE 1)
             /\ UNCHANGED s
Next == Open \/ Call
Spec == Init /\ [][Next]_vars
(* the decision is total and names what may be raised *)
TotalOK == calls = <<>> => \A c \in Menu : LET v == Verdict(s, c) IN v.v \in {"accept", "reject", "free"} /\ (v.v = "reject" <=> v.kinds # {})
(* more points never turn an accepted simulation into a rejected one, fewer harmonics neither *)
FinerOK == calls = <<>> => \A a, b \in 2..8, f \in {"original", "pol"} :
  LET v(x, y) == Verdict(s, <<"simulation", "distinct", "same", f, x, y>>).v
  IN v(a, b) = "accept" => v(a + 1, b) = "accept" /\ v(a, b + 1) = "accept"
FewerOK == calls = <<>> => \A h \in s.H \ {<<0, 0>>}, a, b \in 2..9 :
  LET c == <<"simulation", "distinct", "same", "original", a, b>>
  IN Verdict(s, c).v = "accept" => Verdict([s EXCEPT !.H = @ \ {h}], c).v = "accept"
(* one wrong part is enough *)
PartsOK == calls = <<>> => \A c \in {x \in ByTag["simulation"] : x[5] = 9 /\ x[6] \in {4, 9}} : (c[2] # "distinct" \/ c[3] \notin {"same", "equal inner"} \/ c[4] \notin Formulations) => Verdict(s, c).v = "reject"
(* whatever is accepted on a bi-periodic lattice for orders and shapes is accepted or rejected by kind on the other, never free *)
DimOK == calls = <<>> => \A c \in ByTag["shape"] : Verdict([s EXCEPT !.dim = 2], c).v = "accept"
EmitSession == Len(calls) = Steps => Emit("SESSION", [s |-> s, calls |-> calls])
=============================================================================
