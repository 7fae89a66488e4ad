----------------------------- MODULE Validation ------------------------------
(* Which calls are accepted (C21).  A session has a lattice of period        *)
(* dimension dim (1: mono-periodic) with its number of points and the        *)
(* harmonics to retain, and a stack; calls are sequences of tokens.          *)
(* Verdict: <<"accept">>, <<"free">> (not documented either way) or          *)
(* <<"reject", kinds of exception>>.                                         *)
EXTENDS Integers, Sequences, FiniteSets
Value == {"ValueError"}
Missing == {"KeyError", "IndexError", "ValueError"}
Todo == {"NotImplementedError"}
Free == [v |-> "free", kinds |-> {}]
Accept == [v |-> "accept", kinds |-> {}]
Reject(k) == [v |-> "reject", kinds |-> k]
OkIf(ok, k) == IF ok THEN Accept ELSE Reject(k)
Max(a, b) == IF a > b THEN a ELSE b
Abs(n) == IF n < 0 THEN -n ELSE n
(* largest index of the harmonics H along a *)
Top(H, a) == LET S == {Abs(h[a]) : h \in H} IN CHOOSE m \in S : \A x \in S : x <= m
(* enough points to tell the harmonics apart *)
Resolved(s) == /\ s.disc[1] > 2 * Top(s.H, 1) /\ (s.dim = 2 => s.disc[2] > 2 * Top(s.H, 2))
Ample(s) == LET m == Max(Top(s.H, 1), Top(s.H, 2)) IN s.disc[1] > 2 * m /\ (s.dim = 2 => s.disc[2] > 2 * m)
Formulations == {"original", "tangent", "jones", "pol"}
Truncations == {"circular", "parallelogrammic"}
Fields == {"all", "E", "H"}
Components == {"all", "x", "y", "z"}
Numbered == {"index0", "index1", "last", "minus1", "minusn"}
Named == {"name first", "name inner", "name last", "object", "namesake"}
Shapes == {"polygon", "circle", "ellipse", "square", "rectangle"}
(* the verdicts on the parts of a simulation *)
Names(t) == OkIf(t = "distinct", Value)
(* an equal lattice made anew may or may not pass; other periods, points or harmonics do not *)
Lattices(t) == IF t = "equal inner" THEN [Free EXCEPT !.kinds = {"AssertionError", "ValueError"}] ELSE OkIf(t = "same", {"AssertionError", "ValueError"})
Formulation(s, f) == OkIf(f \in Formulations /\ (s.dim = 1 => f \in {"original", "tangent"}), Value)
Resolution(s) == IF Ample(s) THEN Accept ELSE IF ~Resolved(s) THEN Reject(Value) ELSE Free
(* rejected when a part is, for the reason of one of them *)
Together(S) == IF \E x \in S : x.v = "reject" THEN Reject(UNION {x.kinds : x \in S})
               ELSE IF \E x \in S : x.v = "free" THEN Free ELSE Accept
Layer(d, mu) == Together({OkIf(d \notin {"negative", "barely negative"}, Value),
                          IF mu \in {"one", "one float", "one complex"} THEN Accept
                          ELSE IF mu \in {"tensor", "pattern"} THEN Reject({"NotImplementedError", "ValueError", "RuntimeError"}) ELSE Reject(Todo)})
Identified(id) == IF id \in Numbered \cup Named THEN Accept
                  ELSE IF id \in {"beyond", "before"} THEN Reject(Missing)
                  ELSE IF id \in {"true", "numpy int"} THEN Free ELSE Reject(Value)
Order(s, o) == CASE o \in {"pair", "list", "negative pair"} -> Accept
                 [] o = "integer" -> OkIf(s.dim = 1, Value)
                 [] o = "absent integer" -> OkIf(FALSE, IF s.dim = 1 THEN Missing ELSE Value)
                 [] o \in {"absent pair", "far pair"} -> Reject(Missing)
                 [] o \in {"triple", "single", "empty", "none", "float"} -> Reject(Value)
                 [] o \in {"text", "half pair"} -> Reject(Missing \cup {"TypeError"})
                 [] OTHER -> Free
Verdict(s, c) ==
  CASE c[1] = "lattice" -> IF c[2] \in Truncations THEN Accept ELSE IF s.dim = 1 THEN Free ELSE Reject(Value)
    [] c[1] = "harmonics" -> IF c[2] = "whole" THEN Free ELSE OkIf(c[2] = "integer", Value)
    [] c[1] = "shape" -> OkIf(c[2] = "stripe" \/ s.dim = 2, Value)
    [] c[1] = "layer" -> Layer(c[2], c[3])
    [] c[1] = "simulation" -> Together({Names(c[2]), Lattices(c[3]), Formulation(s, c[4]), Resolution([s EXCEPT !.disc = <<c[5], c[6]>>])})
    [] c[1] = "identify" -> Identified(c[3])
    [] c[1] = "field" -> Together({OkIf(c[2] # "get_field_grid" \/ c[3] \in Fields, Value), OkIf(c[4] \in Components, Value)})
    [] c[1] = "order" -> Order(s, c[2])
    [] c[1] = "tangent" -> IF s.dim = 1 \/ c[3] = "original" THEN Free ELSE Together({Formulation(s, c[3]), OkIf(c[2] \in {"fft", "opt"}, Value)})
    [] c[1] = "uniform tensor" -> Reject(Todo)
    [] c[1] = "anisotropic" -> Formulation(s, c[2])
    [] c[1] = "plot" -> Together({OkIf(c[2] \in {"re", "im"}, Value), OkIf(c[3] \in {"integer", "pair", "list"}, Value)})
    [] c[1] = "backend" -> Reject(Value)
    [] c[1] = "gradient" -> Reject(Todo)
=============================================================================
