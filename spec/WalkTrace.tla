----------------------------- MODULE WalkTrace -------------------------------
(* Validates recorded fields against Walk: exact planar stacks, and walks    *)
(* down patterned stacks where the tangential fields of all harmonics are    *)
(* carried in the state from one face to the next.                           *)
EXTENDS Walk, Emit, IOUtils
CONSTANTS Tol, TolW
VARIABLES i, tang
tvars == <<vars, i, tang>>
Trace == ndJsonDeserialize(IOEnv.TRACE_DIR \o "/trace.ndjson")
ev == Trace[i]
Is(name) == i <= Len(Trace) /\ ev.ev = name
Bad(clause) == Emit("BAD", [line |-> i, clause |-> clause])
Clause(name, ok) == IF ok THEN TRUE ELSE Bad(name)
FixC(z) == << Fix(z[1], z[3], 6), Fix(z[2], z[3], 6) >>
AbsF(x) == IF x < 0 THEN -x ELSE x
SizeZ(z) == (AbsF(z[1]) + AbsF(z[2])) \div z[3]
NearF(f, o) == LET g == FixC(f) IN Near(g[1], o[1], Tol + 2 * SizeZ(f)) /\ Near(g[2], o[2], Tol + 2 * SizeZ(f))
(* --- exact planar stacks, climbing --- *)
Medium == /\ Is("medium") /\ kap' = ev.kap /\ sub' = ev.sub /\ pol' = ev.pol /\ stack' = <<>> /\ faces' = <<>> /\ UNCHANGED tang
LayerEv == Is("layer") /\ AddLayer(ev.q, ev.m) /\ UNCHANGED tang
Measure ==
  /\ Is("measure")
  /\ IF ev.err # "" THEN Bad("no answer")
     ELSE /\ Clause("exact field under the stack", NearF(One, ev.bottom.E) /\ NearF(Eta(pol, kap, sub), ev.bottom.H))
          /\ \A n \in DOMAIN faces :
               /\ Clause("exact field at the lower face", NearF(faces[n].down.E, ev.faces[n].down.E) /\ NearF(faces[n].down.H, ev.faces[n].down.H))
               /\ Clause("exact field at the upper face", NearF(faces[n].up.E, ev.faces[n].up.E) /\ NearF(faces[n].up.H, ev.faces[n].up.H))
          /\ Clause("exact field in the incidence medium", NearF(Top.E, ev.top.E) /\ NearF(Top.H, ev.top.H))
  /\ UNCHANGED <<vars, tang>>
(* --- patterned stacks, descending; numbers relative to the largest field --- *)
Same(a, b, tol) == Len(a) = Len(b) /\ \A n \in DOMAIN a : Near(a[n], b[n], tol)
Begin == /\ Is("begin") /\ tang' = <<>> /\ UNCHANGED vars
         /\ Clause("no answer", ev.err = "")
(* upper face of the next layer: the tangential fields did not change *)
Enter == /\ Is("enter") /\ tang' = ev.f /\ UNCHANGED vars
         /\ (tang # <<>> => Clause("tangential fields are continuous at the interface", Same(tang, ev.f, TolW)))
(* lower face of the same layer *)
Leave == /\ Is("leave") /\ tang' = ev.f /\ UNCHANGED vars
(* between two depths of a layer: Maxwell's equations *)
Inside == /\ Is("inside") /\ UNCHANGED <<vars, tang>>
          /\ Clause("the harmonics propagate as Maxwell's equations say", Same(ev.want, ev.f, TolW))
Normal == /\ Is("normal") /\ UNCHANGED <<vars, tang>>
          /\ Clause("normal components follow from Maxwell's equations", Same(ev.want, ev.f, TolW))
(* outer media: what is not the incident wave leaves the stack *)
Outer == /\ Is("outer") /\ UNCHANGED <<vars, tang>>
         /\ Clause("incident and outgoing waves only", Same(ev.want, ev.f, TolW))
Done == i = Len(Trace) => Emit("DONE", i)
TInit == i = 1 /\ kap = <<0, 1>> /\ sub = One /\ pol = "s" /\ stack = <<>> /\ faces = <<>> /\ tang = <<>>
TNext == /\ i <= Len(Trace) /\ (Medium \/ LayerEv \/ Measure \/ Begin \/ Enter \/ Leave \/ Inside \/ Normal \/ Outer) /\ i' = i + 1 /\ Done
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
