------------------------------ MODULE Incidence ------------------------------
(* Descriptions of one incident wave by angles, and its polarization (C30).  *)
(* Angles are quarter turns and multiples of atan(3/4): sines and cosines    *)
(* are exact.  theta: polar, phi: azimuth, psi: polarization (0: p, 1/4: s). *)
EXTENDS Integers, Sequences
CONSTANTS MaxN, MaxSteps, Kinds
VARIABLES base,   \* [th, ph]: the wave: theta (multiple), phi [q, n]
          th, ph, ps, \* the description: [q, n], with whole turns kept in q
          pol,    \* the polarization [q, n] of the wave, from the p state
          log
vars == <<base, th, ph, ps, pol, log>>
(* 25 (cos, sin) *)
P(n) == CASE n = 0 -> <<25, 0>> [] n = 1 -> <<20, 15>> [] n = -1 -> <<20, -15>> [] n = 2 -> <<7, 24>> [] n = -2 -> <<7, -24>>
Turned(v, q) == CASE q % 4 = 0 -> v [] q % 4 = 1 -> <<-v[2], v[1]>> [] q % 4 = 2 -> <<-v[1], -v[2]>> [] q % 4 = 3 -> <<v[2], -v[1]>>
CS(a) == Turned(P(a[2]), a[1])
Ns == -MaxN..MaxN
Angle == (0..3) \X Ns
Plus(a, b) == <<a[1] + b[1], a[2] + b[2]>>
Fits(a) == a[2] \in Ns
(* the wave of a description: lateral wavevector and electric vector, in 25^2 and 25^3 *)
K(t, p) == << CS(t)[2] * CS(p)[1], CS(t)[2] * CS(p)[2] >>
E(t, p, s) == << CS(s)[1] * CS(t)[1] * CS(p)[1] - 25 * CS(s)[2] * CS(p)[2],
                 CS(s)[1] * CS(t)[1] * CS(p)[2] + 25 * CS(s)[2] * CS(p)[1],
                 -25 * CS(s)[1] * CS(t)[2] >>
Init == /\ \E t \in Ns, p \in Angle : base = [th |-> <<0, t>>, ph |-> p]
        /\ th = base.th /\ ph = base.ph /\ ps = <<0, 0>> /\ pol = <<0, 0>> /\ log = <<>>
Note == /\ Len(log) < MaxSteps
        /\ log' = Append(log, [th |-> th', ph |-> ph', ps |-> ps', c |-> CS(pol')[1], s |-> CS(pol')[2]])
        /\ UNCHANGED base
(* the polarization turns *)
Rotate(a) == /\ "rotate" \in Kinds /\ pol' = Plus(pol, a) /\ ps' = Plus(ps, a) /\ Fits(pol') /\ Fits(ps') /\ UNCHANGED <<th, ph>>
(* the other side of the polar axis: p and s vectors are both reversed *)
Over == /\ "over" \in Kinds /\ th' = <<-th[1], -th[2]>> /\ ph' = Plus(ph, <<2, 0>>) /\ ps' = Plus(ps, <<2, 0>>) /\ UNCHANGED pol
(* whole turns *)
Wind(k, w) == /\ "wind" \in Kinds
              /\ th' = (IF k = 1 THEN Plus(th, <<4 * w, 0>>) ELSE th)
              /\ ph' = (IF k = 2 THEN Plus(ph, <<4 * w, 0>>) ELSE ph)
              /\ ps' = (IF k = 3 THEN Plus(ps, <<4 * w, 0>>) ELSE ps)
              /\ UNCHANGED pol
(* along the axis there is no plane of incidence *)
Swing(a) == /\ "swing" \in Kinds /\ th[2] = 0 /\ ph' = Plus(ph, a) /\ ps' = Plus(ps, <<-a[1], -a[2]>>) /\ Fits(ph') /\ Fits(ps') /\ UNCHANGED <<th, pol>>
Next == /\ \/ \E a \in Angle : Rotate(a) \/ Swing(a)
           \/ Over
           \/ \E k \in 1..3, w \in {-1, 1} : Wind(k, w)
        /\ Note
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------
Near0 == \A x \in {th, ph, ps} : x[1] \in -9..9
Small == Len(log) < MaxSteps
Viewed == <<base, th, ph, ps, pol>>
(* the description has the lateral wavevector of the wave *)
WaveOK == K(th, ph) = K(base.th, base.ph) /\ CS(th)[1] > 0
(* and its electric vector is the superposition of the p and s states that pol says *)
SuperposedOK == LET p == E(base.th, base.ph, <<0, 0>>)
                    s == E(base.th, base.ph, <<1, 0>>)
                    e == E(th, ph, ps)
                IN \A k \in 1..3 : 25 * e[k] = CS(pol)[1] * p[k] + CS(pol)[2] * s[k]
==============================================================================
