-------------------------------- MODULE Sim --------------------------------
(* The life of layers and simulations (C01 - C04).                          *)
(*                                                                           *)
(* Layers are mutable objects shared by reference: they hold a permittivity  *)
(* and a thickness (abstracted to version numbers), know the layer they were *)
(* copied from, and store the modes computed by the last simulation that     *)
(* solved them.  A simulation remembers whether it solved its layers, the    *)
(* scattering matrix of the whole stack and those of ranges of layers.       *)
(* Numerical values are abstracted to the versions they were computed from:  *)
(* an answer is the record of all (mode, thickness) versions that entered it.*)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Sims,       \* simulations
          Base,       \* initial layers
          Copies,     \* names of layers made by copying
          Kind,       \* [Base -> {"u", "p", "m"}]  uniform, patterned, or patterned in version 2 only
          DVals, EVals,  \* versions of thicknesses and permittivities
          Stacks,     \* possible stacks, sequences of layers
          Queries,    \* kinds of queries asked
          NoSetE,     \* layers whose permittivity is not changed (incidence medium)
          CopyEps,    \* permittivities a layer can be given right after it is copied
          Spoils,     \* layers that take part in attempts to solve that fail
          Fault       \* "none", or a design fault (to check that the invariants see it)

VARIABLES obj,    \* [layer -> [eps, d, kind, org]], layers in existence
          modes,  \* [layer -> [eps, ctx]]   the stored modes
          by,     \* [layer -> simulation that solved it last, or "none"]
          sim,    \* [simulation -> [stack, valid, S, parts]]
          dirty,  \* [simulation -> what the user still has to reset]
          ans     \* the last answer: what it was, what it had to be

vars == <<obj, modes, by, sim, dirty, ans>>
AllObj == Base \cup Copies
None == [eps |-> -1, ctx |-> "none"]
NoSim == [stack |-> <<>>, valid |-> FALSE, hasS |-> FALSE, S |-> <<>>, parts |-> {}]
NoAns == [clean |-> FALSE, got |-> <<>>, want |-> <<>>]

Init ==
  /\ obj = [o \in Base |-> [eps |-> 0, d |-> 0, kind |-> Kind[o], org |-> o]]
  /\ modes = [o \in AllObj |-> None]
  /\ by = [o \in AllObj |-> "none"]
  /\ sim = [s \in Sims |-> NoSim]
  /\ dirty = [s \in Sims |-> {}]
  /\ ans = NoAns

Exists(o) == o \in DOMAIN obj
Patterned(o) == obj[o].kind = "p" \/ (obj[o].kind = "m" /\ obj[o].eps = 2)
Built(s) == sim[s].stack # <<>>
InStack(o, s) == \E i \in DOMAIN sim[s].stack : sim[s].stack[i] = o
Last(s) == Len(sim[s].stack)

---------------------------------------------------------------------------
(* Construction *)
Copy(o, c, e) ==
  /\ Exists(o) /\ c \in Copies /\ ~Exists(c)
  /\ obj' = [x \in DOMAIN obj \cup {c} |-> IF x = c THEN [obj[o] EXCEPT !.org = o, !.eps = e] ELSE obj[x]]
  \* the copy takes whatever the original stores
  /\ modes' = [modes EXCEPT ![c] = modes[o]]
  /\ by' = [by EXCEPT ![c] = by[o]]
  /\ UNCHANGED <<sim, dirty>>
  /\ ans' = NoAns
Build(s, st) ==
  /\ ~Built(s)
  /\ \A i \in DOMAIN st : Exists(st[i])
  /\ ~Patterned(st[1]) /\ ~Patterned(st[Len(st)])   \* the outer media are uniform
  /\ sim' = [sim EXCEPT ![s] = [NoSim EXCEPT !.stack = st]]
  /\ UNCHANGED <<obj, modes, by, dirty>>
  /\ ans' = NoAns
---------------------------------------------------------------------------
(* Changes by the user *)
SetD(o, d) ==
  /\ Exists(o) /\ obj[o].d # d
  /\ obj' = [obj EXCEPT ![o].d = d]
  /\ dirty' = [s \in Sims |-> IF InStack(o, s) THEN dirty[s] \cup {"S"} ELSE dirty[s]]
  /\ UNCHANGED <<modes, by, sim>>
  /\ ans' = NoAns
SetE(o, e) ==
  /\ Exists(o) /\ obj[o].eps # e /\ o \notin NoSetE
  \* outer media stay uniform
  /\ obj[o].kind = "m" /\ e = 2 => \A s \in Sims : Built(s) => o \notin {sim[s].stack[1], sim[s].stack[Last(s)]}
  /\ obj' = [obj EXCEPT ![o].eps = e]
  /\ dirty' = [s \in Sims |-> IF InStack(o, s) THEN dirty[s] \cup {"S", "modes"} ELSE dirty[s]]
  /\ UNCHANGED <<modes, by, sim>>
  /\ ans' = NoAns
Reset(s, what) ==
  /\ Built(s)
  /\ sim' = [sim EXCEPT ![s] =
       [@ EXCEPT !.valid = IF what \in {"solve", "all"} THEN FALSE ELSE @,
                 !.hasS = IF what \in {"S", "all"} THEN FALSE ELSE @,
                 !.parts = IF what \in {"S", "all"} /\ Fault # "parts survive" THEN {} ELSE @]]
  /\ dirty' = [dirty EXCEPT ![s] = @ \ (CASE what = "S" -> {"S"} [] what = "solve" -> {"modes"} [] what = "all" -> {"S", "modes"})]
  /\ UNCHANGED <<obj, modes, by>>
  /\ ans' = NoAns
---------------------------------------------------------------------------
(* Solving: the modes of every layer, from the top to the bottom *)
Solved(s) == /\ sim[s].valid
             /\ Fault = "flag only" \/ \A i \in 1..Last(s) : by[sim[s].stack[i]] = s
(* a copy takes the modes of its original when that is above it in the stack *)
Shares(st, i) ==
  LET o == st[i]
      g == obj[o].org
  IN /\ g # o /\ Patterned(o)
     /\ (\E j \in 1..(i - 1) : st[j] = g) \/ Fault = "share anywhere"
     /\ obj[g].eps = obj[o].eps \/ Fault = "share blindly"
RECURSIVE SolveFrom(_, _, _)
SolveFrom(s, i, m) ==
  LET st == sim[s].stack IN
  IF i > Len(st) THEN m
  ELSE LET o == st[i]
           new == IF Shares(st, i) THEN m[obj[o].org] ELSE [eps |-> obj[o].eps, ctx |-> s]
       IN SolveFrom(s, i + 1, [m EXCEPT ![o] = new])
ModesAfter(s) == IF Solved(s) THEN modes ELSE SolveFrom(s, 1, modes)
ByAfter(s) == IF Solved(s) THEN by ELSE [o \in AllObj |-> IF InStack(o, s) THEN s ELSE by[o]]
(* Another simulation over the layers 1 and o and a layer that cannot be      *)
(* solved, further down: the attempt overwrites the modes of 1 and o, whoever *)
(* they belonged to, and fails                                                *)
Spoil(o) ==
  /\ Exists(o)
  /\ modes' = [x \in AllObj |-> IF x \in {1, o} THEN [eps |-> obj[x].eps, ctx |-> "attempt"] ELSE modes[x]]
  /\ by' = [x \in AllObj |-> IF x \in {1, o} /\ Fault # "attempts go unnoticed" THEN "none" ELSE by[x]]
  /\ UNCHANGED <<obj, sim, dirty>>
  /\ ans' = NoAns
---------------------------------------------------------------------------
(* Scattering matrices of ranges of interfaces a..b-1, remembered by range *)
Snap(s, m, a, b) == [i \in a..b |-> [m |-> m[sim[s].stack[i]], d |-> obj[sim[s].stack[i]].d]]
Key(a, b) == IF Fault = "key without start" THEN <<b>> ELSE <<a, b>>
Hit(parts, a, b) == \E p \in parts : p.key = Key(a, b)
GetPart(s, m, parts, a, b) ==
  IF Hit(parts, a, b) THEN (CHOOSE p \in parts : p.key = Key(a, b)).snap ELSE Snap(s, m, a, b)
AddPart(s, m, parts, a, b) ==
  IF Hit(parts, a, b) THEN parts
  ELSE { p \in parts : ~ \E c \in (a + 1)..b : p.key = Key(a, c) }
       \cup { [key |-> Key(a, c), snap |-> Snap(s, m, a, c)] : c \in (a + 1)..b }
---------------------------------------------------------------------------
(* Queries.  Layers and ranges are given by position. *)
ExtKinds == {"eff", "ord", "dict", "cpl", "cplsum"}
FieldKinds == {"four", "grid", "comp", "stress"}
PlainKinds == {"look", "oidx"}   \* answered from the construction
Kinds == ExtKinds \cup FieldKinds \cup PlainKinds \cup {"S", "range", "eps", "solve"}

(* the answer and the new memory of scattering matrices, given the modes *)
Ask(s, q, a, b, m, hasS, S, parts) ==
  LET n == Last(s)
      full == GetPart(s, m, parts, 1, n)
      fullparts == AddPart(s, m, parts, 1, n)
      S1 == IF hasS THEN S ELSE full
      p1 == IF hasS THEN parts ELSE fullparts
  IN CASE q = "S" -> [got |-> full, hasS |-> TRUE, S |-> full, parts |-> fullparts]
       [] q = "range" /\ a = b -> [got |-> <<>>, hasS |-> hasS, S |-> S, parts |-> parts]
       [] q = "range" /\ a < b -> [got |-> GetPart(s, m, parts, a, b), hasS |-> hasS, S |-> S, parts |-> AddPart(s, m, parts, a, b)]
       [] q \in ExtKinds -> [got |-> <<S1, m[sim[s].stack[1]], m[sim[s].stack[n]]>>, hasS |-> TRUE, S |-> S1, parts |-> p1]
       [] q \in FieldKinds /\ a \in {1, n} -> [got |-> <<S1, m[sim[s].stack[a]], obj[sim[s].stack[a]].d>>, hasS |-> TRUE, S |-> S1, parts |-> p1]
       [] q \in FieldKinds /\ a \notin {1, n} ->
            LET u == GetPart(s, m, parts, 1, a)
                pu == AddPart(s, m, parts, 1, a)
                v == GetPart(s, m, pu, a, n)
            IN [got |-> <<u, v, m[sim[s].stack[a]], obj[sim[s].stack[a]].d>>, hasS |-> hasS, S |-> S, parts |-> AddPart(s, m, pu, a, n)]
       [] q = "eps" -> [got |-> <<obj[sim[s].stack[a]].eps>>, hasS |-> hasS, S |-> S, parts |-> parts]
       [] OTHER -> [got |-> <<>>, hasS |-> hasS, S |-> S, parts |-> parts]

NeedsModes(s, q) == q \notin PlainKinds \cup {"eps"}
(* The modes a freshly built simulation over independent layers would have *)
FreshModes(s) == [o \in AllObj |-> IF Exists(o) THEN [eps |-> obj[o].eps, ctx |-> s] ELSE None]
Query(s, q, a, b) ==
  /\ Built(s) /\ q \in Queries
  /\ a \in 1..Last(s) /\ b \in a..Last(s)
  /\ q \in FieldKinds \cup {"eps", "look"} => b = a
  /\ q \in ExtKinds \cup {"S", "solve", "oidx"} => a = 1 /\ b = 1
  /\ LET m == IF NeedsModes(s, q) THEN ModesAfter(s) ELSE modes
         r == Ask(s, q, a, b, m, sim[s].hasS, sim[s].S, sim[s].parts)
         f == Ask(s, q, a, b, FreshModes(s), FALSE, <<>>, {})
     IN /\ modes' = m
        /\ by' = IF NeedsModes(s, q) THEN ByAfter(s) ELSE by
        /\ sim' = [sim EXCEPT ![s] = [@ EXCEPT !.valid = (@ \/ NeedsModes(s, q)), !.hasS = r.hasS, !.S = r.S, !.parts = r.parts]]
        /\ ans' = [clean |-> dirty[s] = {}, got |-> r.got, want |-> f.got]
  /\ dirty' = [dirty EXCEPT ![s] = IF "modes" \in @ THEN @ \cup {"S"} ELSE @]
  /\ UNCHANGED obj
---------------------------------------------------------------------------
Ops(s) == \E q \in Queries, a, b \in 1..6 : Query(s, q, a, b)
Next ==
  \/ \E s \in Sims : Ops(s)
  \/ \E s \in Sims, w \in {"S", "solve", "all"} : Reset(s, w)
  \/ \E s \in Sims, st \in Stacks : Build(s, st)
  \/ \E o \in AllObj, d \in DVals : SetD(o, d)
  \/ \E o \in AllObj, e \in EVals : SetE(o, e)
  \/ \E o \in Spoils : Spoil(o)
  \/ \E o \in AllObj, c \in Copies, e \in EVals : Exists(o) /\ (e = obj[o].eps \/ e \in CopyEps) /\ Copy(o, c, e)
Spec == Init /\ [][Next]_vars

(* Every answer of a simulation whose user made the necessary resets is the  *)
(* one of a fresh simulation.                                                *)
Fresh == ans.clean => ans.got = ans.want
TypeOK == /\ \A s \in Sims : dirty[s] \subseteq {"S", "modes"}
          /\ \A o \in DOMAIN obj : obj[o].org \in DOMAIN obj
(* The current versions of a simulation's layers, top to bottom *)
Current(s) == [i \in 1..Last(s) |-> << obj[sim[s].stack[i]].eps, obj[sim[s].stack[i]].d >>]
=============================================================================
