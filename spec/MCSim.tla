------------------------------- MODULE MCSim -------------------------------
(* Explores Sim and emits histories of operations. *)
EXTENDS Sim, Emit
CONSTANTS Depth, EmitHist, Resets,
          Careful,  \* users seldom ask before they reset
          Script    \* the kinds of operations of histories step by step, or <<>>
VARIABLE hist
mvars == <<vars, hist>>
cKind == [o \in Base |-> IF o \in {1, 2} THEN "u" ELSE IF o = 5 THEN "m" ELSE "p"]
(* 1 superstrate, 2 substrate, 3 4 patterned, 5 uniform inner; copies 11 12 *)
S1 == { <<1, 3, 5, 2>> }
S2 == { <<1, 3, 2>>, <<1, 3, 4, 2>>, <<1, 4, 5, 3, 2>> }
SCopy == { <<1, 3, 11, 2>>, <<1, 11, 3, 2>>, <<1, 11, 2>>, <<1, 3, 11, 12, 2>>, <<1, 12, 11, 2>>, <<1, 12, 3, 11, 2>>,
           <<1, 11, 4, 12, 2>>, <<1, 3, 4, 11, 12>> }
SUni == { <<1, 3, 11>>, <<1, 5, 11, 2>>, <<1, 11, 5, 2>>, <<1, 3, 5, 12, 11>> }
Free == <<>>
ChangeReset == << {"build"}, {"query"}, {"setd", "sete"}, {"reset"}, {"query"} >>
TwoSims == << {"build"}, {"build"}, {"query"}, {"query"}, {"query"} >>
Attempts == << {"build"}, {"query"}, {"spoil"}, {"query"}, {"query"} >>
Fits(op) == IF Script = <<>> THEN TRUE ELSE op[1] \in Script[Len(hist) + 1]
(* the simulations of TwoSims are asked in turn, A first *)
InTurn(s) == IF Script = TwoSims THEN (s = "A") = (Len(hist) \in {0, 2, 4}) ELSE TRUE
(* when no histories are emitted, hist counts the changes made *)
Log(op) == /\ Fits(op) /\ hist' = IF EmitHist THEN Append(hist, op)
                   ELSE IF op[1] \in {"setd", "sete"} THEN Append(hist, 1) ELSE hist
FewChanges == EmitHist \/ Len(hist) <= Depth
(* the last answer is checked on every step and forgotten *)
View == <<obj, modes, by, sim, dirty, hist>>
FreshStep == [][Fresh']_mvars
MInit == Init /\ hist = <<>>
MayCopy(o, c) == (c = 12 => Exists(11) \/ 11 \notin Copies) /\ o # 2
LastOp(n) == Len(hist) > 0 /\ hist[Len(hist)][1] = n
S3 == { <<1, 3, 2>> }
S4 == { <<1, 3, 5, 2>> }
S5 == { <<1, 3, 5, 4, 2>>, <<1, 4, 3, 2>>, <<1, 3, 5, 2>> }
AllBuilt == \A s \in Sims : Built(s)
(* the arguments for which a query is defined *)
Args(s, q) == LET n == Last(s) IN
  IF q \in FieldKinds \cup {"eps", "look"} THEN {<<a, a>> : a \in 1..n}
  ELSE IF q = "range" THEN {<<a, b>> \in (1..n) \X (1..n) : a <= b}
  ELSE {<<1, 1>>}
MNext ==
  /\ EmitHist => Len(hist) < Depth
  /\ \/ \E s \in Sims : Built(s) /\ InTurn(s) /\ (Careful /\ dirty[s] # {} => ~LastOp("query")) /\ \E q \in Queries : \E ab \in Args(s, q) :
           Query(s, q, ab[1], ab[2]) /\ Log(<<"query", s, q, ab[1], ab[2]>>)
     \/ \E s \in Sims, w \in Resets : Reset(s, w) /\ Log(<<"reset", s, w>>)
     \/ \E s \in Sims, st \in Stacks : InTurn(s) /\ Build(s, st) /\ Log(<<"build", s, st>>)
     \/ \E o \in AllObj, d \in DVals : SetD(o, d) /\ Log(<<"setd", o, d>>)
     \/ \E o \in AllObj, e \in EVals : SetE(o, e) /\ Log(<<"sete", o, e>>)
     \/ \E o \in Spoils : ~LastOp("spoil") /\ Spoil(o) /\ Log(<<"spoil", o>>)
     \/ \E o \in AllObj, c \in Copies, e \in EVals : Exists(o) /\ MayCopy(o, c) /\ (e = obj[o].eps \/ e \in CopyEps) /\ Copy(o, c, e) /\ Log(<<"copy", o, c, e>>)
MSpec == MInit /\ [][MNext]_mvars
Out == (EmitHist /\ Len(hist) = Depth) => Emit("HIST", hist)
=============================================================================
