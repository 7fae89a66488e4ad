------------------------------ MODULE FormsTrace ------------------------------
(* Real simulations given their arguments in various forms: every answer is   *)
(* the one to plain floats, before and after the caller overwrote answers;    *)
(* the arguments stay what they were.                                         *)
EXTENDS Integers, Sequences, Emit, IOUtils
CONSTANTS Args, Vals, MaxAsks, Late, Borrow
VARIABLES i, form, given, read, kept, out, asks, log, right
tvars == <<i, form, given, read, kept, out, asks, log, right>>
INSTANCE Forms
Trace == ndJsonDeserialize(IOEnv.TRACE_DIR \o "/trace.ndjson")
ev == Trace[i]
Is(name) == i <= Len(Trace) /\ ev.ev = name
Bad(clause) == Emit("BAD", [line |-> i, clause |-> clause])
Clause(name, ok) == IF ok THEN TRUE ELSE Bad(name)
Abs(x) == IF x < 0 THEN -x ELSE x
Keep == UNCHANGED <<given, read, kept, asks>>
Begin ==
  /\ Is("begin") /\ Keep /\ log' = <<>> /\ out' = {}
  /\ form' = ev.form /\ right' = ev.right
  /\ Clause("numbers are accepted in any form", ev.err = "")
  /\ Clause("a form is one that is known", \A a \in DOMAIN ev.form : ev.form[a] \in Types)
(* half and single precision are all the caller gives *)
Tol == IF \E a \in DOMAIN form : form[a] \in {"f32", "c64", "f16"} THEN 400 ELSE 4
Near(x, y) == Abs(x - y) <= Tol + IF Tol = 400 THEN Abs(y) \div 10000 ELSE Abs(y) \div 1000000
Answer ==
  /\ Is("answer") /\ Keep /\ UNCHANGED <<form, right, out>> /\ log' = Append(log, ev.what)
  /\ IF ev.err # "" THEN Bad("no answer")
     ELSE Clause(IF ev.what \in out THEN "answers handed out belong to the caller" ELSE "numbers mean the same in every form",
                 Len(ev.got) = Len(right[ev.what]) /\ \A k \in DOMAIN ev.got : Near(ev.got[k], right[ev.what][k]))
Scratch == Is("scratch") /\ Keep /\ UNCHANGED <<form, right, log>> /\ out' = out \cup {ev.what}
Same == /\ Is("kept") /\ Keep /\ UNCHANGED <<form, right, log, out>>
        /\ Clause("arguments stay what they were", ev.same = 1)
Done == i = Len(Trace) => Emit("DONE", i)
TInit == i = 1 /\ form = <<>> /\ given = <<>> /\ read = <<>> /\ kept = None /\ out = {} /\ asks = 0 /\ log = <<>> /\ right = <<>>
TNext == /\ i <= Len(Trace) /\ (Begin \/ Answer \/ Scratch \/ Same) /\ i' = i + 1 /\ Done
TSpec == TInit /\ [][TNext]_tvars
==============================================================================
