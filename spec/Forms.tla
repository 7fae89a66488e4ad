-------------------------------- MODULE Forms --------------------------------
(* The forms numbers are given in (C35).  An argument holds whole numbers in  *)
(* a machine type; arithmetic in a narrow type wraps or drops digits, so what *)
(* is given has to be read (converted) before anything is computed from it.   *)
(* Results are handed out in memory of the caller, who may overwrite them;    *)
(* arguments are the caller's too, and stay as they are.                      *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Args, Vals, MaxAsks,
          Late,      \* faulty: squares before reading
          Borrow     \* faulty: hands out what it keeps
VARIABLES form, given, read, kept, out, asks, log
vars == <<form, given, read, kept, out, asks, log>>
(* what a type makes of a whole number that arithmetic has brought up *)
Types == {"bool", "u8", "i8", "i32", "i64", "f16", "f32", "f64", "c64", "c128", "int", "float", "complex"}
Fits(t, x) == CASE t = "bool" -> x \in {0, 1} [] t = "i8" -> x \in -128..127 [] t = "u8" -> x \in 0..255 [] OTHER -> TRUE
As(t, x) == CASE t = "bool" -> IF x = 0 THEN 0 ELSE 1
              [] t = "u8" -> x % 256
              [] t = "i8" -> ((x + 128) % 256) - 128
              [] t = "f16" -> IF x > 2048 \/ x < -2048 THEN 4 * (x \div 4) ELSE x
              [] OTHER -> x
Square(t, x) == As(t, x * x)
(* what is asked: the sum of the squares *)
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET a == CHOOSE b \in S : TRUE IN f[a] + Sum(f, S \ {a})
Right(v) == Sum([a \in Args |-> v[a] * v[a]], Args)
None == -1
Init == /\ form \in [Args -> Types] /\ given \in [Args -> Vals]
        /\ \A a \in Args : Fits(form[a], given[a])
        /\ read = [a \in Args |-> FALSE] /\ kept = None /\ out = <<>> /\ asks = 0 /\ log = <<>>
Read(a) == ~read[a] /\ read' = [read EXCEPT ![a] = TRUE] /\ UNCHANGED <<form, given, kept, out, asks, log>>
Solved == kept # None
Solve == /\ ~Solved /\ \A a \in Args : read[a]
         /\ kept' = Sum([a \in Args |-> IF Late THEN Square(form[a], given[a]) ELSE given[a] * given[a]], Args)
         /\ UNCHANGED <<form, given, read, out, asks, log>>
(* out: the cells handed over; -2 stands for the cell of the library itself *)
Ask == /\ Solved /\ asks < MaxAsks /\ asks' = asks + 1
       /\ out' = Append(out, IF Borrow THEN -2 ELSE kept) /\ log' = Append(log, kept)
       /\ UNCHANGED <<form, given, read, kept>>
Overwrite(k) == /\ Len(log) < 2 * MaxAsks
                /\ IF out[k] = -2 THEN kept' = 0 /\ UNCHANGED out ELSE out' = [out EXCEPT ![k] = 0] /\ UNCHANGED kept
                /\ UNCHANGED <<form, given, read, asks, log>>
Next == (\E a \in Args : Read(a)) \/ Solve \/ Ask \/ \E k \in DOMAIN out : Overwrite(k)
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------
AnswersOK == \A k \in DOMAIN log : log[k] = Right(given)
==============================================================================
