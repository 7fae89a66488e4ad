------------------------------- MODULE Config -------------------------------
(* Selection of backend, precision, device and log level (C05).             *)
(* The implementation keeps flags in the package's namespace, which survive  *)
(* the reload that every effective selection triggers; sel, prec, log are    *)
(* what the user selected last.                                              *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Available,  \* backends
          Levels,     \* log levels
          EnvBackend, \* value of NANNOS_BACKEND, "" if unset
          EnvGpu,     \* NANNOS_GPU is set
          Fault

VARIABLES flags,   \* set of backend flags present
          forced,  \* the user has chosen a backend
          use32, gpu,
          sel, prec, log, rejected

vars == <<flags, forced, use32, gpu, sel, prec, log, rejected>>

Reported(f) == IF "scipy" \in f THEN "scipy" ELSE IF "autograd" \in f THEN "autograd"
               ELSE IF "jax" \in f THEN "jax" ELSE IF "torch" \in f THEN "torch" ELSE "numpy"
(* flags after an effective selection; the flag of numpy is never consulted *)
Select(f, b) ==
  CASE b = "numpy" -> {"numpy"}
    [] b = "torch" /\ Fault = "keep jax" -> (f \cup {"torch"}) \ {"scipy", "autograd"}
    [] OTHER -> (f \ {"scipy", "autograd", "jax", "torch"}) \cup {b}
(* reloading the package applies the environment, unless a backend was chosen *)
Reload(f, frc) == IF EnvBackend \in Available /\ Reported(f) # EnvBackend /\ (~frc \/ Fault = "env wins") THEN Select(f, EnvBackend) ELSE f

Init ==
  LET f0 == Reload({}, FALSE) IN
  /\ flags = f0
  /\ forced = (f0 # {})
  /\ use32 = FALSE /\ gpu = FALSE
  /\ sel = IF EnvBackend \in Available THEN EnvBackend ELSE "numpy"
  /\ prec = 64 /\ log = "WARNING" /\ rejected = FALSE

SetBackend(b) ==
  /\ forced' = TRUE
  /\ IF b \in Available
     THEN /\ flags' = IF b = Reported(flags) THEN flags ELSE Reload(Select(flags, b), TRUE)
          /\ sel' = b /\ rejected' = FALSE
     ELSE /\ rejected' = TRUE /\ UNCHANGED <<flags, sel>>
  /\ UNCHANGED <<use32, gpu, prec, log>>
Use32(yes) ==
  /\ use32' = yes
  /\ flags' = Reload(flags, forced)
  /\ prec' = IF yes THEN 32 ELSE 64
  /\ rejected' = FALSE
  /\ UNCHANGED <<forced, gpu, sel, log>>
(* There is no GPU: requests are ignored. *)
UseGpu(yes) ==
  /\ gpu' = FALSE
  /\ flags' = Reload(flags, forced)
  /\ rejected' = FALSE
  /\ UNCHANGED <<forced, use32, sel, prec, log>>
SetLog(l) ==
  /\ IF l \in Levels THEN log' = l /\ rejected' = FALSE ELSE rejected' = TRUE /\ UNCHANGED log
  /\ UNCHANGED <<flags, forced, use32, gpu, sel, prec>>
Next == \/ \E b \in Available \cup {"bogus", ""} : SetBackend(b)
        \/ \E y \in BOOLEAN : Use32(y) \/ UseGpu(y)
        \/ \E l \in Levels \cup {"LOUD"} : SetLog(l)
Spec == Init /\ [][Next]_vars

ReportsSelection == Reported(flags) = sel
PrecisionOK == (prec = 32) = use32
DeviceOK == ~gpu
---------------------------------------------------------------------------
(* What the user observes *)
Lib == IF sel \in {"torch", "jax"} THEN sel ELSE "numpy"
FloatType == IF prec = 32 THEN "float32" ELSE "float64"
ComplexType == IF prec = 32 THEN "complex64" ELSE "complex128"
Differentiates == sel \in {"autograd", "torch"}
=============================================================================
