------------------------------- MODULE MCForms -------------------------------
EXTENDS Forms, Emit
EmitForms == (\A a \in Args : ~read[a]) => Emit("FORMS", form)
==============================================================================
