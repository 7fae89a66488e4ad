SPECIFICATION TSpec
CONSTANTS
  Args = {1}
  Vals = {0}
  MaxAsks = 0
  Late = FALSE
  Borrow = FALSE
