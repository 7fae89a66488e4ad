SPECIFICATION Spec
CONSTANTS
  MaxN = 3
  Corners = FALSE
INVARIANT RightOK OnceOK AllOK
