SPECIFICATION Spec
CONSTANTS
  MaxEntry = 8
  MaxSteps = 4
  Dens = {1, 2, 5, 10}
INVARIANT AreaOK DualOK ContraOK CornersOK EmitCell
