SPECIFICATION Spec
CONSTANTS
  Sizes <- mcSizes
  Levels = {8}
  Widths = {0, 1, 2}
  Edits = 2
  Materials <- mats
INVARIANT ConstantOK MeanOK MovesOK MirrorOK SumOK RangeOK NoneOK ProjectOK MultiOK NodesOK TwoOK BetweenOK
PROPERTY GrowOK
