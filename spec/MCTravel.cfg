SPECIFICATION HSpec
CONSTANTS
  Slots = {1, 2, 3}
  Sims = {"A", "B"}
  Layers = {1, 2}
  Vers = {0, 1}
  Kinds = {"any"}
  Alias = FALSE
  Unkept = FALSE
  ByPlace = FALSE
  MaxLen = 0
  Hist = FALSE
INVARIANTS AnswersOK OwnOK KeptOK
