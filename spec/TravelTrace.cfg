SPECIFICATION TSpec
CONSTANTS
  Slots = {1, 2, 3}
  Sims = {"A", "B"}
  Layers = {1, 2}
  Vers = {0, 1}
  Kinds = {"deepcopy"}
  Alias = FALSE
  Unkept = FALSE
  ByPlace = FALSE
INVARIANTS AnswersOK OwnOK KeptOK
