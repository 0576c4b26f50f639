SPECIFICATION Spec
CONSTANTS
  Text <- TText
  Mode <- TMode
  NTexts <- TNTexts
  Indices <- TIndices
INVARIANTS TypeOK Report
CHECK_DEADLOCK TRUE
