SPECIFICATION GAnySpec
CONSTANTS
  Text <- SText
  Mode <- SMode
  NTexts <- SN
  Indices <- SIndices
INVARIANTS TypeOK Distinct Lookups
PROPERTIES PanicKeeps FrameKept Removes Sorts
CHECK_DEADLOCK FALSE
