SPECIFICATION Spec
CONSTANTS
  Kind = "seq"
  MaxCalls = 1
  Anomalies = TRUE
  Outcomes = 1
INVARIANTS AnnouncedSchedule NeverPastCriterion OverAgreesWithLeaves EpochUsesDataOnce SequencesWhole WindowsBeforeLearning RefusedChangesNothing BestIsTheMaximum SavedOnlyWhenBetter NoResultOnlyAfterAnAnomaly
PROPERTIES NothingAfterAnAnomaly Returns
CHECK_DEADLOCK FALSE
