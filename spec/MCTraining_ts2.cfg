SPECIFICATION Spec
CONSTANTS
  Kind = "ts"
  MaxCalls = 2
  Anomalies = TRUE
  Outcomes = 2
INVARIANTS AnnouncedSchedule NeverPastCriterion OverAgreesWithLeaves EpochUsesDataOnce SequencesWhole WindowsBeforeLearning RefusedChangesNothing BestIsTheMaximum SavedOnlyWhenBetter NoResultOnlyAfterAnAnomaly
PROPERTIES NothingAfterAnAnomaly
CHECK_DEADLOCK FALSE
