SPECIFICATION Spec
INVARIANTS NothingOutsideProjects OnlyWhatIsNeeded ReadyMeansInstalled ReadyMeansLocated FailureIsTold SourceIsTheFallback Emit
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
