SPECIFICATION Spec
INVARIANTS ConfigurationIsWhatWasWritten ReaderAgrees Case
CHECK_DEADLOCK FALSE
