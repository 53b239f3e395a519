SPECIFICATION Spec
INVARIANTS CountIsOfWhatIsShown EachFileOnce VerdictIsOnAll Case
PROPERTIES StatusOnlyRises Ends
CHECK_DEADLOCK FALSE
