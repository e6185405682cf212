SPECIFICATION Explore
CONSTANTS NDocs = 1 Positions = {"p", "o"} MaxVer = 2 MaxPend = 1 Steps = 0
CONSTRAINT Small
VIEW All
INVARIANTS AtMostOne PaneIsLatest
PROPERTIES ClosedWhenOff ClosedWhenFine NotForMoving AskersAreTold
CHECK_DEADLOCK FALSE
