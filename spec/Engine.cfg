SPECIFICATION EngineSpec
VIEW EView
CHECK_DEADLOCK FALSE
INVARIANT Below
INVARIANT Reaches
INVARIANT PassedOn
PROPERTY Progress
PROPERTY Ends
POSTCONDITION Conforms
