SPECIFICATION Explore
CONSTANTS NDocs = 1 Positions = {"p", "r", "o"} MaxVer = 2 MaxPend = 1 Steps = 0
CONSTRAINT Small
VIEW View
INVARIANTS Off OnlyCurrent ClearedOnFailure OneLive LoadingIffLive Marked
PROPERTIES Settled MarksKept
CHECK_DEADLOCK FALSE
