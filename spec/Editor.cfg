SPECIFICATION Schedules
CONSTANTS NDocs = 2 Positions = {"p", "q", "g", "r", "h", "o"} MaxVer = 9 MaxPend = 9 Steps = 16
INVARIANTS Off OnlyCurrent ClearedOnFailure OneLive LoadingIffLive Marked
CHECK_DEADLOCK FALSE
