SPECIFICATION IfcSpec
VIEW View
CHECK_DEADLOCK FALSE
POSTCONDITION Conforms
