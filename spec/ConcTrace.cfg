SPECIFICATION CSpec
CONSTRAINT Progress
POSTCONDITION ReportTracked
CHECK_DEADLOCK FALSE
