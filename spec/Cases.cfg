SPECIFICATION CaseSpec
CHECK_DEADLOCK FALSE
