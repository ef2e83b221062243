SPECIFICATION CaseSpec
CHECK_DEADLOCK TRUE
