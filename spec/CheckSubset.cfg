SPECIFICATION SubsetSpec
CHECK_DEADLOCK FALSE
