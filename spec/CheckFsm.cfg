SPECIFICATION FsmSpec
CHECK_DEADLOCK FALSE
