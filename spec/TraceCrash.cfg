SPECIFICATION CrashTraceSpec
CHECK_DEADLOCK FALSE
