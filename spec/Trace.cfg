SPECIFICATION TSpec
VIEW View
INVARIANT ViewportAtBottom
CHECK_DEADLOCK FALSE
