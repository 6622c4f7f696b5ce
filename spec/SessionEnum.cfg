SPECIFICATION Spec
INVARIANT OnePerId
PROPERTIES PrintsLeaveSettings Sticky
CHECK_DEADLOCK FALSE
