SPECIFICATION Spec
CONSTANT PageSize = 268435456
VIEW View
INVARIANT Conforms
CHECK_DEADLOCK FALSE
