SPECIFICATION Spec
CONSTANT PageSize = 65536
