SPECIFICATION Spec
ALIAS Brief
INVARIANTS Sound
PROPERTIES Served Leaves
CHECK_DEADLOCK FALSE
CONSTANTS MaxHup = 1 MaxCmd = 1
CONSTANTS X <- C_X Maxs <- C_Maxs Susps <- C_Susps Pres <- C_Pres
