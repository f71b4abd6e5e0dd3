SPECIFICATION Spec
ALIAS Brief
INVARIANTS Sound Alive
CHECK_DEADLOCK FALSE
CONSTANTS MaxCall = 2 MaxMsg = 2 Early = TRUE
CONSTANTS Apis <- C_Apis Cbs <- C_Cbs Acts <- C_Acts Calls <- C_Calls Stats <- C_Stats
