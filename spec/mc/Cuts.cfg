SPECIFICATION Spec
VIEW View
ALIAS Brief
INVARIANTS Sound Alive
CHECK_DEADLOCK FALSE
CONSTANTS N = 2 MaxMod = 0 MaxMsg = 2 MaxRcpt = 1 MaxHdr = 1 MaxBody = 1 MaxFault = 0 MaxCut = 2 Watch = TRUE
CONSTANTS Evals <- C_Evals Fbs <- C_Fbs Offers <- C_Offers KSteps <- C_KSteps KActs <- C_KActs Ups <- C_Ups Verd <- C_Verd Changes <- C_Changes Kinds <- C_Kinds
