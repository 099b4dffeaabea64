INIT TInit
NEXT TNext
CONSTANT Configs <- TraceConfigs
CONSTANT ViewOf <- TraceViewOf
CONSTANT Deviations = {"K1", "K2", "K3", "K4"}
CHECK_DEADLOCK TRUE
