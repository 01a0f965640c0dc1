INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS Alphas <- AlphasQuick
