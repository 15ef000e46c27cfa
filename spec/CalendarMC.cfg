SPECIFICATION Spec
CONSTANTS StartYears = {1890, 1970, 1972, 1999, 2000, 2023, 2024, 2099, 2100, 2399, 2400, 9998}
 Days = 800
INVARIANTS Agrees Wellformed
CHECK_DEADLOCK FALSE
