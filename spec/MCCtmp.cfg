SPECIFICATION Spec
CONSTANTS Ns = {1, 2}
 RateSet = {30000, 100000}
 MaxOn = 3
INVARIANTS ColumnsSumToZero NoiseIsStochastic LogOfExp InverseIsExpOfMinus Sampling RecoversRates SetSize Report
CHECK_DEADLOCK FALSE
