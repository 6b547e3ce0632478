SPECIFICATION Spec
CONSTANTS Ns = {1, 2, 3}
 RateSet = {20000, 90000}
 MaxOn = 3
INVARIANTS ColumnsSumToZero NoiseIsStochastic LogOfExp InverseIsExpOfMinus Sampling RecoversRates SetSize Report
CHECK_DEADLOCK FALSE
