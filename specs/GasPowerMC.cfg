SPECIFICATION Spec
CONSTANTS Coeffs = {"0.5", "1", "3", "0.04"} Far = 150
INVARIANTS Stated Differentiable
CHECK_DEADLOCK FALSE
