SPECIFICATION Spec
CONSTANTS Diameters = {"0.1", "0.5", "1.2"} Roughness = {"1e-5", "5e-4", "2e-3"} MaxRe = 6000 StepRe = 10
INVARIANTS Smooth Opposes Inverse Steady
CHECK_DEADLOCK FALSE
