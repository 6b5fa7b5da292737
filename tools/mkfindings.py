"""writes known-findings.jsonl (the repairs and the recorded defects)"""
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = """da802c4 C10 scaling a kernel by a number raised, and left the process noise unscaled
4980cce C09 Constant.transition_matrix read a nonexistent attribute
f159a6a C08 Exp.transition_matrix raised for plain Python numbers
6aa4744 C08 evaluate_diag returned a matrix instead of a scalar variance
1711606 C08 evaluate paired the observation models with the wrong coordinates for X1 < X2
de51315 C09 SHO process noise was zeroed below an absolute threshold (small amplitudes or frequencies)
269c5e9 C13 ExpSineSquared.error_bound was not an upper bound on the error
3de3e2b C06 ParallelStateSpaceSolver.condition raised with return_v_S=False
bfc5686 C06 the parallel Kalman filter raised for one-dimensional models
cadf0fe C12 a product kernel could not be extracted as a component of a sum
bdb7ca3 C15 assigning unique names raised for products and could produce a colliding name
be39029 C03 GaussianProcess.condition raised when given X_test
a3eaf98 C16 results for a single datum or test point lost their leading dimension
8760818 C04 a scaled integrated kernel was given the instantaneous solver
f1bca06 C07 the parallel integrated filter ignored a zero-length first exposure
5fd71e9 C08 the generic half-integer Matern kernel could not be used in a GP
5fd37fe C09 the overdamped SHO overflowed to NaN for large lags
d4a5d53 C11 augmented process noise was inaccurate or NaN for large lags
5eb2cec C08 the generic Matern transition matrix was NaN for short length scales
2c95347 C09 Van Loan exponentials were NaN or inaccurate for short scales, large amplitudes or large lags
3f4b5ab C04 smoothing started from the reset state when the last exposure has zero length"""
RESET = ("conditioned values and predictions are NaN when two integrals are reset at the same time "
         "(two exposures of different instruments starting together, or a zero-length exposure at "
         "the start of another, or coinciding zero-length exposures): the smoother inverts a "
         "predicted covariance that two resets in a row make singular")
COS = ("conditioned values and predictions of an IntegratedCosine model are NaN or wrong: a process "
       "without driving noise makes the smoother's predicted covariance singular after a reset")
DENSE = ("the dense oscillator kernels (SHOKernel, IntegratedSHOKernel) use the underdamped formula "
         "for every quality factor: NaN at Q = 1/2 and wrong values for Q < 1/2")
KNOWN = [("C04", "simultaneous-resets", RESET), ("C05", "simultaneous-resets", RESET),
         ("C04", "IntegratedCosine-smoother", COS), ("C05", "IntegratedCosine-smoother", COS),
         ("C17", "dense-overdamped", DENSE)]
with open(os.path.join(ROOT, "known-findings.jsonl"), "w") as f:
    for p, k, w in KNOWN:
        f.write(json.dumps(dict(property=p, status="known", key=k, what=w,
                                nan=k == "simultaneous-resets")) + "\n")
    for l in FIXED.split("\n"):
        c, p, w = l.split(" ", 2)
        f.write(f"fixed: property={p} {c} {w}\n")
