"""Runtime monitors for AP6YC/cvi.  See DESIGN.md."""
import os

# Before NumPy is imported anywhere: one BLAS thread per worker process.
for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_v] = "1"
