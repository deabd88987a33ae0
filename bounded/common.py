import os, sys, logging, warnings
os.environ.setdefault('MPLBACKEND', 'Agg')
warnings.simplefilter('ignore')
logging.disable(logging.CRITICAL)
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import numpy as np
import pandas as pd
from harness import Case, Violation, Skip, check


def quiet(f, *a, **k):
    """call with stdout/stderr swallowed (the code prints progress bars)"""
    import io, contextlib
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return f(*a, **k)


def close(a, b, rtol=1e-6, atol=1e-8):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True)


def whole_index(n, minutes, start='2021-03-27 00:00', tz=None):
    return pd.date_range(start, periods=n, freq=pd.Timedelta(minutes=minutes), tz=tz)
