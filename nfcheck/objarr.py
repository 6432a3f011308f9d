"""numpy for the analyser's own object arrays (symarr.py); taken from the installed tools when python3 has none."""
import sys

try:
    import numpy as np
except ImportError:
    np = None
    for _p in ("/opt/veriftools/pyvenv/lib/python3.12/site-packages", "/opt/venv/lib/python3.12/site-packages"):
        sys.path.append(_p)
        try:
            import numpy as np
            break
        except ImportError:
            sys.path.remove(_p)
    if np is None:
        raise ImportError("numpy")
