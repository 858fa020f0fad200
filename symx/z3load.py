"""Import z3's Python binding (5.x, in the tooling venv) without exposing that venv's numpy/scipy to TensorFlow."""
import sys

_P = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if "z3" not in sys.modules:
    sys.path.insert(0, _P)
    try:
        import z3  # noqa: F401
    finally:
        sys.path.remove(_P)
import z3  # noqa: E402,F811
