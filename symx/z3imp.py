"""Import z3 from the tooling venv without letting its numpy shadow ours."""
import sys

_PATHS = ('/opt/veriftools/pyvenv/lib/python3.12/site-packages', )
try:
    import z3  # noqa: F401
except ImportError:
    for _p in _PATHS:
        sys.path.append(_p)
        try:
            import z3  # noqa: F401
        finally:
            sys.path.remove(_p)
