"""Makes z3 (and nothing else of the tooling environment) importable next to the project's own environment."""
import importlib
import sys

DIR = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


def setup():
    try:
        import z3  # noqa
        return
    except ImportError:
        pass
    sys.path.append(DIR)
    importlib.invalidate_caches()
    try:
        import z3  # noqa
    finally:
        sys.path.remove(DIR)
