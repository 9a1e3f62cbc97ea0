import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import jax          # noqa: import before fbs, with the environment set by run.sh
import fbs          # noqa
if os.path.realpath(fbs.__file__) != "/repo/fbs/__init__.py":
    sys.exit("fbs is not imported from /repo: " + fbs.__file__)
