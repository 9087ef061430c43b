import os
import sys

sys.dont_write_bytecode = True
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))

from mc import core  # noqa: E402

if __name__ == "__main__":
    sys.exit(core.main(sys.argv[1], sys.argv[2:]))
