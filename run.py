import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

from vlib import boot, core  # noqa: E402

if __name__ == "__main__":
    code = core.main()
    sys.stdout.flush()
    sys.stderr.flush()
    # killed workers may leave the pool's threads waiting for ever: do not join them
    boot._cleanup()
    os._exit(code)
