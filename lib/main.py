import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import run  # noqa: E402
sys.modules["__main__"].run = run
if __name__ == "__main__":
    sys.exit(run.main(sys.argv[1:]))
