"""python3 check.py <property id>: decide one property for /repo's source."""
import sys
from pathlib import Path

sys.path.insert(0, str(Path(__file__).resolve().parent))
sys.dont_write_bytecode = True

from bsa.report import main  # noqa: E402

if __name__ == "__main__":
    sys.exit(main(sys.argv[1]))
