import sys
from . import core
from .checks import CHECKS

if __name__ == '__main__':
    sys.exit(core.main(CHECKS, sys.argv[1:]))
