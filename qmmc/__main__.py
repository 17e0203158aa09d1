import sys

from qmmc import core

sys.exit(core.main(sys.argv[1:]))
