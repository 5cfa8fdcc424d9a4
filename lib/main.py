import sys

from lib import harness

sys.exit(harness.main(sys.argv))
