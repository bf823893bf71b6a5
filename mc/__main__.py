import sys
from . import core
sys.exit(core.cli())
