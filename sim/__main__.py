import sys
import traceback

from . import engine

try:
    CODE = engine.main(sys.argv[1:])
except SystemExit:
    raise
except BaseException:
    traceback.print_exc()
    CODE = 3
sys.stdout.flush()
sys.exit(CODE)
