"""Run a check; whatever goes wrong in the machinery itself ends with exit 2."""
import sys
import traceback

try:
    from .runner import main

    main()
except SystemExit:
    raise
except BaseException:
    traceback.print_exc()
    sys.exit(2)
