import os
import sys

from vmon.core import main

if __name__ == "__main__":
    args = sys.argv[1:]
    if args[0] == "--replay":
        sys.exit(main(None, None, None, replay=args[1]))
    prop = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    sys.exit(main(prop, tier, seed))
