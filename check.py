#!/usr/bin/env python3
"""Usage: check.py ID [TIER]   run the check of a property (VERIF_SEED and, unless given, VERIF_TIER from the environment)
          check.py --replay F  run the case of a replay file again"""
import json, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks import registry  # noqa: E402


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        r = json.load(open(sys.argv[2]))
        os.environ["VERIF_SEED"], os.environ["VERIF_TIER"] = str(r["seed"]), r["tier"]
        return registry()[r["property"]]().main(only=(r["part"], r["index"]))
    if len(sys.argv) == 3:
        os.environ["VERIF_TIER"] = sys.argv[2]
    return registry()[sys.argv[1]]().main()


if __name__ == "__main__":
    sys.exit(main())
