#!/usr/bin/env python3
"""run.py check ID [quick|thorough] | run.py replay FILE | run.py setup"""
import importlib, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from simlib import core


def load(pid):
    return importlib.import_module("props." + pid).CHECK()


def known(pid):
    try:
        with open(os.path.join(core.VERIF, "known-findings.txt")) as f:
            for l in f:
                l = l.strip()
                if l.startswith("known: property=%s " % pid):
                    print("KNOWN-FINDING: " + l[len("known: "):])
    except FileNotFoundError:
        pass


def main():
    core.install_signal_cleanup()
    cmd = sys.argv[1]
    try:
        if cmd == "check":
            tier = sys.argv[3] if len(sys.argv) > 3 else os.environ.get("VERIF_TIER", "quick")
            known(sys.argv[2])
            return load(sys.argv[2]).run(tier, int(os.environ.get("VERIF_SEED", "1")))
        if cmd == "replay":
            with open(sys.argv[2]) as f:
                r = json.load(f)
            c = load(r["property"])
            c.setup()
            m = c.confirm(r["replay"])
            d = c.describe(r["replay"])
            if d:
                print(d)
            if m:
                print("%s: %s" % (r["property"], m))
                print("VIOLATION property=%s replay=%s" % (r["property"], os.path.abspath(sys.argv[2])))
                return 1
            print("%s: the recorded case does not violate the property on this tree" % r["property"])
            return 0
        if cmd == "setup":
            core.Build()
            return 0
    except core.Broken as e:
        print("error: %s" % e, file=sys.stderr)
        return 2
    print(__doc__)
    return 2


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    core._cleanup()
    os._exit(rc)
