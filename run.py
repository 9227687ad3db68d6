#!/usr/bin/env python3
"""run.py setup | check Cxx [quick|thorough] [harness] | replay FILE"""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import check, unit as U


def main():
    a = sys.argv[1:]
    if a[0] == "setup":
        U.build_engine()
        U.patched_std()
        d, _ = U.gen("self", "h_self.rs")
        U.build_ir("self", d)
        U.build_native("self", d)
        print("setup done")
        return 0
    if a[0] == "check":
        tier = a[2] if len(a) > 2 else os.environ.get("VERIF_TIER", "quick")
        try:
            return check.Checker(a[1], tier, int(os.environ.get("VERIF_SEED", "1")), only=a[3] if len(a) > 3 else None).run()
        except U.BuildError as e:
            print(e)
            print("%s: the code under test or the harness does not build; nothing decided" % a[1])
            return 2
    if a[0] == "replay":
        r = json.load(open(a[1]))
        unit = r["property"].lower()
        d, _ = U.gen(unit, "h_%s.rs" % unit)
        b, _ = U.build_native(unit, d)
        ok, _, res = check.confirm(b, r["entry"], {"key": r["key"], "bytes": r["input"], "names": []}, r["heap"], {})
        print(json.dumps(res), "reproduced" if ok else "not reproduced")
        return 0 if ok else 1
    print(__doc__)
    return 2


sys.exit(main())
