#!/usr/bin/env python3
"""python3-vt check.py <property id> [--tier quick|thorough]"""
import importlib
import os
import sys
import glob
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def main():
    a = [x for x in sys.argv[1:] if not x.startswith("--")]
    tier = "thorough" if "thorough" in sys.argv[1:] else "quick"
    a = [x for x in a if x not in ("quick", "thorough")]
    pid = a[0]
    import threading
    from sa import check
    c = glob.glob(os.path.join(HERE, "checks", pid.lower() + "_*.py"))
    if len(c) != 1:
        print("no check for", pid)
        return 2
    mod = importlib.import_module("checks." + os.path.basename(c[0])[:-3])
    out = []
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=lambda: out.append(check.main(pid, mod, tier)))
    t.start()
    while t.is_alive():
        t.join(10)
        check.interrupt(t)
    return out[0] if out else 2


sys.exit(main())
