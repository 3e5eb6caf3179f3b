import importlib
import os
import sys

sys.setrecursionlimit(20000)


def main():
    import threading
    threading.stack_size(512 * 1024 * 1024)
    rc = []
    t = threading.Thread(target=lambda: rc.append(work()))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0] if rc else 2)


def work():
    from . import kit
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    m = importlib.import_module("sa.checks." + pid.lower())
    obs = m.OBLIGATIONS
    only = [a[1:] for a in sys.argv[2:] if a.startswith("@")]
    if only:
        obs = [o for o in obs if any(x in o[0] for x in only)]
    return kit.run(pid, obs, tier, m.META, getattr(m, "MINIMUM", 1))


main()
