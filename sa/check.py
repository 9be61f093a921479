#!/usr/bin/env python3
"""python3 sa/check.py <property>: decides one property from /repo's current source"""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks"))
sys.setrecursionlimit(20000)
import threading
threading.stack_size(512 * 1024 * 1024)
import lib, dump, interp, time


def main(prop, box):
    m = importlib.import_module(prop.lower())
    ctx = lib.Ctx(prop)
    box.append(ctx)
    try:
        m.run(ctx)
    except dump.BuildFailed as e:
        ctx.ob("builds", False, "the analysed program builds", str(e)[-1200:])
    except Exception as e:
        if os.environ.get("SA_DEBUG"):
            traceback.print_exc()
        ctx.ob("analysis", None, "the analysis reaches its end", f"{type(e).__name__}: {str(e)[:300]}")
    return lib.finish(ctx)


if __name__ == "__main__":
    rc, box = [], []

    def go():
        try:
            rc.append(main(sys.argv[1].upper(), box))
        except BaseException:
            traceback.print_exc()
            rc.append(2)
    t = threading.Thread(target=go)
    t.start()
    t.join(max(60, interp.END[0] - time.time() + 60))
    if not rc and box:
        #out of time: what has been decided so far counts, the rest is undecided
        box[0].obs = dict(box[0].obs)
        box[0].ob("time", None, "the analysis ends within its time", "stopped")
        rc.append(lib.finish(box[0]))
        sys.stdout.flush()
        os._exit(rc[0])
    sys.stdout.flush()
    sys.exit(rc[0] if rc else 2)
