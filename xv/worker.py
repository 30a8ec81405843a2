"""Worker process: runs scenarios one at a time, as told on stdin; replies on fd XV_FD."""
import faulthandler
import importlib
import json
import os
import signal
import sys
import time
import traceback

faulthandler.register(signal.SIGUSR1, all_threads=True)

_fd = int(os.environ["XV_FD"])


def send(obj):
    data = (json.dumps(obj) + "\n").encode()
    while data:
        n = os.write(_fd, data)
        data = data[n:]


def main():
    prop = sys.argv[1]
    repo = os.environ["XV_REPO"]
    sys.path.insert(0, repo)
    import random

    random.seed(0)
    send({"hb": 1})
    try:
        if os.environ.get("XV_ACCEL"):
            from xv import accel

            accel.install(os.environ["XV_ACCEL"])
        import xtructure

        where = os.path.realpath(xtructure.__file__)
        if not where.startswith(os.path.realpath(repo) + os.sep):
            send({"setup_error": f"xtructure imported from {where}, not {repo}"})
            return
        from xv.ctx import Ctx, Violation

        mod = importlib.import_module(f"xv.checks.{prop.lower()}")
    except BaseException:
        # the package (or the record types built from it) no longer imports
        tb = traceback.format_exc()
        send({"import_error": tb[-4000:]})
        return
    page = os.sysconf("SC_PAGE_SIZE")
    send({"ready": 1})
    for line in sys.stdin:
        job = json.loads(line)
        sc = job["scenario"]
        ctx = Ctx(prop, sc["name"], job["seed"], job["round"], job["tier"], sc["params"],
                  tick=lambda: send({"hb": 1}))
        t0 = time.time()
        viol = None
        try:
            getattr(mod, sc["fn"])(ctx, **sc["params"])
        except Violation as v:
            viol = dict(key=v.key, msg=v.msg, detail=v.detail)
        except MemoryError:
            send({"result": None, "oom": 1})
            continue
        except Exception as e:
            viol = dict(key=f"exception:{type(e).__name__}", msg=f"{type(e).__name__}: {e}"[:1500],
                        detail={"traceback": traceback.format_exc()[-5000:]})
        send({"result": dict(name=sc["name"], round=job["round"], evals=ctx.evals, trivial=ctx.trivial,
                             distinct=sorted(ctx.distinct), events=ctx.events, samples=ctx.samples,
                             violation=viol, wall=round(time.time() - t0, 3)),
              "rss": int(open("/proc/self/statm").read().split()[1]) * page})


if __name__ == "__main__":
    main()
