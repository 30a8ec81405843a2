"""Child process: loads saved record arrays, reports their contents and saves them back."""
import json
import os
import sys


def main():
    a = json.loads(sys.argv[1])
    sys.path.insert(0, a["repo"])
    import xtructure.io as xio

    out = {}
    for n in a["names"]:
        x = xio.load(os.path.join(a["dir"], n))  # no record type imported before: the file names its class
        from xv import rt

        out[n] = dict(type=[type(x).__module__, type(x).__qualname__],
                      arrays={".".join(k): [list(v.shape), str(v.dtype), v.tobytes().hex()] for k, v in rt.arrays_of(type(x), x).items()})
        x.save(os.path.join(a["dir"], n + ".back"))
    print("RESULT " + json.dumps(out))


if __name__ == "__main__":
    main()
