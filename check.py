#!/usr/bin/env python3
"""check.py PROPERTY : decide one property of /repo by static analysis."""
import argparse
import importlib
import os
import pickle
import sys
import threading

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(12000)
threading.stack_size(512 * 1024 * 1024)


def analyse(rep, pid):
    """run the rules of a property; message when an anchor of the property is missing"""
    from svgcheck.engine import Anchor

    mod = importlib.import_module("svgcheck.props." + pid.lower())
    try:
        mod.check(rep)
    except Anchor as e:
        return str(e)
    return None


def deep(fn):
    """call fn on a thread with a large stack"""
    out = []

    def go():
        out.append(fn())

    t = threading.Thread(target=go)
    t.start()
    t.join()
    return out[0] if out else None


def worker(rep, pid, k, n, fd):
    def go():
        rep.shard = (k, n)
        e = analyse(rep, pid)
        d = rep.pack()
        d["anchor"] = e
        return pickle.dumps(d)

    data = deep(go)
    if data is not None:
        with os.fdopen(fd, "wb") as f:
            f.write(data)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("SVGCHECK_JOBS", "0")) or min(8, len(os.sched_getaffinity(0))))
    a = ap.parse_args()
    from svgcheck.frame import Report

    rep = Report(a.property, a.tier, 400 if a.tier == "quick" else 780)
    broken = []
    if a.jobs <= 1:
        e = deep(lambda: (analyse(rep, a.property),))
        if e is None:
            broken.append("the analysis failed")
        elif e[0]:
            broken.append(e[0])
    else:
        kids = []
        for k in range(a.jobs):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                code = 3
                try:
                    worker(rep, a.property, k, a.jobs, w)
                    code = 0
                finally:
                    sys.stdout.flush()
                    sys.stderr.flush()
                    os._exit(code)
            os.close(w)
            kids.append((pid, r))
        for pid, r in kids:
            with os.fdopen(r, "rb") as f:
                data = f.read()
            os.waitpid(pid, 0)
            if not data:
                broken.append("a worker process failed")
                continue
            d = pickle.loads(data)
            if d["anchor"] and d["anchor"] not in broken:
                broken.append(d["anchor"])
            rep.unpack(d)
    for e in broken:
        print("ANALYSIS-BROKEN property=%s %s" % (a.property, e))
    code = rep.finish()
    if broken and code != 1:
        return 2
    return code


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    os._exit(code)
