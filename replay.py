#!/opt/venv/bin/python
"""Runs harnesses concretely on the unmodified code.

replay.py FILE        replays one recorded violation and prints the outcome (exit 1: reproduced)
replay.py --batch     reads a JSON list of runs on stdin, writes the outcomes on stdout
"""
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import traceback

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))

from sx.api import ConT, Violation, Skip  # noqa: E402


class Timeout(BaseException):
    pass


def one(item):
    mod = importlib.import_module("props." + item["prop"].lower())
    t = ConT(item["inputs"])

    def alarm(*_):
        raise Timeout()
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(30)
    try:
        getattr(mod, item["case"]["fn"])(t, **item["case"].get("args", {}))
        return dict(status="ok", msg="", labels=t.labels)
    except Violation as exc:
        return dict(status="violation", msg=str(exc), labels=t.labels)
    except Skip:
        return dict(status="skip", msg="", labels=t.labels)
    except Timeout:
        return dict(status="error", msg="does not terminate", labels=t.labels)
    except Exception as exc:
        return dict(status="error", msg="unexpected %s" % type(exc).__name__,
                    labels=t.labels, trace=traceback.format_exc()[-2000:])
    finally:
        signal.alarm(0)
        t.close()


def isolated(items):
    """Run the items, in order, in one forked process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        code = 1
        try:
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 1)
            os.dup2(null, 2)
            out = json.dumps([one(i) for i in items]).encode()
            with os.fdopen(w, "wb") as fh:
                fh.write(out)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as fh:
        data = fh.read()
    os.waitpid(pid, 0)
    if not data:
        return [dict(status="error", msg="process died", labels=[]) for _ in items]
    return json.loads(data)


def job(chunk):
    idx, items = chunk
    outs = isolated(items)
    if len(items) > 1:
        for k, o in enumerate(outs):
            if o["status"] not in ("ok", "skip"):
                outs[k] = isolated([items[k]])[0]     # judged alone in a fresh process
    return idx, outs


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] != "--batch":
        with open(sys.argv[1]) as fh:
            item = json.load(fh)
        importlib.import_module("props." + item["prop"].lower())
        out = one(item)
        print(json.dumps(out, indent=1))
        return 0 if out["status"] in ("ok", "skip") else 1
    items = json.load(sys.stdin)
    for p in sorted(set(i["prop"] for i in items)):
        importlib.import_module("props." + p.lower())
    chunks, cur = [], []
    for n, i in enumerate(items):
        if i["isolated"] or getattr(sys.modules["props." + i["prop"].lower()], "ISOLATE", False):
            chunks.append(([n], [i]))
        else:
            cur.append(n)
            if len(cur) == 20:
                chunks.append((cur, [items[k] for k in cur]))
                cur = []
    if cur:
        chunks.append((cur, [items[k] for k in cur]))
    res = [None] * len(items)
    with mp.get_context("fork").Pool(8) as pool:
        for idx, outs in pool.imap_unordered(job, chunks):
            for k, o in zip(idx, outs):
                res[k] = o
    json.dump(res, sys.stdout)
    return 0


if __name__ == "__main__":
    sys.exit(main())
