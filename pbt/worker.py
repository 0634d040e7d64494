"""PyPy side: runs scripts of operations against the code in /repo.

Started by pbt/core.py as   PYTHONPATH=/opt/vp/py2 /opt/venv/bin/python worker.py SOCK
The process imports the code under test once and then forks one child for every
connection on the Unix socket SOCK, so that a "fresh interpreter" is cheap.

Protocol: one JSON document per line.  Request: {"script": [[op, args...], ...]}.
Reply: {"results": [{"ok": value} | {"exc": name, "msg": text, "mro": [names]}, ...]}.
Every request runs in an empty scratch directory which is removed afterwards.
"""
import json
import os
import select
import shutil
import signal
import socket
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def load():
    import warnings
    import numpy as np
    import py2compat  # noqa: F401  (installs the import hook)
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    sys.path.insert(0, py2compat.ROOT)
    import fakes
    fakes.install()
    import ops
    ops.load()
    return ops


def serve_connection(conn, ops):
    rfile = conn.makefile("r", encoding="utf-8")
    wfile = conn.makefile("w", encoding="utf-8")
    devnull = open(os.devnull, "w")
    base = tempfile.mkdtemp(prefix="clfpbt-")
    try:
        for line in rfile:
            req = json.loads(line)
            work = os.path.join(base, "w")
            os.mkdir(work)
            os.chdir(work)
            sys.stdout = devnull
            try:
                results = ops.run_script(req["script"], work)
            finally:
                sys.stdout = sys.__stdout__
                os.chdir(base)
                shutil.rmtree(work, ignore_errors=True)
            with open("/proc/self/statm") as f:
                mb = int(f.read().split()[1]) // 256
            wfile.write(json.dumps({"results": results, "mb": mb}) + "\n")
            wfile.flush()
    finally:
        os.chdir("/")
        shutil.rmtree(base, ignore_errors=True)


def main(path):
    ops = load()
    srv = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
    srv.bind(path)
    srv.listen(64)
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    while True:
        ready, _, _ = select.select([srv, sys.stdin], [], [])
        if sys.stdin in ready:
            if not os.read(sys.stdin.fileno(), 1):
                return
        if srv in ready:
            conn, _ = srv.accept()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    srv.close()
                    signal.signal(signal.SIGCHLD, signal.SIG_DFL)
                    serve_connection(conn, ops)
                except BaseException:
                    import traceback
                    traceback.print_exc()
                    code = 3
                os._exit(code)
            conn.close()


if __name__ == "__main__":
    main(sys.argv[1])
