"""A process that runs functions of the checks on cases read from its standard input; used to compare processes which
differ only in the seed of string hashing."""
import contextlib
import importlib
import io
import json
import os
import subprocess
import sys

_servers = {}


def ask(hash_seed, module, func, case):
    """func(case) of the module, evaluated in a process with that PYTHONHASHSEED; -> its JSON-able answer."""
    srv = _servers.get((os.getpid(), hash_seed))
    if srv is None or srv.poll() is not None:
        srv = _servers[os.getpid(), hash_seed] = subprocess.Popen(
            [sys.executable, os.path.abspath(__file__)], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL, text=True, env=dict(os.environ, PYTHONHASHSEED=str(hash_seed)))
    srv.stdin.write(json.dumps([module, func, case]) + '\n')
    srv.stdin.flush()
    line = srv.stdout.readline()
    if not line:
        raise RuntimeError('the worker process ended')
    return json.loads(line)


def serve():
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    here = os.path.dirname(os.path.abspath(__file__))
    sys.path[:] = [p for p in sys.path if os.path.abspath(p or '.') != here]
    from vf.boot import boot
    boot()
    from vf import core
    for line in sys.stdin:
        module, func, case = json.loads(line)
        core.reset_globals()
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                ans = ['ok', getattr(importlib.import_module(module), func)(case)]
        except Exception as e:  # noqa: BLE001
            ans = ['error', f'{type(e).__name__}: {e}'[:500]]
        out.write(json.dumps(ans) + '\n')
        out.flush()


if __name__ == '__main__':
    serve()
