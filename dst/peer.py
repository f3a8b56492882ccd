"""Helper processes with another hash seed. peer(seed).call('checks.c07',
'fn', args) runs a function of a check there (JSON in, JSON out)."""
import json
import os
import subprocess
import sys

_peers = {}


class Peer:
    def __init__(self, hashseed):
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
        root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        self.p = subprocess.Popen(
            [sys.executable, '-c',
             f'import sys; sys.path.insert(0, {root!r}); '
             'from dst import peer; peer.serve()'],
            env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            close_fds=True)

    def call(self, module, fn, *args):
        self.p.stdin.write(json.dumps([module, fn, args]).encode() + b'\n')
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError('peer process ended')
        ok, res = json.loads(line)
        if not ok:
            raise RuntimeError('peer: ' + res)
        return res


def peer(hashseed):
    key = (os.getpid(), str(hashseed))
    if key not in _peers:
        _peers[key] = Peer(hashseed)
    return _peers[key]


def serve():
    import importlib
    import traceback
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    from . import env
    env.setup()
    for line in sys.stdin:
        module, fn, args = json.loads(line)
        try:
            res = [True, getattr(importlib.import_module(module), fn)(*args)]
        except Exception:
            res = [False, traceback.format_exc()]
        try:
            out.write(json.dumps(res) + '\n')
            out.flush()
        except BrokenPipeError:
            os._exit(0)
