"""A second process with another hash seed, standing for the process after a restart.

`call("dst.props.c06", "replay_stream", args)` runs a module-level function there
and returns its result; arguments and results travel as pickles. The peer keeps no
state between calls that the results could depend on.
"""
import os
import pickle
import struct
import subprocess
import sys

from dst.core import HarnessError

VERIF = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))


class PeerFailed(Exception):
    """The function raised in the peer."""


_peers = {}


def _start(hashseed):
    e = dict(os.environ, PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=VERIF)
    return subprocess.Popen([sys.executable, "-m", "dst.peer"], cwd=VERIF, env=e, stdin=subprocess.PIPE,
                            stdout=subprocess.PIPE)


def _send(f, obj):
    data = pickle.dumps(obj)
    f.write(struct.pack("<q", len(data)))
    f.write(data)
    f.flush()


def _recv(f):
    head = f.read(8)
    if len(head) < 8:
        raise EOFError
    return pickle.loads(f.read(struct.unpack("<q", head)[0]))


def call(module, name, *args, hashseed=4242):
    p = _peers.get(hashseed)
    if p is None:
        p = _peers[hashseed] = _start(hashseed)
    try:
        _send(p.stdin, (module, name, args))
        ok, res = _recv(p.stdout)
    except (EOFError, OSError) as e:
        _peers.pop(hashseed, None)
        raise HarnessError(f"peer process died: {p.poll()}") from e
    if not ok:
        raise PeerFailed(res)
    return res


def serve():
    out = os.fdopen(os.dup(1), "wb")
    os.dup2(2, 1)
    import importlib
    import traceback

    from dst import env

    env.load()
    inp = sys.stdin.buffer
    while True:
        try:
            module, name, args = _recv(inp)
        except EOFError:
            return
        try:
            res = True, getattr(importlib.import_module(module), name)(*args)
        except Exception:  # noqa: BLE001
            res = False, traceback.format_exc()[-3000:]
        _send(out, res)


if __name__ == "__main__":
    serve()
