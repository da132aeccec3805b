"""A second interpreter running the code under test with the JIT compiler off, driven over pipes by a compiled worker (P34)."""
from __future__ import annotations

import os
import pickle
import struct
import subprocess
import sys


def outcome(c, op):
    """flattened outputs of one operation over a fresh world, or the fact that the library rejected it"""
    from vlib import entries
    try:
        return [(p, a) for p, _, a in entries.flatten(entries.run(entries.World(c), op))]
    except Exception as e:                                 # noqa: BLE001
        return ("raised", type(e).__name__ + ": " + str(e)[:80])


def serve():
    out = os.fdopen(os.dup(1), "wb")
    os.dup2(2, 1)                                          # whatever the library prints must not reach the pipe
    import logging
    logging.disable(logging.CRITICAL)
    import numba
    assert numba.config.DISABLE_JIT
    from vlib.core import quiet
    inp = sys.stdin.buffer
    while True:
        h = inp.read(8)
        if len(h) < 8:
            return
        req = pickle.loads(inp.read(struct.unpack("<q", h)[0]))
        with quiet():
            res = outcome(*req)
        b = pickle.dumps(res)
        out.write(struct.pack("<q", len(b)) + b)
        out.flush()


class Peer:
    _one = None

    @classmethod
    def ask(cls, c, op):
        if cls._one is None or cls._one.poll() is not None:
            env = {**os.environ, "NUMBA_DISABLE_JIT": "1", "MALLOC_PERTURB_": "60"}
            cls._one = subprocess.Popen([sys.executable, "-c", "from vlib.peer import serve; serve()"], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                        stderr=subprocess.DEVNULL, env=env)
        b = pickle.dumps((c, op))
        cls._one.stdin.write(struct.pack("<q", len(b)) + b)
        cls._one.stdin.flush()
        h = cls._one.stdout.read(8)
        if len(h) < 8:
            raise RuntimeError("the interpreted peer process ended")
        return pickle.loads(cls._one.stdout.read(struct.unpack("<q", h)[0]))


if __name__ == "__main__":
    serve()
