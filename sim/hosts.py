"""Fresh interpreters with a chosen hash seed, each forking one child per request."""
import os
import pickle
import struct
import subprocess
import sys

from . import world

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def _read(f):
    head = f.read(8)
    if len(head) < 8:
        raise EOFError
    return pickle.loads(f.read(struct.unpack("<Q", head)[0]))


def _write(f, obj):
    data = pickle.dumps(obj)
    f.write(struct.pack("<Q", len(data)) + data)
    f.flush()


class Host:
    def __init__(self, cid, hashseed):
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed), VERIF_REEXEC="1")
        self.p = subprocess.Popen([sys.executable, "-W", "ignore", os.path.join(VERIF, "run_check.py"),
                                   "host", cid], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env)

    def call(self, arg):
        _write(self.p.stdin, arg)
        return _read(self.p.stdout)

    def close(self):
        self.p.stdin.close()
        self.p.wait()


def serve(check):
    fin, fout = os.fdopen(os.dup(0), "rb"), os.fdopen(os.dup(1), "wb")
    dn = os.open(os.devnull, os.O_RDWR)
    os.dup2(dn, 0)
    os.dup2(dn, 1)
    check.prepare()
    while True:
        try:
            arg = _read(fin)
        except EOFError:
            return 0
        _write(fout, world.in_child(lambda: check.hosted(arg), check.timeout))
