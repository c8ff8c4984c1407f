"""Python side of the storage and clock seam (see shim.c)."""
import ctypes
import mmap
import os

MAXFAULT = 32
MAXLOG = 8192

KINDS = {'ENOSPC': 1, 'EIO': 2, 'SHORT': 3, 'CRASH': 4, 'TORN': 5,
         'CRASH_AFTER': 6, 'EINTR': 7, 'FULL': 8, 'EACCES': 9, 'EMFILE': 10}
KNAMES = {v: k for k, v in KINDS.items()}
OPS = {1: 'open', 2: 'write', 3: 'trunc', 4: 'unlink', 5: 'rename',
       6: 'mkdir', 7: 'rmdir', 8: 'sync', 9: 'read', 10: 'openr', 11: 'mmap'}
FATAL = ('CRASH', 'TORN', 'CRASH_AFTER')


class _Fault(ctypes.Structure):
    _fields_ = [(n, ctypes.c_uint32) for n in ('at', 'kind', 'arg', 'fired')]


class _Jump(ctypes.Structure):
    _fields_ = [('at', ctypes.c_uint32), ('pad', ctypes.c_uint32),
                ('mono', ctypes.c_int64), ('wall', ctypes.c_int64)]


class _Log(ctypes.Structure):
    _fields_ = [('op', ctypes.c_uint8), ('fault', ctypes.c_uint8),
                ('file', ctypes.c_uint16), ('len', ctypes.c_uint32),
                ('off', ctypes.c_int64)]


class _Ctl(ctypes.Structure):
    _fields_ = [('magic', ctypes.c_uint32), ('enabled', ctypes.c_uint32),
                ('nops', ctypes.c_uint32), ('nreads', ctypes.c_uint32),
                ('nfault', ctypes.c_uint32), ('nrfault', ctypes.c_uint32),
                ('full', ctypes.c_uint32), ('full_budget', ctypes.c_uint32),
                ('fault', _Fault * MAXFAULT), ('rfault', _Fault * MAXFAULT),
                ('clock_on', ctypes.c_uint32), ('ncalls', ctypes.c_uint32),
                ('mono_ns', ctypes.c_int64), ('wall_ns', ctypes.c_int64),
                ('step_ns', ctypes.c_int64),
                ('njump', ctypes.c_uint32), ('jumped', ctypes.c_uint32),
                ('jump', _Jump * MAXFAULT),
                ('slept_ns', ctypes.c_int64), ('nsleep', ctypes.c_uint32),
                ('nlog', ctypes.c_uint32), ('root', ctypes.c_char * 512),
                ('log', _Log * MAXLOG)]


def _lib():
    return ctypes.CDLL(os.environ['VERIF_SHIM_LIB'])


class Seam:
    """One control block.  The parent creates it and reads it after the run;
    the run itself attaches to it."""

    def __init__(self, path):
        self.path = path
        size = ctypes.sizeof(_Ctl)
        with open(path, 'wb') as f:
            f.truncate(size)
        self.fd = os.open(path, os.O_RDWR)
        self.map = mmap.mmap(self.fd, size)
        self.c = _Ctl.from_buffer(self.map)

    # -- plan
    def plan(self, root, faults=(), rfaults=()):
        c = self.c
        c.enabled = 0
        c.nops = c.nreads = c.full = c.nlog = 0
        c.root = os.path.realpath(root).encode()
        for name, src in (('fault', faults), ('rfault', rfaults)):
            arr = getattr(c, name)
            for i, f in enumerate(src):
                arr[i].at = f['at']
                arr[i].kind = KINDS[f['kind']]
                arr[i].arg = f.get('arg', 0)
                arr[i].fired = 0
        c.nfault = len(faults)
        c.nrfault = len(rfaults)

    def clock(self, mono_ns, wall_ns, step_ns, jumps=()):
        c = self.c
        c.mono_ns, c.wall_ns, c.step_ns = mono_ns, wall_ns, step_ns
        c.ncalls = c.jumped = c.nsleep = 0
        c.slept_ns = 0
        for i, j in enumerate(jumps):
            c.jump[i].at, c.jump[i].mono, c.jump[i].wall = j
        c.njump = len(jumps)

    def clock_start(self):
        self.c.clock_on = 1

    def clock_stop(self):
        self.c.clock_on = 0

    # -- run side
    def attach(self):
        r = _lib().shim_attach(self.path.encode())
        if r:
            raise RuntimeError('cannot attach to the seam')

    def on(self):
        self.c.enabled = 1

    def off(self):
        self.c.enabled = 0

    def heal(self):
        """Stop injecting, keep counting."""
        self.c.nfault = self.c.nrfault = 0
        self.c.full = 0

    # -- outcome
    def fired(self):
        out = []
        for arr, n in ((self.c.fault, MAXFAULT), (self.c.rfault, MAXFAULT)):
            for i in range(n):
                if arr[i].fired:
                    out.append((KNAMES[arr[i].kind], arr[i].at))
        return out

    def log(self):
        c = self.c
        return [(OPS.get(c.log[i].op, '?'), KNAMES.get(c.log[i].fault, ''),
                 c.log[i].file, c.log[i].off, c.log[i].len)
                for i in range(min(c.nlog, MAXLOG))]

    def close(self):
        del self.c
        try:
            self.map.close()
        except BufferError:
            pass
        os.close(self.fd)
        try:
            os.unlink(self.path)
        except OSError:
            pass
