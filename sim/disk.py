"""Python side of the storage seam (sim/iofault.c)."""
import ctypes
import os

OPS = {1: 'open', 2: 'write', 3: 'pwrite', 4: 'ftruncate', 5: 'close',
       6: 'mkdir', 7: 'rename', 8: 'unlink', 9: 'fsync'}
KINDS = {'ENOSPC': 1, 'EIO': 2, 'SHORT': 3, 'CRASH_BEFORE': 4,
         'CRASH_TORN': 5, 'CRASH_AFTER': 6, 'EACCES': 7, 'EINTR': 8}
KIND_NAMES = {v: k for k, v in KINDS.items()}
CRASH_CODE = 77


class Rec(ctypes.Structure):
    _fields_ = [('op', ctypes.c_int32), ('fault', ctypes.c_int32),
                ('fd', ctypes.c_int32), ('res', ctypes.c_int32),
                ('off', ctypes.c_int64), ('len', ctypes.c_int64),
                ('name', ctypes.c_char * 48)]


class Disk:
    def __init__(self):
        L = self.lib = ctypes.CDLL(None)
        L.iof_prefix.argtypes = [ctypes.c_char_p]
        L.iof_plan.argtypes = [ctypes.c_long, ctypes.c_long, ctypes.c_int,
                               ctypes.c_long, ctypes.c_int]
        L.iof_nops.restype = ctypes.c_long
        L.iof_nlog.restype = ctypes.c_long
        L.iof_log.restype = ctypes.POINTER(Rec)
        L.iof_log.argtypes = [ctypes.c_long]

    def watch(self, folder):
        """Start counting operations below `folder`."""
        self.lib.iof_reset()
        self.lib.iof_prefix(os.path.abspath(folder).encode())
        self.lib.iof_arm(1)

    def stop(self):
        self.lib.iof_arm(0)

    def plan(self, seq, last, kind, arg=0, ops=()):
        mask = 0
        names = {v: k for k, v in OPS.items()}
        for o in ops:
            mask |= 1 << names[o]
        # Operations are numbered from 1 here and from 0 in the shim.
        self.lib.iof_plan(seq - 1, last - 1, KINDS[kind], arg, mask)

    def clear(self):
        self.lib.iof_clear_plan()

    @property
    def nops(self):
        return self.lib.iof_nops()

    def log(self):
        out = []
        for i in range(self.lib.iof_nlog()):
            r = self.lib.iof_log(i).contents
            out.append(dict(op=OPS.get(r.op, r.op),
                            fault=KIND_NAMES.get(r.fault),
                            res=r.res, off=r.off, len=r.len,
                            name=r.name.decode('latin1')))
        return out


_disk = None


def disk():
    global _disk
    if _disk is None:
        _disk = Disk()
    return _disk
