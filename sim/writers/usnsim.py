"""Simulated NTFS change journal writer ($UsnJrnl:$J): records of version 2, 3 and 4, appended in page-limited units to a
write-back disk; the front of the journal is deallocated (sparse zeros) as it grows."""
import struct

PAGE = 4096


def align8(n):
    return (n + 7) & ~7


class UsnRec(object):
    gap = extra = 0
    esize = 16
    rawname = None

    def encode(self):
        if self.ver in (2, 3):
            nm = self.name.encode('utf-16le') if self.rawname is None else self.rawname
            fixed = (60 if self.ver == 2 else 76) + self.gap
            ln = align8(fixed + len(nm))
            if self.ver == 2:
                b = struct.pack('<LHHQQ', ln, 2, self.minor, self.ref, self.parent)
            else:
                b = struct.pack('<LHH16s16s', ln, 3, self.minor, self.ref.to_bytes(16, 'little'), self.parent.to_bytes(16, 'little'))
            b += struct.pack('<QQLLLLHH', self.usn, self.time, self.reason, self.source, self.sid, self.attrs, len(nm), fixed) + b'\xBB' * self.gap + nm
            self.raw = b.ljust(ln, b'\0')
        else:
            ln = align8(64 + self.esize * len(self.extents))
            b = struct.pack('<LHH16s16sQLLLHH', ln, 4, self.minor, self.ref.to_bytes(16, 'little'), self.parent.to_bytes(16, 'little'), self.usn, self.reason, self.source,
                            self.remaining, len(self.extents) + self.extra, self.esize)
            for x in self.extents:
                b += x if isinstance(x, bytes) else struct.pack('<qq', *x)
            self.raw = b.ljust(ln, b'\0')
        return self.raw


class UsnSim(object):
    def __init__(self, disk, start):
        self.disk = disk
        self.end = start
        self.trim = start
        self.records = []

    def room(self, n):
        p = self.end
        if p % PAGE + n > PAGE:
            p = (p // PAGE + 1) * PAGE
        return p

    def append(self, r):
        n = len(r.encode())
        p = self.room(n)
        if p + n > len(self.disk):
            return False
        r.usn = p
        r.pos = p
        r.encode()
        self.disk.write(p, r.raw)
        self.end = p + n
        self.records.append(r)
        return True

    def deallocate(self, upto):
        upto = upto // PAGE * PAGE
        if upto > self.trim:
            self.disk.write(self.trim // PAGE * PAGE, bytes(upto - self.trim // PAGE * PAGE))
            self.trim = upto
