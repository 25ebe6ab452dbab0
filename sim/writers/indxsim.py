"""Simulated NTFS driver working on a directory index ($I30, index allocation): inserts, removes and updates entries in index
buffers, leaving the bytes behind the last entry as they were, and remembers every version of every buffer it wrote."""
import struct
from . import ntfs


class Entry(object):
    __slots__ = ('ref', 'fn', 'vcn')

    def __init__(self, ref, fn, vcn=None):
        self.ref, self.fn, self.vcn = ref, fn, vcn

    def raw(self):
        return ntfs.index_entry(self.ref, self.fn, 0, self.vcn)


class BufVersion(object):
    def __init__(self, block, entries, logical, end, protected, lsn):
        self.block, self.entries, self.logical, self.end, self.protected, self.lsn = block, entries, logical, end, protected, lsn


class IndexSim(object):
    def __init__(self, ctx, disk, clock, bufsize, nbuf, locate, block_unit, usa_off=40, lsn0=0x5000):
        """locate: stream offset -> [(disk offset, length)] for a range of the stream."""
        self.ctx, self.disk, self.clock, self.bufsize, self.nbuf, self.locate = ctx, disk, clock, bufsize, nbuf, locate
        self.unit = block_unit
        self.usa_off = usa_off
        self.lists = [[] for _ in range(nbuf)]
        self.node = [False] * nbuf
        self.versions = [[] for _ in range(nbuf)]
        self.usn = [0] * nbuf
        self.lsn = lsn0
        self.every = []      # every $FILE_NAME value ever written

    def fits(self, i, entries):
        usa_n = self.bufsize // 512 + 1
        first = ntfs.align8(self.usa_off + 2 * usa_n)
        return first + sum(len(e.raw()) for e in entries) + 24 <= self.bufsize

    def write(self, i, keep=True):
        vs = self.versions[i]
        self.lsn = (self.lsn + 16) & ((1 << 64) - 1)
        es = [Entry(e.ref, e.fn, e.vcn) for e in self.lists[i]]
        logical, end = ntfs.index_buffer_logical(self.bufsize, i * (self.bufsize // self.unit or 1), [e.raw() for e in es] + [ntfs.index_end(7 if self.node[i] else None)], self.lsn, self.node[i],
                                                 vs[-1].logical if vs and keep else None, self.usa_off)
        self.usn[i] = self.usn[i] % 0xFFFE + 1
        prot = ntfs.protect(logical, self.usn[i])
        vs.append(BufVersion(vs[0].block if vs else i * (self.bufsize // self.unit or 1), es, logical, end, prot, self.lsn))
        pos = i * self.bufsize
        o = 0
        for off, n in self.locate(pos, self.bufsize):
            self.disk.write(off, prot[o:o + n])
            o += n

    def order(self, i):
        self.lists[i].sort(key=lambda e: e.fn[66:])

    def insert(self, i, e):
        cand = self.lists[i] + [e]
        if not self.fits(i, cand):
            return False
        self.lists[i] = cand
        self.order(i)
        self.every.append(e.fn)
        self.write(i)
        return True

    def remove(self, i, j):
        del self.lists[i][j]
        self.write(i)

    def update(self, i, j, fn):
        self.lists[i][j].fn = fn
        self.every.append(fn)
        self.write(i)

    def split(self, i, k):
        """Move the upper half of buffer i to the (unused) buffer k."""
        es = self.lists[i]
        h = len(es) // 2
        self.lists[k] = es[h:]
        self.lists[i] = es[:h]
        self.write(k)
        self.write(i)
