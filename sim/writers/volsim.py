"""A simulated NTFS volume: boot sector, a fragmented $MFT that grows over time (its mapping spread over several records and a
resident or nonresident attribute list), and clusters for file data. The file records themselves are kept by MftSim."""
import struct
from . import ntfs
from .mftsim import MftSim, Node, res, nonres, IN_USE
from .ntfs import T_SI, T_FN, T_DATA, T_ALIST, T_BITMAP, ref

KIDS = range(16, 24)      # records reserved for the mapping of the $MFT


class VolSim(object):
    def __init__(self, ctx, disk, clock, rng, bps, spc, off, clusters, frs, first, per, alist_nr, short=False, extra=0, spread=3):
        self.ctx, self.disk, self.clock, self.rng = ctx, disk, clock, rng
        self.bps, self.spc, self.off, self.clusters, self.frs = bps, spc, off, clusters, frs
        self.cs = bps * spc
        self.per, self.alist_nr, self.spread = per, alist_nr, spread
        self.used = {0}
        self.mirr = clusters // 2
        self.used.add(self.mirr)
        self.runs = []
        self.kid_order = list(KIDS)
        if rng.random() < 0.5:
            rng.shuffle(self.kid_order)
        self.want_named = rng.random() < 0.3    # a named stream of the $MFT, kept in a record far away
        self.named = None
        self.layouts = []    # one per version of record 0: (version, [(kid, lowest)], alist cluster or None)
        self.sim = MftSim(ctx, disk, clock, 0, frs, self.cs, locate=self.locate, short=short, extra=extra)
        self.sim.flush_node, self._flush = self.flush_node, self.sim.flush_node
        self.extend(first)
        self.sim.nrec = self.capacity()
        self.sim.format(mft_runs=self.runs, never_used=True)
        self.sim.free = [i for i in self.sim.free if i not in KIDS]
        self.write_boot()
        disk.flush()

    def extend(self, n):
        """Allocate clusters for the $MFT; contiguous space is avoided so that it becomes a new run."""
        for _ in range(60):
            last = self.runs[-1] if self.runs else None
            lcn = self.rng.randrange(1, self.clusters - n)
            if last and lcn == last[0] + last[1]:
                continue
            if not any(c in self.used for c in range(lcn, lcn + n)):
                self.used.update(range(lcn, lcn + n))
                self.runs.append((lcn, n))
                return True
        return False

    def alloc(self, n):
        for _ in range(60):
            lcn = self.rng.randrange(1, self.clusters - n)
            if not any(c in self.used for c in range(lcn, lcn + n)):
                self.used.update(range(lcn, lcn + n))
                return lcn
        return None

    def alloc_runs(self, n, pieces):
        """Runs (possibly several, out of order) for n clusters, or None."""
        out = []
        left = n
        while left:
            k = left if len(out) + 1 >= pieces else self.rng.randrange(1, left + 1)
            lcn = self.alloc(k)
            if lcn is None:
                return None
            if out and out[-1][0] + out[-1][1] == lcn:
                out[-1] = (out[-1][0], out[-1][1] + k)
            else:
                out.append((lcn, k))
            left -= k
        return out

    def write_runs(self, runs, data):
        pos = 0
        for lcn, n in runs:
            if lcn is None:
                pos += n * self.cs
                continue
            part = data[pos:pos + n * self.cs]
            if part:
                self.disk.write(self.off + lcn * self.cs, part)
            pos += n * self.cs

    def capacity(self):
        return sum(n for _, n in self.runs) * self.cs // self.frs

    def phys(self, pos):
        """Stream position in the $MFT -> position on the disk."""
        vcn, o = divmod(pos, self.cs)
        for lcn, n in self.runs:
            if vcn < n:
                return self.off + (lcn + vcn) * self.cs + o
            vcn -= n
        raise ValueError(pos)

    def locate(self, num):
        # A record is never split: the cluster size is a multiple of the record size or the runs are multiples of it.
        return self.phys(num * self.frs)

    def code(self, size):
        if size >= self.cs and size % self.cs == 0 and size // self.cs < 128:
            return size // self.cs
        return -(size.bit_length() - 1)

    def write_boot(self):
        spc = self.spc if self.spc <= 0x80 else 256 - (self.spc.bit_length() - 1)
        b = ntfs.boot_sector(self.bps, spc, self.clusters * self.spc - 1, self.runs[0][0], self.mirr, self.code(self.frs), self.code(4096))
        self.disk.write(self.off, b)
        self.boot = b

    def flush_node(self, n):
        if n.num != 0:
            return self._flush(n)
        sim = self.sim
        c, m, e, a = n.times
        size = sim.nrec * self.frs
        base = [res(T_SI, ntfs.si_value(c, m, e, a, n.fattrs, n.usn))]
        l = n.links[0]
        fn = res(T_FN, ntfs.fn_value(ref(*l['parent']), *l['times'], size, size, l['attrs'], l['name'], l['ns']))
        parts = []
        low = 0
        for i in range(0, len(self.runs), self.per):
            p = self.runs[i:i + self.per]
            parts.append((low, p))
            low += sum(k for _, k in p)
        total = low * self.cs
        data = [nonres(T_DATA, p, size, self.cs, None, lowest=lo, extra=sim.extra, alloc=total) for lo, p in parts]
        bm = res(T_BITMAP, b'\xff' * 8)
        kids = []
        for i, d in enumerate(data[1:]):
            k = self.kid_order[i]
            kids.append((k, d.lowest))
            hist = sim.history.get(k)
            if hist and hist[-1].flags & IN_USE and [x.key() for x in hist[-1].attrs] == [d.key()]:
                continue
            sim.put(k, max(1, sim.seq.get(k, 1)), IN_USE, n.ref(), [d])
            self.disk.flush()
        lst = None
        ent = None
        if kids:
            if self.want_named and self.named is None and sim.free:
                self.named = sim.free.pop(sim.free.index(max(sim.free)))
                sim.put(self.named, max(1, sim.seq.get(self.named, 1)), IN_USE, n.ref(), [res(T_DATA, b'named', 'extra')])
                self.disk.flush()
                self.ctx.probe('named-stream')
            ent = ntfs.alist_entry(T_SI, None, 0, n.ref(), 0) + ntfs.alist_entry(T_FN, None, 0, n.ref(), 1) + ntfs.alist_entry(T_DATA, None, 0, n.ref(), 2)
            for k, lo in kids:
                ent += ntfs.alist_entry(T_DATA, None, lo, ref(k, sim.seq[k]), 0)
            if self.named is not None:
                ent += ntfs.alist_entry(T_DATA, 'extra', 0, ref(self.named, sim.seq[self.named]), 4)
            ent += ntfs.alist_entry(T_BITMAP, None, 0, n.ref(), 3)
            if self.alist_nr:
                cl = (len(ent) + self.cs - 1) // self.cs
                lst = self.alloc_runs(cl, 1)
                stale = ntfs.alist_entry(T_DATA, None, low + 5, ref(1 << 20, 9), 0) * 40 if self.rng.random() < 0.5 else b''
                self.write_runs(lst, (ent + stale).ljust(cl * self.cs, b'\0')[:cl * self.cs])
                self.disk.flush()
                base.append(nonres(T_ALIST, lst, len(ent), self.cs))
            else:
                base.append(res(T_ALIST, ent))
        sim.put(0, n.seq, IN_USE, 0, base + [fn, data[0], bm])
        sim.history[0][-1].entries = ent
        self.layouts.append((sim.history[0][-1], kids, lst, [list(p) for _, p in parts]))
        # The mirror.
        self.disk.write(self.off + self.mirr * self.cs, sim.history[0][-1].protected[:self.cs])
        return True

    def can_grow(self):
        return (len(self.runs) + self.per) // self.per <= len(KIDS)

    def grow(self, n):
        if not self.can_grow() or not self.extend(n):
            return False
        sim = self.sim
        old, sim.nrec = sim.nrec, self.capacity()
        for i in range(old, sim.nrec):
            sim.put(i, 1, 0, 0, [])
            sim.free.append(i)
        self.disk.flush()
        self.flush_node(sim.nodes[0])
        return True
