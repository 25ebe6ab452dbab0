"""Simulated NTFS driver working on an $MFT: executes a history of file system operations and writes file records through
a SimDisk, keeping every version of every record it ever wrote (the reference the oracle works from)."""
import datetime
import struct
from . import ntfs
from .ntfs import (T_SI, T_ALIST, T_FN, T_OBJID, T_VNAME, T_VINFO, T_DATA, T_IROOT, T_IALLOC, T_BITMAP, T_EA, T_END, ref)

IN_USE, DIR = 1, 2


def decode_ft(t):
    """Exact decoding of a FILETIME: integer microseconds since 1601, or None when out of range."""
    try:
        return datetime.datetime(1601, 1, 1) + datetime.timedelta(microseconds=t // 10)
    except OverflowError:
        return None


def same_time(got, filetime):
    want = decode_ft(filetime)
    if want is None or got is None:
        return (got is None) == (want is None)
    # The parser computes with floating point numbers: the further away a date is, the coarser it gets.
    return abs((got - want).total_seconds()) <= max(2.5e-6, filetime * 1e-7 * 2.0 ** -51)


class Attr(object):
    """One attribute record: resident (value) or not (runs, size, lowest)."""
    __slots__ = ('code', 'name', 'value', 'runs', 'size', 'lowest', 'raw')

    def __init__(self, code, name, raw, value=None, runs=None, size=None, lowest=0):
        self.code, self.name, self.raw, self.value, self.runs, self.size, self.lowest = code, name, raw, value, runs, size, lowest

    def key(self):
        if self.runs is None:
            return (self.code, self.name or '', 'R', bytes(self.value))
        return (self.code, self.name or '', 'N', self.lowest, self.size, tuple(self.runs))


def res(code, value, name=None, inst=0):
    return Attr(code, name, ntfs.attr_resident(code, value, name, inst), value=value)


def nonres(code, runs, size, cluster, name=None, lowest=0, extra=0, inst=0, alloc=None):
    runs = [tuple(r) for r in runs]
    raw = ntfs.attr_nonresident(code, runs, size, cluster, name=name, lowest=lowest, extra=extra, inst=inst, alloc=alloc)
    return Attr(code, name, raw, runs=runs, size=size if lowest == 0 else 0, lowest=lowest)


class Version(object):
    """One version of one record, as written."""

    def __init__(self, num, seq, flags, base, lsn, attrs, logical, slack_off, protected, usn, sig):
        self.num, self.seq, self.flags, self.base, self.lsn = num, seq, flags, base, lsn
        self.attrs, self.logical, self.slack_off, self.protected, self.usn = attrs, logical, slack_off, protected, usn
        self.sig = sig
        self.first_free = struct.unpack_from('<L', logical, 24)[0]

    @property
    def in_use(self):
        return bool(self.flags & IN_USE)

    @property
    def is_dir(self):
        return bool(self.flags & DIR)

    @property
    def eff_seq(self):
        if self.in_use or self.seq == 1:
            return self.seq
        return 0xFFFF if self.seq == 0 else self.seq - 1

    def names(self):
        """[(parent ref, name, namespace, (c, m, e, a), size, attrs)]"""
        out = []
        for a in self.attrs:
            if a.code == T_FN and a.runs is None:
                p, c, m, e, t, al, sz, fa = struct.unpack_from('<QQQQQqqL', a.value, 0)
                ns = a.value[65]
                nm = a.value[66:66 + 2 * a.value[64]].decode('utf-16le', 'replace')
                out.append((p, nm, ns, (c, m, e, t), sz, fa))
        return out


class Node(object):
    """A live file or directory."""

    def __init__(self, num, seq, is_dir):
        self.num, self.seq, self.is_dir = num, seq, is_dir
        self.links = []      # [dict(parent=(num, seq), name, ns, times, size, attrs)]
        self.times = [0, 0, 0, 0]
        self.fattrs = 0x20
        self.usn = 0
        self.data = ('R', b'')   # or ('N', runs, size)
        self.ads = []            # [(name, ('R', bytes) | ('N', runs, size))]
        self.objid = None
        self.ea = None
        self.nameless = False
        self.si_len = 72         # 48: the short form
        self.twins = []          # further attributes of types that should be there once
        self.kids = []           # child segment numbers
        self.xflags = 0          # other bits of the flags (4: in an extend directory, 8: view index)
        self.index = None        # extra attributes (directories)

    def ref(self):
        return ref(self.num, self.seq)


class MftSim(object):
    version = (3, 1)     # of NTFS, as recorded in $Volume

    def __init__(self, ctx, disk, clock, nrec, size=1024, cluster=4096, locate=None, short=False, extra=0, fmt_seq=None, lsn0=0x100000):
        self.ctx, self.disk, self.clock, self.nrec, self.size, self.cluster = ctx, disk, clock, nrec, size, cluster
        self.locate = locate or (lambda n: n * size)
        self.short = short
        self.extra = extra
        self.history = {}        # num -> [Version]
        self.nodes = {}          # num -> Node (live)
        self.seq = {}            # num -> sequence number stored now
        self.lsn = lsn0
        self.free = []
        self.dead = []
        self.fmt_seq = fmt_seq or {}
        self.usn_ctr = {}
        self.max_links = 12

    # --- records

    def put(self, num, seq, flags, base, attrs, sig=b'FILE', keep_slack=True):
        old = None
        hist = self.history.setdefault(num, [])
        if hist and keep_slack:
            old = hist[-1].logical
        self.lsn += 8
        usn = self.usn_ctr.get(num, (num * 7) & 0xFFFF) + 1
        if usn > 0xFFFE:
            usn = 1
        self.usn_ctr[num] = usn
        refs = sum(1 for a in attrs if a.code == T_FN)
        logical, slack = ntfs.frs_logical(self.size, num, seq, flags, [a.raw for a in attrs], base=base, lsn=self.lsn, refcount=refs,
                                          old=old, short=self.short, sig=sig)
        prot = ntfs.protect(logical, usn)
        v = Version(num, seq, flags, base, self.lsn, list(attrs), logical, slack, prot, usn, sig)
        hist.append(v)
        self.seq[num] = seq
        self.disk.write(self.locate(num), prot)
        return v

    def format(self, mft_runs=None, never_used=True, root_attrs=None, extra_system=True):
        t = self.clock.now()
        sysnames = ['$MFT', '$MFTMirr', '$LogFile', '$Volume', '$AttrDef', '.', '$Bitmap', '$Boot', '$BadClus', '$Secure', '$UpCase', '$Extend']
        for i, nm in enumerate(sysnames):
            n = Node(i, i if i else 1, i in (5, 11))
            n.times = [t] * 4
            n.fattrs = 6
            n.links = [dict(parent=(5, 5), name=nm, ns=3, times=[t] * 4, size=0, attrs=6 | (0x10000000 if n.is_dir else 0))]
            if i == 0 and mft_runs is not None:
                n.data = ('N', mft_runs, self.nrec * self.size)
            self.nodes[i] = n
            self.flush_node(n)
        for i in range(12, self.nrec):
            if i < 16:
                self.put(i, i, IN_USE, 0, [res(T_SI, ntfs.si_value(t, t, t, t, 6))])
            elif never_used:
                self.put(i, self.fmt_seq.get(i, 1), 0, 0, [])
        self.free = list(range(16, self.nrec))
        self.disk.flush()

    def attrs_of(self, n):
        """All attributes of a live node, in order."""
        c, m, e, a = n.times
        out = [res(T_SI, ntfs.si_value(c, m, e, a, n.fattrs, n.usn)[:n.si_len], inst=0)]
        for i, l in enumerate(n.links if not n.nameless else ()):
            tc, tm, te, ta = l['times']
            out.append(res(T_FN, ntfs.fn_value(ref(*l['parent']), tc, tm, te, ta, (l['size'] + 7) & ~7, l['size'], l['attrs'], l['name'], l['ns']), inst=i + 1))
        if n.objid is not None:
            out.append(res(T_OBJID, n.objid))
        if n.num == 3:
            out.append(res(T_VNAME, 'Vol'.encode('utf-16le')))
            out.append(res(T_VINFO, ntfs.vinfo_value(*self.version)))
        if n.is_dir:
            out += n.index if n.index is not None else [res(T_IROOT, ntfs.index_root_value([ntfs.index_end()]), '$I30')]
        else:
            out += self.stream(None, n.data)
        for nm, d in n.ads:
            out += self.stream(nm, d)
        if n.ea is not None:
            out.append(res(T_EA, n.ea))
        for a in n.twins:
            at = [i for i, b in enumerate(out) if b.code <= a.code]
            out.insert(at[-1] + 1 if at else len(out), a)
        return out

    def stream(self, name, d):
        if d[0] == 'R':
            return [res(T_DATA, d[1], name)]
        runs = [tuple(r) for r in d[1]]
        total = sum(c for _, c in runs)
        out, low, i = [], 0, 0
        per = 12
        while i < len(runs) or i == 0:
            part = runs[i:i + per]
            out.append(nonres(T_DATA, part, d[2], self.cluster, name, lowest=low, extra=self.extra, alloc=total * self.cluster))
            low += sum(c for _, c in part)
            i += per
        return out

    def flush_node(self, n):
        """Write the records of a live node; split over child segments when the base record overflows."""
        attrs = self.attrs_of(n)
        usa = 42 if self.short else 48
        first = ntfs.align8(usa + 2 * (self.size // 512 + 1))
        room = self.size - first - 8
        flags = IN_USE | (DIR if n.is_dir else 0) | n.xflags
        if sum(len(a.raw) for a in attrs) <= room and not n.kids:
            self.put(n.num, n.seq, flags, 0, attrs)
            return True
        # Keep $STANDARD_INFORMATION, the first name (and record 3's volume attributes) in the base record; the rest in children.
        keep = [attrs[0]]
        moved = []
        budget = room - len(attrs[0].raw) - 24
        fn_kept = False
        # reserve room for the attribute list: (32 + name) per attribute
        lst_len = sum(len(ntfs.alist_entry(a.code, a.name, 0, 0, 0)) for a in attrs) + 32
        budget -= lst_len + 24
        for a in attrs[1:]:
            if (not fn_kept and a.code == T_FN) or a.code in (T_VINFO, T_VNAME, T_IROOT):
                if len(a.raw) <= budget:
                    keep.append(a)
                    budget -= len(a.raw)
                    fn_kept = fn_kept or a.code == T_FN
                    continue
            if a.code == T_DATA and n.num == 0 and a.lowest == 0 and a.runs is not None and len(a.raw) <= budget:
                keep.append(a)
                budget -= len(a.raw)
                continue
            moved.append(a)
        if budget < 0:
            return False
        groups, cur, curlen = [], [], 0
        for a in moved:
            if len(a.raw) > room:
                return False
            if curlen + len(a.raw) > room:
                groups.append(cur)
                cur, curlen = [], 0
            cur.append(a)
            curlen += len(a.raw)
        if cur:
            groups.append(cur)
        had = len(n.kids)
        while len(n.kids) < len(groups):
            k = self.alloc()
            if k is None:
                self.free = n.kids[had:] + self.free
                del n.kids[had:]
                return False
            n.kids.append(k)
        if len(n.kids) > len(groups):
            # A segment is never given back while its base record is in use (see ASSUMPTIONS); pad with empty groups.
            groups += [[] for _ in range(len(n.kids) - len(groups))]
        entries = b''
        where = {}
        for i, g in enumerate(groups):
            for a in g:
                where[id(a)] = n.kids[i]
        for a in attrs:
            tgt = where.get(id(a))
            entries += ntfs.alist_entry(a.code, a.name, a.lowest if a.runs is not None else 0,
                                        ref(tgt, self.seq[tgt]) if tgt is not None else n.ref(), 0)
        keep.insert(1, res(T_ALIST, entries))
        for i, g in enumerate(groups):
            self.put(n.kids[i], self.seq[n.kids[i]], IN_USE, n.ref(), g)
        self.put(n.num, n.seq, flags, 0, keep)
        return True

    def alloc(self):
        if not self.free:
            return None
        k = self.free.pop(0)
        s = self.seq.get(k, 0)
        if s == 0:
            s = 1
        self.seq[k] = s
        return k

    def release(self, num):
        h = self.history[num][-1]
        s = (h.seq + 1) & 0xFFFF
        self.put(num, s, h.flags & ~IN_USE, h.base, h.attrs)
        # Reuse soon or late.
        self.free.insert(0 if (num + s) % 3 else len(self.free), num)

    # --- operations (arguments are small integers; anything impossible is skipped)

    def dirs(self):
        return [n for n in self.nodes.values() if n.is_dir and (n.num == 5 or n.num >= 16)]

    def user_nodes(self):
        return [n for n in self.nodes.values() if n.num >= 16]

    def has_name(self, d, name):
        u = name.upper()
        for n in self.nodes.values():
            for l in n.links:
                if l['parent'] == (d.num, d.seq) and l['name'].upper() == u:
                    return True
        return False

    def is_below(self, n, anc):
        """Is directory n the same as, or below, anc?"""
        seen = set()
        while n is not None and n.num not in seen:
            if n is anc:
                return True
            if n.num == 5 or not n.links:
                return False
            seen.add(n.num)
            n = self.nodes.get(n.links[0]['parent'][0])
        return False

    def link(self, n, d, name, short=None, order=1):
        t = list(n.times)
        fa = n.fattrs | (0x10000000 if n.is_dir else 0)
        sz = 0 if n.is_dir else (len(n.data[1]) if n.data[0] == 'R' else n.data[2])
        if short is None:
            n.links.append(dict(parent=(d.num, d.seq), name=name, ns=3 if len(name) <= 8 else 0, times=t, size=sz, attrs=fa))
        else:
            pair = [dict(parent=(d.num, d.seq), name=name, ns=0 if order == 3 else 1, times=t, size=sz, attrs=fa),
                    dict(parent=(d.num, d.seq), name=short, ns=2, times=t, size=sz, attrs=fa)]
            n.links += pair if order == 1 else pair[::-1]

    def op_create(self, d, name, is_dir, short, size, order=1):
        if self.has_name(d, name) or (short and (self.has_name(d, short) or short.upper() == name.upper())):
            return None
        num = self.alloc()
        if num is None:
            return None
        n = Node(num, self.seq[num], is_dir)
        t = self.clock.now()
        n.times = [t, t + 10, t + 20, t + 30]
        n.data = ('R', b'd' * size)
        self.link(n, d, name, short, order)
        self.nodes[num] = n
        if not self.flush_node(n):
            del self.nodes[num]
            self.put(num, n.seq, 0, 0, [])
            return None
        return n

    def op_delete(self, n):
        if n.is_dir and any(l['parent'] == (n.num, n.seq) for m in self.nodes.values() for l in m.links):
            return False
        del self.nodes[n.num]
        self.dead.append(n)
        for k in n.kids:
            self.release(k)
        self.release(n.num)
        return True

    def op_rename(self, n, d, name, idx=0):
        if n.is_dir and self.is_below(d, n):
            return False
        if self.has_name(d, name):
            return False
        old = [dict(l) for l in n.links]
        l = n.links[idx % len(n.links)]
        if l['ns'] in (1, 2):  # a Win32 + DOS pair is replaced by a single name
            n.links = [x for x in n.links if not (x['ns'] in (1, 2) and x['parent'] == l['parent'])]
        else:
            n.links.remove(l)
        self.link(n, d, name)
        if n.is_dir and len(n.links) > 1:
            n.links = n.links[-1:]
        if not self.flush_node(n):
            n.links = old
            return False
        return True

    def op_hardlink(self, n, d, name):
        if n.is_dir or len(n.links) >= self.max_links or self.has_name(d, name):
            return False
        self.link(n, d, name)
        if not self.flush_node(n):
            n.links.pop()
            return False
        return True

    def op_update(self, n, fn):
        saved = (n.data, list(n.ads), n.objid, list(n.times), n.usn, n.ea, n.twins)
        fn(n)
        if not self.flush_node(n):
            n.data, n.ads, n.objid, n.times, n.usn, n.ea, n.twins = saved
            return False
        return True

    def op_fill(self, n, spare):
        """Fill the record up to its last byte (less 'spare' bytes) with resident data."""
        if n.is_dir or n.kids:
            return False
        first = ntfs.align8((42 if self.short else 48) + 2 * (self.size // 512 + 1))
        saved = n.data
        n.data = ('R', b'')
        left = self.size - first - 8 - sum(len(a.raw) for a in self.attrs_of(n)) - spare
        n.data = saved
        if left < 0:
            return False
        return self.op_update(n, lambda n: setattr(n, 'data', ('R', b'f' * left)))

    # --- what survived

    def classify(self, image):
        """For each record: ('ok', Version) when the durable bytes are exactly one version; ('torn', usable Version or None);
        torn records whose used region is wholly from one version are usable."""
        out = {}
        for num in range(self.nrec):
            off = self.locate(num)
            buf = image[off:off + self.size]
            if len(buf) < self.size:
                continue
            hist = self.history.get(num, [])
            out[num] = classify_record(buf, hist, self.size)
        return out


def classify_record(buf, hist, size):
    for v in reversed(hist):
        if buf == v.protected:
            return ('ok', v)
    # Which version does each sector come from?
    head = [v for v in hist if buf[:512] == v.protected[:512]]
    if not head:
        return ('gone', None)
    v = head[-1]
    good = 0
    for i in range(size // 512):
        if struct.unpack_from('<H', buf, i * 512 + 510)[0] != v.usn:
            break
        if buf[i * 512:(i + 1) * 512] != v.protected[i * 512:(i + 1) * 512]:
            return ('mixed', None)   # same update sequence number but different contents: not detectable by design
        good += 1
    if good * 512 < v.first_free:
        return ('torn', None)
    return ('tail-torn', v)
