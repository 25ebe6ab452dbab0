"""Simulated log file service: writes a $LogFile (1.1 with tail copies, 2.0 with fast pages) through a write-back disk."""
import struct
import zlib
from ..core import SimDisk, HarnessError, pattern, rng_for
from . import ntfs

PAGE = 4096
DATA = 64
HDR = 48
CAP = PAGE - DATA

NOOP, INIT_FRS, UPDATE_RES, UPDATE_NONRES, OPEN_ATTR, OAT_DUMP, AN_DUMP = 0, 2, 7, 8, 0x1C, 0x1D, 0x1E
RES_OPS = (2, 3, 4, 5, 6, 7, 9, 0xB, 0xC, 0xD, 0x11, 0x13, 0x21, 0x23, 0x25)
NONRES_OPS = (8, 0xE, 0xF, 0x10, 0x12, 0x14, 0x15, 0x16, 0x22, 0x24)


class Crash(Exception):
    pass


class Rec(object):
    """One log record."""
    __slots__ = ('lsn', 'page', 'off', 'payload', 'rtype', 'txn', 'prev', 'undo', 'client', 'parts', 'acked', 'info', 'idx', 'complete')


class PageVersion(object):
    __slots__ = ('pos', 'cycle', 'recs', 'parts', 'last_lsn', 'last_end', 'raw', 'serial', 'acked', 'copy', 'logical', 'target', 'head')

    def __init__(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)


class LogSim(object):
    def __init__(self, ctx, cfg):
        """cfg: ver (11|20), inf (pages in the circular area), seqbits, seq0, cluster, major, crash_at"""
        self.ctx = ctx
        self.cfg = cfg
        self.v2 = cfg['ver'] != 11
        self.start = 34 if self.v2 else 4
        self.npages = self.start + cfg['inf']
        self.seqbits = cfg['seqbits']
        self.hdr = cfg.get('hdrlen', HDR)      # length of a record header
        self.data = cfg.get('data', DATA)      # first byte of the records in a page
        self.disk = SimDisk(ctx, self.npages * PAGE, fill=0xFF)
        self.cur = self.start          # current page
        self.off = self.data
        self.cycle = cfg['seq0']
        if cfg.get('dax'):
            ctx.probe('dax')
        self.buf = {}                  # page -> logical page being built (bytearray)
        self.meta = {}                 # page -> dict(cycle, last_lsn, last_end, count, recs, parts)
        self.written = {}              # page -> cycle in which it was already written in place (1.1)
        self.dirty = []                # pages changed since the last flush, in order
        self.unbulk = []               # 2.x: pages only in the fast area
        self.slot = cfg.get('slot0', 0)
        self.tail = 0
        self.records = []
        self.by_lsn = {}
        self.inplace = {}              # page -> [PageVersion]
        self.copies = {}               # page number of the copy -> [PageVersion]
        self.restart_versions = {0: [], 1: []}
        self.restart_info = {}
        self.usn = {}
        self.serial = 0
        self.txn_last = {}
        self.last_restart = 0
        self.restart_slot = 0
        self.oldest = 0
        self.nwrites = 0
        self.crashed = False
        self.oat = {}                  # live open attributes: index -> (reference, name)
        self.new_page(self.start)
        self.write_restart()
        self.write_restart()

    # ---- LSNs ----
    def lsn_of(self, page, off, cycle):
        return cycle << (64 - self.seqbits) | (page * PAGE + off) >> 3

    # ---- disk ----
    def dwrite(self, off, data):
        if self.nwrites == self.cfg.get('crash_at', -1):
            self.disk.write(off, data)
            raise Crash()
        self.nwrites += 1
        self.disk.write(off, data)

    def barrier(self):
        self.disk.flush()

    def protect(self, b, usn, usa):
        if not self.cfg.get('dax'):
            return ntfs.protect(bytes(b), usn, usa)
        b = bytearray(b)               # byte-addressable storage: a checksum instead of the update sequence array
        b[usa:usa + 18] = bytes(18)
        b[usa:usa + 8] = struct.pack('<L4s', zlib.crc32(bytes(b)), b'CRC4')
        return bytes(b)

    # ---- restart pages ----
    def write_restart(self):
        b = bytearray(PAGE)
        usa = 30
        b[0:4] = self.cfg.get('sig', 'RSTR').encode()
        struct.pack_into('<HH', b, 4, usa, 9)
        ver = {11: (1, 1), 20: (2, 0), 30: (3, 0)}[self.cfg['ver']]
        x = self.cfg.get('hdr')
        chk, dlen, rev = (x * 7919 + len(self.records), x % 5000, x ^ len(self.records)) if x else (0, 0, 7)
        struct.pack_into('<QLLHHH', b, 8, chk, PAGE, PAGE, 48, ver[1], ver[0])
        cur = self.records[-1].lsn if self.records else 0
        struct.pack_into('<QHHHHLHHqLHHL', b, 48, cur, 1, 0xFFFF, 0, 0 if self.v2 else 2, self.seqbits, 224, 64, self.npages * PAGE, dlen, self.hdr, self.data, rev)
        nm = 'NTFS'.encode('utf-16le')
        struct.pack_into('<QQHHH', b, 48 + 64, self.oldest, self.last_restart, 0xFFFF, 0xFFFF, self.cfg.get('client_seq', 0) >> 16)
        struct.pack_into('<L', b, 48 + 64 + 28, len(nm))
        b[48 + 64 + 32:48 + 64 + 32 + len(nm)] = nm
        s = self.restart_slot
        self.restart_slot ^= 1
        self.usn[s] = self.usn.get(s, 1) % 0xFFFE + 1
        raw = self.protect(bytes(b), self.usn[s], usa)
        self.restart_versions[s].append((raw, (cur, self.oldest, self.last_restart)))
        self.restart_info[raw] = {'page': (chk, PAGE, PAGE, 48, ver[0], ver[1]), 'area': (cur, 1, 0xFFFF, 0, 0 if self.v2 else 2, self.seqbits, 224, 64, self.npages * PAGE, dlen, self.hdr, self.data, rev),
                                  'client': (self.oldest, self.last_restart, 0xFFFF, 0xFFFF, self.cfg.get('client_seq', 0) >> 16, len(nm), 'NTFS')}
        self.dwrite(s * PAGE, raw)
        self.barrier()

    # ---- log pages ----
    def new_page(self, page):
        old = self.buf.get(page)
        b = bytearray(PAGE)
        if old is not None and self.cfg.get('stale'):
            b[self.data:] = old[self.data:]      # the page buffer is reused without being wiped
        self.buf[page] = b
        self.meta[page] = {'cycle': self.cycle, 'last_lsn': 0, 'last_end': 0, 'next': self.data, 'flags': 0, 'parts': []}

    def next_page(self):
        """Move on to the next page of the circular area."""
        nxt = self.cur + 1
        if nxt >= self.npages:
            nxt = self.start
            self.cycle += 1
            self.ctx.probe('log-wrap')
        # Never reuse a page which is not written yet.
        if nxt in self.dirty:
            self.flush()
        if nxt in self.unbulk:
            if nxt in self.dirty:
                raise HarnessError('dirty page reused')
            self.bulk()
        self.cur = nxt
        self.off = self.data
        self.new_page(nxt)

    def touch(self, page):
        if page not in self.dirty:
            self.dirty.append(page)

    def append(self, payload, rtype, txn=0, prev=0, undo=0, info=None):
        if len(payload) % 8:
            payload = payload + b'\0' * (-len(payload) % 8)
        if PAGE - self.off < self.hdr:
            self.next_page()
        r = Rec()
        r.page, r.off = self.cur, self.off
        r.lsn = self.lsn_of(self.cur, self.off, self.cycle)
        r.payload, r.rtype, r.txn, r.prev, r.undo, r.info = payload, rtype, txn, prev, undo, info
        r.client = self.cfg.get('client_seq', 0)
        r.acked = False
        r.complete = False
        r.idx = len(self.records)
        multi = len(payload) > PAGE - self.off - self.hdr
        hdr = bytearray(self.hdr)
        struct.pack_into('<QQQLLLLH', hdr, 0, r.lsn, prev, undo, len(payload), self.cfg.get('client_seq', 0), rtype, txn, 1 if multi else 0)
        b = self.buf[self.cur]
        b[self.off:self.off + self.hdr] = hdr
        self.off += self.hdr
        r.parts = [(self.cur, self.cycle)]
        self.records.append(r)
        self.by_lsn[r.lsn] = r
        left = payload
        while True:
            room = PAGE - self.off
            chunk, left = left[:room], left[room:]
            self.buf[self.cur][self.off:self.off + len(chunk)] = chunk
            self.off += len(chunk)
            m = self.meta[self.cur]
            m['last_lsn'] = r.lsn
            m['parts'].append(r)
            m['next'] = self.off if self.off < PAGE else PAGE - 8
            if rtype == 2 and self.v2:
                m['flags'] |= 2
            if not left:
                m['last_end'] = r.lsn
                m['flags'] |= 1
            self.touch(self.cur)
            if not left:
                break
            self.next_page()
            r.parts.append((self.cur, self.cycle))
        r.complete = True
        if len(r.parts) > 1:
            self.ctx.probe('multi-page-record')
        return r

    def seal(self, page, target=None, first=1, count=1):
        """The on-disk form of a page (target: file offset, for a tail or fast copy)."""
        m = self.meta[page]
        b = bytearray(self.buf[page])
        b[0:4] = b'RCRD'
        struct.pack_into('<HH', b, 4, 40, 9)
        struct.pack_into('<Q', b, 8, m['last_lsn'])
        struct.pack_into('<LHHHHLQ', b, 16, m['flags'], count, first, m['next'], 0, 0, m['last_end'])
        b[40:self.data] = bytes(self.data - 40)
        if target is not None:
            if self.v2:
                struct.pack_into('<L', b, 60, target)
            else:
                struct.pack_into('<q', b, 8, target)
        u = self.usn['page'] = self.usn.get('page', self.cfg.get('usn0', 1)) % 0xFFFE + 1
        raw = self.protect(bytes(b), u, 40)
        self.serial += 1
        return PageVersion(pos=page, cycle=m['cycle'], parts=list(m['parts']), last_lsn=m['last_lsn'], last_end=m['last_end'], raw=raw,
                           serial=self.serial, acked=False, copy=target is not None, logical=bytes(b), target=target, head=(m['flags'], count, first, m['next'], m['last_end']))

    def flush(self):
        """Make every record appended so far durable."""
        pages = [p for p in self.dirty]
        n = len(pages)
        if self.v2:
            if self.slot + n > 32:
                self.bulk()            # no room in the fast area: empty it first
            for i, p in enumerate(pages):
                v = self.seal(p, p * PAGE, i + 1, n)
                s = 2 + self.slot
                self.slot += 1
                self.copies.setdefault(s, []).append(v)
                self.dwrite(s * PAGE, v.raw)
                if p not in self.unbulk:
                    self.unbulk.append(p)
            self.barrier()
        else:
            for i, p in enumerate(pages):
                cyc = self.meta[p]['cycle']
                if self.written.get(p) == cyc:
                    v = self.seal(p, p * PAGE, i + 1, n)
                    s = 2 + self.tail
                    self.tail ^= 1
                    self.copies.setdefault(s, []).append(v)
                    self.barrier()
                    self.dwrite(s * PAGE, v.raw)
                    self.barrier()
                    self.ctx.probe('tail-copy')
                v = self.seal(p, None, i + 1, n)
                self.inplace.setdefault(p, []).append(v)
                self.dwrite(p * PAGE, v.raw)
                self.written[p] = cyc
            self.barrier()
        self.ack()
        self.dirty = []

    def ack(self):
        for r in reversed(self.records):
            if r.acked:
                break
            r.acked = r.complete

    def inplace_write(self, p):
        v = self.seal(p)
        self.inplace.setdefault(p, []).append(v)
        self.dwrite(p * PAGE, v.raw)
        self.barrier()                 # in-place writes are ordered

    def bulk(self):
        """2.x: write the pages kept in the fast area in place, then start reusing the fast area."""
        for p in sorted(self.unbulk, key=lambda p: (self.meta[p]['cycle'], p)):
            self.inplace_write(p)
        self.unbulk = []
        self.slot = 0
        self.ctx.probe('bulk')

    # ---- NTFS client ----
    def record(self, redo, undo, redo_op, undo_op, target=0, vcn=0, blk=0, lcns=(), attr_off=0, rec_off=0, tbs=2, txn=0, same=False, info=None, link=True, patch=()):
        ro = 32 + 8 * len(lcns)
        uo = ntfs.align8(ro + len(redo))
        if same:
            undo, uo = redo[:len(redo) if same is True else same], ro
            total = ntfs.align8(ro + len(redo))
        else:
            total = ntfs.align8(uo + len(undo))
        b = bytearray(total)
        struct.pack_into('<HHHHHHHHHHHHq', b, 0, redo_op, undo_op, ro if redo else 0, len(redo), uo if undo else 0, len(undo), target, len(lcns),
                         rec_off, attr_off, blk, tbs, vcn)
        for i, l in enumerate(lcns):
            struct.pack_into('<q', b, 32 + 8 * i, l)
        b[ro:ro + len(redo)] = redo
        b[uo:uo + len(undo)] = undo
        for off, fmt, val in patch:    # a record corrupted before it was written
            struct.pack_into(fmt, b, off, val)
        prev = self.txn_last.get(txn, 0) if link else 0
        inf = dict(redo=redo, undo=undo, redo_op=redo_op, undo_op=undo_op, target=target, vcn=vcn, blk=blk, lcns=list(lcns), attr_off=attr_off,
                   rec_off=rec_off, tbs=tbs)
        if info:
            inf.update(info)
        nxt = prev
        if self.cfg.get('clr') and prev in self.by_lsn and len(self.records) % 3 == 0:
            nxt = self.by_lsn[prev].undo     # compensation: the record undone is jumped over
            self.ctx.probe('undo-jump')
        r = self.append(bytes(b), 1, txn, prev, nxt, inf)
        self.txn_last[txn] = r.lsn
        return r

    def checkpoint(self):
        """A client restart record followed by a restart page."""
        b = bytearray(112)
        self.last_ckpt = [self.records[-1].lsn if self.records else 0]
        k = len(self.records) if self.cfg.get('tables') else 0
        tables = [self.records[(k * m // 7) % k].lsn if k else 0 for m in (1, 2, 3, 5)] + [(k * m * 40) & 0xFFFF for m in (1, 2, 3, 4)]
        struct.pack_into('<LLQQQQQLLLL', b, 0, self.cfg['major'], self.cfg.get('minor', 0), self.records[-1].lsn if self.records else 0, *tables)
        x = self.cfg.get('hdr', 0)
        more = [x * 4096, x * 31, self.cfg['cluster'], x << 20 | 5, x * 8, self.oldest]
        struct.pack_into('<qQLLQqQ', b, 64, more[0], more[1], more[2], 0, *more[3:])
        n = self.cfg.get('ra', 112)        # older versions write a shorter area
        more = [v if n >= e else None for v, e in zip(more, (72, 80, 84, 96, 104, 112))]
        r = self.append(bytes(b[:n]), 2, 0, self.last_restart, 0, {'start': self.records[-1].lsn if self.records else 0, 'tables': tables, 'more': more})
        self.last_restart = r.lsn
        if self.cfg.get('oldest') and self.records:
            self.oldest = self.records[max(0, len(self.records) - self.cfg['oldest'])].lsn
        self.flush()
        self.write_restart()
        return r

    def new_client(self):
        """The volume is mounted again: another client, with tables of its own."""
        self.flush()
        self.cfg['client_seq'] = (self.cfg.get('client_seq', 0) + 0x10000) & 0xFFFF0000
        self.txn_last = {}
        self.last_restart = 0
        self.oldest = 0
        self.write_restart()
        self.ctx.probe('new-client')

    # ---- after the crash ----
    def crash(self, mode, seed):
        return self.disk.crash(mode, seed)


def find_version(raw, versions):
    for v in reversed(versions):
        if v.raw == raw:
            return v
    return None
