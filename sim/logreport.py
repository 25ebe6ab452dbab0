"""What ntfs_parser --log must print about a log record: built from what was logged, independent of the code under test. Also the payloads of realistic log records."""
import datetime
import struct
import uuid
from .core import rng_for, pattern
from .writers import ntfs
from .writers.usnsim import UsnRec
from .writers.logsim import RES_OPS, NONRES_OPS, OPEN_ATTR, OAT_DUMP, AN_DUMP
from . import ntfscli, mfthist

OPS = ['Noop', 'CompensationLogRecord', 'InitializeFileRecordSegment', 'DeallocateFileRecordSegment', 'WriteEndOfFileRecordSegment', 'CreateAttribute', 'DeleteAttribute', 'UpdateResidentValue',
       'UpdateNonresidentValue', 'UpdateMappingPairs', 'DeleteDirtyClusters', 'SetNewAttributeSizes', 'AddIndexEntryRoot', 'DeleteIndexEntryRoot', 'AddIndexEntryAllocation', 'DeleteIndexEntryAllocation',
       'WriteEndOfIndexBuffer', 'SetIndexEntryVcnRoot', 'SetIndexEntryVcnAllocation', 'UpdateFileNameRoot', 'UpdateFileNameAllocation', 'SetBitsInNonresidentBitMap', 'ClearBitsInNonresidentBitMap', 'HotFix',
       'EndTopLevelAction', 'PrepareTransaction', 'CommitTransaction', 'ForgetTransaction', 'OpenNonresidentAttribute', 'OpenAttributeTableDump', 'AttributeNamesDump', 'DirtyPageTableDump', 'TransactionTableDump',
       'UpdateRecordDataRoot', 'UpdateRecordDataAllocation', 'UpdateRelativeDataIndex', 'UpdateRelativeDataAllocation', 'ZeroEndOfFileRecord']
FLAGS = ['READ_ONLY', 'HIDDEN', 'SYSTEM', None, 'DIRECTORY', 'ARCHIVE', 'DEVICE', 'NORMAL', 'TEMPORARY', 'SPARSE', 'REPARSE_POINT', 'COMPRESSED', 'OFFLINE', 'NOT_CONTENT_INDEXED', 'ENCRYPTED', 'INTEGRITY_STREAM',
         'VIRTUAL', 'NO_SCRUB_DATA', 'RECALL_ON_OPEN', 'PINNED', 'UNPINNED', None, 'RECALL_ON_DATA_ACCESS']
REASONS = {0: 'DATA_OVERWRITE', 1: 'DATA_EXTEND', 2: 'DATA_TRUNCATION', 8: 'FILE_CREATE', 9: 'FILE_DELETE', 12: 'RENAME_OLD_NAME', 13: 'RENAME_NEW_NAME', 15: 'BASIC_INFO_CHANGE', 31: 'CLOSE'}
PLAIN_RES = (6, 9, 0xB, 0xD, 0x11, 0x21, 0x23, 0x25)
PLAIN_NON = (0xF, 0x12, 0x15, 0x16, 0x22, 0x24)
SEP = '\n\n---\n\n'
KINDS = ['init', 'init', 'create', 'create', 'uncreate', 'writeend', 'resident', 'resident', 'index', 'index', 'unindex', 'dup', 'usn', 'usn', 'dealloc', 'plain', 'plain', 'nonres']


def opname(v):
    return OPS[v] if v < len(OPS) else hex(v)


def flag_text(v):
    return ' | '.join(n for i, n in enumerate(FLAGS) if n and v >> i & 1)


def dump(b):
    """The lines of a hexadecimal dump."""
    if not b:
        return ['-']
    out = []
    for i in range(0, len(b), 16):
        row = b[i:i + 16]
        left, right = ' '.join('%02X' % x for x in row[:8]), ' '.join('%02X' % x for x in row[8:])
        out.append('%08X  %s  %s' % (i, (left + ('-' + right if right else '')).ljust(16 * 3 - 1), ''.join(chr(x) if 32 <= x < 127 else '.' for x in row)))
    return out


class Ts(object):
    """A line with a timestamp."""

    def __init__(self, label, filetime):
        self.label, self.t = label, filetime

    def ok(self, line):
        return line.startswith(self.label) and (line == self.label + 'N/A' if self.t is None else ntfscli.ts_ok(line[len(self.label):], self.t))

    def __repr__(self):
        return '%s<%r>' % (self.label, self.t)


class GuidTs(Ts):
    def ok(self, line):
        if not line.startswith(self.label):
            return False
        x = line[len(self.label):]
        g = uuid.UUID(bytes_le=self.t)
        return x == 'N/A' if g.version != 1 else ntfscli.guid_time_ok(x, self.t)


class Path(object):
    """A line with a path found by a reference or by a number, absent when there is none."""

    def __init__(self, label, reference=None, number=None):
        self.label, self.ref, self.num = label, reference, number

    def __repr__(self):
        return '%s<%r %r>' % (self.label, self.ref, self.num)


def times(vals):
    c, m, e, a = vals
    return [Ts(' * M timestamp: ', m), Ts(' * A timestamp: ', a), Ts(' * C timestamp: ', c), Ts(' * E timestamp: ', e)]


def of_attr(code, v):
    """What is said about a resident attribute."""
    if code == ntfs.T_SI:
        return ['$STANDARD_INFORMATION:'] + times(struct.unpack_from('<QQQQ', v, 0)) + [' * File attributes: ' + flag_text(struct.unpack_from('<L', v, 32)[0]), '']
    if code == ntfs.T_FN:
        return of_name('$FILE_NAME:', v)
    if code == ntfs.T_OBJID:
        return ['$OBJECT_ID:', ' * GUID: %s' % uuid.UUID(bytes_le=v[:16]), GuidTs(' * Timestamp: ', v[:16]), '']
    return []


def of_name(title, v):
    parent = struct.unpack_from('<Q', v, 0)[0]
    name = v[66:66 + 2 * v[64]].decode('utf-16le', 'replace')
    return [title] + times(struct.unpack_from('<QQQQ', v, 8)) + [' * File name: ' + name, ' * Parent (file reference number): %d' % parent, Path(' * Parent path (from $MFT): ', parent), '']


def of_usn(u):
    src = {1: 'DATA_MANAGEMENT', 2: 'AUXILIARY_DATA', 4: 'REPLICATION_MANAGEMENT', 8: 'CLIENT_REPLICATION_MANAGEMENT'}
    out = ['USN record (version 4):' if u.ver == 4 else 'USN record:', ' Number: %d' % u.usn, ' Source: ' + ('USN_SOURCE_' + src[u.source] if u.source else ''),
           ' Reason: ' + ' | '.join('USN_REASON_' + REASONS[b] for b in sorted(REASONS) if u.reason >> b & 1), ' File reference number: %d' % u.ref, ' Parent file reference number: %d' % u.parent]
    if u.ver != 4:
        out += [Ts(' Timestamp: ', u.time), ' File name: ' + u.name]
    return out + ['']


def make_usn(r, nodes, now):
    u = UsnRec()
    u.ver, u.minor = r.choice([2, 2, 3, 4]), 0
    n = r.choice(nodes)
    u.ref = n.ref()
    u.parent = ntfs.ref(*n.links[0]['parent']) if n.links else ntfs.ref(5, 5)
    u.usn, u.time = r.randrange(1 << 40) * 8, now
    u.reason = 0
    for _ in range(r.randrange(1, 4)):
        u.reason |= 1 << r.choice(sorted(REASONS))
    u.source = r.choice([0, 0, 1, 2, 4, 8])
    u.sid, u.attrs, u.remaining = 0x100, 0x20, 0
    u.name = (n.links[0]['name'] if n.links else 'x').encode('utf-16le', 'replace').decode('utf-16le')
    u.extents = [(0x10000, 512)]
    u.encode()
    return u


def log(mft, sim, live, kind, seed, bad):
    """Append a realistic log record about the simulated $MFT. bad: damage its payload (a corrupt log record)."""
    r = rng_for('sem', seed)
    size = mft.size
    cl = sim.cfg['cluster']
    num = r.choice([r.randrange(mft.nrec), r.randrange(mft.nrec + 4), r.randrange(1 << 20)])
    if kind == 'badopen':
        idx = 24 + 44 * r.randrange(6)
        live.pop(idx, None)
        redo = bytes(r.choice([0, 4, 20, 44]))
        sim.record(redo, r.choice(['$J', '', 'x']).encode('utf-16le'), OPEN_ATTR, 0, target=idx, info={'badopen': True, 'patched': True, 'open': None},
                   patch=[r.choice([(4, '<H', 8), (8, '<H', 8), (6, '<H', 3), (10, '<H', 3), (10, '<H', 0xFFFF), (0, '<H', OPEN_ATTR)])])
        return
    if kind == 'baddump':
        b = bytes(44 * r.randrange(1, 6) + 24)
        op = r.choice([OAT_DUMP, AN_DUMP])
        sim.record(b, b'', op, 0, info={'patched': True, 'table': {}, 'baddump': True}, patch=[r.choice([(4, '<H', r.choice([1, 8, 31])), (6, '<H', 0xFFFF), (4, '<H', 0xFFF0), (6, '<H', 3)])])
        return
    hist = [v for n in sorted(mft.history) for v in mft.history[n] if v.attrs]
    v = r.choice(hist)
    dec = []
    tbs = size // 512 if size != 1024 or r.random() < 0.8 else 0
    kw = {'tbs': tbs, 'txn': r.randrange(4) * 40, 'lcns': [r.choice([r.randrange(1 << 40), r.randrange(1 << 40), 0]) for _ in range(r.randrange(3))], 'target': 24, 'attr_off': 0, 'rec_off': r.randrange(400)}
    redo = undo = b''
    rop, uop = 0, 0
    res = True
    if kind == 'init':
        num = v.num
        redo = v.logical[:min(len(v.logical), v.slack_off + 4)]
        rop = 2
        for a in v.attrs:
            if a.runs is None:
                dec += of_attr(a.code, bytes(a.value))
    elif kind in ('create', 'uncreate', 'writeend'):
        a = r.choice([x for x in v.attrs])
        raw = bytes(a.raw)
        if kind == 'create':
            redo, rop, uop = raw, 5, 6
        elif kind == 'uncreate':
            undo, rop, uop = raw, 6, 5
        else:
            rop = uop = 4
            redo, undo = (raw, b'\xff\xff\xff\xff\0\0\0\0') if r.random() < 0.5 else (b'\xff\xff\xff\xff\0\0\0\0', raw)
        if a.runs is None and len(a.value):
            dec = of_attr(a.code, bytes(a.value))
        if a.code == ntfs.T_SI and r.random() < 0.25:
            # $STANDARD_INFORMATION of another length.
            n = r.choice([36, 36, 40, 47, 48, 64])
            b = bytes(a.value[:n])
            new = ntfs.attr_resident(ntfs.T_SI, b)
            redo, undo = (new if x == raw else x for x in (redo, undo))
            dec = of_attr(ntfs.T_SI, b)
            sim.ctx.probe('short-si')
        elif a.runs is None and r.random() < 0.08:
            # Too short to be one; nothing is said about what is decoded.
            n = r.choice([0, 1, 8, 15, 24, 32, 35, 60, 64, 65])
            if n < {ntfs.T_SI: 36, ntfs.T_FN: 66, ntfs.T_OBJID: 16}.get(a.code, 0):
                new = ntfs.attr_resident(a.code, bytes(a.value[:n]))
                redo, undo = (new if x == raw else x for x in (redo, undo))
                dec = None
                sim.ctx.probe('too-short-attribute')
        num = v.num
        kw['whole'] = (a.code, a.runs)
    elif kind == 'resident':
        rop, uop = r.choice([(7, 7), (7, 7), (7, 7), (7, 1), (0xB, 7)])
        base = 80 if size == 1024 else 96
        o = r.choice([-8, 0, 0, 8, 16, 24, 32, 40, r.randrange(-80, 300)])
        kw['rec_off'], kw['attr_off'] = 56 if size == 1024 else 72, base + o - (56 if size == 1024 else 72)
        if kw['attr_off'] < 0:
            kw['rec_off'], kw['attr_off'] = base + o, 0
        t = [mft.clock.now() + i * 10007 for i in range(4)]
        if r.random() < 0.1:
            t[r.randrange(4)] = r.choice([0, (1 << 64) - 1, 1 << 63])
        full = struct.pack('<QQQQ', *t) + bytes(40)
        full2 = struct.pack('<QQQQ', *[x ^ 0x100000 for x in t]) + bytes(40)
        if 0 <= o <= 32:
            n = r.choice([4, 8, 16, 24, 32, 40])
            redo = full[o:o + n]
            undo = full2[o:o + r.choice([n, n, 0, 8])]
            for what, b in (('redo', redo), ('undo', undo)):
                if len(b) >= 8:
                    end = o + len(b)
                    tt = struct.unpack('<QQQQ', (full if what == 'redo' else full2)[:32])
                    dec += ['Possible update to $STANDARD_INFORMATION (%s data):' % what] + times([tt[i] if o <= 8 * i and 8 * i + 8 <= end else None for i in range(4)]) + ['']
        else:
            redo, undo = pattern(('r', seed), r.randrange(40)), pattern(('u', seed), r.randrange(40))
    elif kind in ('index', 'unindex'):
        d = r.choice(mft.dirs())
        name = r.choice(mfthist.NAMES)
        t = mft.clock.now()
        tt = [t, t + 7, t + 70, t + 700]
        if r.random() < 0.1:
            tt[r.randrange(4)] = r.choice([0, (1 << 64) - 1])
        fn = ntfs.fn_value(r.choice([d.ref(), d.ref(), ntfs.ref(d.num, (d.seq + 1) & 0xFFFF), ntfs.ref(r.randrange(1 << 40), 3)]), *tt, 8, 5, 0x20, name, r.randrange(4))
        e = ntfs.index_entry(ntfs.ref(r.randrange(999), 1), fn, vcn=r.choice([None, None, 4]))
        x = r.choice([0xC, 0xE, 0x10]) if kind == 'index' else r.choice([0xC, 0xE])
        res = x == 0xC
        if x == 0x10 and r.random() < 0.4:
            e = ntfs.index_end() if r.random() < 0.5 else e + ntfs.index_end()
        if kind == 'index':
            redo, rop, uop = e, x, x + 1 if x != 0x10 else 0x10
        else:
            undo, rop, uop = e, x + 1, x
        if struct.unpack_from('<H', e, 12)[0] & 2 == 0:
            dec = of_name('$FILE_NAME in index:', fn)
    elif kind == 'dup':
        x = r.choice([0x13, 0x14])
        res = x == 0x13
        rop, uop = r.choice([(x, x), (x, x), (x, x), (x, 1), (0x11 if res else 0x12, x)])
        t = [mft.clock.now() + i for i in range(8)]
        n1, n2 = r.choice([56, 56, 56, 48]), r.choice([56, 56, 56, 0])
        redo = (struct.pack('<QQQQ', *t[:4]) + bytes(24))[:n1]
        undo = (struct.pack('<QQQQ', *t[4:]) + bytes(24))[:n2]
        if n1 == 56 and rop == x:
            dec += ['Update to duplicated information (redo data):'] + times(t[:4]) + ['']
        if n2 == 56 and uop == x:
            dec += ['Update to duplicated information (undo data):'] + times(t[4:]) + ['']
    elif kind == 'usn':
        js = [i for i in sorted(live) if live[i][1] == '$J' or r.random() < 0.2]
        if not js:
            return
        kw['target'] = r.choice(js)
        res = False
        nodes = mft.user_nodes() or mft.dirs()
        u = make_usn(r, nodes, mft.clock.now())
        rop = uop = 8
        redo, undo = u.raw, bytes(len(u.raw)) if r.random() < 0.7 else b''
        dec = of_usn(u)
        if r.random() < 0.2:
            u2 = make_usn(r, nodes, mft.clock.now())
            undo = u2.raw
            dec += of_usn(u2)
        kw['tbs'] = 0
        kw['usn'] = True
    elif kind == 'dealloc':
        rop, uop = 3, 2
        num = r.choice([v.num, num])
        undo = pattern(('dealloc', seed), r.choice([0, 8, 40]))
    elif kind == 'plain':
        rop, uop = r.choice(PLAIN_RES), r.choice(PLAIN_RES + (0, 0x17))
        redo, undo = pattern(('r', seed), r.randrange(60)), pattern(('u', seed), r.randrange(60))
    else:
        res = False
        rop, uop = r.choice(PLAIN_NON), r.choice(PLAIN_NON + (0, 0x26, 0x1234))
        redo, undo = pattern(('r', seed), r.randrange(60)), pattern(('u', seed), r.randrange(60))
        kw['target'] = r.choice(sorted(live)) if live and r.random() < 0.7 else 24 + 44 * r.randrange(9)
    if not res and 'usn' not in kw and kind in ('index', 'unindex', 'dup'):
        kw['target'] = r.choice(sorted(live)) if live and r.random() < 0.7 else 24 + 44 * r.randrange(9)
    usn = kw.pop('usn', False)
    whole = kw.pop('whole', None)
    if res:
        pos = num * size
        kw['vcn'], b = divmod(pos, cl)
        kw['blk'] = b // 512
        if b % 512:
            raise ValueError
    else:
        kw['vcn'], kw['blk'] = r.randrange(1 << 30), r.randrange(8)
    info = {'dec': dec, 'kind': kind, 'bad': False, 'j': usn}
    if bad:
        # A corrupt record: nothing is said about what is decoded from it.
        info['bad'] = True
        info['dec'] = None
        k = r.randrange(6)
        cut = r.choice([0, 1, 4, 9, 13, 20, 30, 50])
        if k == 0:
            if whole is not None and whole[1] is None and r.random() < 0.7:
                # A resident attribute that is not completely there is not decoded.
                big = max(redo, undo, key=len)
                vl, vo = struct.unpack_from('<LH', big, 16)
                cut = r.choice([vo + vl - 1, vo + vl - 2, vo + vl - 8, vo + 66, vo + 40, vo])
                if 24 <= cut < vo + vl:
                    info['dec'] = []
                    sim.ctx.probe('cut-attribute')
            redo, undo = redo[:cut], undo[:cut]
        elif k == 1:
            redo, undo = [bytes(x if r.random() < 0.9 else r.randrange(256) for x in b) for b in (redo, undo)]
        elif k == 2 and len(redo) >= 24:
            redo = bytearray(redo)
            struct.pack_into('<H', redo, r.choice([10, 16, 20, 22]), r.choice([0, 1, 8, 16, 40, 66, 67, 0xFFFF]))
            redo = bytes(redo)
        elif k >= 4:
            kw['patch'] = [r.choice([(4, '<H', r.choice([1, 8, 31])), (8, '<H', r.choice([1, 8, 31])), (4, '<H', 0xFFF0), (8, '<H', 0xFFF0), (6, '<H', 0xFFFF), (10, '<H', 0xFFFF), (14, '<H', r.choice([5, 100, 0xFFFF]))])]
            info['patched'] = True
        else:
            kw['vcn'] = r.choice([-1, -5, 1 << 62, (1 << 63) - 1, 1 << 40])
    rec = sim.record(redo, undo, rop, uop, info=info, **kw)
    sim.ctx.probe('log-' + kind)
    return rec


class Resolver(object):
    """Follows the open attributes the way they were logged."""

    def __init__(self, sim, model, reported):
        self.sim, self.model = sim, model
        self.oat, self.pair, self.pending, self.client = {}, {}, None, None
        self.have_restart = any(r.rtype == 2 and model.whole(r) for r in reported)
        self.known = True

    def target(self, r, full):
        """('num', n) | ('ref', reference, name) | ('none',) | None (not said); then the offset in the target, or None (not said)."""
        i, cfg = r.info, self.sim.cfg
        if r.client != self.client:
            self.oat, self.pair, self.pending, self.client = {}, {}, None, r.client      # every client has its own tables
        if i['redo_op'] == OPEN_ATTR:
            if full and not i.get('badopen'):
                self.oat[i['target']] = i['open']
            else:
                self.known = False
        elif i['redo_op'] == OAT_DUMP:
            self.pending = i['table'] if full and not i.get('baddump') else False
        elif i['redo_op'] == AN_DUMP:
            # The names belong to the table dumped before them.
            ok = full and not i.get('baddump') and self.pending is not False
            self.pair = None if not ok else {} if self.pending is None else self.pending if self.pending is i['table'] else None
            self.pending = None
        sure = self.have_restart or cfg['cluster'] == 4096
        if i['redo_op'] in RES_OPS or i['undo_op'] in RES_OPS:
            if not sure:
                return None, i['attr_off'] + i['rec_off']
            frs = i['tbs'] * 512 or 1024
            return ('num', (i['vcn'] * cfg['cluster'] + i['blk'] * 512) // frs), i['attr_off'] + i['rec_off']
        if i['redo_op'] in NONRES_OPS or i['undo_op'] in NONRES_OPS:
            off = i['vcn'] * cfg['cluster'] + i['blk'] * 512 + i['attr_off'] + i['rec_off'] if sure else None
            if not self.known or not (self.have_restart or cfg['major'] == 1):
                return None, off
            if i['target'] in self.oat:
                return ('ref',) + tuple(self.oat[i['target']]), off
            if cfg['major'] >= 2:
                return ('none',), off
            if self.pair is not None:
                if i['target'] in self.pair:
                    return ('ref',) + tuple(self.pair[i['target']]), off
                if not self.pair:
                    return ('none',), off
            return None, off
        return ('none',), 'no'


class Mismatch(Exception):
    pass


def match(lines, want, paths):
    """Match lines against a specification; '*' stands for any number of lines. paths(Path) -> list of possible paths, [] or None."""
    i = 0
    want = [y for x in want for y in (x.split('\n') if isinstance(x, str) else [x])]
    for k, w in enumerate(want):
        if w == '*':
            rest = want[k + 1:]
            if not rest:
                return
            for j in range(i, len(lines) + 1):
                try:
                    match(lines[j:], rest, paths)
                    return
                except Mismatch:
                    pass
            raise Mismatch('%r not found in %r' % (rest[0], lines[i:i + 5]))
        if isinstance(w, Path):
            ok = paths(w)
            has = i < len(lines) and lines[i].startswith(w.label)
            if ok is None:
                if has:
                    return match(lines[i + 1:], ['*'] + want[k + 1:], paths)
                continue
            if not ok:
                if has:
                    raise Mismatch('unexpected line %r' % lines[i])
                continue
            for p in ok:
                n = 1 + p.count('\n')
                if '\n'.join(lines[i:i + n]) == w.label + p:
                    break
            else:
                raise Mismatch('%r, expected a path of %r' % (lines[i] if i < len(lines) else None, ok))
            i += n
            continue
        if i >= len(lines) or not (w.ok(lines[i]) if isinstance(w, Ts) else lines[i] == w):
            raise Mismatch('line %r, expected %r' % (lines[i] if i < len(lines) else None, w))
        i += 1
    if i != len(lines):
        raise Mismatch('unexpected line %r' % lines[i])
