"""Simulated NTFS driver, attribute values: makes values of every attribute type together with what was recorded in them."""
import struct
import uuid

from ..core import pick, wpick, rng_for
from . import ntfs

KINDS = [('si', ntfs.T_SI), ('alist', ntfs.T_ALIST), ('fn', ntfs.T_FN), ('fn2', ntfs.T_FN), ('objid', ntfs.T_OBJID), ('sd', ntfs.T_SD), ('vname', ntfs.T_VNAME),
         ('vinfo', ntfs.T_VINFO), ('data', ntfs.T_DATA), ('ads', ntfs.T_DATA), ('nrdata', ntfs.T_DATA), ('iroot', ntfs.T_IROOT), ('view', ntfs.T_IROOT), ('bitmap', ntfs.T_BITMAP),
         ('rp', ntfs.T_RP), ('eainfo', ntfs.T_EAINFO), ('ea', ntfs.T_EA), ('lus', ntfs.T_LUS), ('unknown', 0x110)]
NAMES = ['a', 'Zone.Identifier', '$I30', '$SDS', 'б', '\U0001F600x', 'x' * 40, 'tail ', 'nul\0', ' lead']


def wild(rng, bits):
    r = rng.random()
    if r < 0.2:
        return 0
    if r < 0.4:
        return rng.randrange(1, 16)
    if r < 0.5:
        return (1 << bits) - 1
    if r < 0.65:
        return 1 << rng.randrange(bits)
    return rng.getrandbits(bits)


def filetime(rng):
    return wpick(rng, [(ntfs.FT_OK + rng.randrange(10 ** 16), 8), (0, 1), ((1 << 64) - 1, 1), (rng.getrandbits(64), 1), (2650467744000000000 + rng.randrange(10 ** 12), 1)])


def file_name(rng, limit=40):
    n = wpick(rng, [(rng.randrange(1, 9), 4), (rng.randrange(1, limit + 1), 2), (limit, 1)])
    s = ''
    while len(s.encode('utf-16le', 'surrogatepass')) // 2 < n:
        s += pick(rng, ['a', 'B', '.', ' ', 'я', '漢', '\\', '~1', '\U0001F4A9', '\0' if rng.random() < 0.2 else '~', '\ud800' if rng.random() < 0.2 else 'q', 'e\u0301'])
    return s.encode('utf-16le', 'surrogatepass')[:2 * n]


def shown(raw):
    return raw.decode('utf-16le', 'replace')


def make_fn(rng, limit=40):
    raw = file_name(rng, limit)
    f = {'parent': wild(rng, 64), 'times': [filetime(rng) for _ in range(4)], 'alloc': wild(rng, 63), 'size': wild(rng, 63), 'attrs': wild(rng, 32), 'packed': wild(rng, 16),
         'unpacked': wild(rng, 16), 'ns': rng.randrange(4), 'name': shown(raw), 'length': len(raw) // 2}
    c, m, e, a = f['times']
    v = struct.pack('<QQQQQqqLHH', f['parent'], c, m, e, a, f['alloc'], f['size'], f['attrs'], f['packed'], f['unpacked']) + bytes([len(raw) // 2, f['ns']]) + raw
    return v, f


def make_guid(rng):
    g = bytearray(rng.getrandbits(128).to_bytes(16, 'little'))
    if rng.random() < 0.6:   # version 1 of RFC 4122
        ts = wpick(rng, [(0x1D0000000000000 + rng.getrandbits(50), 6), (rng.getrandbits(60), 1), (0, 1)])
        struct.pack_into('<LHH', g, 0, ts & 0xffffffff, ts >> 32 & 0xffff, ts >> 48 | 0x1000)
        g[8] = 0x80 | g[8] & 0x3f
        return bytes(g), ts
    if rng.random() < 0.5:
        struct.pack_into('<H', g, 6, g[6] | 0x4000 & 0x4fff)
        g[7] = 0x40 | g[7] & 0x0f
        g[8] = 0x80 | g[8] & 0x3f
    u = uuid.UUID(bytes_le=bytes(g))
    return bytes(g), (u.time if u.version == 1 else None)


def make_alist(rng, n=None):
    items = []
    body = b''
    n = rng.randrange(1, 8) if n is None else n
    first_compacted = None
    for i in range(n):
        name = pick(rng, NAMES) if rng.random() < 0.4 else None
        code = pick(rng, [k[1] for k in KINDS])
        low, reference, inst = wild(rng, 40) if rng.random() < 0.3 else 0, wild(rng, 64), wild(rng, 16)
        e = bytearray(ntfs.alist_entry(code, name, low, reference, inst))
        if i == 0 and not name and rng.random() < 0.6:
            first_compacted = wild(rng, 32)
            e[26:28] = b'DC'
            struct.pack_into('<L', e, 28, first_compacted)
        items.append((len(body), (code, name, inst, low, reference)))
        exact = 26 + 2 * len((name or '').encode('utf-16le')) // 2
        if exact < len(e) and not (i == 0 and first_compacted is not None) and rng.random() < 0.15:
            struct.pack_into('<H', e, 4, exact)     # the recorded length leaves the padding out
            if i == n - 1:
                del e[exact:]
        body += bytes(e)
    return body, {'entries': items, 'compacted': first_compacted}


def make_index(rng, kind):
    items, body = [], []
    node = rng.random() < 0.4
    pos = 32
    for _ in range(rng.randrange(0, 4)):
        if kind == 'fn':
            stream, f = make_fn(rng, 12)
        else:
            stream = rng.getrandbits(8 * 20).to_bytes(20, 'little')[:rng.randrange(1, 21)]
            f = None
        reference, vcn = wild(rng, 64), (wild(rng, 40) if node else None)
        e = ntfs.index_entry(reference, stream, 0, vcn)
        if vcn is None and rng.random() < 0.1:
            e = e[:8] + struct.pack('<H', 16 + len(stream)) + e[10:]   # the recorded length leaves the padding out
        items.append((pos, (reference, stream, vcn, f)))
        body.append(e)
        pos += len(e)
    body.append(ntfs.index_end(wild(rng, 40) if node else None))
    raw = b''.join(body)
    f = {'code': ntfs.T_FN if kind == 'fn' else pick(rng, [0, ntfs.T_OBJID]), 'rule': pick(rng, [0, 1, 16, 17, 18, 19]), 'bytes': pick(rng, [1024, 4096, 8192]), 'blocks': wild(rng, 8),
         'first': 16, 'free': 16 + len(raw), 'avail': 16 + len(raw) + 8 * rng.randrange(3), 'flags': 1 if node else 0, 'entries': items}
    v = struct.pack('<LLLL', f['code'], f['rule'], f['bytes'], f['blocks']) + struct.pack('<LLLL', 16, f['free'], f['avail'], f['flags']) + raw
    return v, f


def make_lxattrb(rng):
    f = {'mode': wild(rng, 32), 'uid': wild(rng, 32), 'gid': wild(rng, 32), 'rdev': wild(rng, 32), 'ns': [rng.randrange(10 ** 9) for _ in range(3)],
         's': [wpick(rng, [(rng.randrange(1 << 31), 5), (0, 1), (rng.getrandbits(64), 1), (253402300799, 1), (253402300800, 1)]) for _ in range(3)]}
    v = struct.pack('<HHLLLL3L3Q', 0, 1, f['mode'], f['uid'], f['gid'], f['rdev'], *(f['ns'] + f['s']))
    return v, f


def make_lxxattr(rng):
    items, v = [], struct.pack('<HH', 0, 1)
    n = rng.randrange(1, 5)
    for i in range(n):
        name = pick(rng, [b'user.a', b'security.selinux', b'user.' + b'n' * rng.randrange(1, 30), b'x', b'user.' + b'm' * 250])
        val = rng.getrandbits(8 * 30).to_bytes(30, 'little')[:rng.randrange(0 if len(name) > 1 else 1, 31)]
        if rng.random() < 0.05:
            val = bytes(rng.randrange(256) for _ in range(rng.randrange(256, 400)))
        blk = struct.pack('<HB', len(val), len(name)) + name + val
        pad = -(4 + len(blk)) % 4 if i + 1 < n and rng.random() < 0.5 else 0
        v += struct.pack('<L', 4 + len(blk) + pad if i + 1 < n else 0) + blk + bytes(pad)
        items.append((name, val))
    return v, items


def make_ea(rng):
    items, pos, out = [], [], b''
    n = rng.randrange(1, 5)
    for i in range(n):
        r = rng.random()
        if r < 0.25:
            name, (val, dec) = b'LXATTRB', make_lxattrb(rng)
        elif r < 0.45:
            name, (val, dec) = b'LXXATTR', make_lxxattr(rng)
        else:
            name, val, dec = pick(rng, [b'$KERNEL.PURGE.X', b'A', b'N' * rng.randrange(1, 30)]), rng.getrandbits(8 * 30).to_bytes(30, 'little')[:rng.randrange(0, 31)], None
        flags = pick(rng, [0, 0x80, wild(rng, 8)])
        last = i + 1 == n
        body = struct.pack('<BBH', flags, len(name), len(val)) + name + b'\0' + val
        size = (4 + len(body) + 3) & ~3
        nxt = size if not last or rng.random() < 0.6 else 0
        pos.append(len(out))
        out += struct.pack('<L', nxt) + body + (bytes(size - 4 - len(body)) if nxt or rng.random() < 0.5 else b'')
        items.append((name, flags, val, dec))
    return out, {'items': items, 'pos': pos}


def make(kind, seed):
    """Returns (code, attribute name, value, what was recorded)."""
    rng = rng_for('attr', kind, seed)
    code = dict(KINDS)[kind]
    name = None
    if kind == 'si':
        f = {'times': [filetime(rng) for _ in range(4)], 'attrs': wild(rng, 32), 'maxver': wild(rng, 32), 'extra': wild(rng, 32), 'cls': wild(rng, 32), 'long': rng.random() < 0.8,
             'owner': wild(rng, 32), 'security': wild(rng, 32), 'quota': wild(rng, 64), 'usn': wild(rng, 64)}
        v = struct.pack('<QQQQLLLL', *(f['times'] + [f['attrs'], f['maxver'], f['extra'], f['cls']]))
        if f['long']:
            v += struct.pack('<LLQQ', f['owner'], f['security'], f['quota'], f['usn'])
    elif kind == 'alist':
        v, f = make_alist(rng)
    elif kind in ('fn', 'fn2'):
        v, f = make_fn(rng)
    elif kind == 'objid':
        g, ts = make_guid(rng)
        ext = pick(rng, [b'', rng.getrandbits(384).to_bytes(48, 'little')])
        f = {'guid': g, 'time': ts, 'extra': ext}
        v = g + ext
        if rng.random() < 0.08:
            v = v[:rng.randrange(16)]
            f = {'guid': None, 'time': None, 'extra': b''}
    elif kind in ('sd', 'bitmap', 'lus', 'data', 'ads', 'unknown'):
        v = rng.getrandbits(8 * 60).to_bytes(60, 'little')[:rng.randrange(0 if kind in ('data', 'ads') else 1, 61)]
        f = {}
        if kind in ('ads', 'lus', 'unknown') or (kind == 'bitmap' and rng.random() < 0.5):
            name = pick(rng, NAMES)
        if kind == 'unknown':
            code = pick(rng, [0x110, 0xF0, 0x11, 0x1000])
    elif kind == 'nrdata':
        name = pick(rng, NAMES) if rng.random() < 0.5 else None
        runs, total, lcn = [], 0, 0
        for _ in range(rng.randrange(1, 6)):
            n = rng.randrange(1, 1 << rng.randrange(1, 20))
            if rng.random() < 0.2:
                runs.append((None, n))
            else:
                lcn = max(1, lcn + rng.randrange(-(1 << 20), 1 << pick(rng, [6, 20, 36])))
                runs.append((lcn, n))
            total += n
        f = {'runs': runs, 'lowest': pick(rng, [0, 0, 0, rng.randrange(1, 1 << 30)]), 'clusters': total, 'size': rng.randrange((total - 1) * 4096, total * 4096 + 1), 'xtra': rng.randrange(3)}
        v = None
    elif kind == 'vname':
        raw = file_name(rng, 32)
        f = {'name': shown(raw)}
        v = raw
    elif kind == 'vinfo':
        f = {'major': wild(rng, 8), 'minor': wild(rng, 8), 'flags': wild(rng, 16)}
        v = struct.pack('<QBBH', wild(rng, 64), f['major'], f['minor'], f['flags'])
    elif kind == 'iroot':
        name = '$I30'
        v, f = make_index(rng, 'fn')
    elif kind == 'view':
        name = pick(rng, ['$O', '$SDH'])
        v, f = make_index(rng, 'view')
    elif kind == 'rp':
        ms = rng.random() < 0.6
        data = rng.getrandbits(8 * 60).to_bytes(60, 'little')[:rng.randrange(0, 61)]
        tag = wild(rng, 31) | (0x80000000 if ms else 0)
        g = None if ms else make_guid(rng)[0]
        f = {'tag': tag, 'ms': ms, 'guid': g, 'data': data}
        v = struct.pack('<LHH', tag, len(data), 0) + (g or b'') + data
    elif kind == 'eainfo':
        f = {'packed': wild(rng, 16), 'need': wild(rng, 16), 'unpacked': wild(rng, 32)}
        v = struct.pack('<HHL', f['packed'], f['need'], f['unpacked'])
    elif kind == 'ea':
        v, f = make_ea(rng)
    else:
        raise KeyError(kind)
    return code, name, v, f


def encode(kind, seed, inst, cluster):
    code, name, v, f = make(kind, seed)
    if kind == 'nrdata':
        return ntfs.attr_nonresident(code, f['runs'], f['size'], cluster, name, inst, f['lowest'], f['xtra'])
    return ntfs.attr_resident(code, v, name, inst)
