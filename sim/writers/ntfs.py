"""Simulated NTFS driver, on-disk encoders (written from the on-disk format, independent of the code under test)."""
import struct

FT_OK = 131000000000000000

T_SI, T_ALIST, T_FN, T_OBJID, T_SD, T_VNAME, T_VINFO, T_DATA, T_IROOT, T_IALLOC, T_BITMAP, T_RP, T_EAINFO, T_EA, T_LUS = (
    0x10, 0x20, 0x30, 0x40, 0x50, 0x60, 0x70, 0x80, 0x90, 0xA0, 0xB0, 0xC0, 0xD0, 0xE0, 0x100)
T_END = 0xFFFFFFFF


def ref(num, seq):
    return (seq << 48) | num


def align8(n):
    return (n + 7) & ~7


def signed_len(v, extra=0):
    n = 1
    while not (-(1 << (8 * n - 1)) <= v < (1 << (8 * n - 1))):
        n += 1
    return min(8, n + extra)


def mapping_pairs(runs, extra=0):
    """runs: [(lcn or None, count)]. 'extra' widens the encodings (legal, redundant bytes)."""
    out = bytearray()
    prev = 0
    for lcn, count in runs:
        cl = signed_len(count, extra)
        if lcn is None:
            out += bytes([cl]) + count.to_bytes(cl, 'little', signed=True)
        else:
            d = lcn - prev
            prev = lcn
            ol = signed_len(d, extra)
            out += bytes([cl | ol << 4]) + count.to_bytes(cl, 'little', signed=True) + d.to_bytes(ol, 'little', signed=True)
    out += b'\0'
    return bytes(out)


def attr_resident(code, value, name=None, inst=0, flags=0, indexed=0):
    nm = name.encode('utf-16le') if name else b''
    voff = align8(24 + len(nm))
    length = align8(voff + len(value))
    b = bytearray(length)
    struct.pack_into('<LLBBHHH', b, 0, code, length, 0, len(nm) // 2, 24 if nm else 0, flags, inst)
    struct.pack_into('<LHBB', b, 16, len(value), voff, indexed, 0)
    b[24:24 + len(nm)] = nm
    b[voff:voff + len(value)] = value
    return bytes(b)


def attr_nonresident(code, runs, size, cluster, name=None, inst=0, lowest=0, extra=0, flags=0, pad=0, valid=None, alloc=None):
    nm = name.encode('utf-16le') if name else b''
    mp = mapping_pairs(runs, extra)
    moff = align8(64 + len(nm))
    length = align8(moff + len(mp)) + 8 * pad
    n = sum(c for _, c in runs)
    b = bytearray(length)
    struct.pack_into('<LLBBHHH', b, 0, code, length, 1, len(nm) // 2, 64 if nm else 0, flags, inst)
    if lowest == 0:
        al = n * cluster if alloc is None else alloc
        al = max(al, size)
        sz = size
        vd = size if valid is None else valid
    else:
        al = sz = vd = 0
    hi = lowest + n - 1 if n else lowest
    struct.pack_into('<QQHB5sqqq', b, 16, lowest, hi, moff, 0, b'\0' * 5, al, sz, vd)
    b[64:64 + len(nm)] = nm
    b[moff:moff + len(mp)] = mp
    return bytes(b)


def si_value(c, m, e, a, attrs=0x20, usn=0, long=True, extra=0, security=0x100, owner=0, quota=0, cls=0):
    b = struct.pack('<QQQQLLLL', c, m, e, a, attrs, 0, extra, cls)
    if long:
        b += struct.pack('<LLQQ', owner, security, quota, usn)
    return b


def fn_value(parent, c, m, e, a, alloc, size, attrs, name, ns):
    nm = name.encode('utf-16le', 'surrogatepass')
    return struct.pack('<QQQQQqqLHH', parent, c, m, e, a, alloc, size, attrs, 0, 0) + bytes([len(nm) // 2, ns]) + nm


def objid_value(guid_le, extra=b''):
    return guid_le + extra


def vinfo_value(major=3, minor=1, flags=0):
    return struct.pack('<QBBH', 0, major, minor, flags)


def alist_entry(code, name, lowest, reference, inst):
    nm = name.encode('utf-16le') if name else b''
    length = align8(26 + len(nm))
    b = bytearray(length)
    struct.pack_into('<LHBBQQH', b, 0, code, length, len(nm) // 2, 26, lowest, reference, inst)
    b[26:26 + len(nm)] = nm
    return bytes(b)


def frs_logical(size, number, seq, flags, attrs, base=0, lsn=0, refcount=1, old=None, short=False, next_inst=20, usa_off=None,
                sig=b'FILE', end_tail=True):
    """Build a file record segment (unprotected). 'old': the previous logical contents of the record: bytes behind the end
    marker survive as slack, as on a real volume."""
    if usa_off is None:
        usa_off = 42 if short else 48
    usa_n = size // 512 + 1
    first = align8(usa_off + usa_n * 2)
    body = b''.join(attrs)
    b = bytearray(old if old is not None else bytes(size))
    end = first + len(body)
    if end + 8 > size:
        raise ValueError('file record overflow')
    b[0:first] = bytes(first)
    struct.pack_into('<4sHHQHHHHLLQH', b, 0, sig, usa_off, usa_n, lsn, seq, refcount, first, flags, end + 8, size, base, next_inst)
    if not short:
        struct.pack_into('<HL', b, 42, number >> 32, number & 0xFFFFFFFF)
    b[first:end] = body
    struct.pack_into('<L', b, end, T_END)
    if end_tail:
        struct.pack_into('<L', b, end + 4, 0x11477982)
    return bytes(b), end + 4   # (image, offset where the slack starts)


def protect(logical, usn, usa_off=None):
    """Apply the update sequence array: move the last two bytes of each 512-byte stride to the array."""
    b = bytearray(logical)
    if usa_off is None:
        usa_off = struct.unpack_from('<H', b, 4)[0]
    n = struct.unpack_from('<H', b, 6)[0]
    struct.pack_into('<H', b, usa_off, usn)
    for i in range(1, n):
        o = i * 512 - 2
        b[usa_off + 2 * i:usa_off + 2 * i + 2] = b[o:o + 2]
        struct.pack_into('<H', b, o, usn)
    return bytes(b)


def index_entry(reference, stream, flags=0, vcn=None):
    length = align8(16 + len(stream)) + (8 if vcn is not None else 0)
    b = bytearray(length)
    struct.pack_into('<QHHH', b, 0, reference, length, len(stream), flags | (1 if vcn is not None else 0))
    b[16:16 + len(stream)] = stream
    if vcn is not None:
        struct.pack_into('<Q', b, length - 8, vcn)
    return bytes(b)


def index_end(vcn=None):
    return index_entry(0, b'', 2, vcn)


def index_buffer_logical(size, block, entries, lsn=0, node=False, old=None, usa_off=40):
    """entries: encoded index entries, the end entry included."""
    usa_n = size // 512 + 1
    first = align8(usa_off + 2 * usa_n)
    body = b''.join(entries)
    b = bytearray(old if old is not None else bytes(size))
    if first + len(body) > size:
        raise ValueError('index buffer overflow')
    b[0:first] = bytes(first)
    struct.pack_into('<4sHHQQ', b, 0, b'INDX', usa_off, usa_n, lsn, block)
    struct.pack_into('<LLLB', b, 24, first - 24, first - 24 + len(body), size - 24, 1 if node else 0)
    b[first:first + len(body)] = body
    return bytes(b), first + len(body)


def index_root_value(entries, bytes_per_buffer=4096, node=False, code=T_FN, clusters=1):
    body = b''.join(entries)
    return struct.pack('<LLLL', code, 1, bytes_per_buffer, clusters) + struct.pack('<LLLL', 16, 16 + len(body), 16 + len(body), 1 if node else 0) + body


def boot_sector(bps, spc, total_sectors, mft_lcn, mirr_lcn, frs_code, idx_code, serial=0x1122334455667788):
    b = bytearray(512)
    b[0:3] = b'\xeb\x52\x90'
    b[3:11] = b'NTFS    '
    struct.pack_into('<H', b, 11, bps)
    b[13] = spc & 0xff
    b[21] = 0xf8
    struct.pack_into('<QQQ', b, 40, total_sectors, mft_lcn, mirr_lcn)
    struct.pack_into('<b', b, 64, frs_code)
    struct.pack_into('<b', b, 68, idx_code)
    struct.pack_into('<Q', b, 72, serial)
    b[510:512] = b'\x55\xaa'
    return bytes(b)


def ea_value(items):
    """items: [(name bytes without NUL, flags, value)]"""
    out = bytearray()
    for i, (name, flags, value) in enumerate(items):
        n = 8 + len(name) + 1 + len(value)
        nxt = (n + 3) & ~3
        b = bytearray(nxt)
        struct.pack_into('<LBBH', b, 0, nxt, flags, len(name), len(value))
        b[8:8 + len(name)] = name
        b[9 + len(name):9 + len(name) + len(value)] = value
        out += b
    return bytes(out)
