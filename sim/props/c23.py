"""C23: the values of the attributes of a file decode to what was recorded, in the record or outside of it."""
import contextlib
import datetime
import io
import struct
import uuid

from dfir_ntfs import MFT, Attributes, WSL
from ..core import SimDisk, SimFile, Violation, pick, wpick, rng_for, drain
from ..writers import ntfs, attrsim
from ..writers.mftsim import classify_record, same_time

LEVEL = 'exploration'
RUNS = {'quick': 32000, 'thorough': 350000}
SHRINK = ['ops', 'faults', 'read']
RULE = ('one run = a history of attribute updates (every attribute type, resident and nonresident attribute lists) of some file records through a '
        'volatile write cache, a crash at an arbitrary point, damage inside of attribute values and headers, a volume with read errors; every record '
        'left is decoded completely. Non-trivial: a record is not the last version written, is damaged, or a read failed')
STATE_MEASURE = 'distinct (attribute kind, form, length class, classification of the durable record, damage) tuples'
REAL = ['dfir_ntfs.MFT: FileRecordSegment, AttributeRecordResident, AttributeRecordNonresident, DecodeMappingPairs', 'dfir_ntfs.Attributes: every attribute class', 'dfir_ntfs.WSL']
STUB = ['NTFS driver and write-back disk cache (sim.writers.attrsim, sim.core.SimDisk)']
ASSUMPTIONS = ['a sector (512 bytes) is written atomically', 'two versions of a record never carry the same update sequence number']
MUST_HIT = ['k-%s' % k for k, _ in attrsim.KINDS] + ['nr-list', 'nr-list-mixed', 'nr-list-sparse', 'nr-list-error', 'rec-ok', 'rec-torn', 'damage-value', 'damage-header', 'damage-ended', 'wsl-damaged']
NK = len(attrsim.KINDS)
VOL = 512 * 24
FLAGS = [(0x1, 'READ_ONLY'), (0x2, 'HIDDEN'), (0x4, 'SYSTEM'), (0x10, 'DIRECTORY'), (0x20, 'ARCHIVE'), (0x40, 'DEVICE'), (0x80, 'NORMAL'), (0x100, 'TEMPORARY'), (0x200, 'SPARSE'),
         (0x400, 'REPARSE_POINT'), (0x800, 'COMPRESSED'), (0x1000, 'OFFLINE'), (0x2000, 'NOT_CONTENT_INDEXED'), (0x4000, 'ENCRYPTED'), (0x8000, 'INTEGRITY_STREAM'), (0x10000, 'VIRTUAL'),
         (0x20000, 'NO_SCRUB_DATA'), (0x40000, 'RECALL_ON_OPEN'), (0x80000, 'PINNED'), (0x100000, 'UNPINNED'), (0x400000, 'RECALL_ON_DATA_ACCESS')]
TYPES = {0x10: '$STANDARD_INFORMATION', 0x20: '$ATTRIBUTE_LIST', 0x30: '$FILE_NAME', 0x40: '$OBJECT_ID', 0x50: '$SECURITY_DESCRIPTOR', 0x60: '$VOLUME_NAME', 0x70: '$VOLUME_INFORMATION', 0x80: '$DATA',
         0x90: '$INDEX_ROOT', 0xA0: '$INDEX_ALLOCATION', 0xB0: '$BITMAP', 0xC0: '$REPARSE_POINT', 0xD0: '$EA_INFORMATION', 0xE0: '$EA', 0x100: '$LOGGED_UTILITY_STREAM'}


class Ver(object):
    pass


def generate(rng, tier):
    size = pick(rng, [1024, 1024, 4096])
    nrec = rng.randrange(1, 4)
    cluster = pick(rng, [512, 1024, 4096])
    ops = []
    for _ in range(rng.randrange(2, 40)):
        r = rng.randrange(nrec)
        k = wpick(rng, [('put', 10), ('drop', 3), ('nlist', 2), ('hdr', 1), ('flush', 2)])
        if k == 'put':
            ops.append(['put', r, rng.randrange(NK), rng.randrange(1 << 30)])
        elif k == 'drop':
            ops.append(['drop', r, rng.randrange(NK)])
        elif k == 'nlist':
            ops.append(['nlist', r, rng.randrange(1 << 30), wpick(rng, [(rng.randrange(1, 20), 2), (rng.randrange(20, 200), 1)]), rng.randrange(1, 5), int(rng.random() < 0.1)])
        elif k == 'hdr':
            ops.append(['hdr', r, rng.randrange(1 << 30)])
        else:
            ops.append(['flush'])
    faults = []
    if rng.random() < 0.4:
        for _ in range(rng.randrange(1, 4)):
            faults.append({'k': pick(rng, ['value', 'value', 'header']), 'rec': rng.randrange(nrec), 'attr': rng.randrange(20), 'at': rng.random(), 'n': rng.randrange(1, 6), 'x': rng.randrange(1 << 30)})
    read = []
    if rng.random() < 0.4:
        for _ in range(rng.randrange(1, 3)):
            read.append({'k': pick(rng, ['eio', 'bad', 'eof', 'short']), 'at': rng.randrange(6), 'x': rng.random()})
    return {'size': size, 'nrec': nrec, 'cluster': cluster, 'short': int(rng.random() < 0.2), 'ops': ops, 'faults': faults, 'read': read,
            'crash': {'mode': wpick(rng, [('none', 3), ('prefix', 3), ('reorder', 3), ('lost', 1)]), 'seed': rng.randrange(1 << 30)}}


def build(sc, ctx):
    size, nrec, cl = sc['size'], sc['nrec'], sc['cluster']
    nclu = 96 * 1024 // cl
    disk = SimDisk(ctx, VOL + nclu * cl)
    state = [{} for _ in range(nrec)]
    hist = {r: [] for r in range(nrec)}
    usn = [1] * nrec
    free = [1]

    def write(r):
        st = state[r]
        attrs = []
        slots = sorted((k for k in st if isinstance(k, int)), key=lambda k: (attrsim.KINDS[k][1], k))
        nl = st.get('nlist')
        for i, k in enumerate(slots):
            kind = attrsim.KINDS[k][0]
            if kind == 'alist' and nl:
                continue
            attrs.append((kind, st[k], i + 1, attrsim.encode(kind, st[k], i + 1, cl)))
        if nl:
            a = ntfs.attr_nonresident(ntfs.T_ALIST, nl['runs'], len(nl['raw']), cl, None, 77)
            attrs.insert(next((i for i, x in enumerate(attrs) if attrsim.make(x[0], x[1])[0] > ntfs.T_ALIST), len(attrs)), ('nlist', nl, 77, a))
        h = rng_for('hdr', st.get('hdr', 0))
        v = Ver()
        v.seq, v.flags, v.refcount, v.inst, v.lsn = h.randrange(1, 1 << 16), h.randrange(16), h.randrange(1 << 16), h.randrange(1 << 16), h.getrandbits(64)
        v.base = pick(h, [0, h.getrandbits(64)])
        number = r if sc['short'] else r | (h.getrandbits(16) << 32 if h.random() < 0.3 else 0)
        try:
            v.logical, v.slack_off = ntfs.frs_logical(size, number, v.seq, v.flags, [a[3] for a in attrs], v.base, v.lsn, v.refcount, short=bool(sc['short']), next_inst=v.inst)
        except ValueError:
            return False
        usn[r] += 1
        v.number, v.usn, v.attrs, v.first_free = number, usn[r], attrs, v.slack_off + 4
        v.protected = ntfs.protect(v.logical, usn[r])
        hist[r].append(v)
        disk.write(r * size, v.protected)
        return True

    for r in range(nrec):
        state[r][0] = r + 7
        write(r)
    disk.flush()
    for op in sc['ops']:
        ctx.ev('op', op)
        ctx.step()
        if op[0] == 'flush':
            disk.flush()
            continue
        r = op[1]
        old = dict(state[r])
        if op[0] == 'put':
            state[r][op[2]] = op[3]
        elif op[0] == 'drop':
            state[r].pop(op[2], None)
        elif op[0] == 'hdr':
            state[r]['hdr'] = op[2]
        elif op[0] == 'nlist':
            rng = rng_for('nlist', op[2])
            raw, f = attrsim.make_alist(rng, op[3])
            need = (len(raw) + cl - 1) // cl
            runs, left = [], need
            while left:
                n = min(left, rng.randrange(1, max(2, need // op[4] + 1)))
                if free[0] + n >= nclu:
                    free[0] = 1
                    if free[0] + n >= nclu:
                        n = nclu - 2
                runs.append((free[0], n))
                free[0] += n + rng.randrange(2)
                left -= n
            if rng.random() < 0.3:   # preallocated clusters behind the end
                runs.append((free[0] if free[0] + 1 < nclu else 1, 1))
                free[0] = runs[-1][0] + 1
            pos = 0
            for lcn, n in runs:
                if pos < len(raw):
                    disk.write(VOL + lcn * cl, raw[pos:pos + n * cl].ljust(n * cl, b'\0'))
                pos += n * cl
            if op[5]:
                i = rng.randrange(len(runs))
                runs[i] = (None, runs[i][1])
            state[r]['nlist'] = {'raw': raw, 'f': f, 'runs': runs}
        if not write(r):
            state[r] = old
    return hist, disk.crash(sc['crash']['mode'], sc['crash']['seed'])


def guid_time(ts):
    return datetime.datetime(1582, 10, 15) + datetime.timedelta(microseconds=ts // 10)


def same_unix(got, s, ns):
    try:
        want = datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=s, microseconds=ns // 1000)
    except OverflowError:
        want = None
    if s == 253402300799:
        return True
    if want is None or got is None:
        return want is None and got is None
    return abs((got - want).total_seconds()) <= 2e-6


def printed(ctx, obj, want, where):
    """The human readable form shows the values recorded. want: [(start of a line, end of it)]."""
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        obj.print_information()
    lines = out.getvalue().split('\n')
    for a, b in want:
        ctx.check(any(x.strip().startswith(a) and x.endswith(b) for x in lines), 'printed', lambda: '%s: no line %r … %r in %r' % (where, a, b, lines[:12]))


def times_ok(o, t):
    return same_time(o.get_ctime(), t[0]) and same_time(o.get_mtime(), t[1]) and same_time(o.get_etime(), t[2]) and same_time(o.get_atime(), t[3])


def check_fn(ctx, o, f, where, show=True):
    got = (o.get_parent_directory(), o.get_allocated_length(), o.get_file_size(), o.get_file_attributes(), o.get_packed_ea_size(), o.get_unpacked_ea_size_difference(), o.get_flags(), o.get_file_name_length(),
           o.get_file_name())
    want = (f['parent'], f['alloc'], f['size'], f['attrs'], f['packed'], f['unpacked'], f['ns'], f['length'], f['name'])
    ctx.check(got == want, 'file-name', lambda: '%s: %r, recorded %r' % (where, got, want))
    ctx.check(times_ok(o, f['times']), 'timestamps', lambda: '%s: %r' % (where, f['times']))
    if show:
        printed(ctx, o, [('Parent directory:', ' %d' % f['parent']), ('Allocated length, file size:', ' %d, %d' % (f['alloc'], f['size'])), ('File attributes:', hex(f['attrs'])),
                         ('Packed EA size, unpacked EA size difference:', ' %d, %d' % (f['packed'], f['unpacked'])), ('Flags:', hex(f['ns'])), ('File created:', ' %s' % o.get_ctime()),
                         ('File modified:', ' %s' % o.get_mtime()), ('File last accessed:', ' %s' % o.get_atime()), ('$MFT entry modified:', ' %s' % o.get_etime())], where)


def list_entries(ctx, o):
    return [(e.attribute_type_code, e.attribute_name, e.attribute_instance, e.lowest_vcn, e.segment_reference) for e in drain(ctx, o.entries(), 20000)]


def check_alist(ctx, o, f, where, show=True):
    got = list_entries(ctx, o)
    want = [e for _, e in f['entries']]
    ctx.check(got == want, 'attribute-list', lambda: '%s: %r, recorded %r' % (where, got[:5], want[:5]))
    ctx.check(o.get_last_compacted_size() == f['compacted'], 'attribute-list', lambda: '%s: last compacted size %r, recorded %r' % (where, o.get_last_compacted_size(), f['compacted']))
    if show:
        printed(ctx, o, [('Attribute #%d type code: %s' % (i + 1, hex(e[0])), 'no name' if e[1] is None else 'name: ' + e[1]) for i, e in enumerate(want)]
                + [('Attribute #%d instance: %d' % (i + 1, e[2]), 'lowest VCN: %d, segment reference: %d' % (e[3], e[4])) for i, e in enumerate(want)]
                + [('Last compacted size', ': %s' % ('not set' if f['compacted'] is None else f['compacted']))], where)


def check_index(ctx, o, f, where):
    h = o.get_index_header()
    got = (o.get_indexed_attribute_type_code(), o.get_collation_rule(), o.get_bytes_per_index_buffer(), o.get_blocks_per_index_buffer(), h.get_first_index_entry(), h.get_first_free_byte(), h.get_bytes_available(), h.get_flags())
    want = (f['code'], f['rule'], f['bytes'], f['blocks'], f['first'], f['free'], f['avail'], f['flags'])
    ctx.check(got == want, 'index-root', lambda: '%s: header %r, recorded %r' % (where, got, want))
    check_index_entries(ctx, list(drain(ctx, o.index_entries(), 20000)), [e for _, e in f['entries']], where)
    printed(ctx, o, [('Indexed attribute type code:', hex(f['code'])), ('Collation rule:', ' %d' % f['rule']), ('Bytes and blocks per', ': %d, %d' % (f['bytes'], f['blocks'])), ('Flags:', hex(f['flags'])),
                     ('Bytes available:', ' %d' % f['avail']), ('Relative offset to the first index entry:', ' %d' % f['first']), ('Relative offset to the first free byte:', ' %d' % f['free'])]
            + ([('Subnode VCN list:', ' ' + ' '.join('-' if e[2] is None else str(e[2]) for _, e in f['entries']))] if f['code'] == ntfs.T_FN and f['entries'] else []), where)


def check_index_entries(ctx, got, want, where, prefix=False):
    ctx.check(len(got) == len(want) or (prefix and len(got) >= len(want)), 'index-root', lambda: '%s: %d entries, recorded %d' % (where, len(got), len(want)))
    for e, (reference, stream, vcn, f) in zip(got, want):
        w = (reference, stream, vcn, len(stream), 1 if vcn is not None else 0)
        g = (e.get_file_reference(), bytes(e.get_attribute() or b''), e.get_vcn(), e.get_attribute_length(), e.get_flags())
        ctx.check(g == w, 'index-root', lambda: '%s: entry %r, recorded %r' % (where, g, w))
        if f is not None:
            check_fn(ctx, Attributes.FileName(e.get_attribute()), f, where, False)


def check_wsl(ctx, name, val, dec, where):
    if name == b'LXATTRB':
        o = WSL.LXATTRB(val)
        got = (o.get_mode(), o.get_uid(), o.get_gid(), o.get_rdev())
        want = (dec['mode'], dec['uid'], dec['gid'], dec['rdev'])
        ctx.check(got == want, 'wsl', lambda: '%s: %r, recorded %r' % (where, got, want))
        for i, g in enumerate((o.get_atime, o.get_mtime, o.get_chtime)):
            t = g()
            ctx.check(same_unix(t, dec['s'][i], dec['ns'][i]), 'wsl', lambda: '%s: time %d %r, recorded %r' % (where, i, t, (dec['s'][i], dec['ns'][i])))
        printed(ctx, o, [('Mode:', hex(want[0])), ('UID/GID:', ' %d/%d' % want[1:3]), ('Device ID:', hex(want[3]))], where)
    else:
        got = [(bytes(n), bytes(v)) for n, v in drain(ctx, WSL.LXXATTR(val).extended_attributes(), 5000)]
        ctx.check(got == dec, 'wsl', lambda: '%s: %r, recorded %r' % (where, got, dec))


def check_wsl_damage(ctx, name, val, dec, where):
    """A header of another version is refused; damage to one Linux attribute affects this one only."""
    cls = WSL.LXATTRB if name == b'LXATTRB' else WSL.LXXATTR
    bad = [struct.pack('<HH', a, b) + val[4:] for a, b in ((1, 1), (0, 0), (0, 2), (0x100, 1), (0, 0x101))] + [val[:3], val[:11]]
    if cls is WSL.LXATTRB:
        bad += [val[:55], val + b'\0']
    for b in bad:
        try:
            cls(b)
        except ValueError:
            ctx.evaluations += 1
            continue
        ctx.check(False, 'wsl', lambda: '%s: %s with the header %r, %d bytes, was accepted' % (where, name.decode(), b[:4], len(b)))
    if cls is WSL.LXXATTR:
        pos = 4
        for i in range(len(dec)):
            nxt = struct.unpack_from('<L', val, pos)[0]
            v = bytearray(val)
            if nxt:
                # A value longer than its block: the other attributes are as they are, and nothing of them is in this one.
                struct.pack_into('<H', v, pos + 4, 0xFFFF)
                got = [(bytes(n), bytes(x)) for n, x in drain(ctx, WSL.LXXATTR(bytes(v)).extended_attributes(), 5000)]
                own = val[pos + 7 + len(dec[i][0]):pos + nxt]
                ctx.check(got[:i] == dec[:i] and len(got) == len(dec) and got[i + 1:] == dec[i + 1:] and got[i][0] == dec[i][0] and got[i][1] in (own, dec[i][1]), 'wsl',
                          lambda: '%s: attribute %d damaged: %r, recorded %r' % (where, i, got, dec))
                v = bytearray(val)
            v[pos + 6] = 0
            got = [(bytes(n), bytes(x)) for n, x in drain(ctx, WSL.LXXATTR(bytes(v)).extended_attributes(), 5000)]
            ctx.check(got == dec[:i], 'wsl', lambda: '%s: attribute %d without a name: %r, recorded %r' % (where, i, got, dec))
            ctx.probe('wsl-damaged')
            pos += nxt


def check_value(ctx, kind, a, code, name, value, f, where):
    ctx.check((a.type_code, a.name, bytes(a.value)) == (code, name, value), 'attribute', lambda: '%s: %r, recorded %r' % (where, (a.type_code, a.name, bytes(a.value)), (code, name, value)))
    ctx.check(a.type_str() == TYPES.get(code, hex(code)), 'attribute-type', lambda: '%s: %r' % (where, a.type_str()))
    o = a.value_decoded()
    ctx.check(bytes(o.value) == value, 'attribute', lambda: '%s: value' % where)
    ctx.probe('k-' + kind)
    if kind == 'si':
        x = f['extra']
        got = (o.get_file_attributes(), o.get_maximum_versions(), o.get_version_number(), o.get_extra_flags(), bool(o.is_case_sensitive()), o.get_storage_reserve_id(), o.get_known_folder_information(), o.get_trust_level(),
               o.get_class_id(), o.get_owner_id(), o.get_security_id(), o.get_quota_charged(), o.get_usn())
        lg = f['long']
        want = (f['attrs'], f['maxver'], x, x, bool(x & 1), x >> 8 & 15, x >> 1 & 7, x >> 4 & 3, f['cls'], f['owner'] if lg else None, f['security'] if lg else None, f['quota'] if lg else None, f['usn'] if lg else None)
        ctx.check(got == want, 'standard-information', lambda: '%s: %r, recorded %r' % (where, got, want))
        ctx.check(times_ok(o, f['times']), 'timestamps', lambda: '%s: %r' % (where, f['times']))
        txt = ' | '.join(n for b, n in FLAGS if f['attrs'] & b)
        ctx.check(Attributes.ResolveFileAttributes(f['attrs']) == txt, 'file-attributes', lambda: '%s: %x as %r' % (where, f['attrs'], Attributes.ResolveFileAttributes(f['attrs'])))
        printed(ctx, o, [('File attributes:', hex(f['attrs'])), ('Current version, maximum versions:', ' %d, %d' % (x, f['maxver'])), ('Is case sensitive:', str(bool(x & 1))), ('Storage reserve ID:', ' %d' % want[5]),
                         ('Known folder tag:', ' %d' % want[6]), ('Class ID, owner ID, security ID:', ' %s, %s, %s' % want[8:11]), ('Quota charged:', ' %s' % want[11]), ('Update sequence number:', ' %s' % want[12]),
                         ('File created:', ' %s' % o.get_ctime()), ('File modified:', ' %s' % o.get_mtime()), ('File last accessed:', ' %s' % o.get_atime()), ('$MFT entry modified:', ' %s' % o.get_etime())], where)
    elif kind in ('fn', 'fn2'):
        check_fn(ctx, o, f, where)
    elif kind == 'alist':
        check_alist(ctx, o, f, where)
    elif kind == 'objid':
        g = uuid.UUID(bytes_le=f['guid']) if f['guid'] else None
        ctx.check(o.get_object_id() == g and bytes(o.get_extra_data()) == f['extra'], 'object-id', lambda: '%s: %r, recorded %r' % (where, o.get_object_id(), g))
        t = o.get_timestamp()
        if f['time'] is None:
            ctx.check(t is None, 'object-id', lambda: '%s: a time from an identifier without one: %r' % (where, t))
        else:
            ctx.check(t is not None and abs((t - guid_time(f['time'])).total_seconds()) <= max(2.5e-6, f['time'] * 1e-7 * 2.0 ** -51), 'object-id', lambda: '%s: time %r, recorded %r' % (where, t, f['time']))
        printed(ctx, o, [('GUID:', ' %s' % g), ('GUID timestamp:', ' %s' % t)], where)
    elif kind == 'vname':
        ctx.check(o.get_name() == f['name'], 'volume-name', lambda: '%s: %r, recorded %r' % (where, o.get_name(), f['name']))
        printed(ctx, o, [('Volume name:', f['name'].split('\n')[-1])], where)
    elif kind == 'vinfo':
        got = (o.get_major_version(), o.get_minor_version(), o.get_flags())
        ctx.check(got == (f['major'], f['minor'], f['flags']), 'volume-information', lambda: '%s: %r, recorded %r' % (where, got, f))
        printed(ctx, o, [('Version:', ' %d.%d' % (f['major'], f['minor'])), ('Flags:', hex(f['flags']))], where)
    elif kind in ('iroot', 'view'):
        check_index(ctx, o, f, where)
    elif kind == 'rp':
        g = uuid.UUID(bytes_le=f['guid']) if f['guid'] else None
        got = (o.get_reparse_tag(), bool(o.is_reparse_tag_microsoft()), o.get_reparse_data_length(), o.get_reparse_guid(), bytes(o.get_reparse_buffer()))
        want = (f['tag'], f['ms'], len(f['data']), g, f['data'])
        ctx.check(got == want, 'reparse-point', lambda: '%s: %r, recorded %r' % (where, got, want))
        printed(ctx, o, [('Reparse tag:', '%s (is Microsoft: %s)' % (hex(f['tag']), f['ms'])), ('Reparse data length:', ' %d' % len(f['data']))], where)
    elif kind == 'eainfo':
        got = (o.get_packed_ea_size(), o.get_need_ea_count(), o.get_unpacked_ea_size())
        ctx.check(got == (f['packed'], f['need'], f['unpacked']), 'ea-information', lambda: '%s: %r, recorded %r' % (where, got, f))
        printed(ctx, o, [('Packed EA size:', ' %d' % f['packed']), ('Need EA count:', ' %d' % f['need']), ('Unpacked EA size:', ' %d' % f['unpacked'])], where)
    elif kind == 'ea':
        got = [(bytes(n), fl, bytes(v)) for n, fl, v in drain(ctx, o.data_parsed(), 20000)]
        want = [(n + b'\0', fl, v) for n, fl, v, _ in f['items']]
        ctx.check(got == want, 'extended-attributes', lambda: '%s: %r, recorded %r' % (where, got, want))
        for n, fl, v, dec in f['items']:
            if dec is not None:
                check_wsl(ctx, n, v, dec, where)
                check_wsl_damage(ctx, n, v, dec, where)
        printed(ctx, o, [('Length (bytes):', ' %d' % len(value))] + [('EA #%d name: %s' % (i + 1, n.decode()), '') for i, (n, _, _, _) in enumerate(f['items'])]
                + [('EA #%d flags:' % (i + 1), hex(fl)) for i, (_, fl, _, _) in enumerate(f['items'])] + [('EA #%d value length (bytes):' % (i + 1), ' %d' % len(v)) for i, (_, _, v, _) in enumerate(f['items'])], where)
    elif kind in ('sd', 'lus', 'data', 'ads'):
        printed(ctx, o, [('Length (bytes):', ' %d' % len(value))], where)
    elif kind == 'bitmap':
        printed(ctx, o, [('Length (bits):', ' %d' % (8 * len(value)))], where)
    ctx.state(kind, 'R', min(len(value) // 16, 8))


def check_nlist(ctx, a, nl, image, sc, where):
    vol, cl = VOL, sc['cluster']
    ctx.probe('nr-list')
    sparse = any(l is None for l, _ in nl['runs'])
    faults = []
    for f in sc['read']:
        if f['k'] == 'eio':
            faults.append({'k': 'eio', 'n': f['at'] % 3})
        elif f['k'] == 'bad':
            lo = vol + int(f['x'] * (len(image) - vol)) // 512 * 512
            faults.append({'k': 'bad', 'lo': lo, 'hi': lo + 4096})
        elif f['k'] == 'eof':
            faults.append({'k': 'eof', 'at': vol + int(f['x'] * (len(image) - vol))})
        else:
            faults.append({'k': 'short', 'n': f['at'] % 3, 'keep': int(f['x'] * 500)})
    for fl in ([faults] if faults else []) + [[]]:
        fobj = SimFile(ctx, image, fl, name='volume')
        try:
            o = a.value_decoded(fobj, vol, cl)
        except (MFT.MasterFileTableException, OSError) as e:
            ctx.check(sparse or fl, 'attribute-list', lambda: '%s: refused: %r' % (where, e))
            ctx.probe('nr-list-sparse' if not fl else 'nr-list-error')
            if isinstance(e, OSError):
                ctx.check(fl, 'attribute-list', lambda: '%s: %r' % (where, e))
            continue
        ctx.check(not sparse, 'attribute-list', lambda: '%s: a sparse list was accepted' % where)
        raw = b''.join(image[vol + l * cl:vol + (l + n) * cl] for l, n in nl['runs'])[:len(nl['raw'])]
        ctx.check(bytes(o.value) == raw, 'attribute-list', lambda: '%s: value differs from the one on the volume' % where)
        if raw == nl['raw']:
            check_alist(ctx, o, nl['f'], where, len(raw) < 1500)
        else:
            ctx.probe('nr-list-mixed')
            n = next(i for i in range(len(raw)) if raw[i] != nl['raw'][i])
            ents = nl['f']['entries']
            good = [e for i, (p, e) in enumerate(ents) if (ents[i + 1][0] if i + 1 < len(ents) else len(raw)) <= n]
            got = list_entries(ctx, o)
            ctx.check(got[:len(good)] == good, 'attribute-list', lambda: '%s: %r, recorded %r' % (where, got[:5], good[:5]))
        ctx.state('nlist', len(nl['runs']), bool(fl), raw == nl['raw'])
    ctx.check_no_writes()


def check_record(ctx, frs, v, sc, image, where, skip=None):
    """skip: index of an attribute with a damaged value."""
    got = (frs.get_sequence_number(), frs.get_flags(), frs.get_reference_count(), frs.get_next_attribute_instance(), frs.get_logfile_sequence_number(), frs.get_base_file_record_segment(), bool(frs.is_in_use()),
           frs.get_first_free_byte_offset(), frs.get_file_record_segment_size(), frs.get_master_file_table_number(), frs.is_base_file_record_segment())
    want = (v.seq, v.flags, v.refcount, v.inst, v.lsn, v.base, bool(v.flags & 1), v.first_free, sc['size'], v.number, v.base == 0)
    ctx.check(got == want, 'record-header', lambda: '%s: %r, recorded %r' % (where, got, want))
    attrs = list(drain(ctx, frs.attributes(), 1000))
    ctx.check(len(attrs) == len(v.attrs), 'attribute', lambda: '%s: %d attributes, recorded %d' % (where, len(attrs), len(v.attrs)))
    for i, (a, (kind, seed, _, _)) in enumerate(zip(attrs, v.attrs)):
        if i != skip:
            check_attr(ctx, a, kind, seed, sc, image, '%s, attribute %d (%s)' % (where, i, kind))
    return attrs


def check_attr(ctx, a, kind, seed, sc, image, w):
    if kind in ('nlist', 'nrdata'):
        ctx.check(isinstance(a, MFT.AttributeRecordNonresident), 'attribute', lambda: '%s: not a nonresident one' % w)
        if kind == 'nlist':
            code, name, runs, size, low = ntfs.T_ALIST, None, seed['runs'], len(seed['raw']), 0
        else:
            code, name, _, f = attrsim.make(kind, seed)
            runs, size, low = f['runs'], f['size'], f['lowest']
            ctx.probe('k-nrdata')
        n = sum(c for _, c in runs)
        if low:
            size = 0
        got = (a.type_code, a.name, a.lowest_vcn, a.highest_vcn, a.file_size, [tuple(x) for x in a.data_runs], a.type_str())
        want = (code, name, low, low + n - 1, size, [tuple(x) for x in runs], TYPES[code])
        ctx.check(got == want, 'attribute', lambda: '%s: %r, recorded %r' % (w, got, want))
        if kind == 'nlist':
            check_nlist(ctx, a, seed, image, sc, w)
        else:
            ctx.state(kind, len(runs), low > 0)
    else:
        ctx.check(isinstance(a, MFT.AttributeRecordResident), 'attribute', lambda: '%s: not a resident one' % w)
        code, name, value, f = attrsim.make(kind, seed)
        check_value(ctx, kind, a, code, name, value, f, w)


def damaged_value(ctx, a, kind, seed, off, where):
    """A value damaged at offset off of it: iterations end, and what lies before the damage is reported exactly."""
    code, name, value, f = attrsim.make(kind, seed)
    ctx.probe('damage-value')
    o = a.value_decoded()
    if kind == 'ea':
        got = [(bytes(n), fl, bytes(v)) for n, fl, v in drain(ctx, o.data_parsed(), 20000)]
        pos = f['pos'] + [len(value)]
        good = [(n + b'\0', fl, v) for i, (n, fl, v, _) in enumerate(f['items']) if pos[i + 1] <= off]
        ctx.check(got[:len(good)] == good, 'extended-attributes', lambda: '%s: %r, recorded %r' % (where, got, good))
        for n, fl, v in got:
            if n.startswith((b'LXATTRB', b'LXXATTR')):
                try:
                    w = WSL.LXATTRB(v) if n[2] == 65 else WSL.LXXATTR(v)
                except ValueError:
                    continue
                if n[2] == 65:
                    w.get_atime(), w.get_mtime(), w.get_chtime()
                else:
                    list(drain(ctx, w.extended_attributes(), 5000))
    elif kind == 'alist':
        got = list_entries(ctx, o)
        ents = f['entries']
        good = [e for i, (p, e) in enumerate(ents) if (ents[i + 1][0] if i + 1 < len(ents) else len(value)) <= off]
        ctx.check(got[:len(good)] == good, 'attribute-list', lambda: '%s: %r, recorded %r' % (where, got, good))
    elif kind in ('iroot', 'view'):
        got = list(drain(ctx, o.index_entries(), 20000))
        ents = f['entries']
        if off >= 32:
            check_index_entries(ctx, got, [e for i, (p, e) in enumerate(ents) if (ents[i + 1][0] if i + 1 < len(ents) else 16 + f['free']) <= off], where, True)
        for e in got:
            e.get_vcn(), e.get_attribute()
    if hasattr(o, 'print_information'):
        printed(ctx, o, [], where)
    ctx.state(kind, 'damaged', off // 16)


def execute(sc, ctx):
    hist, image = build(sc, ctx)
    size = sc['size']
    some = False
    intact = {}
    for r in range(sc['nrec']):
        where = 'record %d' % r
        cls, v = classify_record(image[r * size:(r + 1) * size], hist[r], size)
        ctx.probe('rec-' + cls)
        try:
            frs = MFT.FileRecordSegment(image[r * size:(r + 1) * size], True, r)
        except MFT.FileRecordSegmentException as e:
            ctx.check(cls not in ('ok', 'tail-torn'), 'intact-record-rejected', lambda: '%s (%s): %r' % (where, cls, e))
            some = True
            continue
        if cls == 'mixed':
            continue
        ctx.check(cls in ('ok', 'tail-torn'), 'torn-record-accepted', lambda: '%s (%s)' % (where, cls))
        check_record(ctx, frs, v, sc, image, where)
        some = some or v is not hist[r][-1] or cls != 'ok'
        intact[r] = v
    for f in sc['faults']:
        v = intact.get(f['rec'])
        if v is None or not v.attrs:
            continue
        i = f['attr'] % len(v.attrs)
        kind, seed, _, raw = v.attrs[i]
        start = struct.unpack_from('<H', v.logical, 20)[0] + sum(len(a[3]) for a in v.attrs[:i])
        rng = rng_for('damage', f['x'])
        buf = bytearray(v.logical)
        where = 'record %d with damage in attribute %d (%s)' % (f['rec'], i, kind)
        some = True
        if f['k'] == 'value' and kind not in ('nlist', 'nrdata'):
            vlen, voff = struct.unpack_from('<LH', raw, 16)
            if vlen == 0:
                continue
            off = min(vlen - 1, int(f['at'] * vlen))
            n = min(f['n'], vlen - off)
            new = bytes(rng.randrange(256) for _ in range(n)) if rng.random() < 0.7 else pick(rng, [b'\xff', b'\0', b'\1']) * n
            buf[start + voff + off:start + voff + off + n] = new
            ctx.fault('damaged-value')
            frs = MFT.FileRecordSegment(ntfs.protect(bytes(buf), v.usn), True, f['rec'])
            attrs = check_record(ctx, frs, v, sc, image, where, skip=i)
            ctx.check(attrs[i].type_code == attrsim.make(kind, seed)[0], 'attribute', lambda: where)
            damaged_value(ctx, attrs[i], kind, seed, off, where)
        elif f['k'] == 'header':
            hlen = 24 if raw[8] == 0 else 64
            off = min(hlen - 1, int(f['at'] * hlen))
            buf[start + off] ^= rng.randrange(1, 256)
            if rng.random() < 0.3 and raw[8] == 1:   # the mapping pairs
                moff = struct.unpack_from('<H', raw, 32)[0]
                p = start + moff + rng.randrange(len(raw) - moff)
                buf[p] ^= rng.randrange(1, 256)
            ctx.fault('damaged-header')
            ctx.probe('damage-header')
            frs = MFT.FileRecordSegment(ntfs.protect(bytes(buf), v.usn), True, f['rec'])
            got = []
            try:
                for a in frs.attributes():
                    ctx.step()
                    got.append(a)
            except MFT.MasterFileTableException:
                ctx.probe('damage-ended')
            ctx.check(len(got) >= i, 'attribute', lambda: '%s: %d attributes reported' % (where, len(got)))
            for j in range(i):
                check_attr(ctx, got[j], v.attrs[j][0], v.attrs[j][1], sc, image, '%s, attribute %d' % (where, j))
    ctx.nontrivial = some
    ctx.sample = {'size': size, 'ops': sc['ops'][:6], 'crash': sc['crash'], 'faults': sc['faults'], 'read': sc['read']}
