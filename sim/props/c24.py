"""C24: boot structures and the state of a volume are reported as recorded, one version of them, or refused."""
import struct
import uuid
from dfir_ntfs import BootSector as NB
from dfir_ntfs.addons import FAT, exFAT
from ..core import SimFile, SparseDisk, pick, wpick, rng_for

LEVEL = 'exploration'
RUNS = {'quick': 24000, 'thorough': 300000}
SHRINK = ['damage', 'faults', 'ops']
RULE = ('one run = a volume (NTFS, FAT12, FAT16, FAT32 or exFAT, any geometry) formatted by a simulated driver, then mounted, used, unmounted, found faulty, relabelled and given other serial numbers, each change '
        'rewriting boot sectors, information sector, table elements or whole boot regions with or without barriers; a crash keeps any part of them, then single fields are damaged (resealed or not), then everything the boot '
        'structures say is read, with read faults and truncation. Non-trivial: a crash, damage or fault, or more than one version')
STATE_MEASURE = 'distinct (file system, sector size, crash mode, damaged fields, fault kind, outcome) tuples'
REAL = ['dfir_ntfs.BootSector', 'dfir_ntfs.addons.FAT: BSBPB, FSINFO, FAT (elements 0 and 1)', 'dfir_ntfs.addons.exFAT: BR, FAT (element 0)']
STUB = ['drivers keeping the boot structures (in this module)', 'write-back disk (SparseDisk)', 'image (SimFile)']
ASSUMPTIONS = ['a sector of 512 bytes is written atomically', 'two versions of an exFAT boot region do not have the same checksum']
MUST_HIT = ['ntfs', 'fat12', 'fat16', 'fat32', 'exfat', 'crash-prefix', 'crash-reorder', 'lost-write', 'field-damaged', 'resealed', 'refused', 'accepted', 'dirty', 'surface', 'fsinfo', 'fsinfo-refused', 'torn-region', 'other-region', 'oem-parameters',
            'eio-transient', 'eio-bad-sector', 'early-eof', 'fat-state', 'no-extended-fields', 'short-extended-fields', 'sectors-64', 'active-fat', 'beyond-limits']

FLASH = uuid.UUID('{0A0C7E46-3399-4021-90C8-FA6D389C4BA2}')


def generate(rng, tier):
    fs = pick(rng, ['ntfs', 'fat', 'fat', 'exfat', 'exfat'])
    sc = {'fs': fs, 'seed': rng.randrange(1 << 30), 'base': pick(rng, [0, 0, 512, 1 << 20]), 'barrier': rng.random() < 0.6,
          'ops': [[wpick(rng, [('mount', 3), ('unmount', 2), ('error', 1), ('serial', 2), ('count', 3), ('flush', 2)]), rng.randrange(1 << 30)] for _ in range(rng.randrange(0, 10))],
          'crash': {'mode': wpick(rng, [('none', 4), ('lost', 1), ('prefix', 2), ('reorder', 2)]), 'seed': rng.randrange(1 << 30)}, 'damage': [], 'faults': []}
    for _ in range(wpick(rng, [(0, 4), (1, 5), (2, 1)])):
        sc['damage'].append(rng.randrange(1 << 30))
    f = wpick(rng, [('none', 6), ('eio', 1), ('bad', 1), ('eof', 1.5)])
    if f == 'eio':
        sc['faults'] = [{'k': 'eio', 'n': rng.randrange(0, 10)}]
    elif f == 'bad':
        sc['faults'] = [{'k': 'bad', 'at': rng.random()}]
    elif f == 'eof':
        sc['faults'] = [{'k': 'eof', 'at': rng.random(), 'al': rng.random() < 0.7}]
    return sc


# ---- the drivers ----

class Ntfs(object):
    def __init__(self, sc, ctx, disk):
        r = rng_for('v', sc['seed'])
        self.sc, self.ctx, self.disk = sc, ctx, disk
        self.bps = r.choice([512, 512, 1024, 4096, 2048])
        self.size = 1 << 20
        b = bytearray(512)
        b[0:3] = r.choice([b'\xeb\x52\x90', b'\xeb\x52\x90', b'\0\0\0'])
        b[3:11] = b'NTFS    '
        struct.pack_into('<H', b, 11, self.bps)
        b[13] = r.choice([1, 2, 8, 64, 0x80, 0xF8, 0xF4, 0xF6])
        struct.pack_into('<H', b, 24, 63)
        struct.pack_into('<QQQ', b, 40, r.randrange(1, 1 << 50), r.randrange(1, 1 << 40), r.randrange(1, 1 << 40))
        b[64] = r.choice([1, 2, 0xF6, 0xF4])
        b[68] = r.choice([1, 2, 0xF4, 0xF5])
        struct.pack_into('<Q', b, 72, r.getrandbits(64))
        b[510:512] = r.choice([b'\x55\xaa', b'\x55\xaa', b'\0\0'])
        self.b = b
        self.write()
        disk.flush()

    def write(self):
        self.disk.write(self.sc['base'], bytes(self.b))

    def apply(self, k, r):
        if k == 'serial':
            struct.pack_into('<Q', self.b, 72, r.getrandbits(64))
        elif k == 'count':
            struct.pack_into('<QQQ', self.b, 40, r.randrange(1, 1 << 50), r.randrange(1, 1 << 40), r.randrange(1, 1 << 40))
        self.write()


class Fat(object):
    def __init__(self, sc, ctx, disk):
        r = rng_for('v', sc['seed'])
        self.sc, self.ctx, self.disk = sc, ctx, disk
        self.bits = r.choice([12, 16, 32])
        ctx.probe('fat%d' % self.bits)
        self.bps = r.choice([512, 512, 1024, 2048, 4096])
        spc = r.choice([1, 2, 4, 8, 16, 32, 64, 128, 0])
        n = {12: r.choice([1, 100, 4084, r.randrange(1, 4085)]), 16: r.choice([4085, 65524, r.randrange(4085, 65525)]), 32: r.choice([65525, r.randrange(65525, 200000), r.randrange(10, 70000)])}[self.bits]
        rsvd = r.choice([1, 2, 4, 8]) if self.bits < 32 else r.choice([7, 32, 34])
        nf = r.choice([1, 2, 2, 2])
        fatsz = -(-int((n + 2) * self.bits // 8 + 2) // self.bps) + r.choice([0, 0, 1])
        root = 0 if self.bits == 32 else r.choice([16, 224, 512, 513])
        rs = -(-root * 32 // self.bps)
        tot = rsvd + nf * fatsz + rs + n * (spc or 256) + r.randrange(0, spc or 256)
        self.size = min(1 << 22, (rsvd + nf * fatsz) * self.bps + 8192)
        b = bytearray(512)
        b[0:3] = r.choice([b'\xeb\x3c\x90', b'\xe9\0\0', b'\xeb\x58\x90'])
        b[3:11] = r.choice([b'MSDOS5.0', b'mkfs.fat', b'\0\1\2\3\4\5\6\7'])
        media = r.choice([0xF0, 0xF8, 0xF8, 0xF9, 0xFF])
        # the count of sectors is kept in one of three fields
        t16 = tot if tot < 65536 and self.bits < 32 and r.random() < 0.7 else 0
        t64 = self.bits == 32 and r.random() < 0.1
        struct.pack_into('<HBHBHHBHHHLL', b, 11, self.bps, spc, rsvd, nf, root, t16, media, fatsz if self.bits < 32 else 0, r.choice([0, 63, 32]), r.choice([0, 255, 16]), r.randrange(1 << 32), 0 if t16 or t64 else tot)
        self.at = 36 if self.bits < 32 else 64
        self.fsi = self.bk = None
        if self.bits == 32:
            self.fsi = r.choice([1, 1, 2])
            self.bk = r.choice([6, 6, 3])
            self.ext = r.choice([0, 0, 0x80, 0x80 | (nf - 1), 0x0001, 0x8F])
            struct.pack_into('<LHHLHH', b, 36, fatsz, self.ext, 0, r.choice([2, 5]), self.fsi, self.bk)
            b[52:64] = bytes(r.randrange(256) for _ in range(12))
        sig = 0x29 if t64 else r.choice([0x29, 0x29, 0x28, 0])
        b[self.at] = r.choice([0, 0x80])
        b[self.at + 2] = sig
        struct.pack_into('<L', b, self.at + 3, r.getrandbits(32))
        b[self.at + 7:self.at + 18] = b'NO NAME    '
        b[self.at + 18:self.at + 26] = (b'FAT%d   ' % self.bits)[:8] if not t64 else struct.pack('<Q', tot)
        b[510:512] = r.choice([b'\x55\xaa', b'\x55\xaa', b'\x55\xaa', b'\0\0'])
        self.b = b
        self.free = [0xFFFFFFFF, 0xFFFFFFFF]
        self.fat01 = [{12: 0xF00, 16: 0xFF00, 32: 0x0FFFFF00}[self.bits] | media, {12: 0xFFF, 16: 0xFFFF, 32: 0x0FFFFFFF}[self.bits]]
        self.rsvd, self.fatsz, self.nf = rsvd, fatsz, nf
        self.write()
        self.write_fsi()
        self.write_fat()
        disk.flush()

    def write(self):
        if self.bk:
            self.disk.write(self.sc['base'] + self.bk * self.bps, bytes(self.b))
            if self.sc['barrier']:
                self.disk.flush()
        self.disk.write(self.sc['base'], bytes(self.b))

    def write_fsi(self):
        if self.fsi:
            s = bytearray(512)
            struct.pack_into('<L', s, 0, 0x41615252)
            struct.pack_into('<LLL', s, 484, 0x61417272, self.free[0], self.free[1])
            struct.pack_into('<L', s, 508, 0xAA550000)
            self.disk.write(self.sc['base'] + self.fsi * self.bps, bytes(s))

    def write_fat(self):
        a, c = self.fat01
        raw = struct.pack('<LL', a, c) if self.bits == 32 else struct.pack('<HH', a, c) if self.bits == 16 else (a | c << 12).to_bytes(3, 'little')
        for i in range(self.nf):
            # the copies differ in what they hold behind the first elements
            self.disk.write(self.sc['base'] + (self.rsvd + i * self.fatsz) * self.bps, raw + bytes([0x11 * (i + 1)]) * (512 - len(raw)))

    def apply(self, k, r):
        cln, err = {12: (0, 0), 16: (0x8000, 0x4000), 32: (0x08000000, 0x04000000)}[self.bits]
        if k == 'mount':
            self.b[self.at + 1] |= 1
            self.fat01[1] &= ~cln
            self.write_fat()
            self.write()
        elif k == 'unmount':
            self.b[self.at + 1] &= ~1
            self.fat01[1] |= cln
            self.write_fsi()
            self.write_fat()
            if self.sc['barrier']:
                self.disk.flush()
            self.write()
        elif k == 'error':
            self.b[self.at + 1] |= 2
            self.fat01[1] &= ~err
            self.write_fat()
            self.write()
        elif k == 'serial':
            struct.pack_into('<L', self.b, self.at + 3, r.getrandbits(32))
            self.b[self.at + 7:self.at + 18] = bytes(r.choice(b'ABCDEFGH ') for _ in range(11))
            self.write()
        elif k == 'count':
            self.free = [r.getrandbits(20), r.getrandbits(20)]
            self.write_fsi()


class ExFat(object):
    def __init__(self, sc, ctx, disk):
        r = rng_for('v', sc['seed'])
        self.sc, self.ctx, self.disk = sc, ctx, disk
        # Some volumes are formatted one step beyond a limit.
        o = rng_for('odd', sc['seed'])
        self.odd = o.choice(['sector', 'cluster', 'table', 'table', 'root', 'volume', 'heap', 'start', 'small']) if o.random() < 0.2 else None
        sh = r.choice([9, 9, 9, 12, 10, 11])
        if self.odd == 'sector':
            sh = 13
        self.bps = 1 << sh
        cl = r.choice([0, 1, 3, 8, 25 - sh])
        if self.odd == 'cluster':
            cl = 26 - sh
        cc = r.choice([30, 1000, r.randrange(30, 1 << 16), 0xFFFFFFF5])
        if o.random() < 0.3:
            cc = o.randrange(1, 9) * self.bps // 4 - 2 + o.randrange(0, 3)
        nf = r.choice([1, 1, 2])
        fo = r.choice([24, 25, 128])
        fl = -(-(cc + 2) * 4 // self.bps) + r.choice([0, 0, 3])
        if self.odd == 'start':
            fo = 23
        elif self.odd == 'table':
            fl = (cc + 2) * 4 // self.bps
            if o.random() < 0.5 and fl > 1:
                cc = fl * self.bps // 4 - o.randrange(0, 4)
        ho = fo + fl * nf + r.choice([0, 0, 7])
        tot = max(ho + (cc << cl) + r.choice([0, 0, 5]), (1 << 20) >> sh)
        if ho >> 32:
            cc, fl, ho = 1000, 1000, 24 + 2000 + fo
            tot = max(ho + (cc << cl), (1 << 20) >> sh)
        if self.odd == 'heap':
            ho = fo + fl * nf - 1
        elif self.odd == 'volume':
            tot = ho + (cc << cl) - o.randrange(0, 2)
        elif self.odd == 'small':
            tot = ((1 << 20) >> sh) - o.randrange(0, 2)
            cc, cl = 30, 0
            fl = 1
            ho = fo + fl * nf
        root = r.choice([2, 4, cc + 1])
        if self.odd == 'root':
            root = o.choice([0, 1, cc + 2, cc + 3])
        if self.odd:
            ctx.probe('beyond-limits')
        b = bytearray(12 * self.bps)
        b[0:3] = b'\xeb\x76\x90'
        b[3:11] = b'EXFAT   '
        act = r.randrange(nf)
        if act:
            ctx.probe('active-fat')
        struct.pack_into('<QQLLLLLLBBHBBBBB', b, 64, r.randrange(1 << 40), tot, fo, fl, ho, cc, root, r.getrandbits(32), r.choice([0, 0, 99]), 1, act, sh, cl, nf, r.choice([0, 0x80]), r.choice([0xFF, 0, 37, 100]))
        b[113:120] = bytes(r.randrange(256) for _ in range(7))
        b[120:510] = bytes([r.randrange(256)]) * 390
        b[510:512] = b'\x55\xaa'
        for i in range(1, 9):
            b[i * self.bps:(i + 1) * self.bps - 4] = bytes([r.randrange(256)]) * (self.bps - 4)
            b[(i + 1) * self.bps - 4:(i + 1) * self.bps] = b'\0\0\x55\xaa'
        if r.random() < 0.6:
            b[10 * self.bps:10 * self.bps + 44] = FLASH.bytes_le + struct.pack('<7L', *[r.getrandbits(32) for _ in range(7)])
        elif r.random() < 0.5:
            b[10 * self.bps:10 * self.bps + 16] = bytes(r.randrange(256) for _ in range(16))
        self.b = b
        self.versions = []
        self.fo, self.fl = fo, fl
        self.size = max(24 * self.bps + 4096, min(1 << 21, (fo + fl) * self.bps + 4096))
        self.media = r.choice([0xF8, 0xF8, 0xF0])
        self.disk.write(sc['base'] + fo * self.bps, struct.pack('<LL', 0xFFFFFF00 | self.media, 0xFFFFFFFF) + bytes(504))
        self.write()
        disk.flush()

    def write(self):
        seal(self.b, self.bps)
        self.versions.append(bytes(self.b))
        # a change of the region goes to the backup first
        self.disk.write(self.sc['base'] + 12 * self.bps, bytes(self.b))
        if self.sc['barrier']:
            self.disk.flush()
        self.disk.write(self.sc['base'], bytes(self.b))

    def apply(self, k, r):
        if k in ('mount', 'unmount', 'error'):
            # only the first sector is touched, and only fields the checksum leaves out
            f, = struct.unpack_from('<H', self.b, 106)
            f = f | 2 if k == 'mount' else f & ~2 if k == 'unmount' else f | r.choice([4, 8])
            struct.pack_into('<H', self.b, 106, f)
            self.versions.append(bytes(self.b))
            self.disk.write(self.sc['base'], bytes(self.b[:512]))
        elif k == 'count':
            self.b[112] = r.choice([r.randrange(0, 101), 101, 200, 0xFF])
            self.versions.append(bytes(self.b))
            self.disk.write(self.sc['base'], bytes(self.b[:512]))
        elif k == 'serial':
            struct.pack_into('<L', self.b, 100, r.getrandbits(32))
            self.b[3 * self.bps:3 * self.bps + 8] = struct.pack('<Q', r.getrandbits(64))
            self.write()


def seal(b, bps):
    s = 0
    for i, c in enumerate(memoryview(b)[:11 * bps]):
        if i not in (106, 107, 112):
            s = ((s & 1) << 31 | s >> 1) + c & 0xFFFFFFFF
    b[11 * bps:12 * bps] = struct.pack('<L', s) * (bps // 4)


EDGE = {1: [0, 1, 2, 3, 0x7F, 0x80, 0x81, 0xFF, 0xF6, 8, 9, 12, 13, 25], 2: [0, 1, 511, 512, 513, 0x8000, 0xFFFF, 4096, 8192], 4: [0, 1, 2, 23, 24, 0x7FFFFFFF, 0xFFFFFFF5, 0xFFFFFFF6, 0xFFFFFFFF], 8: [0, 1, 2047, 2048, 1 << 63, (1 << 64) - 1]}
FIELDS = {'ntfs': [(3, 1), (11, 1), (12, 1), (13, 1), (40, 8), (48, 8), (56, 8), (64, 1), (68, 1), (0, 2), (510, 2)],
          'fat': [(0, 1), (11, 2), (13, 1), (14, 2), (16, 1), (17, 2), (19, 2), (21, 1), (22, 2), (32, 4), (36, 4), (40, 2), (42, 2), (44, 4), (48, 2), (50, 2), (38, 1), (66, 1), (510, 2)],
          'exfat': [(3, 1), (11, 1), (63, 1), (72, 8), (80, 4), (84, 4), (88, 4), (92, 4), (96, 4), (104, 1), (105, 1), (106, 2), (108, 1), (109, 1), (110, 1), (112, 1), (510, 2)]}


def damage(sc, ctx, image, v):
    names = []
    for seed in sc['damage']:
        r = rng_for('dmg', seed)
        base = sc['base']
        if sc['fs'] == 'fat' and v.fsi and r.random() < 0.2:
            o = base + v.fsi * v.bps + r.choice([0, 3, 484, 487, 508, 511, 488])
            image[o:o + 1] = bytes([image[o:o + 1][0] ^ 1 << r.randrange(8)])
            ctx.fault('fsinfo-damaged')
            names.append('fsi')
            continue
        off, n = r.choice(FIELDS[sc['fs']])
        if sc['fs'] == 'exfat':
            base += r.choice([0, 0, 0, 12]) * v.bps
        old = int.from_bytes(bytes(image[base + off:base + off + n]), 'little')
        new = r.choice(EDGE[n] + [old ^ 1 << r.randrange(8 * n), old + 1, old - 1]) % (1 << 8 * n)
        image[base + off:base + off + n] = new.to_bytes(n, 'little')
        names.append(off)
        ctx.fault('field-damaged')
        if sc['fs'] == 'exfat' and r.random() < 0.8:
            b = bytearray(image[base:base + 12 * v.bps])
            seal(b, v.bps)
            image[base:base + 12 * v.bps] = bytes(b)
            ctx.fault('resealed')
    return names


def expect(ctx, what, want, fn, exc):
    """want: a value, or exc when it has to be refused."""
    try:
        got = fn()
    except exc:
        ctx.check(want is REF, 'refused', lambda: '%s is refused instead of %r' % (what, want))
        ctx.probe('refused')
        return
    ctx.check(want is not REF, 'made-up-value', lambda: '%s is %r, but the recorded value is not valid' % (what, got))
    if isinstance(got, (bytearray, memoryview)):
        got = bytes(got)
    ctx.check(got == want, 'wrong-value', lambda: '%s is %r instead of %r' % (what, got, want))


REF = object()
SECTORS = (512, 1024, 2048, 4096)


def check_ntfs(ctx, b):
    E = NB.BootSectorException
    try:
        x = NB.BootSector(b)
    except E:
        ctx.check(len(b) < 512 or len(b) % 512 or b[3:11] != b'NTFS    ', 'refused', 'an NTFS boot sector')
        ctx.probe('refused')
        return False
    ctx.check(len(b) >= 512 and b[3:11] == b'NTFS    ', 'accepted', 'not an NTFS boot sector')
    s = b[12] * 256
    s = s if not b[11] and s >= 512 and s % 512 == 0 else REF
    c = b[13] if b[13] <= 0x80 else 1 << 256 - b[13]
    c = c or REF
    expect(ctx, 'sector size', s, x.get_bytes_per_sector, E)
    expect(ctx, 'cluster size', c, x.get_sectors_per_cluster, E)
    for f, o in ((x.get_total_number_of_sectors, 40), (x.get_first_mft_cluster, 48), (x.get_first_mftmirr_cluster, 56)):
        expect(ctx, 'field at %d' % o, struct.unpack_from('<Q', b, o)[0] or REF, f, E)
    for f, o in ((x.get_file_record_segment_size, 64), (x.get_index_record_size, 68)):
        n = b[o]
        if n >= 0x80:
            w = 1 << 256 - n
        else:
            w = REF if s is REF or c is REF or n == 0 else n * s * c
        expect(ctx, 'size at %d' % o, w, f, E)
    expect(ctx, 'serial', struct.unpack_from('<Q', b, 72)[0], x.get_serial_number, E)
    expect(ctx, 'signature', b'NTFS    ', x.get_signature, E)
    expect(ctx, 'boot code', b[0:2] != b'\0\0' and b[510:512] == b'\x55\xaa', x.is_boot_code_present, E)
    return True


def fat_ref(b):
    """(type, clusters) or None when it has to be refused, 'version' when it is of an unknown version."""
    bps, spc, rsvd, nf, root, t16, media, f16 = struct.unpack_from('<HBHBHHBH', b, 11)
    t32, f32 = struct.unpack_from('<LL', b, 32)
    if b[510:512] != b'\x55\xaa' and b[0] not in (0xE9, 0xEB):
        return None
    if spc & (spc - 1) or not rsvd or not nf:
        return None
    spc = spc or 256
    if f16 == 0 and f32:
        tot = t16 or t32 or (struct.unpack_from('<Q', b, 82)[0] if b[66] == 0x29 else 0)
        if not tot:
            return None
        if struct.unpack_from('<H', b, 42)[0]:
            return 'version'
        return 32, (tot - rsvd - nf * f32) // spc
    tot = t16 or t32
    if not f16 or not tot or bps not in SECTORS:
        return None
    n = (tot - rsvd - nf * f16 - -(-root * 32 // bps)) // spc
    return None if n <= 0 or n >= 65525 else (12 if n < 4085 else 16, n)


def check_fat(ctx, b):
    E = FAT.BootSectorException
    want = fat_ref(b) if len(b) == 512 else None
    try:
        x = FAT.BSBPB(b)
    except E:
        ctx.check(want is None, 'refused', lambda: 'a boot sector of FAT%r' % (want,))
        ctx.probe('refused')
        return None
    except NotImplementedError:
        ctx.check(want == 'version', 'refused', lambda: 'a boot sector of FAT%r' % (want,))
        ctx.probe('refused')
        return None
    ctx.check(want not in (None, 'version'), 'accepted', lambda: 'an invalid boot sector is accepted (%r)' % (want,))
    bits, n = want
    big = bits == 32
    bps, spc, rsvd, nf, root, t16, media, f16, spt, heads, hid, t32, f32, ext, ver, rc, fsi, bk = struct.unpack_from('<HBHBHHBHHHLLLHHLHH', b, 11)
    ctx.check((FAT.IsFileSystem32(x, True), FAT.IsFileSystem16(x, True) if not big else False, FAT.IsFileSystem12(x, True) if not big else False) == (big, bits == 16, bits == 12), 'wrong-type', lambda: 'FAT%d' % bits)
    ctx.check(FAT.GetCountOfClusters(x) == n, 'wrong-value', lambda: 'clusters: %r instead of %d' % (FAT.GetCountOfClusters(x), n))
    if not big:
        # A count of clusters some drivers take for the other type is announced, nothing else is.
        for c in (n, 4079 + n % 8, 4078, 4087):
            said = []
            old, FAT.WARN_FUNC = FAT.WARN_FUNC, lambda *a, **k: said.append(a)
            try:
                got = (bool(FAT.IsFileSystemUnusual12Or16(c)), len(said) > 0, bool(FAT.IsFileSystemUnusual12Or16(c, True)))
            finally:
                FAT.WARN_FUNC = old
            ctx.check(got == (4079 <= c <= 4086,) * 3, 'wrong-value', lambda: 'a count of %d clusters: unusual %r' % (c, got))
    at = 64 if big else 36
    L = [('jump', b[:3], x.get_bs_jmpboot), ('oem', b[3:11], x.get_bs_oemname), ('sector size', bps if bps in SECTORS else REF, x.get_bpb_bytspersec), ('cluster size', spc or 256, x.get_bpb_secperclus), ('reserved', rsvd, x.get_bpb_rsvdseccnt), ('fats', nf, x.get_bpb_numfats),
         ('root entries', REF if root and big else root, x.get_bpb_rootentcnt), ('sectors 16', t16, x.get_bpb_totsec16), ('sectors 32', t32, x.get_bpb_totsec32), ('media', media if media == 0xF0 or media >= 0xF8 else REF, x.get_bpb_media), ('fat size 16', f16, x.get_bpb_fatsz16),
         ('track', spt, x.get_bpb_secpertrk), ('heads', heads, x.get_bpb_numheads), ('hidden', hid, x.get_bpb_hiddsec), ('signature', b[510:512], x.get_signature),
         ('fat size 32', f32 if big else None, x.get_bpb_fatsz32), ('flags', (ext & 15, bool(ext & 0x80)) if big else (None, None), x.get_bpb_extflags), ('version', 0 if big else None, x.get_bpb_fsver), ('root cluster', (rc if rc > 1 else REF) if big else None, x.get_bpb_rootclus),
         ('information sector', (fsi or REF) if big else None, x.get_bpb_fsinfo), ('backup sector', (bk or REF) if big else None, x.get_bpb_bkbootsec), ('reserved area', b[52:64] if big else None, x.get_bpb_reserved),
         ('drive', b[at], x.get_bs_drvnum), ('dirty flags', b[at + 1], x.get_bs_dirty_flags), ('dirty', (bool(b[at + 1] & 1), bool(b[at + 1] & 2)), x.is_volume_dirty), ('boot signature', b[at + 2], x.get_bs_bootsig),
         ('sectors 64', struct.unpack_from('<Q', b, 82)[0] if big and b[66] == 0x29 and not t16 and not t32 else None, x.get_bs_totsec64)]
    vid = struct.unpack_from('<L', b, at + 3)[0]
    sig = b[at + 2]
    L.append(('extended fields', (vid, b[at + 7:at + 18], b[at + 18:at + 26]) if sig == 0x29 else (vid, None, None) if sig == 0x28 else (None, None, None), x.get_bs_extfields))
    fz = f32 if big else f16
    num = ext & 15 if big and ext & 0x80 and (ext & 15) < nf else 0
    L.append(('active table', REF if bps not in SECTORS else ((rsvd + fz * num) * bps, fz * bps, n + 1), x.fat_offset_and_size))
    for what, w, f in L:
        expect(ctx, what, w, f, E)
    if b[at + 1] & 1:
        ctx.probe('dirty')
    if b[at + 1] & 2:
        ctx.probe('surface')
    if sig not in (0x28, 0x29):
        ctx.probe('no-extended-fields')
    elif sig == 0x28:
        ctx.probe('short-extended-fields')
    elif big and not t16 and not t32:
        ctx.probe('sectors-64')
    if bps not in SECTORS:
        return None
    return bits, (rsvd + fz * num) * bps, fz * bps, n + 1, fsi * bps if big and fsi else None, bk * bps if big and bk else None


def exfat_ref(b):
    """True, False (refuse) or None (of an unknown version)."""
    if len(b) < 12 * 512 or b[3:11] != b'EXFAT   ' or b[510:512] != b'\x55\xaa' or any(b[11:64]):
        return False
    po, vl, fo, fl, ho, cc, rc, sn, mn, mj, fg, sh, cl, nf, ds, pc = struct.unpack_from('<QQLLLLLLBBHBBBBB', b, 64)
    if not 9 <= sh <= 12 or len(b) < 12 << sh:
        return False
    bps = 1 << sh
    c = bytearray(b[:12 * bps])
    seal(c, bps)
    if bytes(c[11 * bps:11 * bps + 12]) != b[11 * bps:11 * bps + 12]:
        return False
    if vl * bps < 1 << 20 or fo < 24 or fo + fl * nf > ho or cl > 25 - sh or fl * bps < (cc + 2) * 4 or ho + (cc << cl) > vl or cc > 0xFFFFFFF5 or not 2 <= rc <= cc + 1 or mj == 0 or mj > 99 or mn > 99:
        return False
    if mj > 1:
        return None
    return nf in (1, 2) and not (fg & 1 and nf != 2)


def check_exfat(ctx, b):
    E = exFAT.BootRegionException
    want = exfat_ref(b)
    try:
        x = exFAT.BR(b)
    except E:
        ctx.check(want is False, 'refused', 'a valid boot region')
        ctx.probe('refused')
        return None
    except NotImplementedError:
        ctx.check(want is None, 'refused', 'a valid boot region')
        ctx.probe('refused')
        return None
    ctx.check(want is True, 'accepted', 'an invalid boot region is accepted')
    po, vl, fo, fl, ho, cc, rc, sn, mn, mj, fg, sh, cl, nf, ds, pc = struct.unpack_from('<QQLLLLLLBBHBBBBB', b, 64)
    bps = 1 << sh
    oem = uuid.UUID(bytes_le=bytes(b[10 * bps:10 * bps + 16]))
    flash = struct.unpack_from('<7L', b, 10 * bps + 16) if oem == FLASH else (None,) * 7
    if oem == FLASH:
        ctx.probe('oem-parameters')
    if fg & 2:
        ctx.probe('dirty')
    for what, w, f in [('jump', b[:3], x.get_bs_jmpboot), ('name', b[3:11], x.get_bs_fsname), ('zeros', bytes(53), x.get_mustbezero), ('partition offset', po, x.get_partitionoffset), ('volume length', vl, x.get_volumelength), ('fat offset', fo, x.get_fatoffset),
                       ('fat length', fl, x.get_fatlength), ('heap offset', ho, x.get_clusterheapoffset), ('clusters', cc, x.get_clustercount), ('root', rc, x.get_firstclusterofrootdirectory), ('serial', sn, x.get_volumeserialnumber), ('revision', (mj, mn), x.get_filesystemrevision),
                       ('flags', (bool(fg & 1), bool(fg & 2), bool(fg & 4), bool(fg & 8)), x.get_volumeflags), ('sector size', bps, x.get_bytespersector), ('cluster size', 1 << cl, x.get_sectorspercluster), ('fats', nf, x.get_numberoffats), ('drive', ds, x.get_driveselect),
                       ('percent', pc if pc <= 100 else None, x.get_percentinuse), ('reserved', b[113:120], x.get_reserved), ('boot code', b[120:510], x.get_bs_bootcode), ('signature', b[510:512], x.get_bs_signature), ('oem', oem, x.get_oem_guid),
                       ('flash parameters', flash, x.get_oem_flash_parameters), ('checksum', struct.unpack_from('<L', b, 11 * bps)[0], x.get_checksum)] + [('signature %d' % i, b[(i + 1) * bps - 4:(i + 1) * bps], lambda i=i: x.get_ebs_signature(i)) for i in range(1, 9)]:
        expect(ctx, what, w, f, E)
    for i in (0, 9, -1):
        try:
            g = x.get_ebs_signature(i)
        except ValueError:
            continue
        ctx.check(False, 'made-up-value', lambda: 'extended boot sector %d: %r' % (i, g))
    return bps, fo * bps, fl * bps, cc + 1


def execute(sc, ctx):
    FAT.WARN_FUNC = lambda *a, **k: None
    cls = {'ntfs': Ntfs, 'fat': Fat, 'exfat': ExFat}[sc['fs']]
    if sc['fs'] != 'fat':
        ctx.probe(sc['fs'])
    base = sc['base']
    disk = SparseDisk(ctx, base + (1 << 22))
    v = cls(sc, ctx, disk)
    for k, seed in sc['ops']:
        if k == 'flush':
            disk.flush()
        else:
            v.apply(k, rng_for('op', seed))
    image = disk.crash(sc['crash']['mode'], sc['crash']['seed'])
    names = damage(sc, ctx, image, v)
    size = base + v.size
    spots = {'ntfs': [0], 'fat': [0, 512, getattr(v, 'rsvd', 1) * v.bps], 'exfat': [0, 12 * v.bps, 24 * v.bps, 12 * v.bps // 2]}[sc['fs']]
    faults = []
    for f in sc['faults']:
        if f['k'] == 'eio':
            faults.append(f)
            continue
        o = base + spots[int(f['at'] * 1000) % len(spots)]
        if f['k'] == 'bad':
            faults.append({'k': 'bad', 'lo': o, 'hi': o + 512})
        else:
            at = base + int(f['at'] * spots[-1] * 1.3) + 100
            faults.append({'k': 'eof', 'at': at // 512 * 512 if f['al'] else at})
    kinds = {f['k'] for f in faults}
    vf = SimFile(ctx, image, faults, 'vol')
    end = min(vf.end, size)

    def read(off, n):
        """What a tool does: seek and read, and again after an error."""
        for _ in range(3):
            try:
                vf.seek(base + off)
                return bytes(vf.read(n) or b'')
            except OSError:
                ctx.probe('io-error')
                if 'bad' in kinds:
                    return None
        return None
    ok = None
    if sc['fs'] == 'ntfs':
        b = read(0, 512)
        ok = b is not None and check_ntfs(ctx, b)
    elif sc['fs'] == 'exfat':
        for i, off in enumerate((0, 12 * v.bps)):
            b = read(off, 12 * (v.bps if rng_for('len', sc['seed']).random() < 0.5 else max(v.bps, 4096)))
            if b is None:
                continue
            g = check_exfat(ctx, b)
            if g and not names:
                # Exactly one version of the region, apart from the fields of the first sector the checksum leaves out.
                m = bytearray(b[:11 * v.bps + 12])
                m[106:108] = m[112:113] = b''
                good = False
                for w in v.versions:
                    w = bytearray(w[:11 * v.bps + 12])
                    w[106:108] = w[112:113] = b''
                    good = good or w == m
                ctx.check(good, 'mixed-versions', 'boot region %d is accepted but is not one that was written', i)
            elif not g and i == 0 and not names and end >= base + 24 * v.bps:
                ctx.probe('torn-region')
            if g and i == 1 and not ok:
                ctx.probe('other-region')
            ok = ok or g
        if not names and sc['barrier'] and not faults and not v.odd:
            ctx.check(ok is not None, 'refused', 'neither boot region is accepted')
        if ok:
            fat = exFAT.FAT(vf, base + ok[1], ok[2], ok[3])
            state(ctx, vf, fat, exFAT.FileAllocationTableException, [('media', fat.get_media_type, lambda e: e & 0xFF, 0)], lambda i: elem(image, vf.end, base + ok[1], 32, i, ok[2], ok[3], 0xFFFFFFFF))
    else:
        b = read(0, 512)
        if b is not None:
            ok = check_fat(ctx, b)
        if ok:
            bits, fo, fz, last, fsi, bk = ok
            if fsi is not None:
                s = read(fsi, 512)
                if s is not None and len(s) == 512:
                    good = (s[:4], s[484:488], s[508:]) == (b'RRaA', b'rrAa', b'\0\0\x55\xaa')
                    try:
                        x = FAT.FSINFO(s)
                    except FAT.FileSystemInfoException:
                        ctx.check(not good, 'refused', 'an information sector')
                        ctx.probe('fsinfo-refused')
                    else:
                        ctx.check(good, 'accepted', 'an invalid information sector')
                        ctx.check((x.get_fsi_free_count(), x.get_fsi_nxt_free(), bytes(x.get_fsi_reserved1()), bytes(x.get_fsi_reserved2())) == struct.unpack_from('<LL', s, 488) + (s[4:484], s[496:508]), 'wrong-value', 'information sector')
                        ctx.probe('fsinfo')
            if bk is not None:
                s = read(bk, 512)
                if s is not None and len(s) == 512:
                    check_fat(ctx, s)
            fat = FAT.FAT(vf, base + fo, fz, last, bits)
            cln, err = {12: (None, None), 16: (0x8000, 0x4000), 32: (0x08000000, 0x04000000)}[bits]
            L = [('media', fat.get_bpb_media, lambda e: e & 0xFF, 0)]
            if bits == 12:
                ctx.check(fat.is_volume_dirty() is None and fat.are_hard_errors_detected() is None, 'wrong-value', 'FAT12 has no state bits')
            else:
                L += [('clean bit', fat.is_volume_dirty, lambda e: not e & cln, 1), ('error bit', fat.are_hard_errors_detected, lambda e: not e & err, 1)]
            mask = {12: 0xFFF, 16: 0xFFFF, 32: 0x0FFFFFFF}[bits]
            state(ctx, vf, fat, FAT.FileAllocationTableException, L, lambda i: elem(image, vf.end, base + fo, bits, i, fz, last, mask))
            if not names and sc['crash']['mode'] == 'none' and not faults:
                ctx.check(b == bytes(v.b), 'harness', 'boot sector')
                ctx.check((bits, fat.get_element(0), fat.get_element(1)) == (v.bits, v.fat01[0], v.fat01[1]), 'wrong-value', 'first elements of the table')
    if ok:
        ctx.probe('accepted')
    ctx.nontrivial = sc['crash']['mode'] != 'none' or bool(names) or bool(faults) or len(sc['ops']) > 1
    ctx.state(sc['fs'], v.bps, sc['crash']['mode'], tuple(names), tuple(sorted(kinds)), bool(ok))
    ctx.sample = {'fs': sc['fs'], 'sector': v.bps, 'ops': [o[0] for o in sc['ops']], 'crash': sc['crash']['mode'], 'damage': names, 'faults': sc['faults'], 'accepted': bool(ok)}


def elem(image, end, off, bits, i, size, last, mask):
    """The recorded element, or None when it is out of reach."""
    p = i * bits // 8
    n = 2 if bits < 32 else 4
    if p + n > size or i > last or off + p + n > min(end, len(image)):
        return None
    v = int.from_bytes(bytes(image[off + p:off + p + n]), 'little')
    if bits == 12:
        v = v >> 4 if i % 2 else v
    return v & mask


def state(ctx, vf, fat, exc, getters, want):
    for what, fn, f, i in getters:
        for attempt in range(3):
            fired = vf.n_fired
            try:
                got = fn()
            except OSError:
                ctx.check(vf.n_fired > fired, 'unhandled-OSError', what)
                ctx.probe('io-error')
                continue
            except exc:
                ctx.check(want(i) is None, 'refused', what)
                break
            w = want(i)
            ctx.check(w is not None, 'made-up-value', what)
            ctx.check(got == f(w), 'wrong-value', lambda: '%s is %r instead of %r' % (what, got, f(w)))
            ctx.probe('fat-state')
            break
