def img(id, n=1):
    return ['plant/golden.py'] + ['plant/img/%s/%d.xz' % (id, i) for i in range(n)] + ['plant/img/%s/expect.json' % id]


def gold(comment, kind, arg, n=1):
    return '''
# %s
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import golden
golden.check(%r, %r, %r)
''' % (comment, kind, ['%d.xz' % i for i in range(n)], arg)


bug('c05-fast-order', 'C05', [('dfir_ntfs/LogFile.py', "		fast_pages.sort(key = lambda x: x.get_last_lsn()) #", "		fast_pages.sort(key = lambda x: x.get_last_end_lsn()) #")],
    gold('A log file of version 2 after a crash: the last pages were written out of place.', 'log', None),
    'a crash that leaves several pages in the fast area, one of them holding the middle of a long record', 'records are lost', img('c05-fast-order'))

bug('c08-leave-entry', 'C08', [('dfir_ntfs/ShadowCopy.py', '\t\t\t\t\t\t\treturn 1 # Switch to the next store.\n\n\t\t\t\t\t\tpos += 1', '\t\t\t\t\t\t\treturn 1 # Switch to the next store.\n\n\t\t\t\t\t\tbreak', 0)],
    gold('A volume with several shadow copies: a block found through the forwarding entries of the next ones.', 'vss', [32256]),
    'several snapshots and a forwarded block', 'a shadow copy reads the wrong version of a block', img('c08-leave-entry'))

bug('c09-last-bitmap', 'C09', [('dfir_ntfs/ShadowCopy.py', '\t\t\t\t\t\t\t\t\t\tnew_offsets.append((False, offset + i * 512))\n\n\t\t\t\t\t\tcumulative_allocation_bitmap |= table_entry.allocation_bitmap #', '\t\t\t\t\t\t\t\t\t\tnew_offsets.append((False, offset + i * 512))\n\n\t\t\t\t\t\tcumulative_allocation_bitmap = table_entry.allocation_bitmap #')],
    gold('Shadow copies kept on another volume, with blocks overlaid in parts by several entries.', 'vss', [1048576, 0], 2),
    'several partial overlays of one block in a snapshot kept on another volume', 'parts of a block read as the newer version', img('c09-last-bitmap', 2))

bug('c11-orphan-dotdot', 'C11', [('dfir_ntfs/addons/FAT.py', "or buf[32 : 35] != b'.. ' or buf[0 : 2] != b'. ':", "or buf[0 : 2] != b'. ':")],
    gold('A deleted directory whose cluster belongs to something else now.', 'fat', 32256),
    'a reused cluster that begins like a directory', 'made up entries are listed', img('c11-orphan-dotdot'))

bug('c12-loop-stop', 'C12', [('dfir_ntfs/addons/exFAT.py', """						if dir_entry.first_cluster in stack:
							# This is a loop, skip this entry.
							continue
""", """						if dir_entry.first_cluster in stack:
							# This is a loop, skip this entry.
							break
""")], gold('A directory tree with a loop: what is listed after the entry that closes the loop.', 'exfat', 0),
    'a directory that contains one of its parents', 'the entries behind it are missing', img('c12-loop-stop'))

bug('c13-fat-end', 'C13', [('dfir_ntfs/addons/exFAT.py', "		if fat_item_offset + 4 > self.fat_size or number > self.last_valid_cluster:", "		if fat_item_offset + 4 >= self.fat_size or number > self.last_valid_cluster:")], '''
# The file allocation table ends with its last element.
import io, struct
from dfir_ntfs.addons import exFAT
last = 127
items = [0xFFFFFFF8, 0xFFFFFFFF] + [0] * (last - 1)
items[5], items[last] = last, 0xFFFFFFFF
fat = exFAT.FAT(io.BytesIO(struct.pack('<%dL' % len(items), *items)), 0, 4 * len(items), last)
assert fat.chain(5) == [5, last], fat.chain(5)
''', 'a cluster heap that takes every element of the table', 'the last cluster of the volume cannot be read')

GPT = '''
import binascii, io, struct, uuid
from dfir_ntfs import PartitionTable
SS, N = 512, 200


def header(my, other, entry_lba, entries, bad=False):
    def make(crc):
        return struct.pack('<8sLLLLQQQQ16sQLLL', b'EFI PART', 0x10000, 92, crc, 0, my, other, 34, N - 34, uuid.UUID(int=5).bytes_le, entry_lba, 128, 128, binascii.crc32(entries))
    h = make(binascii.crc32(make(0)))
    return (h[:24] if not bad else h[:24]) + h[24:]


def disk(primary, others):
    b = bytearray(N * SS)
    entries = struct.pack('<16s16sQQQ72s', uuid.UUID(int=1).bytes_le, uuid.UUID(int=2).bytes_le, 40, 60, 0, 'data'.encode('utf-16le')).ljust(128 * 128, bytes(1))
    b[2 * SS:34 * SS] = entries
    b[(N - 33) * SS:(N - 1) * SS] = entries
    for lba, other, corrupt in [primary] + others:
        h = bytearray(header(lba, other, 2 if lba == 1 else N - 33, entries))
        if corrupt:
            h[60] ^= 1
        b[lba * SS:lba * SS + 92] = h
    return io.BytesIO(bytes(b))


def read(d):
    g = PartitionTable.GPT(d, SS)
    h = g.read_gpt_header()
    return h.location, [(p.starting_lba, p.ending_lba, p.partition_name) for p in g.read_gpt_partitions(h.partition_entry_lba, h.number_of_partition_entries, h.size_of_partition_entry, h.partition_entry_crc32)]


'''
bug('c14-cut-image', 'C14', [('dfir_ntfs/PartitionTable.py', "if my_lba == alternate_lba or alternate_lba == 0:", "if my_lba == alternate_lba or alternate_lba == 0 or alternate_lba * self.sector_size >= self.volume_size:")], GPT + '''
assert read(disk((1, N - 1, False), [(N - 1, 1, False)])) == (0, [(40, 60, 'data')])
assert read(disk((1, N - 1, True), [(N - 1, 1, False)])) == (2, [(40, 60, 'data')])
# The image is shorter than the drive: the backup header is not in it.
assert read(disk((1, N + 7, False), [])) == (0, [(40, 60, 'data')])
assert read(disk((1, N, False), [])) == (0, [(40, 60, 'data')])
''', 'an image that ends before the backup header', 'an intact primary header is refused')

MBR = '''
import io, struct
from dfir_ntfs import PartitionTable


def table(*parts):
    b = b''.join(struct.pack('<B3sB3sLL', 0, bytes(3), ty, bytes(3), lba, n) for ty, lba, n in parts)
    return bytes(446) + b.ljust(64, bytes(1)) + b'\\x55\\xaa'


def disk(sectors, n=400):
    b = bytearray(n * 512)
    for lba, t in sectors.items():
        b[lba * 512:lba * 512 + 512] = t
    return PartitionTable.MBR(io.BytesIO(bytes(b)), 512)


'''
bug('c15-link-type', 'C15', [('dfir_ntfs/PartitionTable.py', """			__, __, __, __, next_ebr_lba_relative, __ = struct.unpack('<B3sB3sLL', buf_part)
""", """			__, __, next_type, __, next_ebr_lba_relative, __ = struct.unpack('<B3sB3sLL', buf_part)
			if next_type not in [ 0x00, 0x05 ]:
				next_ebr_lba_relative = 0
""")], MBR + '''
# Logical drives linked with the type 0x05 or 0x0F.
for link in (0x05, 0x0F):
    m = disk({0: table((7, 10, 20), (0x0F, 100, 250)), 100: table((7, 1, 30), (link, 50, 60)), 150: table((0xB, 2, 40))})
    got = [(p.os_type, p.starting_lba, p.size_in_lba) for p in m.read_ebr_partitions()]
    assert got == [(7, 101, 30), (0xB, 152, 40)], (link, got)
''', 'logical drives whose links have another type than 0x05', 'all logical drives but the first are missing')

bug('c16-long-name', 'C16', [('dfir_ntfs/MoveTable.py', """	if s1 == s2:
		return s1
""", """	if s1 == s2 or len(Buffer) > 15:
		return s1
""")], '''
# A machine name of the largest length, in a code page which is not known.
from dfir_ntfs import MoveTable
for n in (3, 14, 15, 16):
    s = MoveTable.DecodeString(b'\\xe0' + b'a' * (n - 1))
    assert 'windows-1252' in s and 'cp-866' in s, (n, s)
''', 'a name that fills the field and is not ASCII', 'one of the two readings of the name is not reported')

bug('c17-block-number', 'C17', [('dfir_ntfs/Attributes.py', """				if index_buf is not None:
					yield IndexBuffer(index_buf)

				i += 1""", """				if index_buf is not None and struct.unpack('<Q', index_buf[16 : 24])[0] >= i:
					yield IndexBuffer(index_buf)

				i += 1""")], '''
# Index buffers of 4096 bytes on a volume with large clusters: buffers are counted in clusters (here: of 64 KiB, so in units of 512 bytes) or, when larger than a cluster, in clusters.
import io, os, struct, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ntfs
from dfir_ntfs import Attributes, MFT


def buffer(number, size, name):
    e = ntfs.index_entry(ntfs.ref(40, 1), ntfs.fn_value(ntfs.ref(5, 5), 1, 2, 3, 4, 0, 0, 0x20, name, 3)) + ntfs.index_end()
    usa = 2 * (size // 512 + 1)
    first = (40 + usa + 7) // 8 * 8
    b = b'INDX' + struct.pack('<HHQQ', 40, usa // 2, 0, number) + struct.pack('<LLLL', first - 24, first - 24 + len(e), size - 24, 0)
    b = bytearray((b.ljust(first, bytes(1)) + e).ljust(size, bytes(1)))
    b[40:42] = b'\\x07\\x00'
    for i in range(1, size // 512 + 1):
        b[40 + 2 * i:42 + 2 * i] = b[i * 512 - 2:i * 512]
        b[i * 512 - 2:i * 512] = b'\\x07\\x00'
    return bytes(b)


for step in (1, 8, 0):
    data = b''.join(buffer(i * step, 4096, 'name%d' % i) for i in range(3))
    a = Attributes.IndexAllocation(MFT.FragmentedFile(io.BytesIO(data), 0, 4096, [(0, 3)], len(data)))
    got = [Attributes.FileName(e.get_attribute()).get_file_name() for b in a.index_buffers() for e in b.index_entries() if e.get_attribute() is not None]
    assert got == ['name0', 'name1', 'name2'], (step, got)
''', 'an index buffer whose stored number is lower than its position (a corrupt or restored one)', 'the names of an intact index buffer are not listed', ['sim/writers/ntfs.py'])

bug('c18-odd-sector', 'C18', [('dfir_ntfs/BootSector.py', """		if struct.unpack('B', self.boot_sector_data[11 : 12])[0] != 0:
			raise BootSectorException('Invalid sector size')

""", "")], '''
# A corrupt boot sector: a sector size of 513 bytes.
import os, sys, struct
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ntfs
from dfir_ntfs import BootSector
good = ntfs.boot_sector(512, 8, 100000, 4, 2, -10, 1)
assert BootSector.BootSector(good).get_bytes_per_sector() == 512
bad = bytearray(good)
bad[11] = 1
try:
    n = BootSector.BootSector(bytes(bad)).get_bytes_per_sector()
except BootSector.BootSectorException:
    sys.exit(0)
raise SystemExit('a sector size of %d was accepted' % n)
''', 'a boot sector with one corrupt byte', 'a corrupt boot sector is used as if it was intact', ['sim/writers/ntfs.py'])

bug('c23-objid-version', 'C23', [('dfir_ntfs/Attributes.py', "		if guid is not None and guid.version == 1:", "		if guid is not None and guid.version in (1, 2):")], '''
# Object identifiers of several versions: only those of version 1 hold a time.
import uuid
from dfir_ntfs import Attributes
for ver in range(1, 6):
    g = uuid.UUID(fields=(0x12345678, 0x4321, 0x01ee | ver << 12, 0x80, 0x11, 0x112233445566))
    t = Attributes.ObjectID(g.bytes_le + bytes(48)).get_timestamp()
    assert (t is not None) == (ver == 1), (ver, t)
''', 'an object identifier that is not of version 1', 'a time is made up')

bug('c24-no-backup', 'C24', [('dfir_ntfs/addons/FAT.py', """		if bk == 0:
			raise BootSectorException('Invalid backup boot sector""", """		if bk == 0xFFFF:
			raise BootSectorException('Invalid backup boot sector""")], '''
# A FAT32 boot sector without a backup.
import sys
from dfir_ntfs.addons import FAT
b = bytearray(512)
b[0:3] = b'\\xeb\\x58\\x90'
b[3:11] = b'MSDOS5.0'
b[11:13] = (512).to_bytes(2, 'little')
b[13], b[14], b[16], b[21] = 8, 32, 2, 0xF8
b[32:36] = (1000000).to_bytes(4, 'little')
b[36:40] = (976).to_bytes(4, 'little')
b[44], b[48], b[50] = 2, 1, 6
b[66], b[510], b[511] = 0x29, 0x55, 0xAA
assert FAT.BSBPB(bytes(b), True).get_bpb_bkbootsec() == 6
b[50] = 0
try:
    n = FAT.BSBPB(bytes(b), True).get_bpb_bkbootsec()
except FAT.FileSystemException:
    sys.exit(0)
raise SystemExit('backup boot sector: %d' % n)
''', 'a boot sector whose backup is at sector 0', 'the boot sector itself is reported as its backup')
