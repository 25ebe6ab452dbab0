bug('c01-zero-fill', 'C01', [('dfir_ntfs/MFT.py', """				if len(data) != self.cluster_size:
					raise MasterFileTableException('Truncated data read from a volume')
""", """				if len(data) != self.cluster_size: # The last cluster is truncated.
					data = data.ljust(self.cluster_size, b'\\x00')
""")], '''
# A volume image cut in the middle of a cluster: the missing bytes of a file must not be made up.
import io, sys
from dfir_ntfs import MFT
cluster = 1024
volume = b''.join(bytes([65 + i]) * cluster for i in range(8))
f = MFT.FragmentedFile(io.BytesIO(volume[:-300]), 0, cluster, [(2, 2), (7, 1)], 3 * cluster)
assert f.read(2 * cluster) == b'C' * cluster + b'D' * cluster
try:
    data = f.read()
except Exception:
    sys.exit(0)
assert data == b'H' * len(data), 'bytes which are not in the volume were returned'
''', 'an image truncated inside a cluster of the file', 'the missing part of the last cluster reads as zeros instead of raising an error')

bug('c02-usa-last-sector', 'C02', [('dfir_ntfs/MFT.py', """				if usa_elements_applied * UPDATE_SEQUENCE_STRIDE < self.get_first_free_byte_offset():
					raise FileRecord""", """				if offset_in_frs < self.get_first_free_byte_offset():
					raise FileRecord""")], '''
# The second sector of a file record is stale (a torn write); attributes in use extend into it without reaching its end.
import os, sys, struct
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ntfs
from dfir_ntfs import MFT


def record(usn, fill):
    si = ntfs.attr_resident(0x10, ntfs.si_value(1, 2, 3, 4))
    data = ntfs.attr_resident(0x80, bytes([fill]) * 500)
    return ntfs.protect(ntfs.frs_logical(1024, 40, 3, 1, [si, data])[0], usn)


old, new = record(7, 0x41), record(8, 0x42)
good = MFT.FileRecordSegment(new)
assert [a.value for a in good.attributes()][1] == b'B' * 500
try:
    torn = MFT.FileRecordSegment(new[:512] + old[512:])
    values = [a.value for a in torn.attributes()]
except Exception:
    sys.exit(0)
raise SystemExit('a torn record was accepted: %r' % values[1][-8:])
''', 'a torn write where only the last used sector, used partially, is stale', 'a file record mixing two versions is accepted', ['sim/writers/ntfs.py'])

bug('c03-seq-overflow', 'C03', [('dfir_ntfs/MFT.py', """				reference = EncodeFileRecordSegmentReference(mft_number, sequence_number)
				if reference in self.child_cache.keys():
					child_frs_list = []
					for child_frs_number in self.child_cache[reference]:
						child_frs_list.append(self.get_file_record_segment_by_number(child_frs_number))

					yield FileRecord(frs, child_frs_list)
""", """				reference = EncodeFileRecordSegmentReference(mft_number, sequence_number & 0x7FFF)
				if reference not in self.child_cache.keys():
					reference = EncodeFileRecordSegmentReference(mft_number, sequence_number)
				if reference in self.child_cache.keys():
					child_frs_list = []
					for child_frs_number in self.child_cache[reference]:
						child_frs_list.append(self.get_file_record_segment_by_number(child_frs_number))

					yield FileRecord(frs, child_frs_list)
""")], '''
# Two child records which name the same base record number with different sequence numbers (0x8005 and 5).
import io, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ntfs
from dfir_ntfs import MFT


def record(num, seq, base, fill):
    si = ntfs.attr_resident(0x10, ntfs.si_value(1, 2, 3, 4)) if not base else ntfs.attr_resident(0x80, bytes([fill]) * 60)
    return ntfs.protect(ntfs.frs_logical(1024, num, seq, 1, [si], base=base)[0], 5)


vol = ntfs.protect(ntfs.frs_logical(1024, 3, 3, 1, [ntfs.attr_resident(0x70, ntfs.vinfo_value())])[0], 5)
img = record(0, 1, 0, 0) + record(1, 0x8005, 0, 0) + record(2, 9, ntfs.ref(1, 0x8005), 0x41) + vol + record(4, 9, ntfs.ref(1, 5), 0x42)
for r in MFT.MasterFileTableParser(io.BytesIO(img)).file_records():
    if r.get_master_file_table_number() == 1:
        values = [a.value for a in r.attributes() if a.type_code == 0x80]
        assert values == [b'A' * 60], values
''', 'record reuse after the sequence number passed 0x8000, with a leftover child record of an early incarnation', 'child records of another incarnation are attached to a file', ['sim/writers/ntfs.py'])

bug('c04-loop-track', 'C04', [('dfir_ntfs/MFT.py', """							path_components.append(UNKNOWN_PATH_PLACEHOLDER)
							break
						else:
							track.add(parent_segment_number)
""", """							path_components.append(UNKNOWN_PATH_PLACEHOLDER)
							break
						elif len(track) < 2:
							track.add(parent_segment_number)
""")], '''
# Directories 43 and 44 refer to each other as parents, 40 is in 41, 41 in 42, 42 in 43 (a damaged tree).
import io, os, sys, signal
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ntfs
from dfir_ntfs import MFT
signal.alarm(20)


def record(num, parent, name):
    fn = ntfs.attr_resident(0x30, ntfs.fn_value(ntfs.ref(parent, 1), 1, 2, 3, 4, 0, 0, 0x10000000, name, 1))
    return ntfs.protect(ntfs.frs_logical(1024, num, 1, 3, [fn])[0], 5)


img = bytearray(1024 * 50)
for num, parent, name in [(0, 5, '$MFT'), (5, 5, '.'), (40, 41, 'a'), (41, 42, 'b'), (42, 43, 'c'), (43, 44, 'd'), (44, 43, 'e')]:
    img[num * 1024:num * 1024 + 1024] = record(num, parent, name)
img[3072:4096] = ntfs.protect(ntfs.frs_logical(1024, 3, 3, 1, [ntfs.attr_resident(0x70, ntfs.vinfo_value())])[0], 5)
p = MFT.MasterFileTableParser(io.BytesIO(bytes(img)))
paths = p.build_full_paths(p.get_file_record_by_number(40))
assert len(paths) == 1 and paths[0].startswith('<') and paths[0].endswith('/b/a'), paths
''', 'a loop of parent directories which does not contain one of the first two directories followed', 'building a path does not end', ['sim/writers/ntfs.py'])

bug('c07-trust-length', 'C07', [('dfir_ntfs/USN.py', """			except (ValueError, NotImplementedError):
				# An invalid (or missing) USN record.
				pos += 8
				continue
""", """			except ValueError:
				# An invalid (or missing) USN record.
				pos += 8
				continue
			except NotImplementedError:
				# A USN record of an unknown version, skip it using its length.
				pos += max(8, struct.unpack('<L', buf[ : 4])[0] // 8 * 8)
				continue
""")], """
# A sector of the change journal is overwritten with unrelated data: the records after it are still there.
import io, struct
from dfir_ntfs import USN


def record(usn, name):
    nm = name.encode('utf-16le')
    n = (60 + len(nm) + 7) & ~7
    return (struct.pack('<LHHQQQQLLLLHH', n, 2, 0, 0x1000000000040, 0x5000000000005, usn, 131000000000000000, 0x100, 0, 0x101, 0x20, len(nm), 60) + nm).ljust(n, b'\\0')


img = b''
usns = []
for i in range(200):
    r = record(len(img), 'file%d.txt' % i)
    if len(img) % 4096 + len(r) > 4096:
        img += bytes(4096 - len(img) % 4096)
        r = record(len(img), 'file%d.txt' % i)
    usns.append(len(img))
    img += r
img = bytearray(img)
img[1024:1536] = b'unrelated data; ' * 32
got = [r.get_usn() for r in USN.ChangeJournalParser(io.BytesIO(bytes(img))).usn_records()]
want = [u for u in usns if u >= 1536]
assert [u for u in got if u >= 1536] == want, (len(got), len(want))
""", 'a damaged area whose bytes look like a record of an unknown version with a large length', 'intact records after the damaged area are skipped')
