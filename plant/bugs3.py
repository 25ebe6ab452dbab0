bug('c06-first-restart', 'C06', [('dfir_ntfs/LogFile.py', "			log_version = (self.restart_page_2.get_major_version(), self.restart_page_2.get_minor_version())\n			restart_area = self.restart_page_2.get_restart_area()", "			log_version = (self.restart_page_2.get_major_version(), self.restart_page_1.get_minor_version())\n			restart_area = self.restart_page_2.get_restart_area()")],
    gold('A log file with a corrupt first restart page.', 'log', None),
    'a first restart page that was torn', 'the log file is not read although the second restart page is intact', img('c06-first-restart'))

bug('c22-skip-more', 'C22', [('dfir_ntfs/MFT.py', "						fcb_pos += relative_pos_atime_real + 8 # Skip", "						fcb_pos += 512 # Skip")],
    gold('Blocks close to each other in memory.', 'script', ["ntfs_parser", ["--mem", "%0", "%o"]]),
    'two blocks within 512 bytes', 'the second one is lost', img('c22-skip-more'))

bug('c19-half-pair', 'C19', [('dfir_ntfs/USN.py', "decode('utf-16le', errors = 'replace')", "decode('utf-16le', errors = 'ignore')")],
    gold('A change for a file with half of a surrogate pair in its name.', 'script', ["ntfs_parser", ["--usn", "%0", "%1", "%o"]], 2),
    'a USN record with half of a surrogate pair in the file name', 'the name is reported without it, as if it was another file', img('c19-half-pair', 2))

bug('c20-redo-only', 'C20', [('dfir_ntfs/LogFile.py', "\t\tif self.get_redo_operation() in LOGGED_RESIDENT_UPDATES or self.get_undo_operation() in LOGGED_RESIDENT_UPDATES:\n\t\t\ttarget_vcn", "\t\tif self.get_redo_operation() in LOGGED_RESIDENT_UPDATES:\n\t\t\ttarget_vcn")],
    gold('A log record where only the undo operation is for a file record segment.', 'script', ["ntfs_parser", ["--log", "%0", "%1", "%o"]], 2),
    'a log record whose undo operation targets a file record segment and whose redo operation does not', 'the file it is for is not reported', img('c20-redo-only', 2))

bug('c21-name-align', 'C21', [('dfir_ntfs/addons/exFAT.py', """\tbuf = b''.join(NameEntities)

\t# Remove everything after the first null character (including it).
\ti = 0
\twhile i < len(buf):
\t\tif buf[i : i + 2] == b'\\x00\\x00':
\t\t\tbuf = buf[ : i]
\t\t\tbreak

\t\ti += 2
""", """\tbuf = b''.join(NameEntities)

\t# Remove everything after the first null character (including it).
\ti = buf.find(b'\\x00\\x00')
\tif i >= 0:
\t\tbuf = buf[ : i + (i & 1)]
""")],
    gold('A name with a character whose code ends with a zero byte.', 'script', ["fat_parser", ["%0", "0", "%o"]]),
    'a character whose code ends with a zero byte after a Latin one', 'the name is cut at that character', img('c21-name-align'))

bug('c10-fill-once', 'C10', [('dfir_ntfs/ShadowCopy.py', "new_data = self.read_at_exact_offset(block_offset, debug_fill)", "new_data = self.read_at_exact_offset(block_offset)")], '''
# A shadow copy mounted with the fill pattern (and a stand-in for FUSE): what a long read returns is what short reads return.
import os, shutil, sys, tempfile, types
import golden
import json

VOL = golden.load('0.xz')
want = json.load(open(os.path.join(golden.HERE, 'expect.json')))
d = tempfile.mkdtemp()
seen = []
ops = []
m = types.ModuleType('llfuse')
m.ROOT_INODE = 1
m.default_options = set()
m.FUSEError = type('FUSEError', (Exception,), {})
m.EntryAttributes = type('EntryAttributes', (object,), {})
m.StatvfsData = type('StatvfsData', (object,), {})
m.Operations = type('Operations', (object,), {'__init__': lambda self: None})
m.init = lambda fs, point, options: ops.append(fs)
m.close = lambda *a, **k: None


def main(**k):
    fh = ops[0].open(2, os.O_RDONLY, None)
    for o in range(0, 8 << 20, 65536):
        short = b''.join(ops[0].read(fh, o + i, 16384) for i in range(0, 65536, 16384))
        seen.append(ops[0].read(fh, o, 65536) == short)


m.main = main
sys.modules['llfuse'] = m
try:
    open(d + '/vol', 'wb').write(VOL)
    os.mkdir(d + '/mnt')
    sys.argv = ['vsc_mount', '--mount-altfill', d + '/vol', 'OFFSET', str(want[0][0]), d + '/mnt']
    exec(compile(open('vsc_mount').read(), 'vsc_mount', 'exec'), {'__name__': '__main__'})
finally:
    shutil.rmtree(d)
assert seen and all(seen), seen
'''.replace('OFFSET', '32256'), 'a read of more than one block with --mount-altfill', 'the pattern is shown in the first block only', img('c08-leave-entry'))
