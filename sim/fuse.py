"""A stand-in for llfuse: the kernel's side of the mount is simulated; the file system operations of the script are the real ones."""
import errno
import types


class FUSEError(Exception):
    def __init__(self, errno_):
        super().__init__(errno_)
        self.errno = errno_


class EntryAttributes(object):
    __slots__ = ('st_ino', 'generation', 'entry_timeout', 'attr_timeout', 'st_mode', 'st_nlink', 'st_uid', 'st_gid', 'st_rdev', 'st_size', 'st_blksize', 'st_blocks', 'st_atime_ns', 'st_mtime_ns', 'st_ctime_ns',
                 'st_birthtime_ns')


class StatvfsData(object):
    __slots__ = ('f_bsize', 'f_frsize', 'f_blocks', 'f_bfree', 'f_bavail', 'f_files', 'f_ffree', 'f_favail', 'f_namemax')


class Operations(object):
    """Default operations: not implemented (as in llfuse)."""


def _nosys(self, *a, **k):
    raise FUSEError(errno.ENOSYS)


for _n in ('access', 'create', 'flush', 'fsync', 'fsyncdir', 'getattr', 'getxattr', 'link', 'listxattr', 'lookup', 'mkdir', 'mknod', 'open', 'opendir', 'read', 'readdir', 'readlink', 'release', 'releasedir',
           'removexattr', 'rename', 'rmdir', 'setattr', 'setxattr', 'statfs', 'symlink', 'unlink', 'write'):
    setattr(Operations, _n, _nosys)
for _n in ('init', 'destroy', 'forget', 'stacktrace'):
    setattr(Operations, _n, lambda self, *a, **k: None)


def module(kernel):
    """kernel(ops) is run as the main loop of the mount."""
    m = types.ModuleType('llfuse')
    m.FUSEError = FUSEError
    m.EntryAttributes = EntryAttributes
    m.StatvfsData = StatvfsData
    m.Operations = Operations
    m.ROOT_INODE = 1
    m.default_options = frozenset(['default_permissions', 'big_writes'])
    st = m.state = {'ops': None, 'mounted': False, 'mountpoint': None, 'options': None}

    def init(ops, mountpoint, options=None):
        st['ops'] = ops
        st['mountpoint'] = mountpoint
        st['options'] = options
        st['mounted'] = True

    def main(workers=None, handle_signals=True):
        st['ops'].init()
        kernel(st['ops'])

    def close(unmount=True):
        # as in libfuse, the end of the session is what tells the file system to clean up
        if st['mounted']:
            st['mounted'] = False
            st['ops'].destroy()
    m.init, m.main, m.close = init, main, close
    return m
