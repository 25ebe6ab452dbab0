"""Comparison of what the code under test reports for a file record with the version the simulated driver wrote."""
from dfir_ntfs import MFT
from ..writers.mftsim import same_time
from ..writers import ntfs


def attr_key(a):
    if isinstance(a, MFT.AttributeRecordNonresident):
        return (a.type_code, a.name or '', 'N', a.lowest_vcn, a.file_size, tuple(tuple(x) for x in a.data_runs))
    return (a.type_code, a.name or '', 'R', bytes(a.value))


def check_segment(ctx, frs, v, num, short, slack=True, where=''):
    d = '%s record %d' % (where, num)
    ctx.check(frs.get_sequence_number() == v.seq, 'record-field', lambda: '%s: sequence number %r, expected %r' % (d, frs.get_sequence_number(), v.seq))
    ctx.check(frs.get_flags() == v.flags and bool(frs.is_in_use()) == v.in_use, 'record-field', lambda: '%s: flags %r' % (d, frs.get_flags()))
    ctx.check(frs.get_base_file_record_segment() == v.base and bool(frs.is_base_file_record_segment()) == (v.base == 0), 'record-field', lambda: '%s: base reference %r' % (d, frs.get_base_file_record_segment()))
    ctx.check(frs.get_logfile_sequence_number() == v.lsn, 'record-field', lambda: '%s: LSN %r, expected %r' % (d, frs.get_logfile_sequence_number(), v.lsn))
    n = frs.get_master_file_table_number()
    ctx.check(n == num, 'record-field', lambda: '%s: number %r' % (d, n))
    ctx.check(bool(frs.is_bad()) == (v.sig != b'FILE'), 'record-field', lambda: '%s: bad flag' % d)
    if slack and num % 2:
        # The slack can be asked for first.
        s = frs.get_slack()
        ctx.check(s is not None and bytes(s.value) == v.logical[v.slack_off:], 'slack', lambda: '%s: slack differs' % d)
    got = [attr_key(a) for a in frs.attributes()]
    want = [a.key() for a in v.attrs]
    ctx.check(got == want, 'attributes', lambda: '%s: attributes %r, expected %r' % (d, brief(got), brief(want)))
    if slack:
        s = frs.get_slack()
        ctx.check(s is not None and bytes(s.value) == v.logical[v.slack_off:], 'slack', lambda: '%s: slack differs' % d)


def brief(keys):
    return [(hex(k[0]), k[1], k[2]) + tuple(len(x) if isinstance(x, bytes) else (x if not isinstance(x, tuple) else x[:3]) for x in k[3:]) for k in keys][:8]


def check_names(ctx, file_record, want, where):
    """The decoded timestamps, names and parents of the record; want: Version.names() lists."""
    got = []
    for a in file_record.attributes():
        if isinstance(a, MFT.AttributeRecordResident) and a.type_code == ntfs.T_FN:
            got.append(a.value_decoded())
    ctx.check(len(got) == len(want), 'names', lambda: '%s: %d names, expected %d' % (where, len(got), len(want)))
    for fn, w in zip(got, want):
        check_name(ctx, fn, w, where)


def check_name(ctx, fn, w, where):
    p, nm, ns, (c, m, e, t), sz, fa = w
    ctx.check(fn.get_file_name() == nm, 'names', lambda: '%s: name %r, expected %r' % (where, fn.get_file_name(), nm))
    ctx.check(fn.get_parent_directory() == p, 'names', lambda: '%s: parent %r, expected %r' % (where, fn.get_parent_directory(), p))
    ctx.check(fn.get_flags() == ns and fn.get_file_size() == sz and fn.get_file_attributes() == fa, 'names', lambda: '%s: name space, size or attributes of %r' % (where, nm))
    ctx.check(same_time(fn.get_ctime(), c) and same_time(fn.get_mtime(), m) and same_time(fn.get_etime(), e) and same_time(fn.get_atime(), t),
              'timestamps', lambda: '%s: times of %r: %r' % (where, nm, (fn.get_ctime(), fn.get_mtime(), fn.get_etime(), fn.get_atime())))


def check_si(ctx, si, value, where):
    import struct
    c, m, e, a, fa = struct.unpack_from('<QQQQL', value, 0)
    ctx.check(same_time(si.get_ctime(), c) and same_time(si.get_mtime(), m) and same_time(si.get_etime(), e) and same_time(si.get_atime(), a),
              'timestamps', lambda: '%s: $STANDARD_INFORMATION times' % where)
    ctx.check(si.get_file_attributes() == fa, 'attributes', lambda: '%s: file attributes' % where)
    if len(value) >= 72:
        ctx.check(si.get_usn() == struct.unpack_from('<Q', value, 64)[0], 'attributes', lambda: '%s: USN' % where)
