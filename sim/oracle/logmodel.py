"""What a reader may and must report for a durable $LogFile image (reference model for C05 and C06)."""
from ..writers.logsim import PAGE, DATA, find_version, RES_OPS, NONRES_OPS, OPEN_ATTR, OAT_DUMP, AN_DUMP


class LogModel(object):
    def __init__(self, sim, image):
        self.sim = sim
        self.v2 = sim.v2
        n = len(image) // PAGE
        page = lambda i: bytes(image[i * PAGE:(i + 1) * PAGE])
        self.restarts = [None, None]
        for s in (0, 1):
            if s < n:
                for raw, lsns in reversed(sim.restart_versions[s]):
                    if raw == page(s):
                        self.restarts[s] = lsns
                        break
        self.inplace = {}
        for p in range(sim.start, n):
            v = find_version(page(p), sim.inplace.get(p, []))
            if v is not None:
                self.inplace[p] = v
        self.copies = []
        for s in range(2, min(sim.start, n)):
            v = find_version(page(s), sim.copies.get(s, []))
            if v is not None:
                self.copies.append(v)
        # The newest durable copy of every page, and whether recovery is bound to use it.
        self.page = {}
        self.sure = set()
        highest = max([v.last_lsn for v in self.inplace.values()], default=0)
        newest_tail = max(self.copies, key=lambda v: (v.last_end, v.serial), default=None)
        for p, v in self.inplace.items():
            self.page[p] = v
            self.sure.add(p)
        for v in sorted(self.copies, key=lambda v: (v.last_lsn, v.serial)):
            cur = self.page.get(v.pos)
            if cur is not None and (cur.last_lsn, len(cur.parts)) >= (v.last_lsn, len(v.parts)) and cur.cycle >= v.cycle:
                continue
            self.page[v.pos] = v
            if v.pos >= n:
                ok = False
            elif self.v2:
                ok = v.last_lsn >= highest
            else:
                ok = v is newest_tail and not any(w is not v and w.last_end == v.last_end and w.logical != v.logical for w in self.copies)
            (self.sure.add if ok else self.sure.discard)(v.pos)
        # Every durable copy, for what may be reported.
        self.any = {}
        for v in list(self.inplace.values()) + self.copies:
            self.any.setdefault(v.pos, []).append(v)

    def has(self, r, part):
        p, cyc = part
        v = self.page.get(p)
        return p in self.sure and v.cycle == cyc and r in v.parts

    def head(self, r):
        return self.has(r, r.parts[0])

    def whole(self, r):
        return r.complete and all(self.has(r, x) for x in r.parts)

    def durable(self, r):
        """Is every part of the record in some durable copy of its page?"""
        return all(any(v.cycle == c and r in v.parts for v in self.any.get(p, ())) for p, c in r.parts)

    def may(self, r):
        p, cyc = r.parts[0]
        # The second case: left in the unused part of a page reused for newer records.
        return any((v.cycle == cyc and r in v.parts) or v.logical[r.off:r.off + 8] == r.lsn.to_bytes(8, 'little') for v in self.any.get(p, ()))

    def must(self):
        """Records (in log order) a reader has to find: those the durable page headers and restart pages name, those which
        follow them without a gap, the earlier records of the same transactions these refer to, and those the client restart
        areas among them refer to."""
        recs = self.sim.records
        by = self.sim.by_lsn
        start = set()
        for p in self.sure:
            v = self.page[p]
            start.add(v.last_end)
            if self.v2 or not v.copy:
                start.add(v.last_lsn)
        for r in self.restarts:
            if r is not None:
                start |= set(r)
        found = set()
        for lsn in start:
            r = by.get(lsn)
            while r is not None and r.lsn not in found and self.head(r):
                found.add(r.lsn)
                r = recs[r.idx + 1] if r.idx + 1 < len(recs) else None
        def follow(lsn, field):
            r = by.get(getattr(by[lsn], field))
            while r is not None and r.lsn not in found and self.head(r):
                found.add(r.lsn)
                r = by.get(getattr(r, field))
        for field in ('prev', 'undo'):
            for lsn in sorted(found):
                follow(lsn, field)
        more = set()
        for lsn in sorted(found):
            r = by[lsn]
            if r.rtype == 2 and self.whole(r):
                more |= {r.info['start']} | set(r.info['tables'][:4])
        more = [x for x in sorted(more) if x in by and self.head(by[x])]
        found |= set(more)
        if len(more) == 1:      # what else is reached from several of them depends on the order, which is not promised
            r = by[more[0]]
            r = recs[r.idx + 1] if r.idx + 1 < len(recs) else None
            while r is not None and r.lsn not in found and self.head(r):
                found.add(r.lsn)
                r = recs[r.idx + 1] if r.idx + 1 < len(recs) else None
            follow(more[0], 'prev')
            follow(more[0], 'undo')
        return found


def check_listing(ctx, L, sim, model, out, lost_ok=False):
    """Compare the records reported by the code under test with the model."""
    lsns = [x.lsn for x in out]
    ctx.check(all(a < b for a, b in zip(lsns, lsns[1:])), 'lsn-order', lambda: 'log records not in strictly increasing LSN order: %r' % lsns[:20])
    got = set(lsns)
    for lsn in lsns:
        r = sim.by_lsn.get(lsn)
        ctx.check(r is not None, 'phantom-record', 'record with LSN %d was never written', lsn)
        ctx.check(model.may(r), 'phantom-record', 'record with LSN %d is not in the durable log', lsn)
    must = model.must()
    whole = {x for x in must if model.whole(sim.by_lsn[x])}
    miss = sorted(whole - got)
    ctx.check(not miss, 'record-lost', lambda: '%d durable records not reported: LSNs %r (page %d), reported %d' % (len(miss), miss[:6], sim.by_lsn[miss[0]].page, len(got)))
    oat = {}
    pair = pending = None
    client = None
    have_restart = any(sim.by_lsn[l].rtype == 2 and model.whole(sim.by_lsn[l]) for l in lsns)
    for x in out:
        r = sim.by_lsn[x.lsn]
        full = model.whole(r)
        ctx.evaluations += 1
        if r.client != client:
            client, oat, pair, pending = r.client, {}, {}, None      # every client has its own tables
        if r.rtype == 2:
            ctx.check(type(x) is L.NTFSRestartArea, 'record-type', 'LSN %d: restart area expected', r.lsn)
            if full:
                g = [x.get_major_version(), x.get_minor_version(), x.get_start_of_checkpoint_lsn(), x.get_open_attribute_table_lsn(), x.get_attribute_names_lsn(), x.get_dirty_page_table_lsn(), x.get_transaction_table_lsn(),
                     x.get_open_attribute_table_length(), x.get_attribute_names_length(), x.get_dirty_page_table_length(), x.get_transaction_table_length(),
                     x.get_usn_journal_restart_offset(), x.get_last_lsn(), x.get_bytes_per_cluster(), x.get_usn_journal_reference(), x.get_usn_base(), x.get_oldest_lsn()]
                w = [sim.cfg['major'], sim.cfg.get('minor', 0), r.info['start']] + list(r.info['tables']) + list(r.info['more'])
                ctx.check(g == w, 'restart-area', lambda: 'LSN %d: fields of the restart area %r, expected %r' % (r.lsn, g, w))
            continue
        ctx.check(type(x) is L.NTFSLogRecord, 'record-type', 'LSN %d: log record expected', r.lsn)
        i = r.info
        try:
            redo, undo = bytes(x.get_redo_data()), bytes(x.get_undo_data())
            lcns = x.get_lcns_for_page()
        except L.ClientException:
            ctx.check(not full, 'payload', 'LSN %d: payload refused', r.lsn)
            continue
        ctx.check(x.transaction_id == r.txn, 'record-field', 'LSN %d: transaction', r.lsn)
        head = (x.get_redo_operation(), x.get_undo_operation(), x.get_target_attribute(), x.get_target_vcn(), x.get_cluster_block_offset(), x.get_record_offset(),
                x.get_attribute_offset(), x.get_target_block_size(), x.get_redo_length(), x.get_undo_length())
        want = (i['redo_op'], i['undo_op'], i['target'], i['vcn'], i['blk'], i['rec_off'], i['attr_off'], i['tbs'], len(i['redo']), len(i['undo']))
        ctx.check(head == want, 'record-field', lambda: 'LSN %d: header %r, expected %r' % (r.lsn, head, want))
        if full:
            ctx.check(redo == i['redo'] and undo == i['undo'] and lcns == i['lcns'], 'payload', lambda: 'LSN %d (pages %r): payload differs: redo %s undo %s lcns %s' % (
                r.lsn, r.parts, redo == i['redo'], undo == i['undo'], lcns == i['lcns']))
        else:
            ctx.probe('partial-record')
            ctx.check(i['redo'].startswith(redo) and i['undo'].startswith(undo) and i['lcns'][:len(lcns)] == lcns, 'foreign-payload',
                      lambda: 'LSN %d (pages %r): the payload holds bytes of something else' % (r.lsn, r.parts))
        if i['redo_op'] == OPEN_ATTR and full and 'entry' in i:
            e = (L.OpenAttributeEntry1 if sim.cfg['major'] else L.OpenAttributeEntry0)(x.get_redo_data())
            g = (e.get_attribute_type_code(), e.get_bytes_per_index_buffer(), e.get_lsn_of_open_record(), e.get_allocated_or_next_free(), e.get_file_reference())
            ctx.check(g == i['entry'] + (0xFFFFFFFF, i['open'][0]), 'open-attribute', lambda: 'LSN %d: %r, expected %r' % (r.lsn, g, i['entry']))
        if i['redo_op'] == OPEN_ATTR and full:
            oat[i['target']] = i['open']
        elif i['redo_op'] == OPEN_ATTR:
            oat = None
        elif i['redo_op'] == OAT_DUMP:
            pending = i['table'] if full else False
        elif i['redo_op'] == AN_DUMP:
            # The names belong to the table dumped before them.
            pair = None if pending is False or not full else {} if pending is None else pending if pending is i['table'] else None
            pending = None
        if oat is None:
            break
        if i['redo_op'] in RES_OPS or i['undo_op'] in RES_OPS:
            if have_restart or sim.cfg['cluster'] == 4096:
                frs = i['tbs'] * 512 or 1024
                num = (i['vcn'] * sim.cfg['cluster'] + i['blk'] * 512) // frs
                ctx.check(x.calculate_mft_target_number() == num, 'target', lambda: 'LSN %d: target record %r, expected %r' % (r.lsn, x.calculate_mft_target_number(), num))
                ctx.check(x.calculate_offset_in_target() == i['attr_off'] + i['rec_off'], 'target', 'LSN %d: offset in target', r.lsn)
        elif i['redo_op'] in NONRES_OPS or i['undo_op'] in NONRES_OPS:
            if not (have_restart or sim.cfg['major'] == 1):
                continue
            t = x.calculate_mft_target_reference_and_name()
            if i['target'] in oat:
                ctx.check(t == oat[i['target']], 'target', lambda: 'LSN %d: target %r, expected %r' % (r.lsn, t, oat[i['target']]))
                ctx.probe('oat-resolved')
            elif sim.cfg['major'] >= 2:
                ctx.check(t is None, 'target', lambda: 'LSN %d: target %r, none known' % (r.lsn, t))
            elif pair is not None:
                # The latest complete pair of dumps before this record.
                if i['target'] in pair:
                    ctx.check(t == pair[i['target']], 'target', lambda: 'LSN %d: target %r, expected %r (from the dumps)' % (r.lsn, t, pair[i['target']]))
                    ctx.probe('dump-resolved')
                    if pending:
                        ctx.probe('between-dumps')
                elif not pair:
                    ctx.check(t is None, 'target', lambda: 'LSN %d: target %r, none known' % (r.lsn, t))
            if have_restart or sim.cfg['cluster'] == 4096:
                off = i['vcn'] * sim.cfg['cluster'] + i['blk'] * 512 + i['attr_off'] + i['rec_off']
                ctx.check(x.calculate_offset_in_target() == off, 'target', 'LSN %d: offset in target', r.lsn)
    return got, must


def check_structures(ctx, L, sim, model, image):
    """Every durable restart page and log page, field by field."""
    for s in (0, 1):
        raw = bytes(image[s * PAGE:(s + 1) * PAGE])
        w = sim.restart_info.get(raw)
        if w is None:
            continue
        p = L.RestartPage(raw)
        a = p.get_restart_area()
        g = (p.get_chkdsk_lsn(), p.get_system_page_size(), p.get_log_page_size(), p.get_restart_offset(), p.get_major_version(), p.get_minor_version())
        ctx.check(g == w['page'], 'restart-page', lambda: 'restart page %d: %r, expected %r' % (s, g, w['page']))
        h = (a.get_current_lsn(), a.get_log_clients(), a.get_client_free_list(), a.get_client_in_use_list(), a.get_flags(), a.get_sequence_number_bits(), a.get_restart_area_length(), a.get_client_array_offset(),
             a.get_file_size(), a.get_last_lsn_data_length(), a.get_record_header_length(), a.get_log_page_data_offset(), a.get_revision_number())
        ctx.check(h == w['area'], 'restart-page', lambda: 'restart area %d: %r, expected %r' % (s, h, w['area']))
        c = [(x.get_oldest_lsn(), x.get_client_restart_lsn(), x.get_prev_client(), x.get_next_client(), x.get_sequence_number(), x.get_client_name_length(), x.get_client_name()) for x in a.clients()]
        ctx.check(c == [w['client']], 'restart-page', lambda: 'clients of restart area %d: %r, expected %r' % (s, c, w['client']))
    for v in list(model.inplace.values()) + model.copies:
        p = L.LogRecordPage(v.raw, v.pos, sim.data)
        g = (p.get_flags(), p.get_page_count(), p.get_page_position(), p.get_next_record_offset(), p.get_last_end_lsn())
        ctx.check(g == v.head, 'log-page', lambda: 'page %d: %r, expected %r' % (v.pos, g, v.head))
        if v.target is None:
            ctx.check(p.get_last_lsn() == v.last_lsn, 'log-page', lambda: 'page %d: last LSN' % v.pos)
        else:
            ctx.check((p.get_file_offset_2x() if sim.v2 else p.get_file_offset_11()) == v.target, 'log-page', lambda: 'page %d: target of the copy' % v.pos)
        for r in v.parts:
            if r.parts[0] == (v.pos, v.cycle):
                h = p.get_log_record_at_offset(r.off, sim.hdr)
                g2 = (h.get_this_lsn(), h.get_client_previous_lsn(), h.get_client_undo_next_lsn(), h.get_client_data_length(), h.get_client_id(), h.get_record_type(), h.get_transaction_id(), h.get_flags())
                w2 = (r.lsn, r.prev, r.undo, len(r.payload), r.client, r.rtype, r.txn, 1 if len(r.payload) > PAGE - r.off - sim.hdr else 0)
                ctx.check(g2 == w2, 'log-page', lambda: 'record header %d: %r, expected %r' % (r.lsn, g2, w2))
