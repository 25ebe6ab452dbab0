NOTE = 'Seeded exploration: every violation comes with a minimised replay; a quiet run is evidence over the explored histories, crash points and faults, not proof. '
prop('C01', 'File stream reads return the stream\'s own bytes or an error',
     'Reading a file\'s data stream through its data runs returns exactly the bytes the volume stores for that stream at that position (sparse ranges as zeros, fragments in '
     'order, wherever the volume starts, the runs merged from all records describing the stream), never a byte past the recorded size, for every sequence of seek, tell and read '
     'calls on any number of streams sharing one volume object. When the volume is truncated or a read fails, the call raises an error instead of returning wrong or missing bytes, '
     'and reads work again as soon as the volume does. A stream of which a describing record is lost is refused, or fails where its data is no longer described.',
     ['inputs', 'histories', 'fault_sequences'], 'every layout of runs, every sequence of seek/tell/read on several handles, every placement of read errors, bad sectors, short reads and early ends',
     'The tests read a handful of fixed volumes front to back; they never mix seeks, sizes past the end, several handles and failing media.',
     ['dfir_ntfs/MFT.py'], [('FragmentedFile.read / seek / read_virtual_cluster', 'dfir_ntfs/MFT.py'), ('FileRecord.get_data_runs, get_data_size, attributes(merge)', 'dfir_ntfs/MFT.py'), ('DecodeMappingPairs', 'dfir_ntfs/MFT.py')],
     ['FragmentedFile.read', 'FileRecord.get_data_runs'], note=NOTE + 'Assumes calls on one stream are not preempted half-way.')
prop('C02', 'A torn file record is never reported as a good one; an intact one is exact',
     'A file record left half-written by a crash (sectors of different versions, stale, misdirected or damaged sectors) is rejected when any sector of its used part is affected, and is never '
     'reported with attributes of mixed versions. A record whose used part was written completely is reported exactly as written: number, sequence number, flags, base reference, log sequence number, '
     'every attribute in order with its name, value or data runs, its decoded names and timestamps, and its slack.',
     ['crash_points', 'histories', 'fault_sequences'], 'every history of updates of a record, every subset of sectors surviving a crash, every damaged sector',
     'The tests parse intact sample records; no test has a record torn at a sector boundary or a mix of versions.',
     ['dfir_ntfs/MFT.py', 'dfir_ntfs/Attributes.py'], [('FileRecordSegment.apply_update_sequence_array, validate_file_record_segment_header', 'dfir_ntfs/MFT.py'), ('FileRecordSegment.attributes', 'dfir_ntfs/MFT.py')],
     ['FileRecordSegment', 'FileRecordSegment.attributes', 'FileRecordSegment.get_slack'], note=NOTE + 'Assumes 512-byte sectors are written atomically and update sequence numbers differ between consecutive versions.')
prop('C03', 'Enumerating the $MFT reports every usable file record exactly once',
     'Enumerating a master file table reports every readable base record exactly once, in table order, together with exactly the child records that belong to that incarnation of the file '
     '(also for deleted files; never those of an earlier or later user of the record). Records that are torn, zeroed, overwritten or corrupt inside, a truncated file, or child records without a base hide no other record, '
     'and a read error is raised to the caller rather than turned into a shorter listing.',
     ['crash_points', 'histories', 'fault_sequences'], 'every history of creations, growth over several records, deletions and reuse, every crash and damage, every truncation or read error',
     'The tests enumerate a few healthy $MFT files and one with slack; no test has crash damage, record reuse at sequence number wrap-around, truncation or I/O errors.',
     ['dfir_ntfs/MFT.py'], [('MasterFileTableParser.execute_first_pass, file_records', 'dfir_ntfs/MFT.py'), ('sequence number rules for unused records', 'dfir_ntfs/MFT.py')],
     ['MasterFileTableParser.file_records'], note=NOTE + 'A child record not in use while its base is in use may or may not be attached.')
prop('C04', 'Paths and lookups resolve to the right incarnation of a file',
     'For any history of creations, renames, hard links, deletions and record reuse, the full paths reported for a file are exactly those given by its names and the directories they refer to at that sequence number, '
     'with an orphan marker where a parent is gone, reused, damaged, not a directory or part of a loop, and a long name first when there is one. Looking a file up by reference returns that incarnation or fails '
     '(a child record\'s number leads to its base record), and looking up a path finds the file in use at that path through any of its names and nothing otherwise, whatever happens to unrelated records.',
     ['histories', 'crash_points', 'fault_sequences'], 'every history and crash point, every reference and path queried, every damage to other records',
     'The tests compare paths for a few static $MFT files; none covers reuse, wrap-around of sequence numbers, cross-linked directories or damaged ancestors.',
     ['dfir_ntfs/MFT.py'], [('MasterFileTableParser.build_full_paths', 'dfir_ntfs/MFT.py'), ('MasterFileTableParser.get_file_record_by_number', 'dfir_ntfs/MFT.py'), ('MasterFileTableParser.get_file_record_by_path', 'dfir_ntfs/MFT.py')],
     ['build_full_paths', 'get_file_record_by_number', 'get_file_record_by_path'], note=NOTE + 'Assumes the root record survives; lookups by path through a deleted directory are unspecified.')
prop('C05', 'Flushed $LogFile records survive a crash, in order and unaltered',
     'After a crash at any point, parsing the $LogFile reports every log record that was flushed and not overwritten and can be located from the durable page headers and restart pages, exactly once and in increasing LSN order, '
     'with its operations, target, transaction and redo/undo data exactly as written, across page boundaries, wrap-around of the circular area and any number of cycles. Pages torn in place are taken from their tail copy (1.1) or fast copy (2.x), '
     'and an outdated copy never replaces newer records. No record that was never written, and no payload bytes of another record, are reported; targets of nonresident updates resolve to the attribute opened at that index at that time.',
     ['crash_points', 'histories'], 'every sequence of log records, checkpoints and flushes, every crash point and every surviving subset of the unflushed sectors, both log layouts',
     'The tests parse four captured logs, none of which wraps inside the captured part or was cut off in the middle of a write.',
     ['dfir_ntfs/LogFile.py'], [('LogFileParser.collect_lsns, find_next_lsn', 'dfir_ntfs/LogFile.py'), ('apply_tail_page, apply_fast_pages', 'dfir_ntfs/LogFile.py'), ('get_client_data', 'dfir_ntfs/LogFile.py'), ('parse_ntfs_records (open attribute table)', 'dfir_ntfs/LogFile.py')],
     ['LogFileParser.parse_ntfs_records', 'NTFSLogRecord getters'], note=NOTE + 'The log file service is a model: rewritten pages go through a tail or fast copy behind a barrier; in-place writes of fast pages are ordered.')
prop('C06', 'Damage to a $LogFile is contained and read errors are not hidden',
     'Damaged, zeroed, misdirected or internally corrupt log pages, one damaged restart page or a truncated file never make the parse of a $LogFile fail or run without end, never produce records that were not written, duplicate records or payload of other records, '
     'and never hide records that can still be located in intact pages. A log without a usable restart page is refused, and a read error is raised to the caller; a later parse with the same object then gives the full result.',
     ['fault_sequences', 'crash_points', 'histories'], 'every log history, every combination of damaged pages, truncation points and read errors',
     'The tests contain only undamaged logs and one empty log.',
     ['dfir_ntfs/LogFile.py'], [('RestartPage, LogRecordPage, UnprotectSectors', 'dfir_ntfs/LogFile.py'), ('LogFileParser.__init__ (restart page fallback)', 'dfir_ntfs/LogFile.py'), ('collect_lsns, get_client_data', 'dfir_ntfs/LogFile.py')],
     ['LogFileParser', 'LogFileParser.parse_ntfs_records'], note=NOTE)
prop('C07', 'Change journal enumeration reports every intact record, exactly, in order',
     'Enumerating a $UsnJrnl:$J stream reports every intact record (versions 2, 3 and 4) exactly once, in journal order, with its reference numbers, USN, reason, source, time, name or extents exactly as written, whatever lies before, between or after the records: '
     'deallocated (sparse) ranges, page padding, records lost or torn by a crash, overwritten sectors, headers with an invalid length or an unknown version. Damage costs only the records it touches. '
     'A read error is raised to the caller, a file that is or becomes shorter only loses what was cut, and the enumeration always ends; two enumerations over one parser do not disturb each other.',
     ['histories', 'crash_points', 'fault_sequences'], 'every sequence of records, trims and flushes, every crash point and surviving subset of sectors, every damage and read fault, every interleaving of two enumerations',
     'The tests enumerate one healthy journal.',
     ['dfir_ntfs/USN.py'], [('ChangeJournalParser.usn_records', 'dfir_ntfs/USN.py'), ('GetUsnRecord, USN_RECORD_V2_OR_V3, USN_RECORD_V4', 'dfir_ntfs/USN.py')],
     ['ChangeJournalParser.usn_records', 'record getters'], note=NOTE + 'Bytes of a damaged area that happen to form a record may be reported.')
prop('C08', 'A shadow copy reads as the volume was when the snapshot was taken',
     'Reading a selected shadow copy (with any sequence of seek, tell and read, through any number of parsers sharing the volume) returns for every block in use when that snapshot was taken exactly its bytes at that time, '
     'whatever was written, moved, freed or snapshotted later, whichever older snapshots were deleted and wherever the power failed in between; data written to a snapshot itself is visible in that snapshot only; blocks not in use read as zeros when the store says so. '
     'Never a byte past the end of the volume is returned. The list of shadow copies is exact; damaged store metadata or a read error is reported instead of returning other data, chains that form a loop end, and a failed selection never leaves a mix of two shadow copies. '
     'A volume without shadow copies, of an unsupported kind or needing the other parser is told apart by its own error, and a shadow copy listed incompletely or twice is not selected.',
     ['histories', 'crash_points', 'fault_sequences', 'schedules'], 'every history of block writes, moves, snapshots, deletions and overlays, every crash point inside the driver\'s updates, every read sequence, damaged block and read fault',
     'The tests hash a few fixed images with one to three shadow copies, front to back, without faults, partial reads, block moves in chains or damage.',
     ['dfir_ntfs/ShadowCopy.py'], [('ShadowParser.select_shadow, shadows', 'dfir_ntfs/ShadowCopy.py'), ('ShadowParser.translate_exact_offset, read_diff_area, check_bitmap', 'dfir_ntfs/ShadowCopy.py'), ('ShadowParser.read / seek', 'dfir_ntfs/ShadowCopy.py')],
     ['ShadowParser.select_shadow', 'ShadowParser.read', 'ShadowParser.shadows'], note=NOTE + 'The driver is a model of the documented store format; moving a block back to where it came from is not modelled.')
prop('C09', 'A shadow copy kept on another volume reads as the original volume was',
     'The guarantees of C08 hold when the snapshots of a volume are kept on a second volume: unchanged blocks come from the original volume and preserved ones from the storage volume, each at its own offset, also when that volume stores other volumes\' snapshots '
     'and when a crash hits the two volumes at different points of an update.',
     ['histories', 'crash_points', 'fault_sequences', 'schedules'], 'every history on two volumes, every crash point, every read sequence, damaged block and read fault on either volume',
     'The tests hash one fixed pair of images front to back.',
     ['dfir_ntfs/ShadowCopy.py'], [('ShadowParserTwoVolumes', 'dfir_ntfs/ShadowCopy.py')], ['ShadowParserTwoVolumes.select_shadow', 'ShadowParserTwoVolumes.read'],
     note=NOTE + 'Same driver model as C08.')
prop('C10', 'A mounted shadow copy is a read-only file holding exactly the snapshot',
     'vsc_mount shows one file whose size is the size of the snapshot and whose content, for every read request at any offset and of any length and in any order from any number of clients, is exactly that of the shadow copy, never shorter except at the end. '
     'Every request that would modify something is refused and nothing is ever written to the image. A media error fails the request it hits with an I/O error and nothing else: the mount stays, and later requests are answered. '
     'With --mount-altfill, what is unused or read in place is shown as a fill pattern instead. An unknown shadow copy, a missing image or a missing mount point is not mounted and the exit status tells; when the mount ends, also by an error, it is unmounted and the image is closed. The listing shows every shadow copy once with its time, and a lost catalogue ends it with an error instead of an empty list.',
     ['histories', 'schedules', 'fault_sequences'], 'every sequence and interleaving of requests, every volume history, every placement of read errors',
     'The tests do not run vsc_mount at all.',
     ['vsc_mount', 'dfir_ntfs/ShadowCopy.py'], [('VSCFS, VSCFS2', 'vsc_mount'), ('--list, --mount, --mount-two, --mount-altfill', 'vsc_mount')], ['vsc_mount command line', 'FUSE requests'],
     note=NOTE + 'The FUSE library and kernel are a stub; requests are served one at a time.')
prop('C11', 'A FAT12/16/32 volume is listed completely, exactly and safely after a crash',
     'Listing a FAT12, FAT16 or FAT32 volume reports every file and directory in use exactly once with its short and long name, path, attributes, timestamps, size and first cluster exactly as written; deleted entries, including those in deleted and orphan directories, '
     'are reported as deleted and their content is never taken from a directory in use. This holds for every geometry and history, and after a crash for everything whose entries and chains survived. Loops, cross-links, bad chains, damaged entries or long names and a truncated image '
     'cost only what they touch: the listing ends, reports the rest, and raises read errors to the caller.',
     ['histories', 'crash_points', 'fault_sequences', 'schedules'], 'every history of creations, growth, renames, deletions and reuse, every crash point, every damaged table element or directory sector, every read fault, two listings interleaved',
     'The tests list a few small healthy images; none has crash damage, loops, cross-linked directories or faulty media.',
     ['dfir_ntfs/addons/FAT.py'], [('DirectoryEntries.entries', 'dfir_ntfs/addons/FAT.py'), ('FileSystemParser.walk', 'dfir_ntfs/addons/FAT.py'), ('FAT.chain, FAT.get_element', 'dfir_ntfs/addons/FAT.py'), ('BSBPB', 'dfir_ntfs/addons/FAT.py')],
     ['FAT.FileSystemParser.walk'], note=NOTE + 'The FAT driver is a model; the boot sector is intact.')
prop('C12', 'An exFAT volume is listed completely, exactly and safely after a crash',
     'Listing an exFAT volume reports every file and directory in use exactly once with its name, path, attributes, timestamps with time zones, sizes, first cluster and allocation mode exactly as written, and deleted entry sets and orphan directories as such. '
     'When the main boot region is damaged the backup region is used, and a volume with neither is refused. This holds for every geometry and history and, after a crash, for everything whose entry sets and chains survived. '
     'Damaged entry sets, chains, allocation bitmap or a truncated image cost only what they touch: the listing ends, reports the rest, and raises read errors to the caller.',
     ['histories', 'crash_points', 'fault_sequences', 'schedules'], 'every history, every crash point, every damaged boot region, bitmap, table element or entry set, every read fault, two listings interleaved',
     'The tests list two small healthy images; none has crash damage, a damaged boot region or faulty media.',
     ['dfir_ntfs/addons/exFAT.py'], [('BR (boot regions and checksum)', 'dfir_ntfs/addons/exFAT.py'), ('DirectoryEntries', 'dfir_ntfs/addons/exFAT.py'), ('FileSystemParser.walk', 'dfir_ntfs/addons/exFAT.py'), ('Bitmap, FAT.chain', 'dfir_ntfs/addons/exFAT.py')],
     ['exFAT.FileSystemParser.walk'], note=NOTE + 'The exFAT driver is a model; the order of orphan directories is free.')
prop('C13', 'File content read from FAT and exFAT volumes is the chain\'s own bytes',
     'Reading a file by its first cluster on a FAT12/16/32 or exFAT volume returns exactly the bytes of its cluster chain (or of its contiguous clusters), in order and cut to the requested size, for every geometry, fragmentation and history and for any number of interleaved readers. '
     'A chain ends where it loops or leads to a free cluster, a bad cluster reads as zeros, clusters outside the volume are never read, and truncated or failing media raise an error instead of giving other or fewer bytes. The free or used state of a cluster is reported as recorded.',
     ['histories', 'crash_points', 'fault_sequences', 'schedules'], 'every history of fragmentation and reuse, every crash point, every damaged chain, every sequence and interleaving of reads, every read fault',
     'The tests read a few small files from healthy images.',
     ['dfir_ntfs/addons/FAT.py', 'dfir_ntfs/addons/exFAT.py'], [('FileSystemParser.read_chain', 'dfir_ntfs/addons/FAT.py'), ('FAT.chain', 'dfir_ntfs/addons/FAT.py'), ('FileSystemParser.read_chain', 'dfir_ntfs/addons/exFAT.py'), ('FAT.chain, Bitmap', 'dfir_ntfs/addons/exFAT.py')],
     ['FileSystemParser.read_chain', 'FAT.chain'], note=NOTE)
prop('C14', 'A GUID partition table is read as one complete version or refused',
     'Reading a GUID partition table gives exactly one version of the table as it was written: its header fields and every used entry, in order, with type, identifier, range, attributes and name. The primary copy is used when it is valid, otherwise the backup recorded by the primary header '
     '(also when the disk was enlarged), otherwise the one in the last sector. A header that is torn, misdirected, has a wrong checksum or an invalid field, or whose entry array does not match it, is never used, versions are never mixed, and when no copy is valid the table is refused with an error. '
     'A read error is raised or answered from another valid copy.',
     ['histories', 'crash_points', 'fault_sequences', 'schedules'], 'every history of table updates and write orders, every crash point, every damaged or misdirected sector, every sequence of calls, every read fault',
     'The tests read two fixed tables and a few with one overwritten field; none has a crash between the copies, an enlarged disk or faulty media.',
     ['dfir_ntfs/PartitionTable.py'], [('GPT.read_gpt_header, read_gpt_header_internal', 'dfir_ntfs/PartitionTable.py'), ('GPT.read_gpt_partitions', 'dfir_ntfs/PartitionTable.py')], ['GPT.read_gpt_header', 'GPT.read_gpt_partitions'], note=NOTE)
prop('C15', 'Primary and logical partitions of an MBR disk are all found, loops end',
     'Reading a DOS partition table gives every used primary entry and, following the chain of extended boot records of every extended partition, every logical partition exactly once, in chain order, with its absolute start and size, for any sector size and history of changes. '
     'A record that is missing, damaged or outside the disk ends only its own chain, links forming a loop end, a read error is raised to the caller, and nothing that is not recorded is reported.',
     ['histories', 'crash_points', 'fault_sequences', 'schedules'], 'every history of additions, deletions and resizes, every crash point, every damaged record or link, every sequence of calls, every read fault',
     'The tests read seven fixed disks; one has a loop, none a damaged chain, several extended partitions or faulty media.',
     ['dfir_ntfs/PartitionTable.py'], [('MBR.read_mbr, read_mbr_partitions', 'dfir_ntfs/PartitionTable.py'), ('MBR.read_ebr_partitions', 'dfir_ntfs/PartitionTable.py')], ['MBR.read_mbr_partitions', 'MBR.read_ebr_partitions'], note=NOTE)
prop('C16', 'Every move recorded in a MoveTable is reported exactly and in file order',
     'Enumerating a MoveTable (tracking.log) of either sector size reports every move notification the file holds exactly once, in file order, with its indices, object identifiers, machine, time range and identifier times exactly as recorded, and no unused entry, for every history of moves, '
     'wrap-around, extension and clearing and after a crash at any point. The header and the sector footers are reported as recorded, a header without its signature is refused, a truncated file loses only what was cut, and a read error is raised. '
     'An entry of an unknown type is never reported as a move and hides no entry before it and no other sector.',
     ['histories', 'crash_points', 'fault_sequences', 'schedules'], 'every history, crash point, damaged sector or entry, two enumerations interleaved, every read fault',
     'The tests read three fixed files.',
     ['dfir_ntfs/MoveTable.py'], [('MoveTableParser.log_sectors, log_entries', 'dfir_ntfs/MoveTable.py'), ('LogSector, LogEntry, Header', 'dfir_ntfs/MoveTable.py')], ['MoveTableParser.log_entries', 'MoveTableParser.log_sectors', 'MoveTableParser.get_header'],
     note=NOTE + 'The service is a model of the known parts of the format.')
prop('C17', 'Directory index buffers are exact or skipped; deleted names in slack are found',
     'Enumerating a directory index ($I30) reports, for every index buffer whose sectors belong to one write, exactly its entries (reference, name, times, sizes, subnode) in order, its header and its slack, and never a buffer torn by a crash or mixed from several versions. '
     'A damaged buffer, wherever it is (the first one included while the buffer size can be told), hides no other; a corrupt header or entry inside a buffer neither fails the enumeration nor affects the entries before it. '
     'Carving the slack finds every deleted name left there completely, as often as it is there (also when only its parent reference was overwritten at the start of the slack), on request the readable rest of a name cut before it, and reports nothing that is not there. Read errors and truncated volumes are raised to the caller.',
     ['histories', 'crash_points', 'fault_sequences', 'schedules'], 'every history of insertions, removals, updates and splits, every crash point and surviving subset of sectors, every damaged buffer or entry, two enumerations interleaved, every read fault',
     'The tests parse the indexes of two healthy volumes and one slack sample.',
     ['dfir_ntfs/Attributes.py', 'dfir_ntfs/MFT.py'], [('IndexAllocation, VerifyAndUnprotectIndexSectors', 'dfir_ntfs/Attributes.py'), ('IndexBuffer.index_entries, get_slack, IndexRoot.index_entries', 'dfir_ntfs/Attributes.py'), ('SlackSpace.carve', 'dfir_ntfs/MFT.py')],
     ['IndexAllocation.index_buffers', 'IndexAllocation.get_slack', 'SlackSpace.carve'], note=NOTE)
prop('C18', 'Opening a volume finds exactly its $MFT, however fragmented, or is refused',
     'Opening an NTFS volume at any offset of an image gives a stream that is exactly the volume\'s $MFT: every byte at every position, whatever the sector, cluster and record size, however many runs the $MFT has, and also when its mapping continues in other records named by a resident or nonresident attribute list. '
     'This holds for every history of growth and after a crash at any point of it. A damaged boot sector, first record, attribute list or continuation record makes the volume refused with a declared error and never gives a stream with wrong content. Read errors and truncated images are raised to the caller.',
     ['histories', 'crash_points', 'fault_sequences'], 'every geometry and history of growth, every crash point and surviving subset of writes, every damaged structure on the way to the $MFT, every read fault',
     'The tests open a handful of healthy volumes; one has a fragmented $MFT and none is damaged, truncated or on faulty media.',
     ['dfir_ntfs/MFT.py', 'dfir_ntfs/BootSector.py', 'dfir_ntfs/Attributes.py'], [('FileSystemParser, FragmentedFile', 'dfir_ntfs/MFT.py'), ('FileRecord.get_data_runs', 'dfir_ntfs/MFT.py'), ('BootSector', 'dfir_ntfs/BootSector.py'), ('AttributeList', 'dfir_ntfs/Attributes.py')],
     ['MFT.FileSystemParser'], note=NOTE + 'A damaged $Volume record may refuse an $MFT whose mapping needs an attribute list.')
prop('C19', 'ntfs_parser tables list every record exactly, or the run fails visibly',
     'The tables written by ntfs_parser (--mft, --usn, --indx, --all-mft) hold exactly one set of rows for every usable file record, change journal record, directory index entry, complete or partial name in slack and shadow copy, with every column as recorded (references, paths, times, sizes, flags, WSL times), and nothing else. '
     'A record that is corrupt inside may be left out, but it hides no other row and changes no other column. When the source cannot be read or the output cannot be written completely, the program ends with an error status, and what was written is the beginning of the complete table. The source is never opened for writing.',
     ['histories', 'crash_points', 'fault_sequences'], 'every history of the file system, journal and shadow copies, every crash point, every damaged record or value, every read error, every point at which the output disk is full or writes are short',
     'The tests do not run the scripts at all.',
     ['ntfs_parser', 'dfir_ntfs/MFT.py', 'dfir_ntfs/USN.py', 'dfir_ntfs/WSL.py'], [('process_mft, process_usn, process_indx, process_all_mft', 'ntfs_parser'), ('MasterFileTableParser.build_full_paths', 'dfir_ntfs/MFT.py'), ('USN_RECORD_V2_OR_V3', 'dfir_ntfs/USN.py'), ('DecodeUnixtime, LXXATTR, LXATTRB', 'dfir_ntfs/WSL.py')],
     ['ntfs_parser command line', 'the CSV file it writes'], note=NOTE)
prop('C20', 'ntfs_parser reports of logs and moves say what was recorded, or fail visibly',
     'The text reports written by ntfs_parser (--log for a $LogFile with its $MFT, --move for a MoveTable) hold one block for every log record, restart area and move that can be recovered, in order, each saying what was recorded: '
     'LSN, transaction, operations, target (number, reference, attribute name, path), offset, LCNs, redo and undo data, the decoded attributes, names, index entries and journal records in them, and the list of deleted files in the order of their deletion. '
     'A record, table dump or value that is corrupt inside hides no other block and changes none. When a source cannot be read or the output cannot be written completely, the program ends with an error status, and what was written is the beginning of the complete report. '
     'A MoveTable with an entry of an unknown type may end the report there with an error.',
     ['histories', 'crash_points', 'fault_sequences'], 'every history of logged operations and moves, every crash point of the log, every corrupt record or value, every read error, every point at which the output disk is full or writes are short',
     'The tests do not run the scripts at all.',
     ['ntfs_parser', 'dfir_ntfs/LogFile.py', 'dfir_ntfs/MoveTable.py', 'dfir_ntfs/Attributes.py'], [('process_log, process_movetable', 'ntfs_parser'), ('NTFSLogRecord.calculate_mft_target_number, calculate_mft_target_reference_and_name, calculate_offset_in_target', 'dfir_ntfs/LogFile.py'), ('LogFileParser.parse_ntfs_records', 'dfir_ntfs/LogFile.py')],
     ['ntfs_parser command line', 'the report it writes'], note=NOTE)
prop('C21', 'fat_parser lists a FAT or exFAT volume exactly, or the run fails visibly',
     'The table written by fat_parser for a FAT12, FAT16, FAT32 or exFAT volume at any offset of an image holds exactly one row for every entry, deleted entry, partial name and volume label of the volume, in order of the directories, with every column as recorded '
     '(state, kind, full path, times and time zones, size, encryption, raw short name), after every history of use, a crash at any point and any damage to the allocation table and directories. A volume that cannot be listed (no usable boot region, allocation table, bitmap or root directory) '
     'ends the program with an error status. When the image cannot be read or the output cannot be written completely, the program ends with an error status too, and what was written is the beginning of the complete table. The image is never opened for writing.',
     ['histories', 'crash_points', 'fault_sequences'], 'every geometry, history, crash point and damage, every truncation or read error, every point at which the output disk is full or writes are short',
     'The tests do not run the scripts at all.',
     ['fat_parser', 'dfir_ntfs/addons/FAT.py', 'dfir_ntfs/addons/exFAT.py'], [('the listing loops, format_timestamp, format_tz', 'fat_parser'), ('FileSystemParser.walk', 'dfir_ntfs/addons/FAT.py'), ('FileSystemParser.walk', 'dfir_ntfs/addons/exFAT.py')],
     ['fat_parser command line', 'the CSV file it writes'], note=NOTE)
prop('C22', 'Carving a memory image reports every file control block exactly, or refuses',
     'Carving a memory image reports every file control block lying completely within an acquired page exactly once, in the order of the image, with its file reference and its five timestamps exactly as recorded, for every layout of the structure in the supported versions, and nothing that is not one. '
     'An image with too few or inconclusive blocks is refused with an error instead of being read with a guessed layout. A read error is raised to the caller, a truncated image only loses what was cut, enumerating again or twice at the same time gives the same result, '
     'and when ntfs_parser --mem cannot read the image or cannot write its table completely, it ends with an error status and what was written is the beginning of the complete table.',
     ['histories', 'fault_sequences', 'schedules'], 'every population of structures in memory, every layout, every page lost or smeared during the acquisition, every read error, two enumerations interleaved, every point at which the output disk is full',
     'The tests carve one small fixed sample.',
     ['dfir_ntfs/MFT.py', 'ntfs_parser'], [('MetadataCarver.carve_fcb_timestamps', 'dfir_ntfs/MFT.py'), ('process_mem', 'ntfs_parser')], ['MetadataCarver.carve_fcb_timestamps', 'ntfs_parser --mem'], note=NOTE)
prop('C23', 'Attribute values decode to what was recorded, inside or outside of a record',
     'Every attribute of a file record, of every type, decodes to exactly the values recorded in it: header fields of the record, type, attribute name, standard information with all its fields, names, object identifiers with their times, volume name and information, index roots with their entries, reparse points, '
     'extended attributes and the WSL metadata in them, attribute lists, data runs and VCN ranges, also in the printed form; a nonresident attribute list is read from the volume as it is there. Damage inside of a value affects that value only: the entries before it are exact and the iteration ends. '
     'Damage to an attribute header never affects the attributes before it, and when the enumeration cannot go on it ends with a declared error. A sparse or truncated attribute list or a read error is raised to the caller.',
     ['histories', 'crash_points', 'fault_sequences'], 'every combination of attributes and values, every history of updates, every crash point and surviving subset of sectors, every damaged value or header, every read fault',
     'The tests decode attributes of a few healthy samples; most fields of most types are never looked at.',
     ['dfir_ntfs/Attributes.py', 'dfir_ntfs/MFT.py', 'dfir_ntfs/WSL.py'], [('the attribute classes', 'dfir_ntfs/Attributes.py'), ('AttributeRecordResident.value_decoded, AttributeRecordNonresident.value_decoded, DecodeMappingPairs', 'dfir_ntfs/MFT.py'), ('LXXATTR, LXATTRB', 'dfir_ntfs/WSL.py')],
     ['AttributeRecordResident.value_decoded', 'AttributeRecordNonresident.value_decoded'], note=NOTE)

prop('C24', 'Boot structures and the state of a volume are reported as recorded or refused',
     'For NTFS, FAT12, FAT16, FAT32 and exFAT volumes of any geometry, every value taken from the boot structures is exactly the recorded one: geometry, counts, locations, serial numbers, flags, the dirty, error and media bits of boot sector and allocation table, the file system information sector, OEM parameters and signatures. '
     'The type of a FAT volume and its number of clusters follow from the recorded geometry. A value or structure which is not valid is refused with a declared error, never replaced by a made-up value, and a valid one is never refused. An exFAT boot region is one version as it was written: one torn by a crash is refused, and with ordered writes one of the two regions is always usable.',
     ['histories', 'crash_points', 'fault_sequences'], 'every geometry, every history of mounts, errors and updates, every crash point and surviving subset of sectors, every damaged field (with a matching checksum or not), every truncation and read fault',
     'The tests parse the boot sectors of a few healthy images, with one sector size each.',
     ['dfir_ntfs/BootSector.py', 'dfir_ntfs/addons/FAT.py', 'dfir_ntfs/addons/exFAT.py'], [('BootSector', 'dfir_ntfs/BootSector.py'), ('BSBPB, FSINFO, GetCountOfClusters, IsFileSystem32, IsFileSystem16, IsFileSystem12, FAT', 'dfir_ntfs/addons/FAT.py'), ('BR, FAT', 'dfir_ntfs/addons/exFAT.py')],
     ['BootSector', 'BSBPB', 'FSINFO', 'FAT.is_volume_dirty', 'BR'], note=NOTE)
