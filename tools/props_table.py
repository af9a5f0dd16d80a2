W_IN = 'The tests decode a few sample images and records; they never vary the bytes, so nothing is said about the other inputs an analyst meets (damaged, truncated or hostile data). '

p('C01', 'Torn writes of file record segments are detected and undone exactly',
  'Reading a file record segment from raw bytes either fails cleanly or yields a segment in which every protected sector tail inside the used part matched the update sequence number and was replaced by its saved word, and in which no other byte differs from the raw bytes. A well-formed segment that is intact in its used part is never rejected.',
  ['inputs', 'fault_sequences'], 'every content of a segment of the supported sizes, including every torn-write pattern over its sectors',
  W_IN + 'Each sector may be torn independently, which is a space over all subsets and contents.', ['dfir_ntfs/MFT.py'],
  [('VerifyAndUnprotectSectors', 'dfir_ntfs/MFT.py'), ('FileRecordSegment.__init__', 'dfir_ntfs/MFT.py')])

p('C03', 'File record segment headers are decoded and bounds-checked',
  'For every byte string offered as a file record segment, either it is refused or each header field reported (signature state, log sequence number, sequence number, link count, flags and in-use state, sizes, base reference, base/child status, record number) equals its on-disk field, and the declared size, used size, first attribute and update sequence array lie inside the segment. Well-formed headers are accepted. File references pack and unpack record and sequence numbers losslessly.',
  ['inputs'], 'every header content and buffer length; every 64-bit reference', W_IN, ['dfir_ntfs/MFT.py'],
  [('FileRecordSegment', 'dfir_ntfs/MFT.py'), ('EncodeFileRecordSegmentReference, DecodeFileRecordSegmentReference', 'dfir_ntfs/MFT.py')])

p('C04', 'Attributes of a segment are enumerated completely and within bounds',
  'For every content of a file record segment, enumeration yields the attribute records in on-disk order up to the end marker, each with the type, name, value or VCN range and sizes stored on disk, and never reads a record, name, value or mapping pairs array from outside the used part or its own record. A record that is inconsistent is reported as an error and never as data; a well-formed one is never rejected. The slack space reported starts right after the end marker and reaches the end of the segment.',
  ['inputs'], 'every content of the used part, any attribute geometry', W_IN, ['dfir_ntfs/MFT.py'],
  [('FileRecordSegment.attributes', 'dfir_ntfs/MFT.py'), ('AttributeRecordResident, AttributeRecordNonresident', 'dfir_ntfs/MFT.py')])

p('C05', 'Mapping pairs decode to exactly the runs they encode',
  'Decoding the compressed run list of a nonresident attribute yields, in order, every run with its exact length and its absolute starting cluster (the signed sum of the deltas so far), with sparse runs marked as such and not disturbing the running position. Truncated or malformed lists are refused; everything well-formed is accepted.',
  ['inputs'], 'every run list encoding (field widths, signs, sparse runs, truncation) within the length bound', W_IN + 'Signed variable-width deltas have corner cases at every width.', ['dfir_ntfs/MFT.py'],
  [('DecodeMappingPairs', 'dfir_ntfs/MFT.py')])

p('C06', 'Reading a nonresident file returns exactly its bytes, never others',
  'The file-like view of a nonresident file behaves as the byte array of its declared size: a read at any position returns the bytes of the mapped clusters in order, zeros for sparse runs, never bytes beyond the end of the file, and advances the position by the number of bytes returned. Ranges that the runs or the volume cannot supply raise an error and never return data from elsewhere. Seeking follows the standard semantics for the three origins.',
  ['inputs', 'histories'], 'every run layout, file size, position, length and sequence of two reads within the bounds, for several cluster sizes', W_IN + 'Off-by-one errors appear only at cluster, run and end-of-file boundaries.', ['dfir_ntfs/MFT.py'],
  [('FragmentedFile', 'dfir_ntfs/MFT.py')])

p('C07', 'Data runs spread over several segments are joined into one stream',
  'For a file whose nonresident stream is described by several attribute records in the base and child segments, the runs reported for a type and name cover exactly the concatenation of the records ordered by VCN, taking no run from another stream; streams with a gap, an overlap or no beginning are refused, and complete ones are accepted. The size reported is that of the record that starts at VCN 0. Merged enumeration gives one attribute per stream and loses or repeats none.',
  ['inputs'], 'every order, VCN range and run layout of the attribute records within the bounds', W_IN + 'The order of records over segments is a permutation space.', ['dfir_ntfs/MFT.py'],
  [('FileRecord.get_data_runs, get_data_size', 'dfir_ntfs/MFT.py'), ('FileRecord.attributes', 'dfir_ntfs/MFT.py')])

p('C08', 'MFT lookup returns the right record with all and only its own segments',
  'Opening a master file table is refused unless its first segment and volume version are supported. Enumerating it yields every valid base segment once, in order, joined with exactly the child segments whose base reference names its number and sequence number; lookup by number or reference finds an existing record (following a child to its base when allowed), and never returns a stale, invalid or foreign one.',
  ['inputs', 'configurations'], 'every combination of base, child, invalid and stale segments in tables within the bound', W_IN, ['dfir_ntfs/MFT.py'],
  [('MasterFileTableParser', 'dfir_ntfs/MFT.py')])

p('C09', 'Full paths are built from the live parent chain and looked up consistently',
  'For every arrangement of parent references, each file name of a file yields one path (long and POSIX names first), built from the preferred names of the parent directories whose sequence numbers match up to the root, ending in the orphan marker where a parent is missing, reused, without a name or part of a loop, and building always terminates. Looking up a path returns a file that has that path (with case folding unless case-sensitive) or nothing, and finds every allocated file by each of its hard links.',
  ['inputs', 'configurations'], 'every parent graph (including cycles and stale references) and choice of names within the bound', W_IN + 'Loops and reused parents do not occur in the sample images.', ['dfir_ntfs/MFT.py'],
  [('MasterFileTableParser.build_full_paths', 'dfir_ntfs/MFT.py'), ('MasterFileTableParser.get_file_record_by_path', 'dfir_ntfs/MFT.py')])

p('C10', 'FILETIME and GUID timestamps decode to the right instant',
  'Every 64-bit timestamp decodes to the instant it denotes, to within one microsecond up to the year 2171 and within the rounding of a double after that, or to nothing (or, on request, an exception) when it lies outside the range of the date type. A representable timestamp is never dropped, and the two error modes agree on which timestamps are valid.',
  ['inputs'], 'every 64-bit value', 'The tests decode a handful of timestamps, and rounding goes wrong for isolated values only.', ['dfir_ntfs/Attributes.py'],
  [('DecodeFiletime, DecodeGUIDTime', 'dfir_ntfs/Attributes.py')])

p('C02', 'Torn index buffers and log pages are detected and undone exactly',
  'An index buffer or log page read from raw bytes is accepted only if every sector tail matches its update sequence number (or, for log pages, a recorded CRC-32 of the block matches), and then every protected word is restored and no other byte changes; an intact one is never rejected. Enumerating a directory allocation yields exactly its intact index buffers, in order, and nothing when the first one is damaged.',
  ['inputs', 'fault_sequences'], 'every content of a block and every torn-write pattern over its sectors', W_IN, ['dfir_ntfs/Attributes.py', 'dfir_ntfs/LogFile.py'],
  [('VerifyAndUnprotectIndexSectors, IndexAllocation', 'dfir_ntfs/Attributes.py'), ('UnprotectSectors', 'dfir_ntfs/LogFile.py')])

p('C11', 'Fixed-layout attribute values decode field by field',
  'Each value reported from a standard information, file name, object ID, volume information or extended attribute information attribute (timestamps, sizes, flags, identifiers, names) is the one stored at its place on disk, for every content. Fields that the stored value is too short to contain are reported as absent, also in the partial copies found in the journal, and are never made up from other bytes. File attribute flags resolve to exactly the names of the known flags that are set.',
  ['inputs'], 'every content and the stored lengths at which fields appear or vanish', W_IN, ['dfir_ntfs/Attributes.py'],
  [('StandardInformation, StandardInformationPartial, DuplicatedInformation, FileName, ObjectID, VolumeInformation', 'dfir_ntfs/Attributes.py'), ('ResolveFileAttributes', 'dfir_ntfs/Attributes.py')])

p('C12', 'Directory index entries are enumerated completely and within bounds',
  'For every content of an index root or index buffer, the entries are reported in order, each with its stored reference, lengths, flags, attribute and child pointer, until the end of the used part, the end entry or an invalid or truncated entry, and never from outside the block; damaged entries stop the enumeration without an unrelated exception. The slack space reported is exactly what follows the used part.',
  ['inputs'], 'every content of an index block within the size bounds', W_IN, ['dfir_ntfs/Attributes.py'],
  [('IndexRoot.index_entries, IndexBuffer.index_entries, IndexEntry, IndexHeader', 'dfir_ntfs/Attributes.py'), ('IndexBuffer.get_slack, IndexAllocation.get_slack', 'dfir_ntfs/Attributes.py')])

p('C13', 'Attribute lists, extended attributes and reparse points decode safely',
  'For every content, an attribute list yields its entries in order with the stored type, name, VCN, segment reference and instance; an extended attribute value yields each name, flags and value; a reparse point yields its tag, owner, GUID and data. Enumeration stops at the first entry that does not fit, always terminates, and never reports bytes from outside the value or raises an unrelated exception.',
  ['inputs'], 'every content of a value within the size bounds', W_IN, ['dfir_ntfs/Attributes.py'],
  [('AttributeList', 'dfir_ntfs/Attributes.py'), ('EA.data_parsed', 'dfir_ntfs/Attributes.py'), ('ReparsePoint', 'dfir_ntfs/Attributes.py')])

p('C14', 'Change journal records are decoded and bounds-checked',
  'For every buffer, a change journal record of version 2, 3 or 4 is accepted exactly when its length field is aligned, fits the buffer and is large enough for its version, and every field reported (references, USN, timestamp, reason, source, security ID, attributes, name, extents) equals its stored value. A name or extent that reaches past the end of the record is never taken from the bytes that follow. Reason and source codes resolve to exactly the names of the bits set, unknown bits included as a number.',
  ['inputs'], 'every buffer content at the lengths around each version\'s minimum', W_IN, ['dfir_ntfs/USN.py'],
  [('GetUsnRecord, USN_RECORD_V2_OR_V3, USN_RECORD_V4', 'dfir_ntfs/USN.py'), ('ResolveReasonCodes, ResolveSourceCodes', 'dfir_ntfs/USN.py')])

p('C15', 'Scanning a change journal finds every record exactly once',
  'Scanning a change journal reports, in file order, exactly the valid records found by walking it in 8-byte steps and skipping each record found, whatever zeros or unparsable data lie between them and wherever records fall with respect to the read window, and it always reaches the end of the file.',
  ['inputs'], 'every journal content and layout within the bounds', W_IN + 'The interplay of gaps with the 8192-byte read window is not sampled.', ['dfir_ntfs/USN.py'],
  [('ChangeJournalParser.usn_records', 'dfir_ntfs/USN.py')])

LF = 'dfir_ntfs/LogFile.py'
p('C16', 'Log sequence numbers and file positions convert without loss',
  'For every supported count of sequence number bits, splitting a log sequence number (LSN) into page, offset in page and sequence number and joining them again gives the same LSN; every 8-byte aligned position and sequence number survives the opposite trip; LSNs of later positions compare higher. A log file with an unusable count of sequence number bits is refused.',
  ['inputs'], 'every 64-bit LSN, every position and sequence number, every bit count', W_IN, [LF],
  [('LogFileParser.lsn_to_offset, lsn_to_seqnum, offset_to_lsn', LF)])

p('C17', 'Every reachable log record is found and reassembled across pages',
  'For every layout of records in the circular area of a log file, the client data of a record are exactly its bytes in order, joined across log pages and across the wrap from the last page to the first, up to a missing page. Starting from any known record, all records that follow it directly are found, whether they start on the same page, on the next page, after a multi-page record or after the wrap (with the next sequence number), as are the records reachable by previous and undo-next LSNs; numbers that do not match the record at their place are never reported.',
  ['inputs', 'histories'], 'every arrangement of records over pages within the bounds, every content and sequence number', W_IN + 'The interplay of record lengths with page limits and the wrap is not sampled by the two test logs.', [LF],
  [('LogFileParser.get_client_data', LF), ('LogFileParser.collect_lsns', LF)])

p('C18', 'Log recovery pages are applied exactly and never to the original file',
  'Recovering a version 1.1 log applies the more recent intact tail page, and a version 2.x or later log applies the intact fast pages that are newer than everything in the circular area, the most recent last, each at the file offset it names and nowhere else; pages with a missing offset or an offset outside the file are ignored. The recovery works on a copy: the original file never changes and is used again once parsing ends.',
  ['inputs', 'fault_sequences'], 'every state, LSN and target of the recovery pages within the bounds', W_IN, [LF],
  [('LogFileParser.prepare_for_writes, apply_tail_page, apply_fast_pages, discard_changes, parse_ntfs_records', LF)])

p('C19', 'NTFS log records decode to the right operation, data and target',
  'For every content, each field reported from an NTFS log record, an NTFS restart area, an open attribute entry (both versions) or an attribute names dump is the one stored; truncated structures are refused and optional fields that are not stored are absent. Redo and undo data are exactly the stored ranges, clipped to the record. Resident operations resolve to the right segment number and offset, nonresident ones to the right offset in the stream, and no other operation resolves to a target.',
  ['inputs'], 'every content of a record within the size bounds, every operation code', W_IN, [LF],
  [('NTFSLogRecord, NTFSRestartArea, ClientData', LF), ('OpenAttributeEntry0, OpenAttributeEntry1, OpenAttributeTableDumpParser, AttributeNamesDumpParser', LF)])

p('C20', 'Log records are reported in order with the attributes open at that time',
  'Parsing a log file reports the records of each client in LSN order. An update of a nonresident attribute resolves to the file reference and attribute name of the latest open record for its table index, otherwise to the last complete pair of table dumps (client versions 0 and 1), otherwise to nothing; tables of different clients do not mix. Truncated records, unknown record types and invalid open records do not stop the parsing. The cluster size comes from the restart area when plausible.',
  ['inputs', 'histories'], 'every sequence of record kinds within the bounds', W_IN + 'The state as of each record depends on the history before it.', [LF],
  [('LogFileParser.parse_ntfs_records, sort_lsns', LF), ('NTFSLogRecord.calculate_mft_target_reference_and_name', LF)])

p('C21', 'A log file is opened from whichever restart page is intact',
  'A log file is opened exactly when at least one restart page is intact and supported, two intact ones agree, and the values it relies on are usable; the first intact page decides. All-0xFF restart pages are recognised as an empty log. Every field reported from restart pages, restart areas, client records, log record pages and record headers is the stored one, structures that do not fit are refused with a log file error, and no record is read from before the data area or past the end of a page.',
  ['inputs', 'fault_sequences'], 'every state of the two restart pages, every field value', W_IN, [LF],
  [('RestartPage, RestartArea, ClientRecord, LogFileParser.__init__', LF), ('LogRecordPage, LogRecordHeader', LF)])

BS, PT, SC, FT = 'dfir_ntfs/BootSector.py', 'dfir_ntfs/PartitionTable.py', 'dfir_ntfs/ShadowCopy.py', 'dfir_ntfs/addons/FAT.py'

p('C22', 'The NTFS boot sector yields the geometry it encodes, or is refused',
  'A buffer is accepted as an NTFS boot sector exactly when its size, signature and OEM identifier fit. Sector size, cluster size (also the negative encoding), total sectors, first clusters of the $MFT and $MFTMirr, and the sizes of file record segments and index records (cluster-based and power-of-two encodings) are the encoded values, and every value the format does not allow is refused with a boot sector error.',
  ['inputs'], 'every 512-byte boot sector', W_IN + 'All offsets on a volume follow from these fields, including their signed encodings.', [BS],
  [('BootSector', BS)])

p('C23', 'MBR and logical partitions are enumerated exactly and without end loops',
  'For every MBR, the partitions reported are exactly the used entries, with their type, start and size, and for every chain of extended boot records (nested positions, loops, out-of-volume links, damaged records) every reachable logical partition is reported once with its absolute start, nothing is invented, and the enumeration terminates.',
  ['inputs', 'fault_sequences'], 'every MBR, chains of up to three EBRs in one or two extended partitions', W_IN + 'Chain topology is a combinatorial space.', [PT],
  [('MasterBootRecord, PartitionTable', PT)])

p('C24', 'A GPT is read from an intact header, with every partition and no other',
  'A GPT header is accepted exactly when its signature, sizes, positions and checksum are valid; when the primary header is damaged, an intact backup is used, and a damaged header never is. The partition array is accepted only with a valid checksum, and the partitions reported are exactly the used entries with their stored fields and names. Huge or impossible arrays are refused, not read.',
  ['inputs', 'fault_sequences'], 'every header field value, every combination of damaged headers, up to three arbitrary entries', W_IN, [PT],
  [('GPTHeader, PartitionTable', PT)])

p('C25', 'Each block of a shadow copy comes from the place the stores define',
  'For every table of block descriptors (regular, forwarding, overlay, unused) of a shadow copy and of the later ones, each 512-byte block of the shadow copy is mapped to exactly the location that the chain of stores defines, or to zeros when the block was unused, and never to data written after the snapshot that a store preserves.',
  ['inputs', 'histories'], 'every combination of up to three descriptors per store with arbitrary flags and offsets, two stores', W_IN + 'Which store wins is a property of histories of writes.', [SC],
  [('ShadowParser.translate_exact_offset', SC)])

p('C26', 'A shadow copy is read as the file of its volume',
  'Reading and seeking a selected shadow copy behaves as reading a file with the size of the volume: each byte is the one of its mapped block, reads stop at the end, positions advance by the number of bytes returned, and a shadow copy that was not selected cannot be read. Truncated images do not make other bytes appear.',
  ['inputs', 'histories'], 'positions and sizes around all boundaries, every seek mode and offset, every content', W_IN, [SC],
  [('ShadowParser.read, seek, tell', SC)])

p('C27', 'Shadow copy metadata is decoded exactly and chains of blocks terminate',
  'Every start block, control block, item, store information and block list is accepted exactly when it is valid, its fields are the stored ones, the shadow copies are listed and selected by the pairs of items that belong together, and cyclic, damaged or out-of-image chains of blocks end with an error of the parser, never in an endless loop.',
  ['inputs', 'fault_sequences'], 'every start block and item, chains of up to three blocks with every topology', W_IN, [SC],
  [('ShadowCopiesParser, ShadowParser', SC)])

p('C28', 'The type and the geometry of a FAT volume follow from its boot sector',
  'A boot sector is accepted as FAT12, FAT16 or FAT32 exactly when its fields describe such a volume, the type follows from the number of clusters (and FAT sizes), the number of clusters, the position and size of the active FAT, and all other fields are the encoded ones. Anything else, including sectors without a size of the volume or of the FAT, is refused with a boot sector error.',
  ['inputs'], 'every value of the fields for listed sector sizes, cluster sizes and numbers of FATs', W_IN, [FT],
  [('BSBPB, FSINFO', FT), ('GetCountOfClusters, IsFileSystem32, IsFileSystem16, IsFileSystem12', FT)])

p('C29', 'FAT chains are followed exactly and always end',
  'For every FAT12, FAT16 and FAT32 table, each element is decoded to the value stored for its cluster, and the chain of a first cluster is exactly the sequence of clusters the table links, ending at an end mark, a free or reserved element, a bad cluster (reported as a gap) or a loop; links to clusters that do not exist are an error of the parser, and no table makes the parser run without end or read outside of the table.',
  ['inputs'], 'every table with up to 6 arbitrary elements, every first cluster', W_IN, [FT],
  [('FAT.get_element, chain', FT)])

p('C30', 'FAT short names, checksums, dates, times and flags are decoded exactly',
  'For every 11-byte short name, its validity, its printable form (with the lower case flags, the 0x05 and deletion marks) and its checksum are the ones the format defines; every 16-bit date and time is decoded to the calendar value it encodes or to nothing when it is invalid; attributes, volume label marks and the NT byte are decoded bit by bit.',
  ['inputs'], 'every 11-byte name for validity and checksum, names of listed shapes with up to 5 arbitrary characters, every date, time, attribute and NT byte', W_IN, [FT],
  [('ValidateShortName, ParseShortName, BuildChecksum', FT), ('DecodeFATDate, DecodeFATTime, ParseNTByte', FT)])

p('C31', 'FAT directory entries: every file is reported once, with its own long name',
  'For every directory, each file, directory and label entry is reported once with the stored fields, is marked as allocated, deleted or unknown by its own mark and by end marks before it, and gets a long name exactly when a complete, ordered set of long name entries with the right checksum precedes it; long name entries that belong to no file are reported as orphan names, never attached to another file and never dropped.',
  ['inputs', 'histories'], 'every attribute and field; sequences of up to 4 entries with arbitrary order numbers, checksums and marks; long names of up to 20 entries', W_IN + 'Which long name belongs to which file is a property of sequences of entries.', [FT],
  [('DirectoryEntries.entries', FT), ('BuildLongName', FT)])

p('C32', 'FAT: file data and paths are exactly what the volume holds, and walks end',
  'The data of a file is the content of the clusters of its chain in order, cut at its size, bad clusters as zeros, and never bytes from outside of the volume. A walk reports every entry reachable from the root directory with its full path and state, handles deleted directories (free, reused, continued in the next cluster) and orphan directories as documented, does not follow loops, and is not stopped by a damaged directory.',
  ['inputs', 'fault_sequences'], 'every table of up to 6 elements and every content; walks over up to 5 directories with arbitrary first clusters, marks and elements', W_IN + 'The directory graph is a combinatorial space.', [FT],
  [('FileSystemParser.read_chain, walk', FT)])

XF = 'dfir_ntfs/addons/exFAT.py'
p('C33', 'An exFAT boot region is accepted exactly when it is valid',
  'A boot region is accepted exactly when its size, signatures, checksum, sizes of sectors and clusters, positions and sizes of the FAT and the cluster heap, root directory, version and number of FATs are valid (flags and the usage percentage are not part of the checksum), and every field reported is the stored one. Anything else, including truncated regions, is refused with a boot region error.',
  ['inputs'], 'every value of the fields for listed sector and cluster sizes; every checksum for regions with arbitrary bytes in listed places', W_IN, [XF],
  [('BR', XF)])

p('C34', 'exFAT directory entry sets are reported exactly when they are intact',
  'For every directory, a file is reported exactly when its entry set is complete, consistent and (if in use) has the right checksum, with the stored name, timestamps with their time zones, attributes, sizes and first cluster; names with forbidden characters are never reported; labels and bitmaps are taken from the root directory only; names outside of a set are reported as orphan names; and no damaged set hides the sets after it.',
  ['inputs', 'histories'], 'every timestamp, time zone, stream and attribute; every checksum of 96 bytes; every type of each of up to 5 entries (the others of listed types); names of up to 255 characters', W_IN + 'Sequences of entries are a combinatorial space.', [XF],
  [('DirectoryEntries.entries', XF), ('BuildName, BuildLabel, EntrySetChecksum', XF), ('DecodeFATTimestamp, DecodeFATTimezone', XF)])

p('C35', 'exFAT: clusters, allocation and the boot region are the ones the volume has',
  'For every FAT the chain of a first cluster is exactly the linked sequence and ends; the state of a cluster is its bit in the active allocation bitmap, or none for clusters that have no bit; file data is the content of its clusters (with or without a chain) cut at its size, never from outside of the volume; and the main boot region is used when it is valid, a backup for the same sector size otherwise, with the active FAT and its bitmap.',
  ['inputs', 'fault_sequences'], 'every table of up to 4 clusters, every first cluster, every bitmap of 3 bytes, every combination of three boot regions', W_IN, [XF],
  [('FAT.chain, Bitmap.is_allocated', XF), ('FileSystemParser.__init__, read_chain', XF)])

p('C36', 'exFAT: a walk reports every reachable entry once per path, and ends',
  'A walk reports every entry reachable from the root directory with its full path, deletion mark and first cluster, does not follow loops, enters deleted directories only when their clusters are not reused (or when asked to), reports the entries of orphan directories by the size of their most recent record, and is not stopped by damaged directories, sizes, timestamps or bitmaps.',
  ['inputs', 'fault_sequences'], 'volumes with up to 5 directories: arbitrary first clusters, elements, bitmap bits, deletion marks, listed sizes and timestamps', W_IN + 'The directory graph is a combinatorial space.', [XF],
  [('FileSystemParser.walk', XF)])

MV, WL, MF = 'dfir_ntfs/MoveTable.py', 'dfir_ntfs/WSL.py', 'dfir_ntfs/MFT.py'
p('C37', 'The link tracking log is decoded entry by entry, within its sectors',
  'A tracking.log file is accepted exactly when its signature is right; the sector size is the one given, or the one that its second sector shows. Every log sector yields its header, footer and every entry of a known kind in order, with the machine IDs, volume and object identifiers, timestamps and indexes that are stored; machine IDs end at the first null byte and are decoded without loss or failure; truncated or invalid sectors and entries are refused with a ValueError.',
  ['inputs'], 'every header and entry with arbitrary fields; files of up to 3 log sectors with arbitrary types of the entries', W_IN, [MV],
  [('MoveTableParser, Header, LogSector, LogEntry', MV)])

p('C38', 'WSL attributes stored by Windows are decoded exactly, with any timestamps',
  'An LXATTRB value yields exactly the stored mode, owner, group, device and the three timestamps (none when a timestamp is outside of the range a date can have); an LXXATTR value yields every extended attribute (name and value) in order and ends at the last one or at the first entry that does not fit. Values of a wrong size or version are refused with a ValueError, and nothing else is raised.',
  ['inputs'], 'every value of 56 bytes, every list of 24 (thorough: 28) bytes with listed name lengths', W_IN, [WL],
  [('LXATTRB, LXXATTR, DecodeUnixtime', WL)])

p('C39', 'File names in slack space are carved exactly when they are plausible',
  'Carving slack space yields every $FILE_NAME value at an aligned position whose four timestamps lie in the plausible range (1997 to 2060) and whose name is not empty and holds no "/" or null character, once and in order, also when its first bytes were overwritten (the parent is then all ones) or its name is cut; nothing else is yielded. A partial name is yielded only on request: the last run of at least five printable characters before the first file name. Each slack space in a list, and of every segment of a file record, is treated on its own.',
  ['inputs'], 'ten positions, any recorded name length and up to two arbitrary characters, timestamps around both limits, two file names at four distances, partial names of up to 12 characters', W_IN, [MF],
  [('SlackSpace.carve', MF), ('FileRecord.slack', MF)])

p('C40', 'The $MFT of a volume is opened completely, however fragmented',
  'Opening an NTFS volume (at any offset of an image) yields the whole $MFT: the data runs of its unnamed $DATA attribute in all segments that the (resident or nonresident) attribute list names, in the order of their VCNs and located step by step in the part known so far, with the size, cluster size and boot sector of the volume; reading it returns the bytes of the right segments. A volume whose table is not described completely (no or resident $DATA, no $DATA in the list, a first entry outside of segment 0, gaps, invalid segments, unreadable lists) is refused with a master file table or boot sector error.',
  ['inputs', 'fault_sequences'], 'tables of up to 3 segments in any listed order, clusters of 512 to 4096 bytes, volume offsets, any runs and sizes beyond the segments that are read', W_IN, [MF],
  [('FileSystemParser.__init__', MF), ('AttributeRecordNonresident.value_decoded', MF)])

p('C41', 'File control block timestamps are carved from memory only with agreed offsets',
  'Carving a memory image yields, in order and once, every file control block (signature at an even offset in a page) whose four timestamps and in-memory access time are plausible at the offsets that most candidate blocks share, with its file reference, timestamps and positions; fewer than 25 candidates, or fewer than 20 that agree on the offsets, are refused with a ValueError instead of guessed. Blocks cut by the end of a page or of the image are left out.',
  ['inputs'], 'images of 24 to 33 blocks with one or two layouts, one block with any timestamp around the limits', W_IN, [MF],
  [('MetadataCarver.carve_fcb_timestamps', MF)])

p('C42', 'fat_parser writes a row for every entry found, each field in its column',
  'Given a FAT12/16/32 or exFAT volume (at any offset of an image), fat_parser writes a CSV file with the header of the detected file system and exactly one row for every entry, partial name and volume label that walking over the volume yields, in that order: the deletion, directory and encryption marks, path, M, A and C timestamps (with their time zones on exFAT), size and raw short name are those of the entry, in the column named for them; unknown values are shown as "?" or "N/A"; only the first volume label that is not deleted is marked as the label. Without valid arguments nothing is written.',
  ['inputs'], 'FAT12 and exFAT volumes with up to 8 entries, one of them with arbitrary fields', W_IN, ['fat_parser'],
  [('main program', 'fat_parser'), ('format_timestamp, format_boolean, format_tz', 'fat_parser')])

p('C43', 'The CSV reports of ntfs_parser show every record, each field in its column',
  'ntfs_parser --mft and --all-mft write, for every file record of the table (and of the table of every shadow copy, tagged as such), one row per name (one without a name if there is none) with its reference, flags, log sequence number, path, $STANDARD_INFORMATION and $FILE_NAME timestamps, USN, object identifier time, size of the unnamed data (from the first record of it, VCN 0), alternate data streams and WSL times, followed by the entries of its resident file name index and by the file names in its slack space, with the path of the parent that the reference (number and sequence) denotes, or <Unknown>. --usn writes one row per journal record with the path from the $MFT for exactly the file reference of the record, --indx one row per $FILE_NAME in the $I30 index buffers and in their slack with the path of the parent that the entry names, --mem one row per carved file control block. Every value is in the column named for it; invalid timestamps show as N/A; entries that are too short to be file names are left out. Without valid arguments nothing is written.',
  ['inputs'], 'tables of 8 records, one of them with arbitrary fields, times, references and attributes; journals of two records; volumes with up to two directories with indexes and up to two shadow copies', W_IN, ['ntfs_parser'],
  [('process_mft, process_usn, process_indx, process_all_mft, process_mem', 'ntfs_parser')])

p('C44', 'A mounted shadow copy shows exactly the data of the shadow copy, read-only',
  'vsc_mount serves a file system with one directory and one file, image.raw, whose size is that of the volume of the shadow copy: for every sequence of requests, a read returns exactly the bytes of the shadow copy at the given offset up to its end (with the alternate fill patterns only when they are asked for), from the volume and storage at the given offsets; attributes, names, handles and directory entries are consistent; inodes, names and handles that do not exist are refused with an error, and so is, with EROFS, everything that would change something or open the file for writing. The images are closed at the end. --list shows the position and timestamp of every shadow copy, or that there are none or that the volume is not valid. Without valid arguments nothing is mounted.',
  ['inputs', 'schedules'], 'up to three requests with arbitrary inodes, handles, flags and contents; reads at eight places', W_IN + 'The tests do not run vsc_mount at all. ', ['vsc_mount'],
  [('VSCFS, VSCFS2, main program', 'vsc_mount')])

NOT_APPLICABLE = {
    'N01': 'The text reports (--log, --move) are prose for people built from dozens of branches over decoded log records; the rows of the CSV reports are decided by C42 and C43, the facts that the text reports print by C10-C13, C16-C21 and C37.',
    'N03': 'Text for people without a specification: there is no oracle other than the code.',
}
p('N01', 'The text reports show every log record and every entry of the link tracking log',
  'ntfs_parser --log and --move write a block of text for every log record and every entry that the library reports, with its fields unchanged.',
  ['inputs'], 'every log', W_IN, ['ntfs_parser'], [('process_log, process_movetable', 'ntfs_parser')])
p('N03', 'Human-readable dumps show the decoded fields',
  'print_information and the string forms of objects show the fields that the getters return.',
  ['inputs'], 'every value', W_IN, ['dfir_ntfs/Attributes.py'], [('print_information', 'dfir_ntfs/Attributes.py')])
