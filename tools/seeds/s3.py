L='dfir_ntfs/LogFile.py'; B='dfir_ntfs/BootSector.py'; P='dfir_ntfs/PartitionTable.py'; S='dfir_ntfs/ShadowCopy.py'
LOG='''
import io, struct
from dfir_ntfs import LogFile
PG = 4096
def protect(b, off):
	struct.pack_into('<HH', b, 4, off, 9); struct.pack_into('<H', b, off, 5)
	for i in range(1, 9):
		b[off+i*2:off+i*2+2] = b[i*512-2:i*512]; struct.pack_into('<H', b, i*512-2, 5)
	return bytes(b)
def rstr(lsn, ver=(1, 1), bits=52, size=0, rhl=48):
	b = bytearray(PG); b[:4] = b'RSTR'
	struct.pack_into('<QLLHHH', b, 8, 0, PG, PG, 48, ver[1], ver[0])
	struct.pack_into('<QHHHHLHHqLHHL', b, 48, lsn, 0, 0xffff, 0xffff, 0, bits, 224, 64, size, 0, rhl, 64, 0)
	return protect(b, 30)
def rcrd(last=0, end=0, body=b'', off2x=0, at=64):
	b = bytearray(PG); b[:4] = b'RCRD'
	struct.pack_into('<Q', b, 8, last); struct.pack_into('<Q', b, 32, end); struct.pack_into('<L', b, 60, off2x)
	b[at:at+len(body)] = body
	return protect(b, 40)
def rec(lsn, data, length=None, client=0, typ=1):
	return struct.pack('<QQQLLLLH6x', lsn, 0, 0, len(data) if length is None else length, client, typ, 0, 0) + data
def op(redo, undo, target, rd=b'', ud=b''):
	d = struct.pack('<HHHHHHHHHHHHq', redo, undo, 40, len(rd), 40 + len(rd), len(ud), target, 0, 0, 0, 0, 0, 0) + b'\\0' * 8 + rd + ud
	return d + b'\\0' * (-len(d) % 8)
BITS = 52
def lsn(page, off, seq=1):
	return (page * PG + off) >> 3 | seq << (64 - BITS)
'''
SH='''
import io, struct, uuid
from dfir_ntfs import ShadowCopy
BLK = 0x4000
G = b'\\x6B\\x87\\x08\\x38\\x76\\xC1\\x48\\x4E\\xB7\\xAE\\x04\\x04\\x6E\\x6C\\xC7\\x52'
def pad(b, n): return b + b'\\0' * (n - len(b))
def block(kind, off, nxt=0, body=b''): return pad(pad(G + struct.pack('<LLQQQ', 1, kind, 0, off, nxt), 0x80) + body, BLK)
def start(first): return pad(pad(b'\\xeb\\x52\\x90NTFS    ', 7680) + G + struct.pack('<LLQQQQQ', 1, 1, 7680, 7680, 0, first, 0) + b'V' * 32, BLK)
def item2(g, pos, size, flags=0): return pad(struct.pack('<LLQ', 2, 0, size) + g + struct.pack('<QQQ', pos, flags, 0), 0x80)
def item3(g, diff=0, bitmap=0, prev=0, app=0, loc=0): return pad(struct.pack('<LLQ', 3, 0, diff) + g + struct.pack('<QQQQQQ', app, loc, bitmap, 0, 0, prev), 0x80)
def entry(o, s, d, f=0, bits=0): return struct.pack('<QQQLL', o, s, d, f, bits)
def image(blocks, n):
	return b''.join(pad(blocks.get(i, bytes([i]) * BLK), BLK) for i in range(n))
def control(*items): return block(2, BLK, 0, b''.join(items))
'''
SEEDS=[
dict(id='c16-seqnum-32', property='C16', file=L, edits=[("		return lsn >> (64 - self.sequence_number_bits)","		return (lsn >> (64 - self.sequence_number_bits)) & 0xFFFFFFFF")],
 needs='a log file that was wrapped more than 2^32 times', breaks='the sequence number of an LSN is cut to 32 bits, so that rebuilt LSNs do not match',
 demo=LOG+"""
p = LogFile.LogFileParser(io.BytesIO(rstr(0) * 2 + bytes(4 * PG)))
x = lsn(5, 64, 0x123456789)
sys.exit(0 if p.offset_to_lsn(*p.lsn_to_offset(x), p.lsn_to_seqnum(x)) == x else 'LSN not preserved')
"""),
dict(id='c17-wrap-seqnum-multi', property='C17', file=L, edits=[("""					candidate_log_page_number = self.get_wrapped_log_record_page_number() + (pages_to_skip - 1) - pages_left_in_file
					seqnum_expected += 1
					candidate_lsn = self.offset_to_lsn(candidate_log_page_number, candidate_offset_in_page, seqnum_expected)

				candidate_log_record_page = self.get_log_record_page_by_number(candidate_log_page_number)
				if candidate_log_record_page is not None:
					try:
						candidate_log_record_header = candidate_log_record_page.get_log_record_at_offset(candidate_offset_in_page, self.record_header_length)
					except LogFileException:
						pass
					else:
						if candidate_log_record_header.get_this_lsn() == candidate_lsn:
							return candidate_lsn

				# Try the next log record page.
				candidate_log_page_number += 1
""","""					candidate_log_page_number = self.get_wrapped_log_record_page_number() + pages_to_skip % (pages_left_in_file + 1)
					seqnum_expected += 1
					candidate_lsn = self.offset_to_lsn(candidate_log_page_number, candidate_offset_in_page, seqnum_expected)

				candidate_log_record_page = self.get_log_record_page_by_number(candidate_log_page_number)
				if candidate_log_record_page is not None:
					try:
						candidate_log_record_header = candidate_log_record_page.get_log_record_at_offset(candidate_offset_in_page, self.record_header_length)
					except LogFileException:
						pass
					else:
						if candidate_log_record_header.get_this_lsn() == candidate_lsn:
							return candidate_lsn

				# Try the next log record page.
				candidate_log_page_number += 1
""")],
 needs='a record that goes over the end of the log file and then over two more pages', breaks='the record that follows it is looked for on a wrong page and lost',
 demo=LOG+"""
# pages 4..7; a record starts on the last page and takes all of the pages 4 and 5; the next one is on the page 6
n = PG - 64 - 48 + 2 * (PG - 64) + 8
a = lsn(7, 64, 1); b = lsn(6, 72, 2)
pages = [rcrd(), rcrd(), rcrd(), rcrd(), rcrd(0, 0, rec(b, b'B' * 40), at=72), rcrd(a, a, rec(a, b'A' * (PG - 112), n))]
p = LogFile.LogFileParser(io.BytesIO(rstr(a) * 2 + b''.join(pages)))
p.collect_lsns()
sys.exit(0 if a in p.lsns and b in p.lsns else 'a record is not found')
"""),
dict(id='c18-fast-page-order', property='C18', file=L, edits=[("""			if fast_page is not None and fast_page.get_last_lsn() > highest_lsn:
				fast_pages.append(fast_page)
""","""			if fast_page is not None and fast_page.get_last_lsn() > highest_lsn: # This page is newer than the pages seen so far.
				highest_lsn = fast_page.get_last_lsn()
				fast_pages.append(fast_page)
""")],
 needs='a version 2.x log with two fast pages that are not stored in the order of their LSNs', breaks='an older fast page for another target page is dropped',
 demo=LOG+"""
size = 37 * PG
img = bytearray(rstr(0, (2, 0), size=size) * 2 + b''.join(rcrd() for _ in range(35)))
img[2*PG:3*PG] = rcrd(lsn(34, 64, 9), 0, off2x=34 * PG)
img[3*PG:4*PG] = rcrd(lsn(35, 64, 8), 0, off2x=35 * PG)
p = LogFile.LogFileParser(io.BytesIO(bytes(img)))
p.prepare_for_writes(); p.apply_fast_pages()
p.file_object.seek(0)
o = p.file_object.read()
sys.exit(0 if o[34*PG:36*PG] == bytes(img[2*PG:4*PG]) else 'a fast page was not applied')
"""),
dict(id='c19-undo-only-target', property='C19', file=L, edits=[("""		elif self.get_redo_operation() in LOGGED_NONRESIDENT_UPDATES or self.get_undo_operation() in LOGGED_NONRESIDENT_UPDATES:
			return self.get_target_vcn()""","""		elif self.get_redo_operation() in LOGGED_NONRESIDENT_UPDATES:
			return self.get_target_vcn()""")],
 needs='a log record whose undo operation alone is a nonresident update', breaks='it has no offset in its target',
 demo=LOG+"""
r = LogFile.NTFSLogRecord(struct.pack('<HHHHHHHHHHHHq', 0, 8, 40, 0, 40, 0, 0, 1, 3, 5, 2, 0, 7) + bytes(8), 1, 0, 4096)
sys.exit(0 if r.calculate_offset_in_target() == 7 * 4096 + 1024 + 8 else 'no offset')
"""),
dict(id='c20-oat-shared', property='C20', file=L, edits=[("client_data_decoded.oat = oat.copy()","client_data_decoded.oat = oat")],
 needs='records kept until the parsing ends, and an attribute that is opened again under the same index later', breaks='an earlier update resolves to an attribute opened later',
 demo=LOG+"""
def opn(ref): return op(0x1c, 0, 24, struct.pack('<LLLLQQQ', 0xffffffff, 0, 0x80, 0, ref, 0, 0), 'n'.encode('utf-16le'))
body, off, first = b'', 64, lsn(4, 64)
for d in (opn(77), op(8, 0, 24, b'12345678'), opn(88), op(8, 0, 24, b'12345678')):
	r = rec(lsn(4, off), d); body += r; off += len(r)
p = LogFile.LogFileParser(io.BytesIO(rstr(first) * 2 + rcrd() + rcrd() + rcrd(first, first, body) + rcrd()))
u = [x for x in list(p.parse_ntfs_records()) if x.get_redo_operation() == 8]
sys.exit(0 if [x.calculate_mft_target_reference_and_name() for x in u] == [(77, 'n'), (88, 'n')] else 'wrong attribute')
"""),
dict(id='c21-newest-restart', property='C21', file=L, edits=[("""			restart_area = self.restart_page_1.get_restart_area()

			if log_page_size != self""","""			restart_area = max(self.restart_page_2.get_restart_area(), self.restart_page_1.get_restart_area(), key = lambda x: x.get_current_lsn())

			if log_page_size != self""")],
 needs='two intact restart pages that differ, the second one being more recent', breaks='the values of the second restart page are used instead of the first one',
 demo=LOG+"""
p = LogFile.LogFileParser(io.BytesIO(rstr(1, bits=52) + rstr(2, bits=40) + bytes(4 * PG)))
sys.exit(0 if p.sequence_number_bits == 52 else 'second restart page used')
"""),
dict(id='c22-frs-cluster-signed', property='C22', file=B, edits=[("if sectors_per_cluster_base <= 0x80: # Although 0x80 is a signed value, it's used as an unsigned one.","if sectors_per_cluster_base <= 0xF0: # The power-of-two encoding is used for large clusters only.")],
 needs='a cluster size encoded as a negative power of two in the range 0x81..0xF0 (2^16 sectors or more)', breaks='the cluster size is taken as a number of sectors (e.g. 240) instead of a power of two',
 demo="""
from dfir_ntfs import BootSector
b = bytearray(512); b[3:11] = b'NTFS    '; b[12] = 2; b[13] = 0xF0; b[64] = 1; b[68] = 1; b[510:] = b'\\x55\\xaa'
sys.exit(0 if BootSector.BootSector(bytes(b)).get_sectors_per_cluster() == 65536 else 'wrong cluster size')
"""),
dict(id='c23-two-extended', property='C23', file=P, edits=[("""		results = []
		track = set()
""","""		results = []
"""),("""			first_ebr_lba = part.starting_lba
			next_ebr_lba_relative = 0
""","""			track = set()
			first_ebr_lba = part.starting_lba
			next_ebr_lba_relative = 0
""")],
 needs='an MBR with two extended partitions whose chains meet', breaks='the logical partitions in the common part are reported twice',
 demo="""
import io, struct
from dfir_ntfs import PartitionTable
def e(t, a, n): return struct.pack('<B3sB3sLL', 0, b'', t, b'', a, n)
d = bytearray(512 * 64)
d[446:478] = e(5, 8, 40) + e(15, 10, 30); d[510:512] = b'\\x55\\xaa'
d[8*512+446:8*512+478] = e(7, 1, 1) + e(5, 2, 4); d[8*512+510:8*512+512] = b'\\x55\\xaa'
d[10*512+446:10*512+462] = e(7, 1, 1); d[10*512+510:10*512+512] = b'\\x55\\xaa'
r = [x.starting_lba for x in PartitionTable.MBR(io.BytesIO(bytes(d)), 512).read_ebr_partitions()]
sys.exit(0 if r == [9, 11] else repr(r))
"""),
dict(id='c24-long-header-crc', property='C24', file=P, edits=[("buf = bytearray(buf[ : header_size])","buf = bytearray(buf[ : 92])")],
 needs='a GPT header longer than 92 bytes', breaks='the checksum is computed over the first 92 bytes only: intact long headers are refused, damaged ones accepted',
 demo="""
import io, struct, binascii
from dfir_ntfs import PartitionTable
d = bytearray(512 * 200)
arr = bytes(16384)
h = bytearray(struct.pack('<8sLLLLQQQQ16sQLLL', b'EFI PART', 0x10000, 128, 0, 0, 1, 199, 34, 150, b'g' * 16, 2, 128, 128, binascii.crc32(arr)) + b'x' * 36)
struct.pack_into('<L', h, 16, binascii.crc32(h))
d[512:512+128] = h
try:
	g = PartitionTable.GPT(io.BytesIO(bytes(d)), 512).read_gpt_header()
except ValueError as x:
	sys.exit(str(x))
sys.exit(0 if g.location == 0 else 'not the primary header')
"""),
dict(id='c25-overlay-bitmap-last', property='C25', file=S, edits=[("""						cumulative_allocation_bitmap |= table_entry.allocation_bitmap # Extend the cumulative allocation bitmap.

						for i in range(0, 32):
							if (table_entry.allocation_bitmap >> i) & 1 > 0: # Overwrite an existing (used) 512-byte block.
								new_offsets[i] = new_offset + i * 512

					continue

				if table_entry.flags & DIFF_AREA_TABLE_ENTRY_UNKNOWN_NAME_2 == 0: # The entire data block is used (a regular entry).
					regular_entry_found = True

					if len(new_offsets) == 0: # Use the entire block.
						for i in range(0, 32):
							new_offsets.append(new_offset + i * 512)
					else: # Account for previously seen partially used data blocks (overlays).
						for i in range(0, 32):
							if (cumulative_allocation_bitmap >> i) & 1 == 0: # Overwrite an unused block.
								new_offsets[i] = new_offset + i * 512

		if forwarder_entry_found and not regular_entry_found:
			if overlay_entry_found and not ignore_overlay_entries: # Offsets from the forward lookup should be used partially.
				forward_offsets = lookup_in_next_store(forward_offset, True)
				for i in range(0, 32):
					if (cumulative_allocation_bitmap >> i) & 1 == 0: # Overwrite a block marked as unused.
						new_offsets[i] = forward_offsets[i]
			else: # Offsets from the forward lookup should be used entirely.
				return lookup_in_next_store(forward_offset, True)

		if (not regular_entry_found) and (not do_forward_lookup) and offset in self.current_possible_null_targets and \\
		 switch_mode == 0 and self.return_null_blocks: # This is a null target of a forwarder block.
			return [ None ] * 32

		if (not forwarder_entry_found) and (not regular_entry_found) and (not overlay_entry_found) and \\
		 bitmap_check_result and switch_mode == 0 and self.return_null_blocks: # This is an unused block.
			return [ None ] * 32

		if len(new_offsets) == 0: # Switch to the next store (or to the original volume).
			return lookup_in_next_store(offset, False)

		return new_offsets

	def read_at_exact_offset(self, offset, debug_fill""","""						cumulative_allocation_bitmap = self.merge_overlay(cumulative_allocation_bitmap, table_entry.allocation_bitmap)

						for i in range(0, 32):
							if (table_entry.allocation_bitmap >> i) & 1 > 0: # Overwrite an existing (used) 512-byte block.
								new_offsets[i] = new_offset + i * 512

					continue

				if table_entry.flags & DIFF_AREA_TABLE_ENTRY_UNKNOWN_NAME_2 == 0: # The entire data block is used (a regular entry).
					regular_entry_found = True

					if len(new_offsets) == 0: # Use the entire block.
						for i in range(0, 32):
							new_offsets.append(new_offset + i * 512)
					else: # Account for previously seen partially used data blocks (overlays).
						for i in range(0, 32):
							if (cumulative_allocation_bitmap >> i) & 1 == 0: # Overwrite an unused block.
								new_offsets[i] = new_offset + i * 512

		if forwarder_entry_found and not regular_entry_found:
			if overlay_entry_found and not ignore_overlay_entries: # Offsets from the forward lookup should be used partially.
				forward_offsets = lookup_in_next_store(forward_offset, True)
				for i in range(0, 32):
					if (cumulative_allocation_bitmap >> i) & 1 == 0: # Overwrite a block marked as unused.
						new_offsets[i] = forward_offsets[i]
			else: # Offsets from the forward lookup should be used entirely.
				return lookup_in_next_store(forward_offset, True)

		if (not regular_entry_found) and (not do_forward_lookup) and offset in self.current_possible_null_targets and \\
		 switch_mode == 0 and self.return_null_blocks: # This is a null target of a forwarder block.
			return [ None ] * 32

		if (not forwarder_entry_found) and (not regular_entry_found) and (not overlay_entry_found) and \\
		 bitmap_check_result and switch_mode == 0 and self.return_null_blocks: # This is an unused block.
			return [ None ] * 32

		if len(new_offsets) == 0: # Switch to the next store (or to the original volume).
			return lookup_in_next_store(offset, False)

		return new_offsets

	def read_at_exact_offset(self, offset, debug_fill"""),("""	def read_at_exact_offset(self, offset, debug_fill = False):
		\"\"\"Read a block at a given aligned volume offset.
""","""	def merge_overlay(self, cumulative_allocation_bitmap, allocation_bitmap):
		\"\"\"Merge the allocation bitmap of one more overlay entry into the cumulative one.\"\"\"

		return cumulative_allocation_bitmap | (allocation_bitmap & 0x7FFFFFFF)

	def read_at_exact_offset(self, offset, debug_fill = False):
		\"\"\"Read a block at a given aligned volume offset.
""")],
 needs='an overlay entry that has the last 512 bytes of a block, followed by a regular entry of the same block', breaks='the last 512 bytes come from the regular entry',
 demo=SH+"""
g = b'g' * 16
d = block(3, 2 * BLK, 0, entry(4 * BLK, 0, 5 * BLK, 2, 0x80000001) + entry(4 * BLK, 0, 6 * BLK))
p = ShadowCopy.ShadowParser(io.BytesIO(image({0: start(BLK), 1: control(item2(g, 1, 8 * BLK), item3(g, 2 * BLK)), 2: d}, 8)))
p.select_shadow(1); p.seek(4 * BLK); x = p.read(BLK)
sys.exit(0 if x == b'\\5' * 512 + b'\\6' * 15360 + b'\\5' * 512 else 'wrong block')
"""),
dict(id='c26-seek-end-resized', property='C26', file=S, edits=[("""			volume_size = self.current_volume_size
			if self.volume_size is not None and volume_size > self.volume_size:
				volume_size = self.volume_size

			self.current_offset = volume_size + offset
""","""			self.current_offset = self.current_volume_size + offset
""")],
 needs='a volume that was made smaller after the shadow copy, and a seek relative to the end', breaks='the end is not the one that reading has',
 demo=SH+"""
g = b'g' * 16
d = block(3, 2 * BLK)
p = ShadowCopy.ShadowParser(io.BytesIO(image({0: start(BLK), 1: control(item2(g, 1, 9 * BLK), item3(g, 2 * BLK)), 2: d}, 8)), 0, 8 * BLK)
p.select_shadow(1)
sys.exit(0 if p.seek(-BLK, 2) == 7 * BLK and p.read() == b'\\7' * BLK else 'wrong end')
"""),
dict(id='c27-bitmap-partial-byte', property='C27', file=S, edits=[("""	def read_previous_bitmap(self):
		\"\"\"Read and return the previous bitmap (as raw bytes).\"\"\"

		bitmap_chunks = []

		volume_size = self.current_cbi2.get_volume_size()
		if volume_size % 0x4000 != 0: # Keep this value aligned.
			volume_size = volume_size + 0x4000 - volume_size % 0x4000

		bits_count = volume_size // 0x4000
		if bits_count % 8 != 0: # Keep this value aligned.
			bits_count = bits_count + 8 - bits_count % 8

		bytes_count = bits_count // 8

		curr_offset = self.current_cbi3.get_previous_bitmap_offset()
		offsets_seen = set()
		while curr_offset != 0 and curr_offset not in offsets_seen: # A corrupt list of blocks can be cyclic.
			offsets_seen.add(curr_offset)

			self.volume_object.seek""","""	def read_previous_bitmap(self):
		\"\"\"Read and return the previous bitmap (as raw bytes).\"\"\"

		bitmap_chunks = []

		volume_size = self.current_cbi2.get_volume_size()
		bits_count = volume_size // 0x4000
		bytes_count = (bits_count + 7) // 8

		curr_offset = self.current_cbi3.get_previous_bitmap_offset()
		offsets_seen = set()
		while curr_offset != 0 and curr_offset not in offsets_seen: # A corrupt list of blocks can be cyclic.
			offsets_seen.add(curr_offset)

			self.volume_object.seek""")],
 needs='a volume of 8k whole blocks and a part of one more, and a previous bitmap', breaks='the last byte of the previous bitmap is lost, and the partial block counts as unused in the previous bitmap',
 demo=SH+"""
g = b'g' * 16
b = {0: start(BLK), 1: control(item2(g, 1, 8 * BLK + 512), item3(g, 2 * BLK, 3 * BLK, 4 * BLK)), 2: block(3, 2 * BLK), 3: block(6, 3 * BLK, 0, b'\\xff\\xff'), 4: block(6, 4 * BLK)}
p = ShadowCopy.ShadowParser(io.BytesIO(image(b, 9)))
p.select_shadow(1)
sys.exit(0 if p.current_previous_bitmap == b'\\0\\0' and not p.check_bitmap(8 * BLK) else 'bitmap cut')
"""),
]
