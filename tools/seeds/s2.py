M='dfir_ntfs/MFT.py'; U='dfir_ntfs/USN.py'; A='dfir_ntfs/Attributes.py'
FRS='''
import io, struct
from dfir_ntfs import MFT, Attributes
def frs(num, seq, flags, base, attrs=b'', fix=True):
	b = bytearray(1024)
	b[0:4] = b'FILE'; struct.pack_into('<HHQHHHHLLQHHL', b, 4, 48, 3, 0, seq, 1, 56, flags, 56+len(attrs)+8, 1024, base, 9, 0, num)
	b[56:56+len(attrs)] = attrs; struct.pack_into('<L', b, 56+len(attrs), 0xffffffff)
	if fix:
		struct.pack_into('<H', b, 48, 7); b[50:52]=b[510:512]; b[52:54]=b[1022:1024]
		struct.pack_into('<H', b, 510, 7); struct.pack_into('<H', b, 1022, 7)
	return b
'''
SEEDS=[
dict(id='c01-first-sector-torn', property='C01', file=M, edits=[("if usa_elements_applied * UPDATE_SEQUENCE_STRIDE < self.get_first_free_byte_offset():","if offset_in_frs < self.get_first_free_byte_offset():")],
 needs='a torn first sector in a segment whose used part ends inside that sector', breaks='a sector whose protected tail does not match but whose used part ends before the tail is accepted and altered',
 demo=FRS+"""
b = frs(30, 1, 1, 0); b[510] = 9
try:
	MFT.FileRecordSegment(b)
except MFT.FileRecordSegmentException:
	sys.exit(0)
sys.exit('torn segment accepted')
"""),
dict(id='c03-first-attr-in-usa', property='C03', file=M, edits=[("first_attribute_offset < self.usa_offset + self.usa_size * 2:","first_attribute_offset < self.usa_offset + self.usa_size * 2 - 8:")],
 needs='a segment whose first attribute offset points into the last words of the update sequence array', breaks='such a segment is accepted',
 demo=FRS+"""
b = frs(30, 1, 1, 0); b[20:22] = struct.pack('<H', 48)
try:
	MFT.FileRecordSegment(b)
except MFT.FileRecordSegmentException:
	sys.exit(0)
sys.exit('accepted')
"""),
dict(id='c04-record-past-used', property='C04', file=M, edits=[("pos + record_length > self.get_first_free_byte_offset():","pos + record_length > self.get_file_record_segment_size():")],
 needs='an attribute record whose length reaches past the used part of the segment (a stale first free byte offset)', breaks='an attribute value is taken from the slack of the segment instead of an error being reported',
 demo=FRS+"""
a = bytearray(32); struct.pack_into('<LLBBHHHLHBB', a, 0, 0x80, 64, 0, 0, 24, 0, 1, 40, 24, 0, 0)
b = frs(30, 1, 1, 0, a)
try:
	l = list(MFT.FileRecordSegment(b).attributes())
except MFT.AttributeException:
	sys.exit(0)
sys.exit('value taken from slack %r' % l)
"""),
dict(id='c07-overlap-accepted', property='C07', file=M, edits=[("			if attr.lowest_vcn != vcn_to_be_touched:","			if attr.lowest_vcn > vcn_to_be_touched:")],
 needs='two attribute records of one stream with overlapping VCN ranges', breaks='an overlapping record is joined instead of refused, shifting all following data',
 demo=FRS+"""
def nr(lo, hi, pairs):
	L = (64+len(pairs)+7)//8*8; a = bytearray(L); struct.pack_into('<LLBBHHH', a, 0, 0x80, L, 1, 0, 64, 0, 1); struct.pack_into('<QQHB5sqqq', a, 16, lo, hi, 64, 0, b'', 4096, 4096, 4096); a[64:64+len(pairs)] = pairs; return bytes(a)
r = MFT.FileRecord(MFT.FileRecordSegment(frs(30,1,1,0,nr(0,3,b'\\x11\\x04\\x20\\x00'))), [MFT.FileRecordSegment(frs(31,1,1,30|(1<<48),nr(2,5,b'\\x11\\x04\\x60\\x00')))])
try:
	d = r.get_data_runs()
except MFT.MappingPairsException:
	sys.exit(0)
sys.exit('joined %r' % d)
"""),
dict(id='c10-guid-60-bits', property='C10', file=A, edits=[("datetime.datetime(1582, 10, 15) + datetime.timedelta(microseconds = Timestamp / 10)","datetime.datetime(1582, 10, 15) + datetime.timedelta(microseconds = (Timestamp & 0x0FFFFFFFFFFFFFFF) / 10)")],
 needs='a GUID timestamp of 2**60 or more', breaks='a timestamp after the year 5236 decodes to an earlier instant',
 demo="""
from dfir_ntfs.Attributes import DecodeGUIDTime
assert DecodeGUIDTime(2**60 + 10**12).year > 5000
assert DecodeGUIDTime(2**64 - 1) is None
"""),
dict(id='c12-free-byte-base', property='C12', file=A, edits=[("while index_entry_pos < 24 + index_header.get_first_free_byte() and index_entry_pos < len(self.index_buffer_raw):","while index_entry_pos < index_header.get_first_index_entry() + index_header.get_first_free_byte() and index_entry_pos < len(self.index_buffer_raw):")],
 needs='an index buffer without an end entry, whose slack holds a stale entry right after the used part and whose first entry is more than 24 bytes after the header', breaks='entries after the end of the used part (index slack) are reported as live',
 demo="""
import struct
from dfir_ntfs.Attributes import IndexBuffer
b = bytearray(4096); b[0:4] = b'INDX'
struct.pack_into('<LLLL', b, 24, 40, 40 + 32, 4072, 0)
for k in range(3):
	struct.pack_into('<QHHHH', b, 64 + 32*k, 100 + k, 32, 16, 0, 0)
l = [e.get_file_reference() for e in IndexBuffer(b).index_entries()]
assert l == [100], l
"""),
dict(id='c13-list-name-terminator', property='C13', file=A, edits=[("				if attribute_name_offset + attribute_name_length * 2 > record_length: # This list entry is invalid.","				if attribute_name_offset + attribute_name_length * 2 > record_length + record_length % 8: # This list entry is invalid.")],
 needs='an attribute list entry with an unaligned length whose name reaches a few bytes past that length', breaks='the name is taken from the padding and the next entry',
 demo="""
import struct
from dfir_ntfs.Attributes import AttributeList
v = struct.pack('<LHBBQQH', 0x80, 28, 2, 26, 0, 5, 1) + b'A\\0B\\0C\\0' + bytes(40)
l = list(AttributeList(v).entries())
assert l == [], l
"""),
dict(id='c14-v4-extent-reads-on', property='C14', file=U, edits=[("		usn_record = USN_RECORD_V4(update_sequence_number_record_buf[: record_length])","		usn_record = USN_RECORD_V4(update_sequence_number_record_buf[: max(record_length, 80)])")],
 needs='a version 4 record shorter than 80 bytes followed by more data', breaks='the record is accepted although its length is too small for its version, and its extent comes from following bytes',
 demo="""
import struct
from dfir_ntfs.USN import GetUsnRecord
b = bytearray(200); struct.pack_into('<LHH', b, 0, 72, 4, 0); struct.pack_into('<HH', b, 60, 1, 16)
try:
	r = GetUsnRecord(bytes(b))
except ValueError:
	sys.exit(0)
sys.exit('accepted')
"""),
dict(id='c15-half-window', property='C15', file=U, edits=[("			tmp_buf = buf\n			if tmp_buf.lstrip(b'\\x00') == b'':","			tmp_buf = buf\n			if tmp_buf[ : chunk_size - 64].lstrip(b'\\x00') == b'':")],
 needs='a record that starts in the last 64 bytes of an otherwise empty read window', breaks='the window is taken for empty and the record is lost',
 demo="""
import io, struct
from dfir_ntfs.USN import ChangeJournalParser
def rec(usn):
	b = bytearray(64); struct.pack_into('<LHHQQQQLLLLHH', b, 0, 64, 2, 0, 1, 5, usn, 0, 1, 0, 0, 0, 2, 60); b[60:62] = b'A\\0'
	return bytes(b)
assert len(list(ChangeJournalParser(io.BytesIO(bytes(8192 - 32) + rec(1) + rec(2))).usn_records())) == 2
"""),
dict(id='c02-index-last-sector', property='C02', file=A, edits=[("		if sequence_number_in_usa_bytes != sequence_number_in_sector_bytes:\n			return\n","		if sequence_number_in_usa_bytes != sequence_number_in_sector_bytes and update_bytes != sequence_number_in_sector_bytes:\n			return\n")],
 needs='an index buffer with a torn sector whose tail holds the saved word instead of the update sequence number', breaks='an index buffer with an unprotected (torn) sector is accepted',
 demo="""
import struct
from dfir_ntfs.Attributes import VerifyAndUnprotectIndexSectors
b = bytearray(4096); b[0:4] = b'INDX'; struct.pack_into('<HH', b, 4, 40, 9); struct.pack_into('<LLLL', b, 24, 40, 100, 4072, 0)
b[40:42] = b'\\x07\\x00'
for i in range(8): b[512*i+510:512*i+512] = b'\\x07\\x00'
assert VerifyAndUnprotectIndexSectors(bytearray(b)) is not None
b[4094:4096] = b'\\0\\0'
assert VerifyAndUnprotectIndexSectors(b) is None
"""),
dict(id='c11-si-short-usn', property='C11', file=A, edits=[("		data = self.value[64 : 72]\n		if len(data) == 8:\n			return struct.unpack('<Q', data)[0]","		data = self.value[64 : 72]\n		if len(data) > 0:\n			return int.from_bytes(data, 'little')")],
 needs='a standard information value cut inside the last field', breaks='a truncated USN field is reported with a made-up value instead of being absent',
 demo="""
from dfir_ntfs.Attributes import StandardInformation
assert StandardInformation(bytes(64) + b'\\x01\\x02').get_usn() is None
"""),
]
