M='dfir_ntfs/MFT.py'; U='dfir_ntfs/USN.py'; A='dfir_ntfs/Attributes.py'
SEEDS=[
dict(id='c05-sparse-resets-lcn', property='C05', file=M, edits=[("""			data_runs.append((None, count))
""","""			data_runs.append((None, count))
			if len(data_runs) > 2 and data_runs[-2][0] is None:
				curr_offset = 0
""")], needs='two consecutive sparse runs in the middle of a run list followed by an allocated run',
 breaks='the running LCN is reset after two adjacent sparse runs, so the following runs point to wrong clusters',
 demo="""
from dfir_ntfs.MFT import DecodeMappingPairs
r = DecodeMappingPairs(b'\\x11\\x04\\x20\\x01\\x03\\x01\\x02\\x11\\x01\\x05\\x00')
assert r == [(32,4),(None,3),(None,2),(37,1)], r
"""),
dict(id='c06-volume-offset-second-run', property='C06', file=M, edits=[("""				data = self.volume_object.read(self.cluster_size)

				if len(data) == 0:""","""				data = self.volume_object.read(min(self.cluster_size, self.file_size - virtual_cluster_number * self.cluster_size))
				data = data + b'\\x00' * (self.cluster_size - len(data))

				if len(data) == 0:""")], needs='a volume truncated in the middle of a cluster of the file',
 breaks='bytes the volume cannot supply are replaced with zeros instead of raising an error',
 demo="""
import io
from dfir_ntfs.MFT import FragmentedFile, MasterFileTableException
f = FragmentedFile(io.BytesIO(b'A'*700), 0, 512, [(0,2)], 1024)
try:
	d = f.read()
except MasterFileTableException:
	sys.exit(0)
assert False, len(d)
"""),
dict(id='c08-stale-zero-seq', property='C08', file=M, edits=[("""					# Skip this file record.
""".replace('\t\t\t\t\t','\t\t\t\t') + "" if False else """				# Skip this file record.
				pos += self.file_record_segment_size
				continue

			if frs.is_base_file_record_segment():
				mft_number = frs.get_master_file_table_number()
				sequence_number = frs.get_sequence_number()

				if not frs.is_in_use(): # The sequence number is incremented each time a file record segment is deallocated (and the new sequence number can be zero).
					if sequence_number >= 2:
""","""				# Skip this file record.
				pos += self.file_record_segment_size
				continue

			if frs.is_base_file_record_segment():
				mft_number = frs.get_master_file_table_number()
				sequence_number = frs.get_sequence_number()

				if not frs.is_in_use(): # The sequence number is incremented each time a file record segment is deallocated (and the new sequence number can be zero).
					if sequence_number > 2:
""")], needs='a deallocated base segment with sequence number 2 that still has a child segment referring to sequence number 1',
 breaks='enumeration joins such a record without its child segment',
 demo="""
import io, struct
from dfir_ntfs import MFT
def frs(num, seq, flags, base, attrs=b''):
	b = bytearray(1024)
	b[0:4] = b'FILE'; struct.pack_into('<HHQHHHHLLQHHL', b, 4, 48, 3, 0, seq, 1, 56, flags, 56+len(attrs)+8, 1024, base, 9, 0, num)
	b[56:56+len(attrs)] = attrs; struct.pack_into('<L', b, 56+len(attrs), 0xffffffff)
	struct.pack_into('<H', b, 48, 7); b[50:52]=b[510:512]; b[52:54]=b[1022:1024]
	struct.pack_into('<H', b, 510, 7); struct.pack_into('<H', b, 1022, 7)
	return bytes(b)
vi = struct.pack('<LLBBHLHLHBB', 0x70, 40, 0, 0, 24, 0, 1, 12, 24, 0, 0) 
vi = bytearray(40); struct.pack_into('<LLBBHHHLHBB', vi, 0, 0x70, 40, 0, 0, 0, 0, 1, 12, 24, 0, 0); vi[24+8]=3; vi[24+9]=1
img = b''.join([frs(0,1,1,0), frs(1,1,1,0), frs(2,1,1,0), frs(3,3,1,0,bytes(vi)), frs(4,2,0,0), frs(5,1,0,4|(1<<48))])
m = MFT.MasterFileTableParser(io.BytesIO(img))
l = {r.get_master_file_table_number(): len(r.child_frs_list) for r in m.file_records()} if hasattr(MFT.FileRecord, 'child_frs_list') else None
l = {}
for r in m.file_records():
	n = [v for v in vars(r).values() if type(v) is list]
	l[r.get_master_file_table_number()] = len(n[0])
assert l[4] == 1, l
"""),
dict(id='c09-loop-track', property='C09', file=M, edits=[("""						if parent_segment_number in track:
							# An invalid path.""","""						if parent_segment_number in track and len(path_components) > 3:
							# An invalid path."""),], needs='a directory that is its own parent (or two directories that are parents of each other)',
 breaks='a short loop of parent references is followed once more, so the orphan path repeats components',
 demo="""
import io, struct
from dfir_ntfs import MFT
def fn(parent, name, flags=1):
	n = name.encode('utf-16le'); v = struct.pack('<Q', parent) + bytes(56) + bytes([len(name), flags]) + n
	L = (24 + len(v) + 7)//8*8; b = bytearray(L); struct.pack_into('<LLBBHHHLHBB', b, 0, 0x30, L, 0, 0, 0, 0, 1, len(v), 24, 0, 0); b[24:24+len(v)] = v; return bytes(b)
def frs(num, seq, flags, base, attrs=b''):
	b = bytearray(1024)
	b[0:4] = b'FILE'; struct.pack_into('<HHQHHHHLLQHHL', b, 4, 48, 3, 0, seq, 1, 56, flags, 56+len(attrs)+8, 1024, base, 9, 0, num)
	b[56:56+len(attrs)] = attrs; struct.pack_into('<L', b, 56+len(attrs), 0xffffffff)
	struct.pack_into('<H', b, 48, 7); b[50:52]=b[510:512]; b[52:54]=b[1022:1024]
	struct.pack_into('<H', b, 510, 7); struct.pack_into('<H', b, 1022, 7)
	return bytes(b)
vi = bytearray(40); struct.pack_into('<LLBBHHHLHBB', vi, 0, 0x70, 40, 0, 0, 0, 0, 1, 12, 24, 0, 0); vi[24+8]=3; vi[24+9]=1
ref = lambda n: n | (1 << 48)
img = b''.join([frs(0,1,1,0), frs(1,1,1,0), frs(2,1,1,0), frs(3,1,1,0,bytes(vi)), frs(4,1,1,0), frs(5,1,3,0), frs(6,1,3,0,fn(ref(6),'a')), frs(7,1,1,0,fn(ref(6),'f'))])
m = MFT.MasterFileTableParser(io.BytesIO(img))
p = m.build_full_paths(m.get_file_record_by_number(7))
assert len(p) == 1 and p[0].split('/').count('a') == 1, p
"""),
dict(id='c15-zero-gap-step', property='C15', file=U, edits=[("""				# An invalid (or missing) USN record.
				pos += 8
""","""				# An invalid (or missing) USN record.
				pos += 8 if buf[ : 8].strip(b'\\x00') != b'' else 16
""")], needs='a record that starts an odd number of 8-byte units after the start of a run of zeros',
 breaks='the scan walks over zeros in 16-byte steps and misses such a record',
 demo="""
import io, struct
from dfir_ntfs.USN import ChangeJournalParser
def rec(usn):
	b = bytearray(64); struct.pack_into('<LHHQQQQLLLLHH', b, 0, 64, 2, 0, 1, 5, usn, 0, 1, 0, 0, 0, 2, 60); b[60:62] = b'A\\0'
	return bytes(b)
assert len(list(ChangeJournalParser(io.BytesIO(rec(1) + bytes(24) + rec(2))).usn_records())) == 2
"""),
]
