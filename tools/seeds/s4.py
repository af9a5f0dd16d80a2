F = 'dfir_ntfs/addons/FAT.py'
X = 'dfir_ntfs/addons/exFAT.py'
MT = 'dfir_ntfs/MoveTable.py'
W = 'dfir_ntfs/WSL.py'
M = 'dfir_ntfs/MFT.py'
BS = """
import io, struct
from dfir_ntfs.addons import FAT
def bs16(sec=512, spc=1, rsv=1, nfat=2, root=16, tot=4200, fatsz=17, t32=0):
	b = bytearray(512); b[0:3] = b'\\xeb\\x3c\\x90'
	struct.pack_into('<HBHBHHBHHHLL', b, 11, sec, spc, rsv, nfat, root, tot, 0xF8, fatsz, 32, 64, 0, t32)
	b[38] = 0x29; b[54:62] = b'FAT16   '; b[510:] = b'\\x55\\xaa'
	return bytes(b)
def bs32(ext=0, nfat=2, tot=80000, fatsz=600, rootc=2):
	b = bytearray(512); b[0:3] = b'\\xeb\\x58\\x90'
	struct.pack_into('<HBHBHHBHHHLL', b, 11, 512, 1, 32, nfat, 0, 0, 0xF8, 0, 32, 64, 0, tot)
	struct.pack_into('<LHHLHH', b, 36, fatsz, ext, 0, rootc, 1, 6)
	b[66] = 0x29; b[82:90] = b'FAT32   '; b[510:] = b'\\x55\\xaa'
	return bytes(b)
def short(name, attr=0x20, clus=0, size=0):
	return name + bytes([attr, 0]) + bytes(7) + struct.pack('<HHHHL', clus >> 16, 0, 0x21, clus & 0xffff, size)
def long(order, chk, name):
	n = (name + '\\0' + '\\uffff' * 13)[:13] if len(name) < 13 else name
	r = n.encode('utf-16le', 'surrogatepass')
	return bytes([order]) + r[:10] + bytes([15, 0, chk]) + r[10:22] + b'\\0\\0' + r[22:26]
"""
EX = """
import io, struct
from dfir_ntfs.addons import exFAT
CS = 512
def region(heap=256, count=1800, fats=1, root=4, flags=0, fat_off=24, fatlen=16, vol=2100):
	b = bytearray(12 * 512); b[0:3] = b'\\xeb\\x76\\x90'; b[3:11] = b'EXFAT   '
	struct.pack_into('<QQLLLLLLHHBBBBB', b, 64, 0, vol, fat_off, fatlen, heap, count, root, 1, 0x100, flags, 9, 0, fats, 0x80, 0)
	b[510:512] = b'\\x55\\xaa'
	for i in range(1, 9): b[i*512+508:i*512+512] = b'\\0\\0\\x55\\xaa'
	c = 0
	for i in range(11 * 512):
		if i in (106, 107, 112): continue
		c = (((c & 1) << 31 | c >> 1) + b[i]) & 0xFFFFFFFF
	b[11*512:] = struct.pack('<L', c) * 128
	return bytes(b)
def eset(name, clus=0, size=0, attr=0x20, used=True, flags=1, extra=(), mtime=0x52215000, sec=None):
	u = 0x80 if used else 0
	n = name.encode('utf-16le')
	parts = [bytes([0x40 | u, flags]) + struct.pack('<BBHHQLLQ', 0, len(name), 0, 0, size, 0, clus, size)]
	for i in range(0, len(n), 30): parts.append(bytes([0x41 | u, 0]) + n[i:i+30].ljust(30, b'\\0'))
	parts += list(extra)
	h = bytes([0x05 | u, len(parts)]) + bytes(2) + struct.pack('<HHLLLBBBBB', attr, 0, 0x52215000, mtime, 0x52215000, 0, 0, 0, 0, 0) + bytes(7)
	s = h + b''.join(parts); c = 0
	for i in range(len(s)):
		if i in (2, 3): continue
		c = (((c & 1) << 15 | c >> 1) + s[i]) & 0xFFFF
	return s[:2] + struct.pack('<H', c) + s[4:]
def bitmap(clus, size, n=0):
	return bytes([0x81, n]) + bytes(18) + struct.pack('<LQ', clus, size)
def image(br, fat, clusters, heap=256, size=2100 * 512):
	v = bytearray(size); v[:len(br)] = br; v[12*512:12*512+len(br)] = br
	v[24*512:24*512+len(fat)*4] = struct.pack('<%dL' % len(fat), *fat)
	for c, d in clusters.items(): v[(heap + c - 2) * CS:(heap + c - 2) * CS + len(d)] = d
	return bytes(v)
EOC = 0xFFFFFFFF
"""
SEEDS = [
dict(id='c28-active-fat-last', property='C28', file=F, edits=[("if fat_num + 1 > self.get_bpb_numfats(): # Something is wrong, use FAT 0.","if fat_num > self.get_bpb_numfats(): # Something is wrong, use FAT 0.")],
 needs='a FAT32 boot sector with mirroring disabled whose active FAT number equals the number of FATs', breaks='a FAT that does not exist (the data area) is used',
 demo=BS+"""
b = FAT.BSBPB(bs32(ext=0x82))
sys.exit(0 if b.fat_offset_and_size()[0] == 32 * 512 else 'wrong FAT')
"""),
dict(id='c29-rho-loop', property='C29', file=F, edits=[("			if next_cluster in chain: # This is a loop, the FAT is corrupted, stop (but do not raise an exception).","			if next_cluster in (first_cluster, curr_cluster): # This is a loop, the FAT is corrupted, stop (but do not raise an exception).")],
 needs='a chain that loops back to a cluster which is neither its first nor its last one', breaks='the chain never ends',
 demo=BS+"""
import signal
signal.alarm(20)
fat = struct.pack('<128L', 0xFFFFFF8, 0xFFFFFFF, 3, 4, 5, 3, *([0] * 122))
f = FAT.FAT(io.BytesIO(fat), 0, 512, 100, 32)
import resource
resource.setrlimit(resource.RLIMIT_AS, (1 << 30, 1 << 30))
sys.exit(0 if f.chain(2) == [2, 3, 4, 5] else 'wrong chain')
"""),
dict(id='c30-second-60', property='C30', file=F, edits=[("	if second > 29:\n","	if second > 30:\n")],
 needs='a directory entry whose time field encodes 60 seconds (30)', breaks='an invalid time stops the parser with an exception instead of being reported as missing',
 demo=BS+"""
sys.exit(0 if FAT.DecodeFATTime(30) is None else 'invalid time')
"""),
dict(id='c31-first-part-lost', property='C31', file=F, edits=[("prev_long_checksum == BuildChecksum(short_name_raw) and get_real_long_order_number(prev_long_order) == 1:","prev_long_checksum == BuildChecksum(short_name_raw) and len(long_entities) > 0:")],
 needs='a set of long name entries whose first part (order number 1) is missing, followed by the right short name', breaks='an incomplete long name is attached to the file instead of being reported as an orphan name',
 demo=BS+"""
s = short(b'ABC     TXT'); c = FAT.BuildChecksum(s[:11])
buf = long(0x42, c, 'tail.txt') + s
e = list(FAT.DirectoryEntries(buf + bytes(512 - len(buf))).entries())
ok = type(e[0]) is FAT.OrphanLongEntry and type(e[1]) is FAT.FileEntry and e[1].long_name is None
sys.exit(0 if ok else 'incomplete long name attached')
"""),
dict(id='c32-beyond-volume', property='C32', file=F, edits=[("if self.volume_size is not None and cluster_offset + self.cluster_size > self.volume_size:","if self.volume_size is not None and cluster_offset > self.volume_size:")],
 needs='a chain that names a cluster which starts at the end of the volume (or is cut by it), with more data after the volume', breaks='data from outside of the volume is returned',
 demo=BS+"""
C = lambda n: 32 + 1200 + n - 2
v = bytearray(1300 * 512); v[:512] = bs32()
v[32*512:32*512+40] = struct.pack('<10L', 0xFFFFFF8, *([0xFFFFFFF] * 9))
v[C(5)*512:C(6)*512] = b'Z' * 512
p = FAT.FileSystemParser(io.BytesIO(bytes(v)), 0, C(5) * 512)
try: p.read_chain(5)
except ValueError: sys.exit(0)
sys.exit('data from outside of the volume')
"""),
dict(id='c33-second-fat-heap', property='C33', file=X, edits=[("if fat_offset > cluster_heap_offset - self.get_fatlength() * number_of_fats:","if fat_offset > cluster_heap_offset - self.get_fatlength():"),("if fat_length * number_of_fats > cluster_heap_offset - fat_offset:","if fat_length > cluster_heap_offset - fat_offset:"),("if cluster_heap_offset < fat_offset + fat_length * number_of_fats:","if cluster_heap_offset < fat_offset + fat_length:")],
 needs='a volume with two FATs where the second one overlaps the cluster heap', breaks='the invalid boot region is accepted',
 demo=EX+"""
br = region(heap=48, count=1800, fats=2, fatlen=16)
try: exFAT.BR(br)
except exFAT.BootRegionException: sys.exit(0 if exFAT.BR(region(heap=56, fats=2)) else 1)
sys.exit('accepted')
"""),
dict(id='c34-second-stream', property='C34', file=X, edits=[("if i >= 64 and secondary_entry_type_pure == DE_STREAM_EXTENSION:","if i > 64 and secondary_entry_type_pure == DE_STREAM_EXTENSION:")],
 needs='an entry set whose third secondary entry is another stream extension', breaks='the inconsistent set is reported, with the data of the second stream extension',
 demo=EX+"""
st = bytes([0xC0, 1]) + struct.pack('<BBHHQLLQ', 0, 1, 0, 0, 7, 0, 9, 7)
d = eset('a', 5, 3, extra=(st,))
e = list(exFAT.DirectoryEntries(d + bytes(512 - len(d))).entries())
sys.exit(0 if not any(type(x) is exFAT.FileEntry for x in e) else 'invalid set reported')
"""),
dict(id='c35-other-bitmap', property='C35', file=X, edits=[("if type(entry) is AllocationBitmapEntry and entry.bitmap_id == active_fat:","if type(entry) is AllocationBitmapEntry and entry.bitmap_id >= active_fat:")],
 needs='a volume with two FATs, the first one active, whose root directory lists the second allocation bitmap first', breaks='the bitmap of the inactive FAT is used',
 demo=EX+"""
br = region(fats=2)
root = bitmap(3, 225, 1) + bitmap(2, 225, 0)
v = image(br, [EOC] * 9, {2: b'\\x07', 3: b'\\xff', 4: root})
p = exFAT.FileSystemParser(io.BytesIO(v))
sys.exit(0 if p.bm.is_allocated(9) is False else 'wrong bitmap')
"""),
dict(id='c36-orphan-visited', property='C36', file=X, edits=[("		orphan_directories = reallocated_directories - visited_directories\n		if len(orphan_directories) > 0:\n			for first_cluster in orphan_directories:\n","		if len(reallocated_directories) > 0: # Report the remaining directories.\n			for first_cluster in reallocated_directories:\n")],
 needs='a deleted directory whose first cluster is now used by another directory that is reachable', breaks='the entries of a reachable directory are reported again as those of an orphan directory',
 demo=EX+"""
br = region()
root = bitmap(2, 225) + eset('old', 5, 512, 0x10, used=False, flags=3) + eset('new', 5, 512, 0x10, flags=3)
v = image(br, [EOC] * 9, {2: b'\\x0f', 4: root, 5: eset('file', 0, 0, used=False)})
n = [x.name for x in exFAT.FileSystemParser(io.BytesIO(v)).walk() if type(x) is exFAT.FileEntry]
sys.exit(0 if n == ['/old', '/new', '/new/file'] else repr(n))
"""),
dict(id='c37-machine-id-last', property='C37', file=MT, edits=[("""		machine_id_raw = self.buf[68 : 84]

		# Convert the machine ID from a null-terminated string into a usual string.
		null_pos = machine_id_raw.find(b'\\x00')
		if null_pos != -1:
			machine_id_raw = machine_id_raw[ : null_pos]
""","""		machine_id_raw = self.buf[68 : 84].rstrip(b'\\x00') # Remove the padding.

		# Convert the machine ID from a null-terminated string into a usual string.
		null_pos = machine_id_raw.rfind(b'\\x00')
		if null_pos != -1:
			machine_id_raw = machine_id_raw[ : null_pos]
""")],
 needs='a machine ID field with remnants of two or more older names after its null byte', breaks='parts of older names are reported as the machine ID',
 demo="""
from dfir_ntfs import MoveTable
b = bytearray(124); b[8] = 2; b[68:84] = b'pc\\0old\\0name\\0\\0\\0\\0\\0'
e = MoveTable.LogEntry(bytes(b))
sys.exit(0 if e.get_machine_id_raw() == b'pc' else 'wrong machine ID')
"""),
dict(id='c38-block-limit', property='C38', file=W, edits=[("				block_raw = self.value[pos_block : pos_block + next_block_pos_relative]","				block_raw = self.value[pos_block : pos_block + max(next_block_pos_relative, 16)]")],
 needs='a list of extended attributes with a block shorter than 16 bytes whose value length runs into the next block', breaks='the value includes bytes of the next attribute',
 demo="""
import struct
from dfir_ntfs import WSL
blk = struct.pack('<LHB', 12, 9, 2) + b'ab' + b'xyz'
v = struct.pack('<HH', 0, 1) + blk + struct.pack('<LHB', 0, 1, 1) + b'cd'
r = list(WSL.LXXATTR(v).extended_attributes())
sys.exit(0 if r == [(b'ab', b'xyz'), (b'c', b'd')] else repr(r))
"""),
dict(id='c39-jump-too-far', property='C39', file=M, edits=[("""								# Jump to the file name part and continue.
								pos += 68
""","""								# Jump over the attribute and continue.
								pos += 68 + len(file_name_str) * 2
""")],
 needs='a file name in slack space whose name part was overwritten by another file name attribute (aligned to 2 bytes)', breaks='the second file name is skipped',
 demo="""
import struct
from dfir_ntfs import MFT
T = 0x01CE123456789ABC
def fn(n, par): return struct.pack('<QQQQQQQLLBB', par, T, T, T, T, 0, 0, 0, 0, len(n), 1) + n.encode('utf-16le')
a = fn('A' * 40, 5); b = fn('b', 0x0001000100010001)
v = a[:66 + 60] + b + bytes(40)
r = [x.get_file_name()[-1] if isinstance(x, object) and not isinstance(x, str) else x for x in MFT.SlackSpace(v).carve()]
sys.exit(0 if 'b' in r else 'a file name was not carved: %r' % r)
"""),
dict(id='c40-list-order', property='C40', file=M, edits=[("			attr_list_entries.sort(key = lambda x: x.lowest_vcn)\n","			attr_list_entries.sort(key = lambda x: x.segment_reference & 0xFFFFFFFF)\n")],
 needs='a fragmented $MFT in which a child segment with a higher number holds runs with lower VCNs', breaks='a child segment is looked up before its location is known and the volume is refused',
 demo="""
import io, struct
from dfir_ntfs import MFT
CL = 512
def frs(num, attrs, base=0):
	b = bytearray(1024); b[:4] = b'FILE'
	struct.pack_into('<HHQHHHHLLQHHL', b, 4, 48, 3, 0, 1, 1, 56, 1, 56 + len(attrs) + 8, 1024, base, 9, 0, num)
	b[56:56+len(attrs)] = attrs; struct.pack_into('<L', b, 56 + len(attrs), 0xFFFFFFFF)
	struct.pack_into('<H', b, 48, 7)
	for i in (1, 2):
		b[48+2*i:50+2*i] = b[512*i-2:512*i]; struct.pack_into('<H', b, 512*i-2, 7)
	return bytes(b)
def data(lo, n, lcn, size=0):
	runs = bytes([0x21, n]) + struct.pack('<h', lcn) + b'\\0'; runs = runs.ljust(8, b'\\0')
	h = struct.pack('<LLBBHHHqqHH4x', 0x80, 64 + len(runs), 1, 0, 64, 0, 2, lo, lo + n - 1, 64, 0) + struct.pack('<QQQ', size, size, size)
	return h + runs
def entry(vcn, seg):
	return struct.pack('<LHBBQQH6x', 0x80, 32, 0, 26, vcn, seg | 1 << 48, 2)
SIZE = 24 * CL
v = bytearray(200 * CL)
boot = bytearray(512); boot[3:11] = b'NTFS    '; boot[12] = 2; boot[13] = 1
struct.pack_into('<QQQ', boot, 40, 200, 100, 190); boot[64] = 2; boot[68] = 8; boot[510:] = b'\\x55\\xaa'
v[:512] = boot
# table: VCN 0..7 at 100 (segments 0-3), 8..15 at 120 (4-7), 16..23 at 140 (8-11)
lst2 = b''.join(entry(*x) for x in ((0, 0), (8, 2), (16, 1)))
al2 = struct.pack('<LLBBHHHLHH', 0x20, 24 + len(lst2), 0, 0, 24, 0, 1, len(lst2), 24, 0) + lst2
S = {0: frs(0, al2 + data(0, 8, 100, SIZE)), 1: frs(1, data(16, 8, 140), 1 << 48), 2: frs(2, data(8, 8, 120), 1 << 48), 3: frs(3, struct.pack('<LLBBHHHLHHQBBHL', 0x70, 40, 0, 0, 24, 0, 1, 12, 24, 0, 0, 3, 1, 0, 0)), 9: frs(9, b'')}
pos = lambda n: (100, 120, 140)[n // 4] + (n % 4) * 2
for n, d in S.items(): v[pos(n)*CL:pos(n)*CL+1024] = d
f = MFT.FileSystemParser(io.BytesIO(bytes(v)))
f.seek(9 * 1024)
sys.exit(0 if f.read(1024) == S[9] else 'wrong data')
"""),
dict(id='c41-inconclusive', property='C41', file=M, edits=[("if pos_dict_dup[self.guessed_pos_duplicated_information] < 20 or pos_dict_a[self.guessed_pos_atime_real] < 20:","if pos_dict_dup[self.guessed_pos_duplicated_information] < 20:")],
 needs='candidate blocks that agree on the position of the four timestamps but not on that of the in-memory access time', breaks='the position is guessed from inconclusive data instead of being refused',
 demo="""
import io, struct
from dfir_ntfs import MFT
T = 130000000000000000
img = b''
for i in range(30):
	p = bytearray(4096); p[0:2] = MFT.FILE_CONTROL_BLOCK_SIGNATURE
	struct.pack_into('<QQQQ', p, 32, T, T, T, T); struct.pack_into('<Q', p, 96 + 8 * (i % 3), T)
	img += p
try: list(MFT.MetadataCarver(io.BytesIO(img)).carve_fcb_timestamps())
except ValueError: sys.exit(0)
sys.exit('guessed')
"""),
]
