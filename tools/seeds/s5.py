RUN = """
import csv, io, os, struct, subprocess, tempfile
def run(script, *args, **files):
	with tempfile.TemporaryDirectory() as d:
		for n, b in files.items(): open(os.path.join(d, n), 'wb').write(b)
		out = os.path.join(d, 'out')
		subprocess.run([sys.executable, os.path.join(os.getcwd(), script)] + [os.path.join(d, a) if a in files or a == 'out' else a for a in args], check=True, env=dict(os.environ, PYTHONPATH=os.getcwd(), PYTHONDONTWRITEBYTECODE='1'))
		return open(out, newline='', encoding='utf-8').read()
"""
NT = RUN + """
def res(t, v, name=''):
	n = name.encode('utf-16le'); vo = (24 + len(n) + 7) & ~7; rl = (vo + len(v) + 7) & ~7
	b = struct.pack('<LLBBHHHLHH', t, rl, 0, len(name), 24, 0, 1, len(v), vo, 0) + n
	return (b.ljust(vo, b'\\0') + v).ljust(rl, b'\\0')
def fname(parent, name, t=(0x01D5000000000001,)*4, size=0, attr=0x20):
	return struct.pack('<QQQQQQQLLBB', parent, *t, size, size, attr, 0, len(name), 1) + name.encode('utf-16le')
def frs(num, seq, flags, attrs, slack=b''):
	a = b''.join(attrs); b = bytearray(1024); b[:4] = b'FILE'
	struct.pack_into('<HHQHHHHLLQHHL', b, 4, 48, 3, 0, seq, 1, 56, flags, 56 + len(a) + 8, 1024, 0, 9, 0, num)
	d = a + b'\\xff\\xff\\xff\\xff\\0\\0\\0\\0' + slack; assert len(d) + 56 < 510
	b[56:56+len(d)] = d
	struct.pack_into('<H', b, 48, 7)
	for i in (1, 2):
		b[48+2*i:50+2*i] = b[512*i-2:512*i]; struct.pack_into('<H', b, 512*i-2, 7)
	return bytes(b)
ROOT = 5 | 5 << 48
def table(extra, n=8):
	s = {0: frs(0, 1, 1, [res(0x100, b'x' * 8)]), 3: frs(3, 3, 1, [res(0x70, bytes(8) + b'\\3\\1\\0\\0')]), 5: frs(5, 5, 3, [res(0x30, fname(ROOT, '.', attr=0x10000000))])}
	s.update(extra)
	return b''.join(s.get(i, bytes(1024)) for i in range(n))
"""
SEEDS = [
dict(id='c42-deleted-label', property='C42', file='fat_parser', edits=[("if (not found_label) and (not item.is_deleted) and FAT.IsVolumeLabel(item.attributes):", "if (not found_label) and FAT.IsVolumeLabel(item.attributes):")],
 needs='a root directory with a deleted volume label in front of the current one', breaks='the deleted label is reported as the label of the volume, the current one as an ordinary file',
 demo=RUN + """
b = bytearray(512); b[0:3] = b'\\xeb\\x3c\\x90'
struct.pack_into('<HBHBHHBHHHLL', b, 11, 512, 1, 1, 2, 16, 4200, 0xF8, 17, 32, 64, 0, 0)
b[38] = 0x29; b[54:62] = b'FAT16   '; b[510:] = b'\\x55\\xaa'
def short(name, attr): return name + bytes([attr, 0]) + bytes(7) + struct.pack('<HHHHL', 0, 0, 0x21, 0, 0)
fat = struct.pack('<HH', 0xFFF8, 0xFFFF).ljust(17 * 512, b'\\0')
root = (short(b'\\xe5LDNAME    ', 8) + short(b'NEWNAME    ', 8)).ljust(512, b'\\0')
img = (bytes(b) + fat + fat + root).ljust(4200 * 512, b'\\0')
rows = [r for r in csv.reader(io.StringIO(run('fat_parser', 'img', '0', 'out', img=img)))][1:]
sys.exit(0 if [r[2].endswith('(Volume Label)') for r in rows] == [False, True] else str(rows))
"""),
dict(id='c43-reused-parent', property='C43', file='ntfs_parser', edits=[("						parent_file_record = mft.get_file_record_by_number(parent_fr_number, parent_fr_sequence)", "						parent_file_record = mft.get_file_record_by_number(parent_fr_number)")],
 needs='a file name in the slack space of a file record whose parent directory was deleted and its record number used again', breaks='the carved file is reported below the directory that has the record number now, instead of an unknown one',
 demo=NT + """
slack = fname(6 | 1 << 48, 'old.txt') + b'\\x01\\xff' * 6
t = table({6: frs(6, 4, 3, [res(0x30, fname(ROOT, 'new dir', attr=0x10000000))]), 7: frs(7, 1, 1, [res(0x30, fname(ROOT, 'f'))], slack)})
paths = [r[5] for r in csv.reader(io.StringIO(run('ntfs_parser', '--mft', 'mft', 'out', mft=t))) if r[0] == 'Slack']
sys.exit(0 if paths == ['<Unknown>/old.txt'] else str(paths))
"""),
]
FUSE = """
import types
class E(Exception):
	def __init__(self, n): self.errno = n
m = types.ModuleType('llfuse')
m.ROOT_INODE = 1; m.Operations = type('Operations', (), {}); m.EntryAttributes = type('A', (), {}); m.StatvfsData = type('S', (), {}); m.FUSEError = E; m.default_options = frozenset()
m.init = lambda fs, where, opts=None: setattr(m, 'fs', fs)
m.main = lambda workers=1: serve(m.fs)
m.close = lambda unmount=True: m.fs.destroy()
sys.modules['llfuse'] = m
"""
SEEDS += [
dict(id='c44-sequential-read', property='C44', file='vsc_mount', edits=[("		self._vss.seek(off)\n", "		if off != 0:\n			self._vss.seek(off)\n")],
 needs='a read of the start of the image after a read of another place', breaks='the bytes that follow the last read are served in place of the start of the image',
 demo=FUSE + """
import runpy, struct, tempfile, os, shutil
GUID = bytes.fromhex('6B87083876C1484EB7AE04046E6CC752'); BLK = 0x4000
def pad(b, n): return b.ljust(n, b'\\0')
def block(kind, at, body=b''): return pad(pad(GUID + struct.pack('<LLQQQ', 1, kind, 0, at, 0), 0x80) + body, BLK)
sb = GUID + struct.pack('<LLQQQQQ', 1, 1, 7680, 7680, 0, BLK, 0) + b'V' * 32
v = pad(pad(b'\\xeb\\x52\\x90NTFS    ', 7680) + sb, BLK)
g = b'1' * 16
c2 = pad(struct.pack('<LLQ', 2, 0, 6 * BLK) + g + struct.pack('<QQQ', 1, 0, 0), 0x80)
c3 = pad(struct.pack('<LLQ', 3, 0, 2 * BLK) + g + bytes(48), 0x80)
v += block(2, BLK, c2 + c3) + block(3, 2 * BLK) + b'\\xaa' * BLK + b'\\xbb' * (2 * BLK)
got = []
def serve(fs):
	h = fs.open(2, 0, None)
	got.extend([fs.read(h, 0, 16), fs.read(h, 3 * BLK, 16), fs.read(h, 0, 16)])
d = tempfile.mkdtemp()
try:
	p = os.path.join(d, 'v'); open(p, 'wb').write(v)
	sys.argv = ['vsc_mount', '--mount', p, '0', '1', d]
	runpy.run_path(os.path.join(os.getcwd(), 'vsc_mount'), run_name='__main__')
finally: shutil.rmtree(d)
sys.exit(0 if [bytes(x) for x in got] == [v[:16], b'\\xaa' * 16, v[:16]] else str(got))
"""),
]
