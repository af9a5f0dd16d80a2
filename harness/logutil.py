"""Builders of $LogFile images (concrete layout, possibly symbolic contents)."""
from harness.util import *

PAGE = 4096


def protect(data, usn=0x0101, uo=40):
    """A 4096-byte block with its update sequence array at uo applied (the array area must be free)."""
    saved = b''
    out = b''
    for k in range(PAGE // 512):
        sec = data[k * 512:k * 512 + 512]
        saved = saved + sec[510:512]
        out = out + sec[:510] + p16(usn)
    usa = p16(usn) + saved
    return out[:uo] + usa + out[uo + len(usa):]


def client_record(oldest, restart, name=b'N\0T\0F\0S\0'):
    return p64(oldest) + p64(restart) + p16(0xFFFF) + p16(0xFFFF) + p16(0) + b'\0' * 6 + p32(len(name)) + name + b'\0' * (128 - len(name))


def restart_area(seqbits, clients, current=0, hdr=48, data=64, size=0):
    head = (p64(current) + p16(len(clients)) + p16(0xFFFF) + p16(0 if clients else 0xFFFF) + p16(0) + p32(seqbits) + p16(64 + 160 * len(clients)) + p16(64)
            + p64(size) + p32(0) + p16(hdr) + p16(data) + p32(1))
    out = head + b'\0' * (64 - len(head))
    for c in clients:
        out = out + c
    return out


def restart_page(ver, area, chkdsk=0, sig=b'RSTR', sysps=PAGE, logps=PAGE, off=64, usn=0x0202):
    head = sig + p16(30) + p16(9) + p64(chkdsk) + p32(sysps) + p32(logps) + p16(off) + p16(ver[1]) + p16(ver[0])
    body = head + b'\0' * (off - len(head)) + area
    body = body + b'\0' * (PAGE - len(body))
    return protect(body, usn, 30)


def log_page(items, last_lsn=0, last_end=0, flags=0, fill=b'\0', off2=None, usn=0x0303, sig=b'RCRD', base=None):
    """A log record page; items: list of (offset, bytes)."""
    head = sig + p16(40) + p16(9) + p64(last_lsn) + p32(flags) + p16(1) + p16(1) + p16(0) + b'\0' * 6 + p64(last_end)
    body = base if base is not None else fill * PAGE
    body = head + b'\0' * 20 + (p32(off2) if off2 is not None else b'\0' * 4) + body[64:]
    for o, d in items:
        body = put(body, o, d)
    return protect(body, usn, 40)


def rec_header(this, prev=0, undo=0, length=0, client=0, rtype=1, tid=0, flags=0):
    return p64(this) + p64(prev) + p64(undo) + p32(length) + p32(client) + p32(rtype) + p32(tid) + p16(flags) + b'\0' * 6


def make_lsn(page, off, seq, bits):
    return ((page * PAGE + off) >> 3) + seq * (1 << (64 - bits))


def image(ver, area, pages, first, area2=None):
    """Restart pages, filler up to page first, then the given pages (already protected)."""
    out = restart_page(ver, area) + restart_page(ver, area if area2 is None else area2)
    out = out + b'\0' * (PAGE * (first - 2))
    for p in pages:
        out = out + p
    return out
