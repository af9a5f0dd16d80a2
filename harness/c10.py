"""C10: FILETIME and GUID timestamps."""
import datetime
from dfir_ntfs import Attributes
from harness.util import *

FILES = ['dfir_ntfs/Attributes.py']
ASSUMPTIONS = ['Tolerance: 1 microsecond up to 2^54 microseconds after the epoch (year 2171), 17 microseconds after that (double-precision rounding).']
NEAR = 10 << 54


def usec(dt, epoch):
    return (dt - epoch) // datetime.timedelta(microseconds=1)


def h_decode(ctx, guid, lo, hi):
    t = ctx.int('t', lo, hi)
    epoch = datetime.datetime(1582, 10, 15) if guid else datetime.datetime(1601, 1, 1)
    fn = Attributes.DecodeGUIDTime if guid else Attributes.DecodeFiletime
    limit = usec(datetime.datetime(9999, 12, 31, 23, 59, 59, 999999), epoch) * 10
    dt = fn(t)
    if dt is None:
        ctx.outcome('none')
        ctx.check(t > limit - 200, 'a representable timestamp is not decoded')
        return
    ctx.outcome('decoded')
    err = usec(dt, epoch) * 10 - t
    ctx.check(ctx.And(err <= 170, err >= -170), 'timestamp is off')
    ctx.check(ctx.Implies(t < NEAR, ctx.And(err <= 10, err >= -10)), 'timestamp is off by more than one microsecond')


def h_raise(ctx, guid):
    t = ctx.int('t', 0, (1 << 64) - 1)
    fn = Attributes.DecodeGUIDTime if guid else Attributes.DecodeFiletime
    quiet = fn(t)
    try:
        loud = fn(t, False)
    except Exception:
        ctx.outcome('raised')
        ctx.check(quiet is None, 'raised for a representable timestamp')
        return
    ctx.outcome('decoded')
    ctx.check(quiet is not None, 'an invalid timestamp does not raise')
    ctx.check(quiet == loud, 'the two modes differ')


CASES = []
for _g in (0, 1):
    for _lo, _hi in ((0, (1 << 49) - 1), (1 << 49, NEAR - 1), (NEAR, 2 * NEAR - 1), (2 * NEAR, 4 * NEAR - 1), (4 * NEAR, (1 << 64) - 1)):
        CASES.append({'name': 'decode_%s_%x' % ('guid' if _g else 'filetime', _lo), 'fn': h_decode, 'cfg': {'guid': _g, 'lo': _lo, 'hi': _hi}, 'bounds': 'every timestamp from 0x%x to 0x%x' % (_lo, _hi), 'expect': ['decoded'] + (['none'] if _hi >> 63 else [])})
    CASES.append({'name': 'raise_%d' % _g, 'fn': h_raise, 'cfg': {'guid': _g}, 'bounds': 'every 64-bit timestamp', 'expect': ['decoded', 'raised']})
