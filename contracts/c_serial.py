"""Serialisation: what is written is read back unchanged."""
import z3
from spec import *
CPP = 'serial.cpp'
B = lambda e: Cond('bv', e)
SIZES = dict(scalar=1, int=1, vec2=2, vec3=3, vec8=8, mat33=9, mat34=12, mat43=12, mat44=16, quat=4, pose=7, epose=43, evec2=6, evec3=12, velocity=3,
             cam2=13, cam3=14, cam6=17, poses=14, dyn=5)
MS = dict(int=1, pose=7, pos=3, epose=43, list=6)


def mk(ch, t, n, meas=False):
    nm = 'ser_%s_%s%s' % (ch, 'm_' if meas else '', t)

    @unit(nm, CPP, cost=2)
    def _(u):
        cam, num = t.startswith('cam'), t == 'int'
        x = [] if num else u.vec('x', n)
        ts = u.int('ts', bits=64, sampler=lambda r: r.randint(1, 1 << 62)) if meas else z3.BitVecVal(1, 64)
        k = []
        if num:
            k = [u.int('k', bits=64, lo=-(1 << 31), hi=(1 << 31) - 1, sampler=lambda r: r.randint(-1000, 1000))]
        if cam:
            k = [u.int(c, bits=64, sampler=lambda r: r.randint(1, 5000)) for c in 'wh']
        u.inputs(x or [const(0)])
        u.iinputs([ts] + k)
        y = x or [const(0)]
        if t in ('poses', 'list'):
            y = y + [const(2)]
        o = u.outs(len(y))
        io = u.iouts(3 + len(k) + 2 * cam)
        for i, v in enumerate(y):
            u.eq('element %d comes back' % i, o[i], v)
        for i, v in enumerate(k):
            u.holds('integer %d comes back' % i, B(io[3 + i] == v))
        if cam:
            R = int(t[3:])
            u.holds('number of radial parameters and type', B(z3.And(io[5] == R, io[6] == {2: 1, 3: 2, 6: 3}[R])))
        u.holds('read as written', B(z3.And(io[0] == 0, io[1] == 1)))
        if meas:
            u.holds('time stamp comes back', B(io[2] == ts))


for ch in ('tape', 'pack', 'obj', 'as'):
    for t, n in SIZES.items():
        if not (ch == 'tape' and t == 'dyn'):
            mk(ch, t, n)
    for t, n in MS.items():
        mk(ch, t, n, True)


# malformed msgpack data are refused: the converters accept exactly the length they write
for t, n, good in (('vec3', 3, 3), ('mat34', 12, 12), ('quat', 4, 4), ('pose', 7, 2), ('epose', 43, 3), ('evec3', 12, 2), ('cam2', 13, 6)):
    def mkbad(way, t=t, n=n, good=good):
        @unit('ser_len_' + t + ('_as' if way else ''), CPP, 'vc_ser_len_' + t)
        def _(u):
            u.inputs(u.vec('x', n))
            k = u.int('len', bits=64, lo=0, hi=60, sampler=lambda r: r.choice([good, r.randint(0, 60)]))
            u.iinputs([k, z3.BitVecVal(640, 64), z3.BitVecVal(480, 64), z3.BitVecVal(way, 64)])
            io = u.iouts(1)
            u.throw_if = B(k != good)
            u.holds('accepted', B(io[0] == 1))

        @unit('ser_str_' + t + ('_as' if way else ''), CPP, 'vc_ser_str_' + t)
        def _(u):
            u.inputs(u.vec('x', n))
            u.iinputs([z3.BitVecVal(v, 64) for v in (0, 640, 480, way)])
            u.iouts(1)
            u.throw_if = B(z3.BoolVal(True))
    mkbad(0)
    mkbad(1)


@unit('ser_nil', CPP)
def _(u):
    u.inputs([const(0)])
    io = u.iouts(4)
    u.holds('an empty measurement stays empty', B(z3.And(*[io[i] == 1 for i in range(4)])))


for way in (0, 1):
    @unit('ser_badm' + ('_as' if way else ''), CPP, 'vc_ser_badm')
    def _(u, way=way):
        u.inputs(u.vec('x', 3))
        k = u.int('len', bits=64, lo=0, hi=60, sampler=lambda r: r.choice([2, r.randint(0, 60)]))
        t = u.int('wrongtype', bits=64, lo=0, hi=1, sampler=lambda r: r.randint(0, 1))
        u.iinputs([k, t, z3.BitVecVal(0, 64), z3.BitVecVal(way, 64)])
        io = u.iouts(1)
        u.throw_if = B(z3.Or(k != 2, t != 0))
        u.holds('accepted', B(io[0] == 1))

# end to end through the real archives, files and msgpack buffers
IO = 'serial_io.cpp'
WHY = 'the archive, stream and msgpack libraries are outside the verifier; generated values'


def mkio(nm, t, n, kind):
    @unit(nm, IO, sampled=WHY)
    def _(u):
        x = u.vec('x', n)
        u.inputs(x)
        ts = u.int('ts', bits=64, lo=1, hi=1 << 62, sampler=lambda r: r.randint(1, 1 << 62))
        u.iinputs([ts, z3.BitVecVal(640, 64), z3.BitVecVal(480, 64)])
        m = n + (t in ('poses', 'list'))
        chans = 1 if kind == 'str' else 5
        u.outs(chans * m)
        u.iouts(8)
        u.nsamp = 60

        def chk(env, inp, out, io):
            for c in range(chans):
                for i in range(n):
                    tol = 1e-5 * abs(inp[i]) if kind == 'str' else 0
                    if not abs(out[c * m + i] - inp[i]) <= tol:
                        return 'channel %d: element %d came back as %r instead of %r' % (c, i, out[c * m + i], inp[i])
                if m > n and out[c * m + n] != 2:
                    return 'channel %d: %r elements instead of 2' % (c, out[c * m + n])
                if kind == 'meas' and io[c] != env['ts']:
                    return 'channel %d: time stamp %d instead of %d' % (c, io[c], env['ts'])
            if t == 'cam3' and list(io[3:7]) != [640, 480, 3, 2]:
                return 'intrinsics came back with size, radial parameters, type %r' % list(io[3:7])
        u.oracles.append(('round trip', chk))


for t in ('mat34', 'pose', 'epose', 'evec3', 'cam3', 'poses'):
    mkio('ser_io_' + t, t, SIZES[t], 'val')
for t in ('pose', 'epose', 'list'):
    mkio('ser_iom_' + t, t, MS[t], 'meas')
for t in ('vec3', 'pose', 'mat33'):
    mkio('ser_str_io_' + t, t, SIZES[t], 'str')


@unit('ser_io_missing', IO, sampled='missing and malformed files')
def _(u):
    u.inputs([const(0)])
    u.iouts(1)
    u.nsamp = 1
    u.oracles.append(('errors reported', lambda env, inp, out, io: None if io[0] == 31 else 'a missing or malformed file was not reported: %d' % io[0]))


BADF = ['%s of %s' % (k, f) for f in ('a text file which is no archive', 'an empty file') for k in ('value', 'measurement', 'value of a measurement', 'binary value')] + ['text file cut off', 'measurement cut off', 'value of a measurement cut off', 'binary file cut off', 'unknown protocol', 'string cut off']


def bad_files(t):
    @unit('ser_io_bad_' + t, IO, sampled='files which are no archive or end early, unknown protocol')
    def _(u):
        u.inputs(u.vec('x', SIZES[t])); u.iinputs([u.int('cut', lo=0, hi=85, sampler=lambda r: r.randint(5, 85))]); u.iouts(len(BADF)); u.nsamp = 40
        u.oracles.append(('unreadable data is reported', lambda env, inp, out, io: next(('%s: %s' % (n, 'nothing is reported' if x == 0 else 'an exception of another kind') for n, x in zip(BADF, io) if x != 1), None)))


for t in ('pose', 'mat33', 'epose'):
    bad_files(t)


@unit('ser_io_dynmat', IO, sampled='matrix whose size is not part of its type')
def _(u):
    u.inputs(u.vec('x', 4)); u.iouts(2); u.nsamp = 3
    u.oracles.append(('refused', lambda env, inp, out, io: None if list(io[:2]) == [1, 1] else 'msgpack accepts a matrix of unknown size: %r' % (io[:2],)))
