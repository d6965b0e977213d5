"""Symbolic executor over rustc's LLVM IR: every instruction of the real code becomes a bit-vector term, all paths
are merged at their join points, panics and checks become proof obligations for the SMT solver."""
import subprocess
import sys
import time
import heapq
from fractions import Fraction
import z3
from ir import (IRError, size_of, field_offset, bits_of, align_of)

sys.setrecursionlimit(20000)


class EngErr(Exception):
    """construct outside the encodable subset: never read as success"""


class UndefErr(EngErr):
    """an undefined value decides something; an error unless the path is infeasible"""


class Undef:
    def __repr__(self):
        return 'UNDEF'


UNDEF = Undef()
TRUE, FALSE = True, False


# ------------------------------------------------------------------ scalar terms
def isc(x):
    return type(x) is int


def bv(x, w):
    return z3.BitVecVal(x, w) if type(x) is int else x


def zb(x):
    return z3.BoolVal(x) if type(x) is bool else x


def b_not(a):
    if type(a) is bool:
        return not a
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def b_and(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    if a.eq(b):
        return a
    return z3.And(a, b)


def b_or(a, b):
    if a is True or b is True:
        return True
    if a is False:
        return b
    if b is False:
        return a
    if a.eq(b):
        return a
    return z3.Or(a, b)


def b_ands(xs):
    out = []
    for x in xs:
        if x is False:
            return False
        if x is True:
            continue
        out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(out)


def b_ors(xs):
    out = []
    for x in xs:
        if x is True:
            return True
        if x is False:
            continue
        out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(out)


def b_ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if type(a) is bool and type(b) is bool:
        if a == b:
            return a
        return c if a else b_not(c)
    if a is True:
        return b_or(c, b)
    if a is False:
        return b_and(b_not(c), b)
    if b is True:
        return b_or(b_not(c), a)
    if b is False:
        return b_and(c, a)
    if a.eq(b):
        return a
    return z3.If(c, a, b)


def mask(w):
    return (1 << w) - 1


def sgn(x, w):
    return x - (1 << w) if x >> (w - 1) else x


K_EXTRACT = z3.Z3_OP_EXTRACT
K_CONCAT = z3.Z3_OP_CONCAT
K_ZEXT = z3.Z3_OP_ZERO_EXT
K_NUM = z3.Z3_OP_BNUM
K_ITE = z3.Z3_OP_ITE


def kind(x):
    return x.decl().kind()


def norm(x):
    return x.as_long() if z3.is_bv_value(x) else x


def extract(x, hi, lo):
    if isc(x):
        return (x >> lo) & mask(hi - lo + 1)
    w = x.size()
    if lo == 0 and hi == w - 1:
        return x
    k = kind(x)
    if k == K_EXTRACT:
        l0 = x.params()[1]
        return extract(x.arg(0), hi + l0, lo + l0)
    if k == K_ZEXT:
        y = x.arg(0)
        yw = y.size()
        if lo >= yw:
            return 0
        if hi < yw:
            return extract(y, hi, lo)
        return zext(extract(y, yw - 1, lo), yw - lo, hi - lo + 1)
    if k == K_CONCAT:
        # parts from msb to lsb
        pos = w
        parts = []
        for i in range(x.num_args()):
            a = x.arg(i)
            aw = a.size()
            plo = pos - aw
            h, l = min(hi, pos - 1), max(lo, plo)
            if h >= l:
                parts.append((extract(norm(a), h - plo, l - plo), h - l + 1))
            pos = plo
        return concat(parts)
    if k == K_ITE:
        a, b = x.arg(1), x.arg(2)
        if z3.is_bv_value(a) and z3.is_bv_value(b):
            return ite(x.arg(0), extract(norm(a), hi, lo), extract(norm(b), hi, lo), hi - lo + 1)
    return z3.Extract(hi, lo, x)


def flat(parts):
    out = []
    for v, w in parts:
        if w == 0:
            continue
        if not isc(v):
            k = kind(v)
            if k == K_CONCAT:
                out += flat([(norm(v.arg(i)), v.arg(i).size()) for i in range(v.num_args())])
                continue
            if k == K_ZEXT:
                y = v.arg(0)
                out += flat([(0, w - y.size()), (y, y.size())])
                continue
        out.append((v, w))
    return out


def concat(parts):
    """[(val,width)] msb first"""
    parts = flat(parts)
    out = []
    for v, w in parts:
        if out:
            pv, pw = out[-1]
            if isc(pv) and isc(v):
                out[-1] = ((pv << w) | v, pw + w)
                continue
            if not isc(pv) and not isc(v):
                # adjacent extracts of the same term
                if kind(pv) == K_EXTRACT and kind(v) == K_EXTRACT and pv.arg(0).eq(v.arg(0)):
                    ph, pl = pv.params()
                    vh, vl = v.params()
                    if pl == vh + 1:
                        out[-1] = (extract(pv.arg(0), ph, vl), pw + w)
                        continue
        out.append((v, w))
    if len(out) == 1:
        return out[0][0]
    if isc(out[0][0]) and out[0][0] == 0:
        rest = out[1:]
        r = rest[0][0] if len(rest) == 1 else z3.Concat([bv(v, w) for v, w in rest])
        if isc(r):
            return r
        return z3.ZeroExt(out[0][1], r)
    return z3.Concat([bv(v, w) for v, w in out])


def zext(x, w, w2):
    if isc(x):
        return x
    if w == w2:
        return x
    return concat([(0, w2 - w), (x, w)])


def sext(x, w, w2):
    if isc(x):
        return sgn(x, w) & mask(w2)
    if w == w2:
        return x
    if kind(x) == K_ZEXT:
        return zext(x, w, w2)
    return z3.SignExt(w2 - w, x)


def ite(c, a, b, w):
    if c is True:
        return a
    if c is False:
        return b
    if isc(a) and isc(b):
        if a == b:
            return a
    elif not isc(a) and not isc(b) and a.eq(b):
        return a
    return z3.If(c, bv(a, w), bv(b, w))


def b2bv(c, w):
    if type(c) is bool:
        return int(c)
    return z3.If(c, z3.BitVecVal(1, w), z3.BitVecVal(0, w))


def bv2b(x):
    """low bit as bool"""
    if isc(x):
        return bool(x & 1)
    x = extract(x, 0, 0)
    if isc(x):
        return bool(x)
    if kind(x) == K_ITE and z3.is_bv_value(x.arg(1)) and z3.is_bv_value(x.arg(2)):
        a, b = x.arg(1).as_long(), x.arg(2).as_long()
        if a == b:
            return bool(a)
        return x.arg(0) if a else b_not(x.arg(0))
    return x == z3.BitVecVal(1, 1)


def runs(m, w):
    """contiguous runs of equal bits msb first: [(bit,width)]"""
    out = []
    for i in range(w - 1, -1, -1):
        b = (m >> i) & 1
        if out and out[-1][0] == b:
            out[-1][1] += 1
        else:
            out.append([b, 1])
    return out


def shape(x, w):
    """parts msb first"""
    if isc(x):
        return [(x, w)]
    return flat([(x, w)])


def bin_op(op, a, b, w):
    if isc(a) and isc(b):
        m = mask(w)
        if op == 'add':
            return (a + b) & m
        if op == 'sub':
            return (a - b) & m
        if op == 'mul':
            return (a * b) & m
        if op == 'and':
            return a & b
        if op == 'or':
            return a | b
        if op == 'xor':
            return a ^ b
        if op == 'shl':
            return (a << b) & m if b < w else 0
        if op == 'lshr':
            return a >> b if b < w else 0
        if op == 'ashr':
            return (sgn(a, w) >> min(b, w - 1)) & m
        if op == 'udiv':
            if b == 0:
                raise EngErr('div0')
            return a // b
        if op == 'urem':
            if b == 0:
                raise EngErr('div0')
            return a % b
        if op in ('sdiv', 'srem'):
            x, y = sgn(a, w), sgn(b, w)
            q = abs(x) // abs(y)
            if (x < 0) != (y < 0):
                q = -q
            return (q if op == 'sdiv' else x - q * y) & m
    if op == 'and':
        if isc(a):
            a, b = b, a
        if isc(b):
            if b == 0:
                return 0
            if b == mask(w):
                return a
            parts = []
            pos = w
            for bit, n in runs(b, w):
                parts.append((extract(a, pos - 1, pos - n), n) if bit else (0, n))
                pos -= n
            if len(parts) <= 9:
                return concat(parts)
        elif a.eq(b):
            return a
        return bv(a, w) & bv(b, w)
    if op in ('or', 'xor'):
        if isc(a):
            a, b = b, a
        if isc(b):
            if b == 0:
                return a
        elif a.eq(b):
            return a if op == 'or' else 0
        r = merge_disjoint(a, b, w)
        if r is not None:
            return r
        if op == 'or':
            if isc(b) and b == mask(w):
                return b
            return bv(a, w) | bv(b, w)
        return bv(a, w) ^ bv(b, w)
    if op == 'shl' and isc(b):
        if b >= w:
            return 0
        if b == 0:
            return a
        return concat([(extract(a, w - 1 - b, 0), w - b), (0, b)])
    if op == 'lshr' and isc(b):
        if b >= w:
            return 0
        if b == 0:
            return a
        return concat([(0, b), (extract(a, w - 1, b), w - b)])
    if op == 'add':
        if isc(a):
            a, b = b, a
        if isc(b):
            if b == 0:
                return a
            # (x + c1) + c2
            if kind(a) == z3.Z3_OP_BADD and a.num_args() == 2 and z3.is_bv_value(a.arg(1)):
                return bin_op('add', norm(a.arg(0)), (a.arg(1).as_long() + b) & mask(w), w)
        return bv(a, w) + bv(b, w)
    if op == 'sub':
        if isc(b):
            return bin_op('add', a, (-b) & mask(w), w)
        if not isc(a) and a.eq(b):
            return 0
        return bv(a, w) - bv(b, w)
    if op == 'mul':
        if isc(a):
            a, b = b, a
        if isc(b):
            if b == 0:
                return 0
            if b & (b - 1) == 0:
                return bin_op('shl', a, b.bit_length() - 1, w)
        return bv(a, w) * bv(b, w)
    if op in ('udiv', 'urem') and isc(b) and b and b & (b - 1) == 0:
        if op == 'udiv':
            return bin_op('lshr', a, b.bit_length() - 1, w)
        return bin_op('and', a, b - 1, w)
    a, b = bv(a, w), bv(b, w)
    return {'shl': lambda: a << b, 'lshr': lambda: z3.LShR(a, b), 'ashr': lambda: a >> b,
            'udiv': lambda: z3.UDiv(a, b), 'urem': lambda: z3.URem(a, b),
            'sdiv': lambda: a / b, 'srem': lambda: z3.SRem(a, b)}[op]()


def merge_disjoint(a, b, w):
    """or/xor of two words whose known-zero parts are complementary -> concat"""
    pa, pb = shape(a, w), shape(b, w)
    if len(pa) == 1 and len(pb) == 1:
        return None
    cuts = set()
    for ps in (pa, pb):
        pos = w
        for v, n in ps:
            cuts.add(pos)
            pos -= n
    cuts.add(0)
    cuts = sorted(cuts, reverse=True)
    if len(cuts) > 40:
        return None

    def piece(ps, hi, lo):
        pos = w
        for v, n in ps:
            if hi < pos and lo >= pos - n:
                o = pos - n
                return extract(v, hi - o, lo - o)
            pos -= n
        raise AssertionError
    parts = []
    for i in range(len(cuts) - 1):
        hi, lo = cuts[i] - 1, cuts[i + 1]
        x, y = piece(pa, hi, lo), piece(pb, hi, lo)
        if isc(x) and x == 0:
            parts.append((y, hi - lo + 1))
        elif isc(y) and y == 0:
            parts.append((x, hi - lo + 1))
        else:
            return None
    return concat(parts)


def icmp(pred, a, b, w):
    if isc(a) and isc(b):
        if pred == 'eq':
            return a == b
        if pred == 'ne':
            return a != b
        if pred[0] == 's':
            a, b = sgn(a, w), sgn(b, w)
        return {'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[pred[1:]]
    if pred == 'ne':
        return b_not(icmp('eq', a, b, w))
    if pred == 'eq':
        if isc(a):
            a, b = b, a
        if isc(b):
            # strip leading/trailing constants
            ps = shape(a, w)
            if len(ps) > 1 and any(isc(v) for v, _ in ps):
                pos = w
                keep = []
                for v, n in ps:
                    c = (b >> (pos - n)) & mask(n)
                    if isc(v):
                        if v != c:
                            return False
                    else:
                        keep.append((v, n, c))
                    pos -= n
                if len(keep) == 1:
                    v, n, c = keep[0]
                    return v == z3.BitVecVal(c, n)
                return z3.And([v == z3.BitVecVal(c, n) for v, n, c in keep])
            if kind(a) == K_ITE and z3.is_bv_value(a.arg(1)) and z3.is_bv_value(a.arg(2)):
                t, f = a.arg(1).as_long() == b, a.arg(2).as_long() == b
                return b_ite(a.arg(0), t, f)
        else:
            if a.eq(b):
                return True
        return bv(a, w) == bv(b, w)
    if not isc(a) and not isc(b) and a.eq(b):
        return pred[1:] in ('ge', 'le')
    if pred[0] == 'u':
        # known ranges
        if isc(b):
            hi = umax(a, w)
            if pred == 'ult':
                if hi < b:
                    return True
                if b == 0:
                    return False
            if pred == 'ugt' and hi <= b:
                return False
            if pred == 'uge' and b == 0:
                return True
            if pred == 'ule' and hi <= b:
                return True
            if pred == 'uge' and hi < b:
                return False
        if isc(a):
            hi = umax(b, w)
            if pred == 'ugt':
                if hi < a:
                    return True
                if a == 0:
                    return False
            if pred == 'ult' and hi <= a:
                return False
            if pred == 'uge' and hi <= a:
                return True
            if pred == 'ule':
                if a == 0:
                    return True
                if hi < a:
                    return False
    a, b = bv(a, w), bv(b, w)
    return {'ugt': lambda: z3.UGT(a, b), 'uge': lambda: z3.UGE(a, b), 'ult': lambda: z3.ULT(a, b),
            'ule': lambda: z3.ULE(a, b), 'sgt': lambda: a > b, 'sge': lambda: a >= b, 'slt': lambda: a < b,
            'sle': lambda: a <= b}[pred]()


def umax(x, w, d=0):
    if isc(x):
        return x
    k = kind(x)
    if k == K_NUM:
        return x.as_long()
    if k == K_ZEXT:
        return umax(x.arg(0), x.arg(0).size(), d + 1)
    if k == K_CONCAT:
        r = 0
        for i in range(x.num_args()):
            a = x.arg(i)
            r = (r << a.size()) | umax(a, a.size(), d + 1)
        return r
    if k == K_ITE and d < 12:
        return max(umax(x.arg(1), w, d + 1), umax(x.arg(2), w, d + 1))
    return mask(w)


# ------------------------------------------------------------------ pointers
class Ptr:
    """alternatives (guard, object id or None for a plain address, symbolic offset or None, constant offset)"""
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        return 'Ptr%r' % (self.alts,)


def P1(obj, const=0, sym=None):
    return Ptr([(True, obj, sym, const)])


M64 = mask(64)


def off_term(sym, const):
    if sym is None:
        return const & M64
    return bin_op('add', sym, const & M64, 64)


def ptr_add(p, sym, const):
    out = []
    for g, o, s, c in p.alts:
        if sym is None:
            out.append((g, o, s, c + const if o is not None else (c + const) & M64))
        else:
            s2 = sym if s is None else bin_op('add', s, sym, 64)
            if isc(s2):
                out.append((g, o, None, c + const + s2))
            else:
                out.append((g, o, s2, c + const))
    return Ptr(out)


def ptr_ite(c, p, q):
    if c is True or p is q:
        return p
    if c is False:
        return q
    if len(p.alts) == 1 and len(q.alts) == 1:
        _, o1, s1, c1 = p.alts[0]
        _, o2, s2, c2 = q.alts[0]
        if o1 == o2 and c1 == c2 and (s1 is s2 or (s1 is not None and s2 is not None and s1.eq(s2))):
            return p
    d = {}
    order = []
    nc = b_not(c)
    for cc, pp in ((c, p), (nc, q)):
        for g, o, s, k in pp.alts:
            gg = b_and(cc, g)
            if gg is False:
                continue
            if o not in d:
                d[o] = (gg, s, k)
                order.append(o)
            else:
                g0, s0, k0 = d[o]
                if s0 is None and s is None and k0 == k:
                    d[o] = (b_or(g0, gg), s, k)
                elif s0 is not None and s is not None and s0.eq(s) and k0 == k:
                    d[o] = (b_or(g0, gg), s, k)
                else:
                    t = ite(g0, off_term(s0, k0), off_term(s, k), 64)
                    if isc(t):
                        d[o] = (b_or(g0, gg), None, t)
                    else:
                        d[o] = (b_or(g0, gg), t, 0)
    if len(order) == 1:
        o = order[0]
        return Ptr([(True, o, d[o][1], d[o][2])])
    return Ptr([(d[o][0], o, d[o][1], d[o][2]) for o in order])


# ------------------------------------------------------------------ memory
class Cells:
    __slots__ = ('d', 'size', 'name', 'input', 'memo')

    def __init__(self, size, name, d=None, inp=None):
        self.size, self.name = size, name
        self.d = {} if d is None else d
        self.input = inp       # list of byte terms for the immutable symbolic buffer
        self.memo = {}


MAXC = 64       # longest cell


class Lazy:
    """bytes that merged from two layouts, at least one of which holds pointers: A if c else B, starting at base in both"""
    __slots__ = ('c', 'A', 'B', 'base')

    def __init__(self, c, A, B, base):
        self.c, self.A, self.B, self.base = c, A, B, base


class State:
    __slots__ = ('env', 'mem', 'own', 'pc', 'mass')

    def __init__(self):
        self.env, self.mem, self.own, self.pc, self.mass = {}, {}, set(), (), Fraction(1)

    def fork(self):
        s = State()
        s.env = dict(self.env)
        s.mem = dict(self.mem)
        self.own = set()
        s.own = set()
        s.pc, s.mass = self.pc, self.mass
        return s


class Frame:
    pass


class Call:
    """a call of a named function in place of a call instruction"""

    def __init__(self, name, args, ins):
        self.a, self.ty, self.res, self.op = [('glob', name), args], ins.ty, ins.res, ins.op


FP = {16: z3.Float16(), 32: z3.Float32(), 64: z3.Float64()}


class Engine:
    def __init__(self, mod, loop_max=300, log=None, solver_timeout=240000):
        self.m = mod
        self.nobj = 0
        self.base = {}
        self.next_base = 0x10000
        self.globs = {}
        self.obl = []        # (kind, id, condition-under-which-it-FAILS, text)
        self.covers = {}     # id -> condition
        self.funcs_used = {}
        self.steps = 0
        self.queries = 0
        self.cross = dict(left=0, agreed=0, undecided=0, skipped=0)
        self.solver_time = 0.0
        self.loop_max = loop_max
        self.assumes = []
        self.stack = []
        self.log = log
        self.timeout = solver_timeout
        self.feas_cache = {}
        self.fsolver = None
        self.noncore = set()
        self.deadline = None
        self.merges = 0
        self.blocks_run = 0
        self.asserted = 0    # assertions met on the way, folded ones included

    # ---------- objects
    def new_obj(self, size, name):
        if not hasattr(self, 'span'):
            self.span, self.exposed, self.addrs = {}, {}, {}
        self.nobj += 1
        o = self.nobj
        self.base[o] = self.next_base
        self.span[o] = size + 1
        self.next_base += (max(size, 1) + 0x1ff) // 0x100 * 0x100
        return o

    def addr(self, p):
        """pointer as a 64 bit integer"""
        r = None
        for g, o, s, c in reversed(p.alts):
            t = off_term(s, c + (self.base[o] if o is not None else 0))
            if o is not None:
                self.exposed[o] = True
                if not isc(t):
                    self.addrs[t.get_id()] = (t, P1(o, c, s))
            r = t if r is None else ite(g, t, r, 64)
        return r

    def glob_ptr(self, st, name):
        o = self.globs.get(name)
        if o is None:
            g = self.m.get_global(name)
            if g is None:
                if name in self.m.funcs or name in self.m.decls:
                    o = self.new_obj(1, '@' + name)
                    self.globs[name] = o
                    self.fn_of = getattr(self, 'fn_of', {})
                    self.fn_of[o] = name
                    self.gcells = getattr(self, 'gcells', {})
                    self.gcells[o] = Cells(1, '@' + name)
                    return P1(o)
                raise EngErr('global ' + name)
            o = self.new_obj(size_of(g.ty), '@' + name)
            self.globs[name] = o
            c = Cells(size_of(g.ty), '@' + name)
            self.gcells = getattr(self, 'gcells', {})
            self.gcells[o] = c
            self.init_const(st, c, 0, g.ty, g.init)
            if not g.const:
                raise EngErr('mutable global ' + name)
        return P1(o)

    def init_const(self, st, c, off, ty, v):
        if v[0] == 'bytes':
            for i, b in enumerate(v[1]):
                c.d[off + i] = (b, 1)
            return
        if v[0] == 'zero':
            for i in range(size_of(ty)):
                c.d[off + i] = (0, 1)
            return
        if v[0] == 'undef':
            return
        if v[0] == 'agg':
            if ty[0] == 'st':
                for i, (t, x) in enumerate(v[1]):
                    self.init_const(st, c, off + field_offset(ty, i), t, x)
            else:
                es = size_of(ty[2])
                for i, (t, x) in enumerate(v[1]):
                    self.init_const(st, c, off + i * es, t, x)
            return
        x = self.val(st, ty, v)
        self.cwrite(c, off, ty, x)

    def cells(self, st, o):
        c = st.mem.get(o)
        if c is None:
            c = getattr(self, 'gcells', {}).get(o)
        return c

    def wcells(self, st, o):
        c = st.mem.get(o)
        if c is None:
            raise EngErr('store to dead/constant object')
        if o not in st.own:
            n = Cells(c.size, c.name, dict(c.d), c.input)
            st.mem[o] = n
            st.own.add(o)
            return n
        return c

    # ---------- cell level
    def to_int(self, v, n):
        """value of an n-byte cell as integer term"""
        if isinstance(v, Ptr):
            return self.addr(v)
        if v is UNDEF:
            return 0
        if isinstance(v, Lazy):
            return self.to_int(self.force(v, 0, n), n)
        return v

    def force(self, v, a, n):
        """bytes a..a+n of a lazy cell"""
        return self.cell_ite(v.c, self.get(v.A, v.base + a, n), self.get(v.B, v.base + a, n), n)

    def piece(self, v, k, a, b):
        """bytes a..b of a cell of k bytes"""
        if isinstance(v, Lazy):
            return Lazy(v.c, v.A, v.B, v.base + a)
        return extract(self.to_int(v, k), b * 8 - 1, a * 8)

    def evict(self, c, off, n):
        """make [off,off+n) free of cells, splitting the ones that stick out"""
        d = c.d
        for o in range(off - MAXC + 1, off + n):
            e = d.get(o)
            if e is None:
                continue
            v, k = e
            if o + k <= off:
                continue
            del d[o]
            if o < off:
                d[o] = (self.piece(v, k, 0, off - o), off - o)
            if o + k > off + n:
                d[off + n] = (self.piece(v, k, off + n - o, k), o + k - off - n)

    def put(self, c, off, n, v):
        e = c.d.get(off)
        if not (e is not None and e[1] == n):
            self.evict(c, off, n)
        else:
            pass
        if v is UNDEF:
            c.d.pop(off, None)
        else:
            c.d[off] = (v, n)

    def get(self, c, off, n):
        e = c.d.get(off)
        if e is not None and e[1] == n and not isinstance(e[0], Lazy):
            return e[0]
        parts = []
        pos = off
        any_ = False
        for o in range(off - MAXC + 1, off + n):
            e = c.d.get(o)
            if e is None:
                continue
            v, k = e
            if o + k <= off:
                continue
            if isinstance(v, Lazy) and o <= off and o + k >= off + n:
                return self.force(v, off - o, n)
            lo, hi = max(o, off), min(o + k, off + n)
            if lo > pos:
                parts.append((0, (lo - pos) * 8))
            if isinstance(v, Lazy):
                parts.append((self.to_int(self.force(v, lo - o, hi - lo), hi - lo), (hi - lo) * 8))
            else:
                x = self.to_int(v, k)
                parts.append((extract(x, (hi - o) * 8 - 1, (lo - o) * 8), (hi - lo) * 8))
            any_ = True
            pos = hi
        if not any_:
            return UNDEF
        if pos < off + n:
            parts.append((0, (off + n - pos) * 8))
        parts.reverse()
        return concat(parts)

    def cwrite(self, c, off, ty, v):
        k = ty[0]
        if k == 'i':
            w = ty[1]
            n = (w + 7) // 8
            if v is UNDEF:
                pass
            elif w == 1:
                v = b2bv(v, 8)
            elif n * 8 != w:
                v = zext(v, w, n * 8)
            if n > 8 and v is not UNDEF:
                for i in range(0, n, 8):
                    m = min(8, n - i)
                    self.put(c, off + i, m, extract(v, (i + m) * 8 - 1, i * 8))
                return
            if n in (1, 2, 4, 8):
                self.put(c, off, n, v)
            else:
                for i in range(n):
                    self.put(c, off + i, 1, v if v is UNDEF else extract(v, i * 8 + 7, i * 8))
            return
        if k == 'f':
            self.put(c, off, ty[1] // 8, v)
            return
        if k == 'ptr':
            self.put(c, off, 8, v)
            return
        if k == 'st':
            for i, t in enumerate(ty[2]):
                self.cwrite(c, off + field_offset(ty, i), t, UNDEF if v is UNDEF else v[i])
            return
        if k in ('arr', 'vec'):
            es = size_of(ty[2])
            if k == 'vec' and ty[2][0] == 'i' and ty[2][1] % 8:
                raise EngErr('store of bit vector')
            for i in range(ty[1]):
                self.cwrite(c, off + i * es, ty[2], UNDEF if v is UNDEF else v[i])
            return
        raise EngErr('cwrite %r' % (ty,))

    def cread(self, c, off, ty):
        k = ty[0]
        if k == 'i':
            w = ty[1]
            n = (w + 7) // 8
            v = self.get(c, off, n)
            if v is UNDEF:
                return UNDEF
            v = self.to_int(v, n)
            if w == 1:
                return bv2b(v)
            return extract(v, w - 1, 0)
        if k == 'f':
            v = self.get(c, off, ty[1] // 8)
            return v if v is UNDEF else self.to_int(v, ty[1] // 8)
        if k == 'ptr':
            return self.as_ptr(self.get(c, off, 8))
        if k == 'st':
            return tuple(self.cread(c, off + field_offset(ty, i), t) for i, t in enumerate(ty[2]))
        if k in ('arr', 'vec'):
            es = size_of(ty[2])
            return tuple(self.cread(c, off + i * es, ty[2]) for i in range(ty[1]))
        raise EngErr('cread %r' % (ty,))

    def as_ptr(self, v):
        if v is UNDEF or isinstance(v, Ptr):
            return v
        if isc(v):
            for o in self.exposed:
                if self.base[o] <= v < self.base[o] + self.span[o]:
                    return P1(o, v - self.base[o])
            return P1(None, v)
        k = self.addrs.get(v.get_id())
        if k is not None:
            return k[1]
        return P1(None, 0, v)

    def resolve(self, st, p):
        """p with its plain addresses turned into places in objects whose addresses are known to the program"""
        if all(o is not None or s is None for _, o, s, c in p.alts):
            return p
        out = []
        for g, o, s, c in p.alts:
            if o is not None or s is None or not self.exposed:
                out.append((g, o, s, c))
                continue
            if not self.feasible(st, g):
                continue
            for g2, o2, s2, c2 in self.place(off_term(s, c), 0).alts:
                gg = b_and(g, g2)
                if gg is not False:
                    out.append((gg, o2, s2, c2))
        return Ptr(out)

    def place(self, v, d):
        if isc(v):
            return self.as_ptr(v)
        k = self.addrs.get(v.get_id())
        if k is not None:
            return k[1]
        if kind(v) == z3.Z3_OP_ITE and d < 40:
            return ptr_ite(v.arg(0), self.place(norm(v.arg(1)), d + 1), self.place(norm(v.arg(2)), d + 1))
        # an integer of unknown make: whichever exposed object's address range it falls into
        alts, other = [], []
        for o in self.exposed:
            b = self.base[o]
            g = b_and(icmp('uge', v, b, 64), icmp('ult', v, b + self.span[o], 64))
            if g is not False:
                alts.append((g, o, bin_op('sub', v, b, 64), 0))
                other.append(b_not(g))
        alts.append((b_ands(other), None, v, 0))
        return Ptr(alts)

    # ---------- merging values
    def vmerge(self, c, a, b, ty):
        if a is b:
            return a
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        k = ty[0]
        if k == 'i':
            if ty[1] == 1:
                return b_ite(c, a, b)
            return ite(c, a, b, ty[1])
        if k == 'ptr':
            return ptr_ite(c, a, b)
        if k == 'f':
            return ite(c, a, b, ty[1])
        if k == 'st':
            return tuple(self.vmerge(c, x, y, t) for x, y, t in zip(a, b, ty[2]))
        if k in ('arr', 'vec'):
            return tuple(self.vmerge(c, x, y, ty[2]) for x, y in zip(a, b))
        raise EngErr('vmerge')

    def cell_ite(self, c, a, b, n):
        if a is b:
            return a
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        if isinstance(a, Lazy) or isinstance(b, Lazy):
            if isinstance(a, Lazy) and isinstance(b, Lazy) and a.A is b.A and a.B is b.B and a.c is b.c and a.base == b.base:
                return a
            return Lazy(c, Cells(n, 'lazy', {0: (a, n)}), Cells(n, 'lazy', {0: (b, n)}), 0)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return ptr_ite(c, self.as_ptr(a), self.as_ptr(b))
        return ite(c, a, b, n * 8)

    def cmerge(self, c, A, B):
        """cells: A if c else B"""
        if A is B or A.d == {} and B.d == {}:
            return A
        out = {}
        da, db = A.d, B.d
        pend = []
        for o, e in da.items():
            f = db.get(o)
            if f is e:
                out[o] = e
            elif f is not None and f[1] == e[1]:
                x = self.cell_ite(c, e[0], f[0], e[1])
                if x is not UNDEF:
                    out[o] = (x, e[1])
            else:
                pend.append((o, o + e[1]))
        for o, e in db.items():
            f = da.get(o)
            if f is None or f[1] != e[1]:
                pend.append((o, o + e[1]))
        if pend:
            pend.sort()
            ivs = []
            for lo, hi in pend:
                if ivs and lo < ivs[-1][1]:
                    ivs[-1][1] = max(hi, ivs[-1][1])
                else:
                    ivs.append([lo, hi])
            for lo, hi in ivs:
                n = hi - lo
                if n <= MAXC and (self.has_ptr(A, lo, hi) or self.has_ptr(B, lo, hi)):
                    out[lo] = (Lazy(c, self.fragment(A, lo, hi), self.fragment(B, lo, hi), 0), n)
                elif n <= 8:
                    x = self.cell_ite(c, self.get(A, lo, n), self.get(B, lo, n), n)
                    if x is not UNDEF:
                        out[lo] = (x, n)
                else:
                    for i in range(lo, hi):
                        x = self.cell_ite(c, self.get(A, i, 1), self.get(B, i, 1), 1)
                        if x is not UNDEF:
                            out[i] = (x, 1)
        r = Cells(A.size, A.name, out)
        return r

    def has_ptr(self, C, lo, hi):
        d = C.d
        return any(isinstance(d[o][0], (Ptr, Lazy)) for o in range(lo, hi) if o in d)

    def fragment(self, C, lo, hi):
        d = C.d
        return Cells(hi - lo, 'lazy', {o - lo: d[o] for o in range(lo, hi) if o in d})

    # ---------- memory access through pointers
    def bounds(self, st, g, o, s, c, n, what):
        cs = self.cells(st, o)
        if cs is None:
            self.oblige(st, 'memory', 0, g, 'access to dead object')
            return None
        if s is None:
            if not (0 <= c and c + n <= cs.size):
                self.oblige(st, 'memory', 0, g, 'out of bounds %s of %s at %d+%d/%d' % (what, cs.name, c, n, cs.size))
                return None
        else:
            t = off_term(s, c)
            if isc(t):
                if t + n > cs.size:
                    self.oblige(st, 'memory', 0, g, 'out of bounds ' + what)
                    return None
            elif cs.size < n:
                self.oblige(st, 'memory', 0, g, 'out of bounds ' + what)
                return None
            else:
                bad = icmp('ugt', t, cs.size - n, 64)
                if bad is not False:
                    self.oblige(st, 'memory', 0, b_and(g, bad), 'out of bounds %s of %s' % (what, cs.name))
        return cs

    def oblige(self, st, kind_, id_, cond, text):
        """the condition must be unsatisfiable on this path"""
        self.asserted += 1
        if cond is False:
            return
        f = b_ands([x for x, _ in st.pc] + [cond])
        if f is False:
            return
        self.obl.append((kind_, id_, f, text + ' @ ' + (self.stack[-1] if self.stack else '')))

    def input_window(self, cs, s, j):
        """byte j of the symbolic buffer viewed from symbolic offset s (barrel shifter)"""
        key = s.get_id()
        ent = cs.memo.get(key)
        if ent is None:
            ent = cs.memo[key] = (s, {})
        memo = ent[1]
        size = cs.size
        nb = max(1, (size - 1).bit_length())
        inp = cs.input

        def lv(bit, j):
            # value at relative j once bits nb-1..bit of the offset are applied
            if bit == nb:
                return inp[j] if 0 <= j < size else 0
            k = (bit, j)
            r = memo.get(k)
            if r is None:
                a = lv(bit + 1, j)
                b = lv(bit + 1, j + (1 << bit))
                r = ite(bv2b(extract(s, bit, bit)), b, a, 8)
                memo[k] = r
            return r
        return lv(0, j)

    def load1(self, st, g, o, s, c, ty):
        n = size_of(ty) if ty[0] != 'i' else (ty[1] + 7) // 8
        cs = self.bounds(st, g, o, s, c, n, 'load')
        if cs is None:
            return UNDEF
        if cs.input is not None:
            if s is None:
                parts = [(cs.input[c + i], 8) for i in range(n)]
            else:
                parts = []
                if c < 0:
                    s, c = off_term(s, c), 0
                for i in range(n):
                    parts.append((self.input_window(cs, s, c + i), 8))
            if ty[0] in ('i', 'f'):
                w = ty[1]
                parts.reverse()
                v = concat(parts)
                return bv2b(v) if w == 1 else extract(v, w - 1, 0)
            tmp = Cells(n, 'tmp')
            for i, (v, _) in enumerate(parts):
                tmp.d[i] = (v, 1)
            return self.cread(tmp, 0, ty)
        if s is None:
            return self.cread(cs, c, ty)
        return self.load_sym(st, cs, s, c, ty, n)

    def load_sym(self, st, cs, s, c, ty, n):
        t = off_term(s, c)
        step, cand = self.candidates(t, cs.size, n)
        r = UNDEF
        # group equal values
        groups = []
        for k in cand:
            v = self.cread(cs, k, ty)
            if v is UNDEF:
                continue
            for grp in groups:
                if type(grp[0]) is type(v) and (grp[0] is v or (isc(v) and grp[0] == v)):
                    grp[1].append(k)
                    break
            else:
                groups.append([v, [k]])
        groups.sort(key=lambda x: len(x[1]))
        for v, ks in reversed(groups):
            if r is UNDEF:
                r = v
                continue
            cond = b_ors([icmp('eq', t, k, 64) for k in ks])
            r = self.vmerge(cond, v, r, ty)
        return r

    def candidates(self, t, size, n):
        """concrete offsets the term t may take (over-approximation from its low constant bits and its maximum)"""
        step = 1
        ps = shape(t, 64)
        low = 0
        if isc(ps[-1][0]):
            step = 1 << ps[-1][1]
            low = ps[-1][0]
        elif kind(t) == z3.Z3_OP_BADD and t.num_args() == 2 and z3.is_bv_value(t.arg(1)):
            p2 = shape(t.arg(0), 64)
            if isc(p2[-1][0]) and p2[-1][0] == 0:
                step = 1 << p2[-1][1]
                low = t.arg(1).as_long() % step
        elif kind(t) == z3.Z3_OP_BMUL and t.num_args() == 2:
            for i in (0, 1):
                if z3.is_bv_value(t.arg(i)):
                    step = t.arg(i).as_long()
        hi = min(size - n, umax(t, 64))
        return step, range(low, hi + 1, step)

    def load(self, st, p, ty):
        if p is UNDEF:
            raise UndefErr('load through undef')
        if len(p.alts) == 1 and p.alts[0][1] is not None:
            g, o, s, c = p.alts[0]
            return self.load1(st, True, o, s, c, ty)
        p = self.resolve(st, p)
        r = UNDEF
        first = True
        for g, o, s, c in reversed(p.alts):
            if o is None:
                if size_of(ty) == 0:
                    continue
                self.oblige(st, 'memory', 0, g, 'load through a plain address')
                continue
            v = self.load1(st, g, o, s, c, ty)
            r = v if r is UNDEF else self.vmerge(g, v, r, ty)
        return r

    def store(self, st, p, ty, v):
        if p is UNDEF:
            raise UndefErr('store through undef')
        p = self.resolve(st, p)
        single = len(p.alts) == 1
        n = size_of(ty) if ty[0] != 'i' else (ty[1] + 7) // 8
        for g, o, s, c in p.alts:
            if o is None:
                self.oblige(st, 'memory', 0, g, 'store through a plain address')
                continue
            cs = self.bounds(st, g, o, s, c, n, 'store')
            if cs is None:
                continue
            if cs.input is not None:
                raise EngErr('store to input')
            if s is None:
                w = self.wcells(st, o)
                if single:
                    self.cwrite(w, c, ty, v)
                else:
                    old = self.cread(w, c, ty)
                    self.cwrite(w, c, ty, self.vmerge(g, v, old, ty))
            else:
                w = self.wcells(st, o)
                t = off_term(s, c)
                step, cand = self.candidates(t, cs.size, n)
                for k in cand:
                    old = self.cread(w, k, ty)
                    cond = b_and(g, icmp('eq', t, k, 64))
                    if cond is False:
                        continue
                    self.cwrite(w, k, ty, self.vmerge(cond, v, old, ty))

    def slice_cells(self, st, p, n):
        """n bytes behind p as a fresh Cells"""
        res = None
        p = self.resolve(st, p)
        for g, o, s, c in reversed(p.alts):
            if o is None:
                self.oblige(st, 'memory', 0, g, 'copy from a plain address')
                continue
            cs = self.bounds(st, g, o, s, c, n, 'copy')
            if cs is None:
                continue
            t = Cells(n, 'copy')
            if cs.input is not None or s is not None:
                for i in range(n):
                    t.d[i] = (self.load1(st, g, o, s, c + i, ('i', 8)), 1)
            else:
                d = cs.d
                if n > 4 * len(d):
                    items = [(k, d[k]) for k in d if k + MAXC > c and k < c + n]
                else:
                    items = [(k, d[k]) for k in range(c - MAXC + 1, c + n) if k in d]
                for k, (v, m) in items:
                    if k + m <= c:
                        continue
                    lo, hi = max(k, c), min(k + m, c + n)
                    if lo == k and hi == k + m:
                        t.d[k - c] = (v, m)
                    else:
                        t.d[lo - c] = (self.piece(v, m, lo - k, hi - k), hi - lo)
            res = t if res is None else self.cmerge(g, t, res)
        return res

    def copy(self, st, dst, src, n):
        if n == 0:
            return
        t = self.slice_cells(st, src, n)
        if t is None:
            return
        single = len(dst.alts) == 1
        for g, o, s, c in dst.alts:
            if o is None:
                self.oblige(st, 'memory', 0, g, 'copy to a plain address')
                continue
            cs = self.bounds(st, g, o, s, c, n, 'copy')
            if cs is None:
                continue
            if s is not None:
                for i in range(n):
                    v = self.get(t, i, 1)
                    self.store(st, Ptr([(g, o, s, c + i)]) if single else Ptr([(g, o, s, c + i), (b_not(g), o, s, c + i)]), ('i', 8), v)
                    if not single:
                        raise EngErr('copy to symbolic multi pointer')
                continue
            w = self.wcells(st, o)
            if not single:
                old = self.slice_cells(st, P1(o, c), n)
                tt = self.cmerge(g, t, old)
            else:
                tt = t
            self.evict(w, c, n)
            for k, (v, m) in tt.d.items():
                w.d[c + k] = (v, m)

    # ---------- solver
    def check(self, f, want_model=False, tactic=True):
        self.queries += 1
        t0 = time.time()
        if tactic:
            s = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'bit-blast', 'sat').solver() if not self.has_fp else z3.Solver()
        else:
            s = z3.Solver()
        s.set('timeout', self.timeout)
        for a in self.assumes:
            s.add(zb(a))
        s.add(zb(f))
        r = s.check()
        self.solver_time += time.time() - t0
        if r == z3.unknown:
            raise EngErr('solver: ' + s.reason_unknown())
        if r == z3.sat and want_model:
            return s.model()
        if r == z3.unsat and self.cross['left'] > 0:
            self.second_opinion(s)
        return r == z3.sat

    has_fp = False

    def second_opinion(self, s):
        """ask cvc5 about a query that z3 found unsatisfiable"""
        t0 = time.time()
        c = self.cross
        c['left'] -= 1
        try:
            t = s.to_smt2()
            if len(t) > 4000000:
                c['skipped'] += 1
                return
            p = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=10000', '-'], input='(set-logic ALL)\n' + t, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=60)
            a = p.stdout.strip().split('\n')[0]
        except (OSError, subprocess.TimeoutExpired):
            a = ''
        finally:
            if self.deadline:
                self.deadline += time.time() - t0
        if a == 'sat':
            raise EngErr('z3 says unsat, cvc5 says sat')
        c['agreed' if a == 'unsat' else 'undecided'] += 1
        if c['undecided'] > 5 + c['agreed']:
            c['left'] = 0     # too hard for it

    def feasible(self, st, cond=True):
        f = b_ands([x for x, _ in st.pc] + [cond])
        if type(f) is bool:
            return f
        k = f.get_id()
        e = self.feas_cache.get(k)
        if e is None:
            e = (f, self.check(f))
            self.feas_cache[k] = e
        return e[1]

    def few_arms(self, st, conds, few=4):
        """the arms of a wide switch that can be taken, if they are few; all otherwise"""
        pc = b_ands([x for x, _ in st.pc])
        k = ('arms', pc if type(pc) is bool else pc.get_id(), tuple((l, c if type(c) is bool else c.get_id()) for l, c in conds))
        if k not in self.feas_cache:
            live, rest = [], list(conds)
            while rest and len(live) <= few:
                m = self.check(b_ands([pc, b_ors([c for _, c in rest])]), True)
                if m is False:
                    break
                i = next((i for i, (_, c) in enumerate(rest) if z3.is_true(m.eval(zb(c), model_completion=True))), None)
                if i is None:
                    live = conds
                    break
                live.append(rest.pop(i))
            names = {l for l, _ in (live if len(live) <= few else conds)}
            self.feas_cache[k] = (pc, conds, [(l, c) for l, c in conds if l in names])
        return self.feas_cache[k][2]

    # ---------- values
    def val(self, st, ty, v):
        k = v[0]
        if k == 'reg':
            try:
                return st.env[v[1]]
            except KeyError:
                raise EngErr('unset %%%s in %s' % (v[1], self.stack[-1]))
        if k == 'c':
            if ty == ('i', 1):
                return bool(v[1])
            return v[1]
        if k == 'glob':
            return self.glob_ptr(st, v[1])
        if k == 'null':
            return P1(None, 0)
        if k == 'undef':
            return UNDEF
        if k == 'zero':
            return self.zero(ty)
        if k == 'agg':
            return tuple(self.val(st, t, x) for t, x in v[1])
        if k == 'splat':
            x = self.val(st, v[1], v[2])
            return tuple(x for _ in range(ty[1]))
        if k == 'gep':
            p = self.val(st, ('ptr',), v[2])
            return self.gep(st, v[1], p, v[3])
        if k == 'cast':
            x = self.val(st, v[2], v[3])
            return self.cast(st, v[1], v[2], x, v[4])
        if k == 'cbin':
            return bin_op(v[1], self.val(st, v[2], v[3]), self.val(st, v[2], v[4]), v[2][1])
        if k == 'bytes':
            return tuple(v[1])
        raise EngErr('val %r' % (v,))

    def zero(self, ty):
        k = ty[0]
        if k == 'i':
            return False if ty[1] == 1 else 0
        if k == 'f':
            return 0
        if k == 'ptr':
            return P1(None, 0)
        if k == 'st':
            return tuple(self.zero(t) for t in ty[2])
        return tuple(self.zero(ty[2]) for _ in range(ty[1]))

    def gep(self, st, bt, p, idx):
        if p is UNDEF:
            return UNDEF
        const = 0
        sym = None
        t = bt
        for n, (it, iv) in enumerate(idx):
            x = self.val(st, it, iv)
            if x is UNDEF:
                raise UndefErr('gep undef')
            if n == 0:
                es = size_of(t)
            elif t[0] == 'st':
                const += field_offset(t, x)
                t = t[2][x]
                continue
            else:
                t = t[2]
                es = size_of(t)
            if isc(x):
                const += sgn(x, it[1]) * es
            else:
                y = sext(x, it[1], 64) if it[1] < 64 else x
                y = bin_op('mul', y, es, 64)
                sym = y if sym is None else bin_op('add', sym, y, 64)
        return ptr_add(p, sym, const)

    def cast(self, st, op, t, x, t2):
        if x is UNDEF:
            return UNDEF
        if t[0] == 'vec':
            if op == 'bitcast' and (t2[0] != 'vec' or t2[1] != t[1]):
                ew = bits_of(t[2])
                parts = [(b2bv(v, 1) if ew == 1 else v, ew) for v in x]
                parts.reverse()
                whole = concat(parts)
                if t2[0] == 'i':
                    return whole
                w2 = bits_of(t2[2])
                return tuple(extract(whole, i * w2 + w2 - 1, i * w2) for i in range(t2[1]))
            return tuple(self.cast(st, op, t[2], v, t2[2]) for v in x)
        if op == 'trunc':
            if t2[1] == 1:
                return bv2b(x)
            return extract(x, t2[1] - 1, 0)
        if op == 'zext':
            if t[1] == 1:
                return b2bv(x, t2[1])
            return zext(x, t[1], t2[1])
        if op == 'sext':
            if t[1] == 1:
                if type(x) is bool:
                    return mask(t2[1]) if x else 0
                return z3.If(x, z3.BitVecVal(mask(t2[1]), t2[1]), z3.BitVecVal(0, t2[1]))
            return sext(x, t[1], t2[1])
        if op in ('ptrtoint', 'ptrtoaddr'):
            return extract(self.addr(x), t2[1] - 1, 0)
        if op == 'inttoptr':
            return self.as_ptr(zext(x, t[1], 64))
        if op == 'bitcast':
            if t2[0] == 'vec':
                w2 = bits_of(t2[2])
                r = tuple(extract(x, i * w2 + w2 - 1, i * w2) for i in range(t2[1]))
                return tuple(bv2b(v) for v in r) if w2 == 1 else r
            return x
        self.has_fp = True
        rm = z3.RNE()
        if op == 'uitofp':
            f = z3.fpToFPUnsigned(rm, bv(x if t[1] != 1 else b2bv(x, 1), t[1]), FP[t2[1]])
            return self.unfp(f)
        if op == 'sitofp':
            return self.unfp(z3.fpSignedToFP(rm, bv(x, t[1]), FP[t2[1]]))
        if op in ('fpext', 'fptrunc'):
            return self.unfp(z3.fpFPToFP(rm, self.fp(x, t[1]), FP[t2[1]]))
        raise EngErr('cast ' + op)

    def fp(self, x, w):
        if not isc(x) and x.decl().kind() == z3.Z3_OP_FPA_TO_IEEE_BV:
            return x.arg(0)
        return z3.fpBVToFP(bv(x, w), FP[w])

    def unfp(self, f):
        f = z3.simplify(f)
        r = z3.simplify(z3.fpToIEEEBV(f))
        return norm(r)

    # ---------- CFG analysis
    def prep(self, f):
        if hasattr(f, 'key'):
            return
        succ = {}
        for b, ins in f.blocks.items():
            t = ins[-1]
            if t.op == 'br':
                succ[b] = [t.a[0]]
            elif t.op == 'cbr':
                succ[b] = [t.a[1], t.a[2]]
            elif t.op == 'switch':
                succ[b] = [t.a[2]] + [l for _, l in t.a[3]]
            elif t.op == 'invoke':
                succ[b] = [t.a[2]]
            else:
                succ[b] = []
        f.succ = succ
        # Bourdoncle style decomposition: nested SCCs
        f.key = {}      # block -> list of (component id, position), last position = own
        f.heads = {}

        def sccs(nodes, entry):
            idx, low, onst, st, out = {}, {}, set(), [], []
            cnt = [0]
            nodeset = set(nodes)

            def strong(v0):
                work = [(v0, iter([x for x in succ[v0] if x in nodeset]))]
                idx[v0] = low[v0] = cnt[0]
                cnt[0] += 1
                st.append(v0)
                onst.add(v0)
                while work:
                    v, it = work[-1]
                    adv = False
                    for x in it:
                        if x not in idx:
                            idx[x] = low[x] = cnt[0]
                            cnt[0] += 1
                            st.append(x)
                            onst.add(x)
                            work.append((x, iter([y for y in succ[x] if y in nodeset])))
                            adv = True
                            break
                        elif x in onst:
                            low[v] = min(low[v], idx[x])
                    if adv:
                        continue
                    work.pop()
                    if work:
                        low[work[-1][0]] = min(low[work[-1][0]], low[v])
                    if low[v] == idx[v]:
                        c = []
                        while True:
                            x = st.pop()
                            onst.discard(x)
                            c.append(x)
                            if x == v:
                                break
                        out.append(c)
            for e in entry:
                if e in nodeset and e not in idx:
                    strong(e)
            for v in nodes:
                if v not in idx:
                    strong(v)
            out.reverse()   # topological
            return out

        comp = [0]

        def rec(nodes, entry, prefix):
            pos = 0
            for c in sccs(nodes, entry):
                pos += 1
                if len(c) == 1 and c[0] not in succ[c[0]]:
                    f.key[c[0]] = prefix + [pos]
                    continue
                cset = set(c)
                # head: the block entered from outside first in layout order
                ent = [b for b in f.order if b in cset and (b == f.entry or any(b in succ[x] for x in f.order if x not in cset))]
                head = ent[0] if ent else [b for b in f.order if b in cset][0]
                comp[0] += 1
                cid = comp[0]
                f.heads[cid] = head
                pre = prefix + [pos, ('L', cid)]
                f.key[head] = pre + [0]
                rest = [b for b in f.order if b in cset and b != head]
                if rest:
                    rec(rest, [x for x in succ[head] if x in cset], pre)
        rec(f.order, [f.entry], [])
        f.loops = {b: [x[1] for x in f.key[b] if isinstance(x, tuple)] for b in f.order}
        # liveness
        use, deff, phiuse = {}, {}, {}

        def regs(v, out):
            if isinstance(v, tuple):
                if len(v) == 2 and v[0] == 'reg':
                    out.add(v[1])
                    return
                for x in v:
                    if isinstance(x, (tuple, list, dict)):
                        regs(x, out)
            elif isinstance(v, list):
                for x in v:
                    regs(x, out)
            elif isinstance(v, dict):
                for x in v.values():
                    regs(x, out)
        for b, ins in f.blocks.items():
            u, d = set(), set()
            for i in ins:
                if i.op == 'phi':
                    for lab, v in i.a[0].items():
                        s = set()
                        regs(v, s)
                        phiuse.setdefault(lab, set()).update(s)
                    d.add(i.res)
                    continue
                s = set()
                regs(i.a, s)
                u |= s - d
                if i.res:
                    d.add(i.res)
            use[b], deff[b] = u, d
        livein = {b: set() for b in f.order}
        ch = True
        while ch:
            ch = False
            for b in reversed(f.order):
                o = set()
                for s_ in succ[b]:
                    if s_ in livein:
                        o |= livein[s_]
                al = [b]
                if b == '<entry>':
                    al.append(getattr(f, 'entry_alias', ''))
                for a_ in al:
                    o |= phiuse.get(a_, set())
                n = use[b] | (o - deff[b])
                if n != livein[b]:
                    livein[b] = n
                    ch = True
        f.livein = livein
        f.types = {}
        for q, t in f.params:
            f.types[q] = t
        for b, ins in f.blocks.items():
            for i in ins:
                if i.res:
                    f.types[i.res] = i.ty
        # blocks that can only end in 'unreachable'
        f.phis = {b: [i for i in ins if i.op == 'phi'] for b, ins in f.blocks.items()}

    # ---------- state merging
    def merge(self, f, block, sts):
        if len(sts) == 1:
            return sts[0]
        self.merges += len(sts) - 1
        # common prefix of path conditions
        n = min(len(s.pc) for s in sts)
        k = 0
        while k < n:
            x = sts[0].pc[k]
            if all(s.pc[k] is x for s in sts[1:]):
                k += 1
            else:
                break
        guards = [b_ands([c for c, _ in s.pc[k:]]) for s in sts]
        total = sum(s.mass for s in sts)
        prefix = sts[0].pc[:k]
        div = [s.pc[k][1] for s in sts if len(s.pc) > k]
        before = div[0] if div else total
        r = State()
        if total == before:
            r.pc, r.mass = prefix, total
        else:
            g = b_ors(guards)
            if type(g) is bool:
                r.pc, r.mass = prefix, total
            else:
                r.pc, r.mass = prefix + ((g, before),), total
        acc = sts[-1]
        env, mem = acc.env, acc.mem
        live = f.livein[block] | {i.res for i in f.phis[block]} if block is not None else {'%ret'}
        env = {q: env[q] for q in live if q in env}
        mem = dict(mem)
        for s, g in zip(reversed(sts[:-1]), reversed(guards[:-1])):
            for q in live:
                a, b = s.env.get(q, UNDEF), env.get(q, UNDEF)
                if a is b:
                    continue
                ty = f.types.get(q) if q != '%ret' else f.rty
                env[q] = self.vmerge(g, a, b, ty)
            for o, A in s.mem.items():
                B = mem.get(o)
                if B is None:
                    mem[o] = A
                elif A is not B:
                    mem[o] = self.cmerge(g, A, B)
        r.env, r.mem = env, mem
        return r

    # ---------- function execution
    def run(self, f, args, st):
        """execute f on st (its memory and path); returns (state or None, return value)"""
        self.prep(f)
        if len(self.stack) > 60:
            raise EngErr('call depth')
        self.stack.append(f.name)
        self.funcs_used[f.name] = self.funcs_used.get(f.name, 0) + 1
        caller_env = st.env
        s0 = State()
        s0.mem, s0.own, s0.pc, s0.mass = st.mem, st.own, st.pc, st.mass
        s0.env = {q: a for (q, _), a in zip(f.params, args)}
        frame_objs = []
        pend = {}
        heap = []
        cnt = 0
        rets = []
        f.rty = None

        def push(block, its, s):
            k = (block, its)
            if k in pend:
                pend[k].append(s)
                return
            pend[k] = [s]
            key = []
            li = iter(its)
            for x in f.key[block]:
                if isinstance(x, tuple):
                    key.append(next(li))
                else:
                    key.append(x)
            heapq.heappush(heap, (key, block, its))

        def edge(src, dst, its, s):
            # loop counters of the destination
            sl, dl = f.loops[src], f.loops[dst]
            ni = []
            for i, cid in enumerate(dl):
                if i < len(sl) and sl[i] == cid:
                    n = its[i]
                    if f.heads[cid] == dst and i == len(dl) - 1:
                        n += 1
                        if n > self.loop_max:
                            self.obl.append(('unwind', 0, b_ands([x for x, _ in s.pc]), 'loop bound in ' + f.name))
                            return
                    ni.append(n)
                else:
                    ni.append(0)
            ph = f.phis[dst]
            if ph:
                al = src
                vals = []
                for i in ph:
                    inc = i.a[0]
                    v = inc.get(al)
                    if v is None and src == '<entry>':
                        v = inc.get(getattr(f, 'entry_alias', ''))
                    if v is None:
                        raise EngErr('phi edge %s->%s in %s' % (src, dst, f.name))
                    vals.append((i.res, self.val(s, i.ty, v)))
                for q, v in vals:
                    s.env[q] = v
            push(dst, tuple(ni), s)

        push(f.entry, tuple(0 for _ in f.loops[f.entry]), s0)
        while heap:
            key, block, its = heapq.heappop(heap)
            sts = pend.pop((block, its))
            s = self.merge(f, block, sts)
            self.blocks_run += 1
            if self.deadline and time.time() > self.deadline:
                raise EngErr('time budget exhausted while encoding')
            inloop = bool(its)
            dead = False
            ins_list = f.blocks[block]
            for ins in ins_list:
                op = ins.op
                if op == 'phi':
                    continue
                self.steps += 1
                if op in ('br', 'cbr', 'switch', 'ret', 'unreachable'):
                    break
                if op == 'invoke':
                    break
                if op == 'alloca':
                    n = self.val(s, ('i', 64), ins.a[1])
                    o = self.new_obj(size_of(ins.a[0]) * n, '%' + str(ins.res))
                    s.mem[o] = Cells(size_of(ins.a[0]) * n, f.name[-40:] + '%' + str(ins.res))
                    s.own.add(o)
                    frame_objs.append(o)
                    s.env[ins.res] = P1(o)
                    continue
                if op == 'call':
                    depth = len(self.stack)
                    try:
                        r = self.call(s, ins)
                    except UndefErr:
                        if self.feasible(s):
                            raise
                        del self.stack[depth:]
                        r = None
                    if r is None:
                        dead = True
                        break
                    if ins.res is not None:
                        s.env[ins.res] = r[0]
                    continue
                try:
                    s.env[ins.res] = v = self.step(s, ins)
                except UndefErr:
                    if self.feasible(s):
                        raise
                    dead = True
                    break
                if ins.res is None:
                    del s.env[None]
            if dead:
                continue
            t = ins_list[-1]
            if t.op == 'invoke':
                r = self.call(s, t)
                if r is None:
                    continue
                if t.res is not None:
                    s.env[t.res] = r[0]
                edge(block, t.a[2], its, s)
            elif t.op == 'br':
                edge(block, t.a[0], its, s)
            elif t.op == 'cbr':
                c = self.val(s, ('i', 1), t.a[0])
                if c is UNDEF:
                    if not self.feasible(s):
                        continue
                    raise UndefErr('branch on undef in ' + f.name)
                a, b = t.a[1], t.a[2]
                if a == b:
                    edge(block, a, its, s)
                elif type(c) is bool:
                    edge(block, a if c else b, its, s)
                else:
                    fa = fb = True
                    if inloop or self.eager:
                        fa = self.feasible(s, c)
                        fb = True if not fa else self.feasible(s, b_not(c))
                    if fa and fb:
                        s2 = s.fork()
                        half = s.mass / 2
                        s.pc = s.pc + ((c, s.mass),)
                        s2.pc = s2.pc + ((b_not(c), s2.mass),)
                        s.mass = s2.mass = half
                        edge(block, a, its, s)
                        edge(block, b, its, s2)
                    else:
                        edge(block, a if fa else b, its, s)
            elif t.op == 'switch':
                ty, v, d, cs = t.a
                x = self.val(s, ty, v)
                if x is UNDEF:
                    if not self.feasible(s):
                        continue
                    raise UndefErr('switch on undef')
                w = ty[1]
                if w == 1:
                    x = b2bv(x, 1)
                if isc(x):
                    dst = d
                    for cv, l in cs:
                        if cv == x:
                            dst = l
                    edge(block, dst, its, s)
                else:
                    arms = {}
                    order = []
                    for cv, l in cs:
                        if l not in arms:
                            arms[l] = []
                            order.append(l)
                        c = icmp('eq', x, cv, w)
                        if c is not False:
                            arms[l].append(c)
                    allc = [c for l in order for c in arms[l]]
                    if d not in arms:
                        order.append(d)
                        arms[d] = []
                    conds = []
                    exhaustive = len(set(cv for cv, _ in cs)) == 1 << w
                    for l in order:
                        if l == d:
                            if exhaustive and not arms[l]:
                                continue
                            others = [c for m_ in order if m_ != d for c in arms[m_]]
                            conds.append((l, b_not(b_ors(others))))
                        else:
                            conds.append((l, b_ors(arms[l])))
                    conds = [(l, c) for l, c in conds if c is not False]
                    if inloop or self.eager:
                        conds = [(l, c) for l, c in conds if self.feasible(s, c)]
                    elif len(conds) > 8:
                        conds = self.few_arms(s, conds)
                    part = s.mass / max(1, len(conds))
                    for i, (l, c) in enumerate(conds):
                        s2 = s.fork() if i + 1 < len(conds) else s
                        if len(conds) > 1:
                            s2.pc = s.pc + ((c, s.mass),) if s2 is not s else s.pc + ((c, s.mass),)
                    # masses after all forks
                        s2_mass = part
                        if s2 is s:
                            s.mass = part
                        else:
                            s2.mass = part
                        edge(block, l, its, s2)
            elif t.op == 'ret':
                f.rty = t.a[0]
                rv = None if t.a[0] is None else self.val(s, t.a[0], t.a[1])
                s.env = {'%ret': rv}
                rets.append(s)
            elif t.op == 'unreachable':
                self.oblige(s, 'unreachable', 0, True, 'unreachable code reached in ' + f.name)
            else:
                raise EngErr('terminator ' + t.op)
        self.stack.pop()
        if not rets:
            return None
        if rets[0].env['%ret'] is None:
            for r in rets:
                r.env = {}
        r = self.merge(f, None, rets)
        rv = r.env.get('%ret')
        for o in frame_objs:
            r.mem.pop(o, None)
        st.mem, st.own, st.pc, st.mass = r.mem, set(), r.pc, r.mass
        st.env = caller_env
        return (rv,)

    eager = False

    # ---------- plain instructions
    def step(self, s, ins):
        op = ins.op
        a = ins.a
        if op == 'bin':
            o, x, y = a
            t = ins.ty
            return self.binary(o, self.val(s, t, x), self.val(s, t, y), t)
        if op == 'icmp':
            pred, t, x, y = a
            return self.icmp(pred, t, self.val(s, t, x), self.val(s, t, y))
        if op == 'load':
            return self.load(s, self.val(s, ('ptr',), a[0]), ins.ty)
        if op == 'store':
            t, v, p = a
            self.store(s, self.val(s, ('ptr',), p), t, self.val(s, t, v))
            return None
        if op == 'gep':
            bt, b, idx = a
            return self.gep(s, bt, self.val(s, ('ptr',), b), idx)
        if op == 'cast':
            o, t, x = a
            return self.cast(s, o, t, self.val(s, t, x), ins.ty)
        if op == 'select':
            ct, c, x, y = a
            c = self.val(s, ct, c)
            x, y = self.val(s, ins.ty, x), self.val(s, ins.ty, y)
            if ct[0] == 'vec':
                return tuple(self.vmerge(ci, xi, yi, ins.ty[2]) for ci, xi, yi in zip(c, x, y))
            if c is UNDEF:
                return x
            if type(c) is bool:
                return x if c else y
            return self.vmerge(c, x, y, ins.ty)
        if op == 'freeze':
            v = self.val(s, ins.ty, a[0])
            return self.zero(ins.ty) if v is UNDEF else v
        if op == 'extractvalue':
            t, v, ix = a
            v = self.val(s, t, v)
            for i in ix:
                if v is UNDEF:
                    return UNDEF
                v = v[i]
            return v
        if op == 'insertvalue':
            v, et, ev, ix = a
            return self.insertv(ins.ty, self.val(s, ins.ty, v), self.val(s, et, ev), ix)
        if op == 'extractelement':
            t, v, it, i = a
            v, i = self.val(s, t, v), self.val(s, it, i)
            if isc(i):
                return v[i]
            r = v[-1]
            for k in range(len(v) - 2, -1, -1):
                r = self.vmerge(icmp('eq', i, k, it[1]), v[k], r, t[2])
            return r
        if op == 'insertelement':
            v, et, ev, it, i = a
            v, i = self.val(s, ins.ty, v), self.val(s, it, i)
            v = [UNDEF] * ins.ty[1] if v is UNDEF else list(v)
            if not isc(i):
                raise EngErr('insertelement')
            v[i] = self.val(s, et, ev)
            return tuple(v)
        if op == 'shufflevector':
            t, x, y, mt, mv = a
            x, y = self.val(s, t, x), self.val(s, t, y)
            x = (UNDEF,) * t[1] if x is UNDEF else x
            y = (UNDEF,) * t[1] if y is UNDEF else y
            mm = self.val(s, mt, mv)
            xy = tuple(x) + tuple(y)
            return tuple(UNDEF if i is UNDEF else xy[i] for i in mm)
        if op == 'fcmp':
            pred, t, x, y = a
            return self.fcmp(pred, self.val(s, t, x), self.val(s, t, y), t[1])
        if op == 'fneg':
            x = self.val(s, ins.ty, a[0])
            return bin_op('xor', x, 1 << (ins.ty[1] - 1), ins.ty[1])
        raise EngErr('instruction ' + op)

    def insertv(self, ty, v, x, ix):
        n = len(ty[2]) if ty[0] == 'st' else ty[1]
        v = [UNDEF] * n if v is UNDEF else list(v)
        if len(ix) == 1:
            v[ix[0]] = x
        else:
            et = ty[2][ix[0]] if ty[0] == 'st' else ty[2]
            v[ix[0]] = self.insertv(et, v[ix[0]], x, ix[1:])
        return tuple(v)

    nundef = 0

    def binary(self, o, x, y, t):
        if t[0] == 'vec':
            return tuple(self.binary(o, p, q, t[2]) for p, q in zip(x, y))
        if x is UNDEF or y is UNDEF:
            if x is y or t[0] != 'i' or t[1] == 1 or o not in ('and', 'or', 'shl', 'lshr'):
                return UNDEF
            # part of the result may still be defined: any value for the rest
            Engine.nundef += 1
            w = z3.BitVec('undef!%d' % Engine.nundef, t[1])
            x, y = (w, y) if x is UNDEF else (x, w)
        if t[0] == 'f':
            self.has_fp = True
            f = {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}[o]
            return self.unfp(f(z3.RNE(), self.fp(x, t[1]), self.fp(y, t[1])))
        if t[1] == 1:
            if o == 'and':
                return b_and(x, y)
            if o == 'or':
                return b_or(x, y)
            if o in ('xor', 'add', 'sub'):
                if x is True:
                    return b_not(y)
                if y is True:
                    return b_not(x)
                if x is False:
                    return y
                if y is False:
                    return x
                return z3.Xor(x, y)
            raise EngErr('i1 ' + o)
        return bin_op(o, x, y, t[1])

    def icmp(self, pred, t, x, y):
        if t[0] == 'vec':
            return tuple(self.icmp(pred, t[2], p, q) for p, q in zip(x, y))
        if x is UNDEF or y is UNDEF:
            return UNDEF
        if t[0] == 'ptr':
            if len(x.alts) == 1 and len(y.alts) == 1 and x.alts[0][1] == y.alts[0][1] and pred in ('eq', 'ne'):
                (_, _, s1, c1), (_, _, s2, c2) = x.alts[0], y.alts[0]
                return icmp(pred, off_term(s1, c1), off_term(s2, c2), 64)
            if pred in ('eq', 'ne') and len(y.alts) == 1 and y.alts[0][1] is None and y.alts[0][2] is None and y.alts[0][3] == 0:
                # null test: objects are never null
                r = False
                for g, o, s, c in x.alts:
                    if o is None:
                        r = b_or(r, b_and(g, icmp('eq', off_term(s, c), 0, 64)))
                return r if pred == 'eq' else b_not(r)
            return icmp(pred, self.addr(x), self.addr(y), 64)
        if t[1] == 1:
            if pred == 'eq':
                return b_not(self.binary('xor', x, y, t))
            if pred == 'ne':
                return self.binary('xor', x, y, t)
            x, y = b2bv(x, 1), b2bv(y, 1)
        return icmp(pred, x, y, t[1])

    def fcmp(self, pred, x, y, w):
        self.has_fp = True
        a, b = self.fp(x, w), self.fp(y, w)
        f = {'oeq': lambda: z3.fpEQ(a, b), 'une': lambda: z3.Not(z3.fpEQ(a, b)),
             'olt': lambda: z3.fpLT(a, b), 'ole': lambda: z3.fpLEQ(a, b), 'ogt': lambda: z3.fpGT(a, b), 'oge': lambda: z3.fpGEQ(a, b),
             'uno': lambda: z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b)), 'ord': lambda: z3.Not(z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b)))}
        if pred not in f:
            raise EngErr('fcmp ' + pred)
        if not isc(x) and not isc(y) and x.eq(y) and pred in ('oeq', 'une'):
            nan = z3.fpIsNaN(a)
            r = z3.simplify(z3.Not(nan) if pred == 'oeq' else nan)
        else:
            r = z3.simplify(f[pred]())
        if z3.is_true(r):
            return True
        if z3.is_false(r):
            return False
        return r

    # ---------- calls
    def call_any(self, s, ins, p):
        """a call through a pointer to one of several functions"""
        args = ins.a[1]
        live = [(g, o) for g, o, _, c in p.alts if self.feasible(s, g)]
        for g, o in live:
            if o not in getattr(self, 'fn_of', {}):
                raise EngErr('indirect call')
        env, rets = s.env, []
        for g, o in live:
            x = s.fork()
            if len(live) > 1:
                x.pc = s.pc + ((g, s.mass),)
                x.mass = s.mass / len(live)
            r = self.call(x, Call(self.fn_of[o], args, ins))
            if r is not None:
                x.env = {'%ret': r[0]}
                rets.append(x)
        if not rets:
            return None
        F = Frame()
        F.rty, F.types = ins.ty, {}
        if rets[0].env['%ret'] is None:
            for r in rets:
                r.env = {}
        r = self.merge(F, None, rets)
        s.mem, s.own, s.pc, s.mass, s.env = r.mem, set(), r.pc, r.mass, env
        return (r.env.get('%ret'),)

    def call(self, s, ins):
        callee, args = ins.a[0], ins.a[1]
        if callee[0] == 'glob':
            name = callee[1]
        else:
            p = self.val(s, ('ptr',), callee)
            if p is UNDEF:
                raise UndefErr('call through undef')
            p = self.resolve(s, p)
            if len(p.alts) > 1:
                return self.call_any(s, ins, p)
            name = getattr(self, 'fn_of', {}).get(p.alts[0][1])
            if name is None:
                raise EngErr('indirect call')
        if name.startswith('llvm.'):
            return self.intrinsic(s, name, args, ins)
        av = [self.val(s, t, v) if v is not None else None for t, v in args]
        h = getattr(self, 'x_' + name, None)
        if h:
            return h(s, av)
        f = self.m.get_func(name)
        if f is not None and not is_panic(name):
            return self.run(f, av, s)
        return self.external(s, name, av, args)

    def external(self, s, name, av, args):
        if is_panic(name):
            self.oblige(s, 'panic', 0, True, 'panic: ' + demangle(name))
            return None
        if name in ('bcmp', 'memcmp'):
            return (self.memcmp(s, name, av[0], av[1], av[2]),)
        if name in ('memcpy', 'memmove'):
            self.copy(s, av[0], av[1], av[2])
            return (av[0],)
        decl = self.m.decls.get(name, '')
        if 'noreturn' in decl:
            self.oblige(s, 'panic', 0, True, 'panic: ' + demangle(name))
            return None
        raise EngErr('external ' + name)

    def memcmp(self, s, name, p, q, n):
        B = ('i', 8)
        if p is UNDEF or q is UNDEF or n is UNDEF:
            raise UndefErr('memcmp of undef')
        p, q = self.resolve(s, p), self.resolve(s, q)
        lim = n if isc(n) else None
        if lim is None:
            lim = umax(n, 64)
            for ptr in (p, q):
                m = 0
                for g, o, sy, c in ptr.alts:
                    if o is not None:
                        m = max(m, self.cells(s, o).size - (c if sy is None else 0))
                lim = min(lim, m)
        eqs = []
        diff = []
        if lim > 8192:
            raise UndefErr('memcmp size')
        save = self.obl
        for i in range(lim):
            self.obl = []
            a = self.load(s, ptr_add(p, None, i), B)
            b = self.load(s, ptr_add(q, None, i), B)
            new = self.obl
            self.obl = save
            inr = True if isc(n) else icmp('ugt', n, i, 64)
            if isc(n):
                self.obl += new
            if a is UNDEF or b is UNDEF:
                continue
            diff.append((b_and(inr, icmp('ne', a, b, 8)), a, b))
        self.obl = save
        if name == 'bcmp':
            return b2bv(b_ors([d for d, _, _ in diff]), 32)
        r = 0
        for d, a, b in reversed(diff):
            r = ite(d, ite(icmp('ult', a, b, 8), mask(32), 1, 32), r, 32)
        return r

    def intrinsic(self, s, name, args, ins):
        base = name[5:]
        if base.startswith(('lifetime', 'dbg', 'experimental.noalias', 'invariant', 'prefetch', 'sideeffect')):
            return (None,)
        av = [self.val(s, t, v) if v is not None else None for t, v in args]
        if base.startswith('assume'):
            # optimizer assumption: must hold, otherwise the code had undefined behaviour
            if len(args) and av[0] is not UNDEF:
                self.oblige(s, 'assume', 0, b_not(av[0]), 'llvm.assume violated')
            return (None,)
        if base.startswith(('memcpy', 'memmove')):
            n = av[2]
            if not isc(n):
                return self.copy_sym(s, av[0], av[1], n)
            self.copy(s, av[0], av[1], n)
            return (None,)
        if base.startswith('memset'):
            n = av[2]
            if not isc(n):
                raise EngErr('memset n')
            for i in range(n):
                self.store(s, ptr_add(av[0], None, i), ('i', 8), av[1])
            return (None,)
        if base.startswith('trap') or base.startswith('ubsantrap'):
            self.oblige(s, 'panic', 0, True, 'trap')
            return None
        t = ins.ty
        if t[0] == 'vec':
            it = t[2]
            return (tuple(self.intr1(base, [x[i] if isinstance(x, tuple) else x for x in av], it, args) for i in range(t[1])),)
        if base.startswith('vector.reduce'):
            op = base.split('.')[2]
            vs = av[0]
            et = args[0][0][2]
            r = vs[0]
            for v in vs[1:]:
                if op in ('umin', 'umax', 'smin', 'smax'):
                    r = self.intr1(op, [r, v], et, args)
                else:
                    r = self.binary(op, r, v, et)
            return (r,)
        return (self.intr1(base, av, t, args),)

    def intr1(self, base, av, t, args):
        n = base.split('.')[0]
        if n in ('uadd', 'usub', 'umul', 'sadd', 'ssub', 'smul'):
            w = args[0][0][1] if args[0][0][0] != 'vec' else args[0][0][2][1]
            a, b = av[0], av[1]
            if a is UNDEF or b is UNDEF:
                raise UndefErr('undef arithmetic')
            signed = n[0] == 's'
            o = n[1:]
            ext = (lambda x: sext(x, w, 2 * w)) if signed else (lambda x: zext(x, w, 2 * w))
            r = bin_op(o, a, b, w)
            if 'with.overflow' in base:
                if not signed and o == 'sub':
                    return (r, icmp('ult', a, b, w))
                if not signed and o == 'add':
                    return (r, icmp('ult', r, a, w))
                if not signed and o == 'mul' and (isc(a) or isc(b)):
                    c, x = (a, b) if isc(a) else (b, a)
                    if c == 0:
                        return (0, False)
                    return (r, icmp('ugt', x, mask(w) // c, w))
                wide = bin_op(o, ext(a), ext(b), 2 * w)
                back = sext(r, w, 2 * w) if signed else zext(r, w, 2 * w)
                return (r, icmp('ne', wide, back, 2 * w))
            if base.split('.')[1] == 'sat':
                if not signed and o == 'sub':
                    return ite(icmp('ult', a, b, w), 0, r, w)
                if not signed and o == 'add':
                    return ite(icmp('ult', r, a, w), mask(w), r, w)
            raise EngErr(base)
        w = t[1] if t[0] in ('i', 'f') else 64
        if any(x is UNDEF for x in av):
            return UNDEF
        if n in ('umin', 'umax', 'smin', 'smax'):
            p = {'umin': 'ult', 'umax': 'ugt', 'smin': 'slt', 'smax': 'sgt'}[n]
            return ite(icmp(p, av[0], av[1], w), av[0], av[1], w)
        if n == 'abs':
            return ite(icmp('slt', av[0], 0, w), bin_op('sub', 0, av[0], w), av[0], w)
        if n in ('fshl', 'fshr'):
            a, b, c = av
            if isc(c):
                c %= w
                if n == 'fshl':
                    if c == 0:
                        return a
                    return concat([(extract(a, w - c - 1, 0), w - c), (extract(b, w - 1, w - c), c)])
                if c == 0:
                    return b
                return concat([(extract(a, c - 1, 0), c), (extract(b, w - 1, c), w - c)])
            m = bin_op('urem', c, w, w)
            cat = concat([(a, w), (b, w)])
            m2 = zext(m, w, 2 * w)
            if n == 'fshl':
                return extract(bin_op('shl', cat, m2, 2 * w), 2 * w - 1, w)
            return extract(bin_op('lshr', cat, m2, 2 * w), w - 1, 0)
        if n == 'bswap':
            return concat([(extract(av[0], i * 8 + 7, i * 8), 8) for i in range(w // 8)])
        if n == 'bitreverse':
            return concat([(extract(av[0], i, i), 1) for i in range(w)])
        if n == 'ctpop':
            r = 0
            for i in range(w):
                r = bin_op('add', r, zext(extract(av[0], i, i), 1, w), w)
            return r
        if n in ('ctlz', 'cttz'):
            r = w
            for i in (range(w) if n == 'ctlz' else range(w - 1, -1, -1)):
                k = (w - 1 - i) if n == 'ctlz' else i
                r = ite(bv2b(extract(av[0], i, i)), k, r, w)
            return r
        if n == 'expect':
            return av[0]
        if n in ('ucmp', 'scmp'):
            sw = args[0][0][1]
            lt = icmp(n[0] + 'lt', av[0], av[1], sw)
            eq = icmp('eq', av[0], av[1], sw)
            return ite(lt, mask(w), ite(eq, 0, 1, w), w)
        if n == 'fabs':
            return bin_op('and', av[0], mask(w - 1), w)
        if base.startswith('is.constant'):
            return False
        if n == 'ptrmask':
            raise EngErr('ptrmask')
        raise EngErr('intrinsic ' + base)

    def copy_sym(self, s, dst, src, n):
        lim = umax(n, 64)
        for ptr in (dst, src):
            m = 0
            for g, o, sy, c in ptr.alts:
                if o is not None:
                    m = max(m, self.cells(s, o).size - (c if sy is None else 0))
            lim = min(lim, m)
        if lim > 512:
            raise EngErr('symbolic copy size')
        for i in range(lim):
            inr = icmp('ugt', n, i, 64)
            if inr is False:
                break
            save, self.obl = self.obl, []
            v = self.load(s, ptr_add(src, None, i), ('i', 8))
            old = self.load(s, ptr_add(dst, None, i), ('i', 8))
            self.store(s, ptr_add(dst, None, i), ('i', 8), self.vmerge(inr, v, old, ('i', 8)))
            self.obl = save
        return (None,)

    # ---------- harness primitives
    def x_vp_check(self, s, av):
        self.oblige(s, 'check', av[1], b_not(av[0]), 'check %s' % av[1])
        return (None,)

    def x_vp_assume(self, s, av):
        c = av[0]
        if c is False:
            return None
        if c is not True:
            s.pc = s.pc + ((c, s.mass),)
            s.mass = s.mass / 2
        return (None,)

    def x_vp_cover(self, s, av):
        f = b_ands([x for x, _ in s.pc])
        def leaves(k, c):
            if isinstance(k, int):
                yield k, c
            elif z3.is_bv_value(k):
                yield k.as_long(), c
            elif z3.is_app_of(k, z3.Z3_OP_ITE):
                yield from leaves(k.arg(1), b_and(c, k.arg(0)))
                yield from leaves(k.arg(2), b_and(c, b_not(k.arg(0))))
            else:
                raise EngErr('symbolic situation id')
        for k, c in leaves(av[0], f):   # the optimiser may have merged calls
            self.covers[k] = b_or(self.covers.get(k, False), c)
        return (None,)

    def harness(self, fname, maxlen, lo, hi, pin=None, restrict=None):
        """run harness(ptr,len) on a symbolic byte buffer whose length lies in lo..hi"""
        f = self.m.get_func(fname)
        if f is None:
            raise EngErr('no harness ' + fname)
        s = State()
        size = max(hi, 1)
        o = self.new_obj(size, 'input')
        self.inp = [z3.BitVec('b%d' % i, 8) for i in range(size)]
        if pin:
            for i, v in pin.items():
                if i < size:
                    self.inp[i] = v
        s.mem[o] = Cells(size, 'input', None, self.inp)
        if lo == hi:
            self.len = lo
        else:
            l16 = z3.BitVec('len', 16)
            self.len = zext(l16, 16, 64)
            self.assumes.append(z3.And(z3.UGE(l16, lo), z3.ULE(l16, hi)))
        if restrict:
            self.assumes += restrict(self.inp, self.len)
        self.end = self.run(f, [P1(o), self.len], s)
        return self

    def model_input(self, m):
        n = self.len if isc(self.len) else m.eval(self.len, model_completion=True).as_long()
        bs = bytes((b if isc(b) else m.eval(b, model_completion=True).as_long()) for b in self.inp)
        return bs[:n]


PANICS = ('core9panicking', 'slice_index_fail', 'unwrap_failed', 'expect_failed', 'panic_const', 'slice_start_index', 'slice_end_index',
          'slice_index_order', 'panic_fmt', 'panic_bounds_check', 'copy_from_slice_impl17len_mismatch', 'len_mismatch_fail', 'panic_in_cleanup')


def is_panic(name):
    return any(p in name for p in PANICS)


def demangle(n):
    return n
