"""Symbolic executor for LLVM IR (dumped by irdump) with z3 as decision procedure.

Modes: 'real'  doubles are exact rational functions over symbols (rounding is outside the claim)
       'fp'    doubles are IEEE-754 binary64 terms (z3 FP theory), bit-exact
Integers are always fixed-width bit-vectors.
"""
import json
import sys as _sys
_sys.set_int_max_str_digits(0)
import math
import re
import struct
import time
from fractions import Fraction
import z3
from poly import Space, R, Limit, rationalise, FB, FM

NAN = float('nan')
INF = float('inf')


class Unsupported(Exception):
    pass


class Budget(Exception):
    pass


class PathEnd(Exception):
    def __init__(self, why):
        self.why = why


class ForkPoly(Exception):
    """Undecided sign of a polynomial product; options: list of sign sets."""
    def __init__(self, key, poly, sets):
        self.key, self.poly, self.sets = key, poly, sets


class ForkBool(Exception):
    def __init__(self, cond):
        self.cond = cond


class ForkConds(Exception):
    """n-way fork on z3 conditions, remembered under a key."""
    def __init__(self, key, options):
        self.key, self.options = key, options


class MemFault(Exception):
    def __init__(self, what):
        self.what = what


class Obj:
    __slots__ = ('id', 'size', 'cells', 'alive', 'zero', 'owner', 'const', 'name', 'kind')

    def __init__(self, id, size, name, kind, zero=False, const=False):
        self.id, self.size, self.name, self.kind = id, size, name, kind
        self.cells = {}
        self.alive = True
        self.zero = zero
        self.const = const
        self.owner = None

    def clone(self, owner):
        o = Obj(self.id, self.size, self.name, self.kind, self.zero, self.const)
        o.cells = dict(self.cells)
        o.alive = self.alive
        o.owner = owner
        return o


BASE = 0x10000000          # offset of the first byte inside an object's 2^40 slot
SHIFT = 40
FNBASE = 0x7F0000000000_0000


class Fn:
    pass


class Frame:
    __slots__ = ('fn', 'regs', 'bb', 'ip', 'prev', 'dest', 'allocas', 'normal')

    def clone(self):
        f = Frame()
        f.fn = self.fn
        f.regs = list(self.regs)
        f.bb, f.ip, f.prev, f.dest = self.bb, self.ip, self.prev, self.dest
        f.allocas = list(self.allocas)
        f.normal = self.normal
        return f


class State:
    __slots__ = ('frames', 'mem', 'pc', 'facts', 'known', 'model', 'token', 'nchecks', 'choices',
                 'decl', 'ufs', 'branches', 'trace', 'syms', 'conc', 'box', 'omp', 'exc')

    def clone(self):
        s = State()
        s.frames = [f.clone() for f in self.frames]
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.facts = dict(self.facts)
        s.known = dict(self.known)
        s.model = self.model
        s.token = object()
        self.token = object()
        s.nchecks = self.nchecks
        s.choices = dict(self.choices)
        s.decl = dict(self.decl)
        s.ufs = dict(self.ufs)
        s.branches = self.branches
        s.trace = list(self.trace)
        s.syms = dict(self.syms)
        s.conc = dict(self.conc)
        s.box = dict(self.box)
        s.exc = self.exc
        s.omp = None if self.omp is None else (self.omp[0], dict(self.omp[1]))
        return s


def bits_to_double(b):
    return struct.unpack('<d', struct.pack('<Q', b))[0]


def double_to_bits(x):
    return struct.unpack('<Q', struct.pack('<d', x))[0]


def bits_to_float(b):
    return struct.unpack('<f', struct.pack('<I', b))[0]


ALLSIGN = frozenset((-1, 0, 1))
F64 = z3.Float64()
F32 = z3.Float32()
RNE = z3.RNE()
RTZ = z3.RTZ()


class Module:
    def __init__(self, path):
        with open(path) as f:
            self.j = json.load(f)
        self.compiled = {}
        self.fnaddr = {}
        self.addrfn = {}

    def fn_address(self, name):
        a = self.fnaddr.get(name)
        if a is None:
            a = (0x7F << 48) + 16 * (len(self.fnaddr) + 1)
            self.fnaddr[name] = a
            self.addrfn[a] = name
        return a


class Engine:
    def __init__(self, module, mode='real', opts=None):
        self.m = module
        self.mode = mode
        self.opts = opts or {}
        self.sp = Space()
        self.zvars = []
        self.zc_mono = {}
        self.compiled = {}
        self.globals = {}
        self.gobjs = {}
        self.next_id = 1
        self.stats = dict(paths=0, instrs=0, queries=0, unsat=0, sat=0, unknown=0, solver_s=0.0, checks=0,
                          normal_form=0, forks=0)
        self.functions = set()
        self.failures = []
        self.suspects = []
        self.on_failure = None
        self._umax = {}
        self.incomplete = []
        self.axioms = {}          # var index -> list of z3 exprs
        self.deps = {}            # var index -> set(var idx)
        self.t_branch = int(self.opts.get('t_branch', 4000))
        self.t_check = int(self.opts.get('t_check', 30000))
        self.max_paths = int(self.opts.get('max_paths', 4000))
        self.max_instr = int(self.opts.get('max_instr', 60_000_000))
        self.max_path_instr = int(self.opts.get('max_path_instr', 4_000_000))
        self.deadline = None
        self.intercepts = {}
        self.inputs = {}
        self.witness = None
        self.witnesses = []
        self.fresh = 0
        self.rootcache = {}
        self.symcache = {}
        self.reach = set()
        self.notes = set()
        self.max_fail = int(self.opts.get('max_fail', 6))
        self.fail_ids = {}
        self.trig_arg = {}
        self._setup_globals()
        self._ops()

    # ------------------------------------------------------------ globals
    def _setup_globals(self):
        for g in self.m.j['globals']:
            o = Obj(self.next_id, g['sz'], g['n'], 'global', zero=True, const=bool(g['c']))
            self.next_id += 1
            self.gobjs[o.id] = o
            self.globals[g['n']] = o
        self.errno_obj = Obj(self.next_id, 4, 'errno', 'global', zero=True)
        self.gobjs[self.next_id] = self.errno_obj
        self.next_id += 1
        self.ginit = {g['n']: g for g in self.m.j['globals']}
        for n, o in self.globals.items():
            for off, size, ty, c in self.ginit[n]['init']:
                o.cells[off] = (size, self.cval(c))

    def addr(self, oid, off=0):
        return (oid << SHIFT) + BASE + off

    # ------------------------------------------------------------ constants
    def fconst(self, x):
        if self.mode == 'fp':
            return x
        if x != x or x in (INF, -INF):
            return x
        return R.const(self.sp, rationalise(x))

    def cval(self, c):
        k = c[0]
        if k == 'i':
            return c[2]
        if k == 'f':
            if c[1] == 'd':
                return self.fconst(bits_to_double(c[2]))
            if c[1] == 'f':
                return self.fconst(bits_to_float(c[2]))
            if c[1] == 'x':
                b = c[2]
                man = b & ((1 << 64) - 1)
                e = (b >> 64) & 0x7fff
                s = -1 if b >> 79 else 1
                if e == 0x7fff:
                    return s * INF if man << 1 & ((1 << 64) - 1) == 0 else NAN
                if man == 0:
                    return self.fconst(0.0 * s)
                return self.fconst(float(s * Fraction(man) * Fraction(2) ** (e - 16383 - 63)))
        if k == 'g':
            return self.addr(self.globals[c[1]].id)
        if k == 'fn':
            return self.m.fn_address(c[1])
        if k == 'ce+':
            return (self.cval(c[1]) + c[2]) & ((1 << 64) - 1)
        if k == 'u':
            return self.undef_of(c[1])
        if k == 'z':
            return self.zero_of(c[1])
        if k == 'a':
            return tuple(self.cval(x) for x in c[1])
        if k == 'cast':
            v = self.cval(c[2])
            return v
        if k in ('m', 'asm'):
            return c
        if k == '?':
            return ('bad', c)
        raise Unsupported('const %r' % (c,))

    def undef_of(self, t):
        if isinstance(t, list):
            return tuple(self.undef_of(x[1]) for x in t[2])
        if t[0] in 'df':
            return self.fconst(0.0)
        return 0

    def zero_of(self, t):
        if isinstance(t, list):
            return tuple(self.zero_of(x[1]) for x in t[2])
        if t[0] in 'dfx':
            return self.fconst(0.0)
        return 0

    # ------------------------------------------------------------ compile
    def getfn(self, name):
        f = self.compiled.get(name)
        if f is not None:
            return f
        j = self.m.j['functions'].get(name)
        if j is None:
            return None
        f = Fn()
        f.name = name
        f.dn = j['dn']
        f.na = j['na']
        f.nr = j['nr']
        f.at = j['at']
        f.rt = j['rt']
        f.consts = []
        cix = {}

        def O(x):
            if x is None:
                return -1
            if x[0] == 'r':
                return x[1]
            key = json.dumps(x)
            i = cix.get(key)
            if i is None:
                i = f.nr + len(f.consts)
                cix[key] = i
                f.consts.append(self.cval(x))
            return i
        blocks = []
        for b in j['b']:
            out = []
            for ins in b:
                op = ins[0]
                h = self.handlers.get(op)
                if h is None:
                    out.append((self.h_unsup, ins))
                    continue
                out.append((h, self.prep[op](ins, O) if op in self.prep else ins))
            blocks.append(out)
        f.blocks = blocks
        self.compiled[name] = f
        return f

    def _ops(self):
        self.handlers = {}
        self.prep = {}

        def reg(ops, h, p):
            for o in ops.split():
                self.handlers[o] = h
                self.prep[o] = p
        reg('ret', self.h_ret, lambda i, O: (O(i[3]),))
        reg('br', self.h_br, lambda i, O: (i[3],))
        reg('cbr', self.h_cbr, lambda i, O: (O(i[3]), i[4], i[5]))
        reg('switch', self.h_switch, lambda i, O: (O(i[3]), i[4], i[5], i[6]))
        reg('unreachable', self.h_unreachable, lambda i, O: ())
        reg('add sub mul udiv sdiv urem srem shl lshr ashr and or xor', self.h_int,
            lambda i, O: (i[1], i[0], int(i[3][1:]) if isinstance(i[3], str) else 0, O(i[4]), O(i[5]), i[6] if len(i) > 6 else ''))
        reg('fadd fsub fmul fdiv frem', self.h_fbin, lambda i, O: (i[1], i[0], i[3], O(i[4]), O(i[5])))
        reg('fneg', self.h_fneg, lambda i, O: (i[1], O(i[4])))
        reg('icmp', self.h_icmp, lambda i, O: (i[1], i[3], 64 if i[4] == 'p' else int(i[4][1:]), O(i[5]), O(i[6])))
        reg('fcmp', self.h_fcmp, lambda i, O: (i[1], i[3], O(i[5]), O(i[6])))
        reg('trunc zext sext fptrunc fpext fptosi fptoui sitofp uitofp ptrtoint inttoptr bitcast', self.h_cast,
            lambda i, O: (i[1], i[0], i[3], i[4], O(i[5])))
        reg('alloca', self.h_alloca, lambda i, O: (i[1], i[3], O(i[4])))
        reg('load', self.h_load, lambda i, O: (i[1], i[3], i[4], O(i[5])))
        reg('store', self.h_store, lambda i, O: (i[3], i[4], O(i[5]), O(i[6])))
        reg('gep', self.h_gep, lambda i, O: (i[1], O(i[3]), i[4], [(O(a), b, w) for a, b, w in i[5]]))
        reg('select', self.h_select, lambda i, O: (i[1], i[3], O(i[4]), O(i[5]), O(i[6])))
        reg('phi', self.h_phi, lambda i, O: (i[1], {b: O(v) for b, v in i[4]}))
        reg('call', self.h_call, lambda i, O: (i[1], i[3], i[4], O(i[4]) if i[4][0] not in ('fn', 'asm') else -1,
                                               [O(a) for a in i[5]], i[6], i[7], i[8]))
        reg('landingpad', self.h_landingpad, lambda i, O: (i[1], i[3], [O(c) for c in i[4]]))
        reg('resume', self.h_resume, lambda i, O: ())
        reg('extractvalue', self.h_extract, lambda i, O: (i[1], O(i[3]), i[4]))
        reg('insertvalue', self.h_insert, lambda i, O: (i[1], O(i[3]), O(i[4]), i[5]))
        reg('extractelement', self.h_exelem, lambda i, O: (i[1], O(i[3]), O(i[4])))
        reg('insertelement', self.h_inselem, lambda i, O: (i[1], O(i[3]), O(i[4]), O(i[5])))
        reg('freeze', self.h_freeze, lambda i, O: (i[1], O(i[3])))

    # ------------------------------------------------------------ z3 translation (reals)
    def zv(self, i):
        while len(self.zvars) <= i:
            self.zvars.append(z3.Real('v%d_%s' % (len(self.zvars), self.sp.names[len(self.zvars)])))
        return self.zvars[i]

    def zmono(self, m):
        e = self.zc_mono.get(m)
        if e is None:
            fs = []
            i = 0
            mm = m
            while mm:
                p = mm & FM
                if p:
                    fs += [self.zv(i)] * p
                mm >>= FB
                i += 1
            if not fs:
                e = z3.RealVal(1)
            elif len(fs) == 1:
                e = fs[0]
            else:
                e = z3.Product(*fs) if False else fs[0]
                for q in fs[1:]:
                    e = e * q
            self.zc_mono[m] = e
        return e

    def zpoly(self, p):
        if not p:
            return z3.RealVal(0)
        ts = []
        for m, c in p.items():
            if m == 0:
                ts.append(z3.RealVal(c))
            elif c == 1:
                ts.append(self.zmono(m))
            else:
                ts.append(z3.RealVal(c) * self.zmono(m))
        return ts[0] if len(ts) == 1 else z3.Sum(*ts)

    def zreal(self, r):
        """z3 term for an R value (division by constants only is kept as a term)."""
        n = self.zpoly(r.n)
        if r.k != 1:
            n = n / z3.RealVal(r.k)
        for i, p in r.d:
            a = self.zpoly(self.sp.atoms[i])
            for _ in range(p):
                n = n / a
        return n

    def pvars(self, p, acc):
        for m in p:
            i = 0
            while m:
                if m & FM:
                    acc.add(i)
                m >>= FB
                i += 1

    # ------------------------------------------------------------ solving
    def var_axioms(self, exprs):
        """Definitional axioms of every symbol (transitively) occurring in exprs."""
        seen = set()
        todo = []
        names = {}
        out = []
        stack = list(exprs)
        visited = set()
        while stack:
            e = stack.pop()
            if e.get_id() in visited:
                continue
            visited.add(e.get_id())
            if z3.is_app(e) and e.num_args() == 0 and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and z3.is_real(e):
                nm = e.decl().name()
                if nm[0] == 'v' and '_' in nm:
                    i = int(nm[1:nm.index('_')])
                    if i not in seen:
                        seen.add(i)
                        for a in self.axioms.get(i, ()):
                            out.append(a)
                            stack.append(a)
            else:
                stack.extend(e.children())
        # congruence for uninterpreted applications
        ap = [i for i in seen if self.sp.kind[i][0] == 'uf']
        for x in range(len(ap)):
            for y in range(x):
                kx, ky = self.sp.kind[ap[x]], self.sp.kind[ap[y]]
                if kx[1] == ky[1] and len(kx[2]) == len(ky[2]):
                    same = []
                    triv = False
                    for a, b in zip(kx[2], ky[2]):
                        d = a.add(b, -1)
                        if d.is_const() and d.n:
                            triv = True
                            break
                        same.append(self.zpoly(d.n) == 0)
                    if triv:
                        continue
                    out.append(z3.Implies(z3.And(*same), self.zv(ap[x]) == self.zv(ap[y])))
        return out

    def check_sat(self, exprs, timeout, want_model=False):
        """'sat' / 'unsat' / 'unknown' and model."""
        if self.deadline and time.time() > self.deadline:
            raise Budget('time')
        t0 = time.time()
        es = list(exprs)
        es += self.var_axioms(es)
        allreal = self.mode == 'real'
        res, mod = 'unknown', None
        self.stats['queries'] += 1
        only_real = allreal and not any(self._has_bv(e) for e in es)
        if not only_real:
            ab = self.abstract_mul(es)
            if ab is not None:
                s = z3.Solver()
                s.set('timeout', timeout)
                s.add(*ab)
                try:
                    r = s.check()
                except z3.Z3Exception:
                    r = z3.unknown
                if r == z3.unsat:
                    self.stats['solver_s'] += time.time() - t0
                    self.stats['unsat'] += 1
                    return 'unsat', None
        for attempt in range(2):
            s = z3.SolverFor('QF_NRA') if (only_real and attempt == 0) else z3.Solver()
            s.set('timeout', timeout if attempt == 0 else max(1000, timeout // 3))
            s.add(*es)
            try:
                r = s.check()
            except z3.Z3Exception:
                r = z3.unknown
            if r == z3.sat:
                res = 'sat'
                mod = s.model()
                break
            if r == z3.unsat:
                res = 'unsat'
                break
            if not only_real:
                break
        self.stats['solver_s'] += time.time() - t0
        self.stats[res] += 1
        return res, mod

    def abstract_mul(self, es):
        """the query with every product of two symbolic bit-vectors replaced by an
        arbitrary value (same operands, same value): weaker, so unsat carries over"""
        subst, byargs, seen, st = [], {}, set(), list(es)
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_BMUL:
                ch = [c for c in x.children() if not z3.is_bv_value(c)]
                if len(ch) > 1:
                    k = (x.size(), tuple(sorted(c.get_id() for c in x.children())))
                    if k not in byargs:
                        byargs[k] = z3.BitVec('mulabs!%d' % x.get_id(), x.size())
                    subst.append((x, byargs[k]))
                    continue
            st.extend(x.children())
        if not subst:
            return None
        # the simplifier narrows the low part of a product: tie it to the wide one
        low = {}
        for x, v in subst:
            for w in set(y.size() for y, _ in subst):
                if w < x.size():
                    k = (w, tuple(sorted(z3.simplify(z3.Extract(w - 1, 0, c)).get_id() for c in x.children())))
                    low.setdefault(k, z3.Extract(w - 1, 0, v))
        subst = [(x, low.get((x.size(), tuple(sorted(c.get_id() for c in x.children()))), v)) for x, v in subst]
        return [z3.substitute(e, *subst) for e in es]

    def _has_bv(self, e):
        cache = self.__dict__.setdefault('_bvc', {})
        k = e.get_id()
        r = cache.get(k)
        if r is None:
            r = False
            seen = set()
            st = [e]
            while st:
                x = st.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if z3.is_bv(x) or z3.is_fp(x):
                    r = True
                    break
                st.extend(x.children())
            cache[k] = r
            self.__dict__.setdefault('_bvk', []).append(e)
        return r

    def model_vals(self, mod):
        """dict var idx -> Fraction, or None if irrational somewhere."""
        vals = {}
        for d in mod.decls():
            nm = d.name()
            if nm[0] == 'v' and '_' in nm and d.range() == z3.RealSort():
                i = int(nm[1:nm.index('_')])
                v = mod[d]
                if z3.is_rational_value(v):
                    vals[i] = v.as_fraction()
                else:
                    return None
        return vals

    def eval_poly(self, p, vals):
        tot = Fraction(0)
        for m, c in p.items():
            t = Fraction(c)
            i = 0
            while m:
                e = m & FM
                if e:
                    if i not in vals:
                        if self.sp.kind[i][0] != 'in':
                            return None
                        vals[i] = Fraction(1)
                    t *= vals[i] ** e
                m >>= FB
                i += 1
            tot += t
        return tot

    # sign facts -----------------------------------------------------------
    def norm(self, p):
        g, q = self.sp.primitive(p)
        return (1 if g > 0 else -1), q

    def allowed(self, st, q):
        key = frozenset(q.items())
        a = st.facts.get(key)
        if a is not None:
            return key, a
        # trivial positivity: single even monomial / all-even positive
        lo = ALLSIGN
        if all(c > 0 for c in q.values()):
            ev = all(self._even(m) for m in q)
            if ev:
                lo = frozenset((1,)) if q.get(0, 0) > 0 else frozenset((0, 1))
        return key, lo

    def _even(self, m):
        i = 0
        while m:
            e = m & FM
            if e & 1 and self.sp.kind[i][0] not in ('exp',):
                if self.sp.kind[i][0] != 'sqrt':
                    return False
            m >>= FB
            i += 1
        return True

    def psign(self, st, p, want):
        """Decide whether sign(p) in want (frozenset); forks if undecided."""
        if not p:
            return 0 in want
        if len(p) == 1 and 0 in p:
            return (1 if p[0] > 0 else -1) in want
        s, q = self.norm(p)
        if s < 0:
            want = frozenset(-x for x in want)
        key, al = self.allowed(st, q)
        if al <= want:
            return True
        if not (al & want):
            return False
        raise ForkPoly(key, q, (al & want, al - want))

    def sign_constraint(self, q, signs):
        z = self.zpoly(q)
        if signs == frozenset((0,)):
            return z == 0
        if signs == frozenset((1,)):
            return z > 0
        if signs == frozenset((-1,)):
            return z < 0
        if signs == frozenset((0, 1)):
            return z >= 0
        if signs == frozenset((0, -1)):
            return z <= 0
        if signs == frozenset((1, -1)):
            return z != 0
        return None

    def value_sign(self, st, r, want):
        """sign of an R value in want?"""
        fs = r.signpoly()
        p = fs[0]
        if len(fs) == 1:
            return self.psign(st, p, want)
        if want in (frozenset((0,)), frozenset((1, -1))):
            return self.psign(st, p, want)
        s = 1
        for f in fs[1:]:
            if self.psign(st, f, frozenset((1,))):
                continue
            s = -s
        return self.psign(st, p, want if s > 0 else frozenset(-x for x in want))

    # bounds over boxes --------------------------------------------------------
    def box_vars(self, st, p):
        vs = set()
        self.pvars(p, vs)
        if not vs or len(vs) > 3 or len(p) > 600:
            return None
        for v in vs:
            b = st.box.get(v)
            if b is None or b[1] < b[0]:
                return None
        return sorted(vs)

    def shifted(self, p, box):
        """coefficients of p under x = c + r s, s in [-1,1], for the boxed variables"""
        q = {m: Fraction(c) for m, c in p.items()}
        for v, (lo, hi) in box.items():
            c, r = (lo + hi) / 2, (hi - lo) / 2
            sh = FB * v
            groups = {}
            for m, k in q.items():
                e = (m >> sh) & FM
                groups.setdefault(m - (e << sh), {})[e] = k
            q = {}
            for base, g in groups.items():
                n = max(g)
                a = [g.get(i, 0) for i in range(n + 1)]
                if c:
                    for i in range(n):
                        for j in range(n - 1, i - 1, -1):
                            a[j] += c * a[j + 1]
                rp = Fraction(1)
                for i in range(n + 1):
                    if a[i]:
                        q[base + (i << sh)] = a[i] * rp
                    rp *= r
        return q

    def lin_bound(self, q):
        lo = hi = q.get(0, Fraction(0))
        for m, c in q.items():
            if m == 0:
                continue
            ev = True
            mm = m
            while mm:
                if mm & 1:
                    ev = False
                    break
                mm >>= FB
            if ev:
                if c > 0:
                    hi += c
                else:
                    lo += c
            else:
                lo -= abs(c)
                hi += abs(c)
        return lo, hi

    def box_nonpos(self, st, p, strict=False, depth=5, solver=False):
        """True if p <= 0 (< 0) on the whole box: linear relaxation over sub-boxes"""
        vs = self.box_vars(st, p)
        if vs is None:
            return False
        work = [({v: st.box[v] for v in vs}, 0)]
        leaves = []
        n = 0
        facts = None
        while work:
            box, d = work.pop()
            n += 1
            q = self.shifted(p, box)
            lo, hi = self.lin_bound(q)
            if hi < 0 or (hi == 0 and not strict):
                leaves.append(q)
                continue
            if solver:
                # the path condition may exclude this sub-box
                if facts is None:
                    facts = []
                    for key, sset in st.facts.items():
                        fp = dict(key)
                        fv = set()
                        self.pvars(fp, fv)
                        if fv and fv <= set(vs) and len(fp) > 2:
                            facts.append((fp, sset))
                cut = False
                for fp, sset in facts:
                    a, b = self.lin_bound(self.shifted(fp, {v: box[v] for v in vs}))
                    if (a > 0 and 1 not in sset) or (b < 0 and -1 not in sset):
                        cut = True
                        break
                if cut:
                    continue
            if d >= depth or n > 400:
                return False
            if not (solver and facts):
                c = q.get(0, 0)
                if lo > 0 or c > 0:
                    return False
            v = max(vs, key=lambda u: box[u][1] - box[u][0])
            a, b = box[v]
            m = (a + b) / 2
            for part in ((a, m), (m, b)):
                nb = dict(box)
                nb[v] = part
                work.append((nb, d + 1))
        if solver:
            t0 = time.time()
            for q in leaves:
                q = self.round_out(q)
                sv = z3.SolverFor('QF_LRA')
                terms = []
                for m, c in q.items():
                    cf = z3.RealVal(str(c))
                    if m == 0:
                        terms.append(cf)
                        continue
                    t = z3.Real('m%d' % m)
                    mm, ev = m, True
                    while mm:
                        if mm & 1:
                            ev = False
                            break
                        mm >>= FB
                    sv.add(t <= 1, t >= (0 if ev else -1))
                    terms.append(cf * t)
                sm = z3.Sum(terms) if len(terms) > 1 else terms[0]
                sv.add(sm > 0 if not strict else sm >= 0)
                r = sv.check()
                self.stats['queries'] += 1
                if r != z3.unsat:
                    return False
                self.stats['unsat'] += 1
            self.stats['solver_s'] += time.time() - t0
        return True

    def round_out(self, q):
        """coefficients with short denominators whose maximum over the unit box is not smaller"""
        top = max((abs(c) for c in q.values()), default=Fraction(1))
        e = 90 - (top.numerator.bit_length() - top.denominator.bit_length())
        out = {}
        for m, c in q.items():
            x = c * (Fraction(2) ** e)
            n = x.numerator // x.denominator
            if m == 0:
                n += 1
            else:
                mm, ev = m, True
                while mm:
                    if mm & 1:
                        ev = False
                        break
                    mm >>= FB
                n = n + 1 if (ev or c > 0) else n
            out[m] = Fraction(n) / (Fraction(2) ** e)
        lo, hi = self.lin_bound(out)
        return out if hi < 0 else q

    def box_sign(self, st, p):
        """a sound set of possible signs of p on the box, or None"""
        if self.box_vars(st, p) is None:
            return None
        if self.box_nonpos(st, p, True, 3):
            return frozenset((-1,))
        neg = {m: -c for m, c in p.items()}
        if self.box_nonpos(st, neg, True, 3):
            return frozenset((1,))
        return ALLSIGN

    def tighten(self, st, p, sset):
        """a linear univariate sign fact narrows the box"""
        if len(p) > 2:
            return
        vs = set()
        self.pvars(p, vs)
        if len(vs) != 1:
            return
        v, = vs
        mv = 1 << (FB * v)
        if mv not in p or (len(p) == 2 and 0 not in p):
            return
        b = st.box.get(v)
        if b is None:
            return
        a = Fraction(p[mv])
        t = -Fraction(p.get(0, 0)) / a
        if a < 0:
            sset = frozenset(-x for x in sset)
        lo, hi = b
        if -1 not in sset:
            lo = max(lo, t)
        if 1 not in sset:
            hi = min(hi, t)
        st.box[v] = (lo, hi)

    # boolean facts ----------------------------------------------------------
    def decide(self, st, cond):
        """cond: bool or z3 Bool -> python bool (forks when undecided)."""
        if isinstance(cond, (bool, int)):
            return bool(cond)
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        k = st.known.get(cond.get_id())
        if k is not None:
            return k[1]
        raise ForkBool(cond)

    # ------------------------------------------------------------ symbols
    def newsym(self, name, kind=('in',)):
        i = self.sp.new(name, kind)
        self.zv(i)
        return i

    def sqrt_sym(self, st, r):
        """sqrt of a non-negative R."""
        if r.is_const():
            f = r.const_val()
            n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if n * n == f.numerator and d * d == f.denominator:
                return R.const(self.sp, Fraction(n, d))
        # sqrt(n/(k*D)) = sqrt(n*k*D_odd) / (k * D_half*...)
        sp = self.sp
        n = {m: c * r.k for m, c in r.n.items()}
        den = R.const(sp, r.k)
        for i, p in r.d:
            a = sp.atoms[i]
            av = R(sp, a)
            h = (p + 1) // 2
            if p & 1:
                n = sp.pmul(n, a)
            # |a|^h
            for _ in range(h):
                den = den.mul(av)
            if h & 1:
                if not self.psign(st, a, frozenset((1,))):
                    den = den.neg()
        # pull square content
        g = math.gcd(*n.values())
        sq = 1
        f = 2
        while f * f <= g and f < 2000:
            while g % (f * f) == 0:
                g //= f * f
                sq *= f
            f += 1
        if sq > 1:
            n = {m: c // (sq * sq) for m, c in n.items()}
        if len(n) == 1:
            (m, c), = n.items()
            if self._mono_square(m) and math.isqrt(c) ** 2 == c:
                # perfect square monomial: |x^a...|
                h = R(sp, {m >> 1: math.isqrt(c)})
                if not self.value_sign(st, h, frozenset((0, 1))):
                    h = h.neg()
                return h.mul(R.const(sp, sq)).div(den)
        elif 3 <= len(n) <= 400:
            h = self.poly_root(n)
            if h is not None:
                h = R(sp, h)
                if not self.value_sign(st, h, frozenset((0, 1))):
                    h = h.neg()
                return h.mul(R.const(sp, sq)).div(den)
        key = ('sqrt', frozenset(n.items()))
        i = self.symcache.get(key)
        if i is None:
            i = self.newsym('sqrt%d' % len(self.symcache), ('sqrt', n))
            self.symcache[key] = i
            sp.set_rule(i, n)
            self.axioms[i] = [self.zv(i) >= 0, self.zv(i) * self.zv(i) == self.zpoly(n)]
        return R.var(sp, i).mul(R.const(sp, sq)).div(den)

    def poly_root(self, n):
        """h with h*h == n, or None"""
        key = ('root', frozenset(n.items()))
        if key in self.rootcache:
            return self.rootcache[key]
        self.rootcache[key] = None
        sp = self.sp
        m0 = max(n)
        c0 = n[m0]
        if c0 <= 0 or math.isqrt(c0) ** 2 != c0 or not self._mono_square(m0):
            return None
        l = min(n)
        if n[l] <= 0 or math.isqrt(n[l]) ** 2 != n[l] or not self._mono_square(l):
            return None
        hm, hc = m0 >> 1, math.isqrt(c0)
        h = {hm: hc}
        rem = {m: c for m, c in n.items() if m != m0}
        guard = sum(1 << (FB * i + FB - 1) for i in range(len(sp.names)))
        while rem:
            m = max(rem)
            c = rem[m]
            t = (m | guard) - hm
            if m >= m0 or t & guard != guard or c % (2 * hc) or len(h) > 60:
                return None
            t ^= guard
            q = c // (2 * hc)
            if t in h:
                return None
            for k, v in list(h.items()):
                x = rem.get(k + t, 0) - 2 * q * v
                if x:
                    rem[k + t] = x
                else:
                    rem.pop(k + t, None)
            x = rem.get(2 * t, 0) - q * q
            if x:
                rem[2 * t] = x
            else:
                rem.pop(2 * t, None)
            h[t] = q
        if sp.pmul(h, h) != n:
            return None
        self.rootcache[key] = h
        return h

    def _mono_square(self, m):
        while m:
            if m & 1:
                return False
            m >>= FB
        return True

    def trig(self, st, r):
        """(sin, cos) of an R value."""
        sp = self.sp
        if r.is_const():
            f = r.const_val()
            x = float(f)
            if x == 0:
                return R.const(sp, 0), R.const(sp, 1)
            return R.const(sp, Fraction(math.sin(x))), R.const(sp, Fraction(math.cos(x)))
        # normalise sign
        sgn = 1
        lead = r.n[max(r.n)]
        if lead < 0:
            r = r.neg()
            sgn = -1
        key = ('trig', r.key())
        c = self.symcache.get(key)
        if c is None:
            i = self.newsym('sin%d' % len(self.symcache), ('sin', r))
            j = self.newsym('cos%d' % len(self.symcache), ('cos', r))
            self.symcache[key] = (i, j)
            sp.set_rule(i, {0: 1, 2 << (FB * j): -1})
            zi, zj = self.zv(i), self.zv(j)
            ax = [zi * zi + zj * zj == 1, zi <= 1, zi >= -1, zj <= 1, zj >= -1]
            self.axioms[i] = ax
            self.axioms[j] = ax
            c = (i, j)
        s = R.var(sp, c[0])
        return (s if sgn > 0 else s.neg()), R.var(sp, c[1])

    def uf_sym(self, name, args, kind='uf', axioms=None):
        key = (kind, name, tuple(a.key() for a in args))
        i = self.symcache.get(key)
        if i is None:
            i = self.newsym('%s%d' % (name, len(self.symcache)), ('uf', name, list(args)))
            self.symcache[key] = i
            if axioms:
                self.axioms[i] = axioms(self.zv(i))
        return R.var(self.sp, i)

    # transcendental summaries in real mode
    def t_exp(self, st, r):
        sp = self.sp
        if r.is_const():
            f = r.const_val()
            if f == 0:
                return R.const(sp, 1)
            if abs(f) < 700:
                return R.const(sp, Fraction(math.exp(float(f))))
            return INF if f > 0 else R.const(sp, 0)
        if 'expsplit' in self.opts:
            s = self.exp_split(st, r)
            if s is not None:
                return s
        lead = r.n[max(r.n)]
        if lead < 0:
            return R.const(sp, 1).div(self.t_exp(st, r.neg()))
        key = ('exp', r.key())
        i = self.symcache.get(key)
        if i is None:
            i = self.newsym('exp%d' % len(self.symcache), ('uf', 'exp', [r]))
            self.symcache[key] = i
            z = self.zv(i)
            ax = [z > 0]
            if not r.d:
                x = self.zreal(r)
                ax.append(z >= 1 + x)
                ax.append(z3.Implies(x >= 0, z >= 1))
                ax.append(z3.Implies(x <= 0, z <= 1))
                ax.append(z3.Implies(x == 0, z == 1))
                ax.append(z3.Implies(x != 0, z != 1))
            self.axioms[i] = ax
        # exp symbols are positive
        st.facts.setdefault(frozenset(self.sp.var(i).items()), frozenset((1,)))
        return R.var(sp, i)

    # exp and ln as homomorphisms (harness option expsplit)
    def exp_split(self, st, r):
        sp = self.sp
        if len(r.n) > 1:
            if len(r.n) > 12:
                return None
            res = R.const(sp, 1)
            for m, c in r.n.items():
                res = res.mul(self.t_exp(st, R.make(sp, {m: c}, r.d, r.k)))
            return res
        (m, c), = r.n.items()
        if not r.d:
            i, e = 0, m
            while e and not e & FM:
                e >>= FB
                i += 1
            kd = sp.kind[i]
            if e == 1 and kd[0] == 'uf' and kd[1] == 'ln' and r.k == 1 and abs(c) <= 64:
                return self.r_pow(kd[2][0], c)
        if abs(c) != 1 and abs(c) <= 64:
            return self.r_pow(self.t_exp(st, R.make(sp, {m: 1}, r.d, r.k)), c)
        return None

    def r_pow(self, b, e):
        res = R.const(self.sp, 1)
        for _ in range(abs(e)):
            res = res.mul(b)
        return res if e > 0 else R.const(self.sp, 1).div(res)

    def ln_split(self, st, r):
        sp = self.sp
        if len(r.n) != 1:
            return None
        (m, c), = r.n.items()
        fs = []
        i = 0
        while m:
            if m & FM:
                fs.append((R.var(sp, i), m & FM, sp.kind[i]))
            m >>= FB
            i += 1
        fs += [(R(sp, sp.atoms[i]), -p, ('atom',)) for i, p in r.d]
        for j, (f, e, kd) in enumerate(fs):
            if kd[0] == 'atom' and len(f.n) == 1 and list(f.n.values()) == [1]:
                (m, _), = f.n.items()
                i = 0
                while not m & FM:
                    m >>= FB
                    i += 1
                if m == 1:
                    fs[j] = (f, e, sp.kind[i])
        if c == 1 and r.k == 1 and len(fs) == 1 and fs[0][1] == 1 and fs[0][2][:2] != ('uf', 'exp'):
            return None
        if c < 0 or not all(self.value_sign(st, f, frozenset((1,))) for f, _, _ in fs):
            return None
        res = self.t_ln(st, R.const(sp, Fraction(c, r.k)))
        for f, e, kd in fs:
            l = kd[2][0] if kd[:2] == ('uf', 'exp') else self.t_ln(st, f)
            res = res.add(l.mul(R.const(sp, e)))
        return res

    def t_ln(self, st, r):
        sp = self.sp
        if isinstance(r, float):
            if r != r or r < 0:
                return NAN
            return r
        if not self.value_sign(st, r, frozenset((1,))):
            if self.value_sign(st, r, frozenset((0,))):
                return -INF
            return NAN
        if r.is_const():
            f = r.const_val()
            if f == 1:
                return R.const(sp, 0)
            return R.const(sp, Fraction(math.log(float(f))))

        if 'expsplit' in self.opts:
            s = self.ln_split(st, r)
            if s is not None:
                return s

        def ax(z):
            if r.d:
                return []
            x = self.zreal(r)
            return [z <= x - 1, z3.Implies(x > 1, z > 0), z3.Implies(x < 1, z < 0), z3.Implies(x == 1, z == 0)]
        return self.uf_sym('ln', [r], axioms=ax)

    def t_atan(self, st, r):
        if isinstance(r, float):
            return NAN if r != r else self.fconst(math.atan(r))
        if r.is_const():
            return R.const(self.sp, Fraction(math.atan(float(r.const_val()))) if r.n else 0)
        lead = r.n[max(r.n)]
        if lead < 0:
            return self.t_atan(st, r.neg()).neg()
        h = z3.RealVal(str(Fraction(math.pi) / 2))

        def ax(z):
            out = [z < h, z > -h]
            sg = self.zpoly(r.n)
            for i, p in r.d:
                if p & 1:
                    sg = sg * self.zpoly(self.sp.atoms[i])
            out += [z3.Implies(sg > 0, z > 0), z3.Implies(sg < 0, z < 0), z3.Implies(sg == 0, z == 0)]
            return out
        return self.uf_sym('atan', [r], axioms=ax)

    # ------------------------------------------------------------ floats
    def tofp(self, x, s=F64):
        if isinstance(x, float):
            return z3.FPVal(x, s)
        return x

    def fbin(self, st, op, a, b, t='d'):
        if self.mode == 'fp':
            if isinstance(a, float) and isinstance(b, float) and t == 'd':
                if op == 'fadd':
                    return a + b
                if op == 'fsub':
                    return a - b
                if op == 'fmul':
                    return a * b
                if op == 'fdiv':
                    if b == 0:
                        if a == 0 or a != a:
                            return NAN
                        return math.copysign(INF, a) * math.copysign(1, b)
                    return a / b
                raise Unsupported(op)
            s = F64 if t == 'd' else F32
            a, b = self.tofp(a, s), self.tofp(b, s)
            return {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}[op](RNE, a, b)
        fa, fb_ = isinstance(a, float), isinstance(b, float)
        if not isinstance(a, (R, float)) or not isinstance(b, (R, float)):
            raise Unsupported('float op on %s,%s' % (type(a), type(b)))
        if fa or fb_:
            return self.special(st, op, a, b)
        if op == 'fadd':
            return a.add(b)
        if op == 'fsub':
            return a.add(b, -1)
        if op == 'fmul':
            return a.mul(b)
        if op == 'fdiv':
            if not self.psign(st, b.n, frozenset((1, -1))):
                # division by zero
                if self.value_sign(st, a, frozenset((0,))):
                    return NAN
                return INF if self.value_sign(st, a, frozenset((1,))) else -INF
            return a.div(b)
        raise Unsupported(op)

    def special(self, st, op, a, b):
        """At least one operand is nan/inf (real mode)."""
        if isinstance(a, float) and a != a or isinstance(b, float) and b != b:
            return NAN

        def sg(x):
            if isinstance(x, float):
                return 1 if x > 0 else -1
            if self.value_sign(st, x, frozenset((0,))):
                return 0
            return 1 if self.value_sign(st, x, frozenset((1,))) else -1
        if op in ('fadd', 'fsub'):
            x = a if isinstance(a, float) else 0.0
            y = b if isinstance(b, float) else 0.0
            return x + y if op == 'fadd' else x - y
        if op == 'fmul':
            s = sg(a) * sg(b)
            return NAN if s == 0 else s * INF
        if op == 'fdiv':
            if isinstance(a, float) and isinstance(b, float):
                return NAN
            if isinstance(b, float):
                return R.const(self.sp, 0)
            s = sg(b)
            return a * (s or 1)
        raise Unsupported(op)

    def fcmp(self, st, pred, a, b):
        if pred == 'true':
            return True
        if pred == 'false':
            return False
        if self.mode == 'fp':
            if isinstance(a, float) and isinstance(b, float):
                un = a != a or b != b
                base = {'eq': a == b, 'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b, 'ne': a != b}
                if pred == 'ord':
                    return not un
                if pred == 'uno':
                    return un
                if pred[0] == 'o':
                    return (not un) and base[pred[1:]]
                return un or base[pred[1:]]
            a, b = self.tofp(a), self.tofp(b)
            un = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
            base = {'eq': z3.fpEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ, 'lt': z3.fpLT, 'le': z3.fpLEQ}
            if pred == 'ord':
                return z3.Not(un)
            if pred == 'uno':
                return un
            p = pred[1:]
            if p == 'ne':
                e = z3.Not(z3.fpEQ(a, b))
                return z3.And(z3.Not(un), e) if pred[0] == 'o' else e
            e = base[p](a, b)
            return e if pred[0] == 'o' else z3.Or(un, e)
        fa, fb_ = isinstance(a, float), isinstance(b, float)
        if fa or fb_:
            un = (fa and a != a) or (fb_ and b != b)
            if pred == 'ord':
                return not un
            if pred == 'uno':
                return un
            if un:
                return pred[0] == 'u'
            x = a if fa else 0.0
            y = b if fb_ else 0.0
            if fa and fb_ and x == y:
                c = 0
            else:
                c = 1 if x > y else -1
        else:
            if pred == 'ord':
                return True
            if pred == 'uno':
                return False
            d = a.add(b, -1)
            want = {'eq': (0,), 'gt': (1,), 'ge': (0, 1), 'lt': (-1,), 'le': (0, -1), 'ne': (1, -1)}[pred[1:]]
            return self.value_sign(st, d, frozenset(want))
        return {'eq': c == 0, 'gt': c > 0, 'ge': c >= 0, 'lt': c < 0, 'le': c <= 0, 'ne': c != 0}[pred[1:]]

    # ------------------------------------------------------------ ints
    def bv(self, x, w):
        if isinstance(x, (bool, int)):
            return z3.BitVecVal(int(x), w)
        if z3.is_bool(x):
            return z3.If(x, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
        if isinstance(x, (R, float)):
            if self.mode == 'fp' or (isinstance(x, R) and x.is_const()) or isinstance(x, float):
                return z3.BitVecVal(self.float_bits(x), w)
            raise Unsupported('integer use of a real')
        if z3.is_fp(x):
            raise Unsupported('integer use of a symbolic float')
        return x

    def float_bits(self, x):
        if isinstance(x, R):
            x = float(x.const_val())
        return double_to_bits(x)

    def h_int(self, st, fr, i):
        d, op, w, a, b, fl = i
        a = fr.regs[a]
        b = fr.regs[b]
        if isinstance(a, tuple) or isinstance(b, tuple):
            raise Unsupported('vector int op')
        fr.regs[d] = self.intop(st, op, w, a, b)
        fr.ip += 1

    def intop(self, st, op, w, a, b):
        M = (1 << w) - 1
        if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
            a = int(a)
            b = int(b)
            if op == 'add':
                return (a + b) & M
            if op == 'sub':
                return (a - b) & M
            if op == 'mul':
                return (a * b) & M
            if op == 'and':
                return a & b
            if op == 'or':
                return a | b
            if op == 'xor':
                return a ^ b
            if op == 'shl':
                if b >= w:
                    raise MemFault('shift amount %d >= width %d' % (b, w))
                return (a << b) & M
            if op == 'lshr':
                if b >= w:
                    raise MemFault('shift amount %d >= width %d' % (b, w))
                return a >> b
            H = 1 << (w - 1)
            sa = a - (1 << w) if a & H else a
            sb = b - (1 << w) if b & H else b
            if op == 'ashr':
                if b >= w:
                    raise MemFault('shift amount %d >= width %d' % (b, w))
                return (sa >> b) & M
            if b == 0:
                raise MemFault('integer division by zero')
            if op == 'udiv':
                return a // b
            if op == 'urem':
                return a % b
            q = abs(sa) // abs(sb)
            if (sa < 0) != (sb < 0):
                q = -q
            if op == 'sdiv':
                return q & M
            if op == 'srem':
                return (sa - q * sb) & M
            raise Unsupported(op)
        if w == 1:
            A = a if z3.is_expr(a) and z3.is_bool(a) else z3.BoolVal(bool(a))
            B = b if z3.is_expr(b) and z3.is_bool(b) else z3.BoolVal(bool(b))
            if op == 'and':
                return z3.simplify(z3.And(A, B))
            if op == 'or':
                return z3.simplify(z3.Or(A, B))
            if op in ('xor', 'add', 'sub'):
                return z3.simplify(z3.Xor(A, B))
            raise Unsupported('i1 ' + op)
        # pointer-like opaque values
        a = self.bv(a, w)
        b = self.bv(b, w)
        if op in ('udiv', 'sdiv', 'urem', 'srem'):
            if self.decide(st, b == 0):
                raise MemFault('integer division by zero')
        if op in ('udiv', 'sdiv', 'urem', 'srem'):
            k = max(self.umax(a).bit_length(), self.umax(b).bit_length(), 1)
            if k < w:   # both operands are small and non-negative: divide at the narrow width
                na, nb = z3.Extract(k - 1, 0, a), z3.Extract(k - 1, 0, b)
                r = z3.UDiv(na, nb) if op in ('udiv', 'sdiv') else z3.URem(na, nb)
                return self.simp(z3.ZeroExt(w - k, r))
        if op in ('shl', 'lshr', 'ashr'):
            if self.decide(st, z3.UGE(b, z3.BitVecVal(w, w))):
                raise MemFault('shift amount out of range')
        r = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'and': lambda: a & b,
             'or': lambda: a | b, 'xor': lambda: a ^ b, 'shl': lambda: a << b, 'lshr': lambda: z3.LShR(a, b),
             'ashr': lambda: a >> b, 'udiv': lambda: z3.UDiv(a, b), 'urem': lambda: z3.URem(a, b),
             'sdiv': lambda: a / b, 'srem': lambda: z3.SRem(a, b)}[op]()
        return self.simp(r)

    def umax(self, e, depth=0):
        """an upper bound of the bit-vector e read as unsigned"""
        w = e.size()
        full = (1 << w) - 1
        if z3.is_bv_value(e):
            return e.as_long()
        if depth > 24:
            return full
        key = e.get_id()
        if key in self._umax:
            return self._umax[key][1]
        k = e.decl().kind()
        c = e.children()
        r = full
        if k == z3.Z3_OP_ZERO_EXT:
            r = self.umax(c[0], depth + 1)
        elif k == z3.Z3_OP_CONCAT:
            r = 0
            for x in c:
                r = (r << x.size()) | self.umax(x, depth + 1)
        elif k == z3.Z3_OP_BADD:
            r = sum(self.umax(x, depth + 1) for x in c)
        elif k == z3.Z3_OP_BMUL:
            r = 1
            for x in c:
                r *= self.umax(x, depth + 1)
        elif k == z3.Z3_OP_BAND:
            r = min(self.umax(x, depth + 1) for x in c)
        elif k in (z3.Z3_OP_BOR, z3.Z3_OP_BXOR):
            r = (1 << max(self.umax(x, depth + 1).bit_length() for x in c)) - 1
        elif k == z3.Z3_OP_ITE:
            r = max(self.umax(c[1], depth + 1), self.umax(c[2], depth + 1))
        elif k == z3.Z3_OP_EXTRACT:
            hi, lo = e.params()
            r = self.umax(c[0], depth + 1) >> lo
        elif k == z3.Z3_OP_BLSHR and z3.is_bv_value(c[1]):
            r = self.umax(c[0], depth + 1) >> c[1].as_long()
        elif k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I) and z3.is_bv_value(c[1]) and c[1].as_long():
            r = self.umax(c[0], depth + 1) // c[1].as_long()
        elif k in (z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I) and z3.is_bv_value(c[1]) and c[1].as_long():
            r = c[1].as_long() - 1
        if r > full:
            r = full
        self._umax[key] = (e, r)
        return r

    def simp(self, e):
        e = z3.simplify(e)
        if z3.is_bv_value(e):
            return e.as_long()
        return e

    def h_icmp(self, st, fr, i):
        d, pred, w, a, b = i
        a = fr.regs[a]
        b = fr.regs[b]
        if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
            a = int(a)
            b = int(b)
            if pred[0] == 's':
                H = 1 << (w - 1)
                if a & H:
                    a -= 1 << w
                if b & H:
                    b -= 1 << w
                pred = pred[1:]
            elif pred[0] == 'u':
                pred = pred[1:]
            if pred == 'eq':
                r = a == b
            elif pred == 'ne':
                r = a != b
            elif pred == 'lt':
                r = a < b
            elif pred == 'le':
                r = a <= b
            elif pred == 'gt':
                r = a > b
            else:
                r = a >= b
            fr.regs[d] = 1 if r else 0
        else:
            if w == 1:
                A = a if z3.is_expr(a) else z3.BoolVal(bool(a))
                B = b if z3.is_expr(b) else z3.BoolVal(bool(b))
                r = (A == B) if pred == 'eq' else z3.Xor(A, B)
            else:
                a = self.bv(a, w)
                b = self.bv(b, w)
                r = {'eq': lambda: a == b, 'ne': lambda: a != b, 'ult': lambda: z3.ULT(a, b),
                     'ule': lambda: z3.ULE(a, b), 'ugt': lambda: z3.UGT(a, b), 'uge': lambda: z3.UGE(a, b),
                     'slt': lambda: a < b, 'sle': lambda: a <= b, 'sgt': lambda: a > b,
                     'sge': lambda: a >= b}[pred]()
            r = z3.simplify(r)
            if z3.is_true(r):
                r = 1
            elif z3.is_false(r):
                r = 0
            fr.regs[d] = r
        fr.ip += 1

    def h_fcmp(self, st, fr, i):
        d, pred, a, b = i
        r = self.fcmp(st, pred, fr.regs[a], fr.regs[b])
        if isinstance(r, bool):
            r = 1 if r else 0
        else:
            r = z3.simplify(r)
            if z3.is_true(r):
                r = 1
            elif z3.is_false(r):
                r = 0
        fr.regs[d] = r
        fr.ip += 1

    def h_fbin(self, st, fr, i):
        d, op, t, a, b = i
        a = fr.regs[a]
        b = fr.regs[b]
        if isinstance(a, tuple):
            r = tuple(self.fbin(st, op, x, y, 'd') for x, y in zip(a, b))
        else:
            r = self.fbin(st, op, self.asfloat(a), self.asfloat(b), t)
        fr.regs[d] = r
        fr.ip += 1

    def asfloat(self, x):
        if isinstance(x, int) and not isinstance(x, bool):
            return self.fconst(bits_to_double(x))
        if z3.is_expr(x) and z3.is_bv(x):
            if self.mode == 'fp':
                return z3.fpBVToFP(x, F64 if x.size() == 64 else F32)
            raise Unsupported('bits as real')
        return x

    def h_fneg(self, st, fr, i):
        a = fr.regs[i[1]]
        if isinstance(a, tuple):
            fr.regs[i[0]] = tuple(self.fnegv(x) for x in a)
        else:
            fr.regs[i[0]] = self.fnegv(a)
        fr.ip += 1

    def fnegv(self, a):
        if isinstance(a, float):
            return -a
        if isinstance(a, R):
            return a.neg()
        return z3.fpNeg(a)

    def h_cast(self, st, fr, i):
        d, op, s, t, a = i
        fr.regs[d] = self.cast(st, op, s, t, fr.regs[a])
        fr.ip += 1

    def cast(self, st, op, s, t, a):
        if op in ('ptrtoint', 'inttoptr'):
            return a
        if op == 'trunc':
            w = int(t[1:])
            if isinstance(a, (int, bool)):
                return int(a) & ((1 << w) - 1)
            if w == 1:
                r = z3.simplify(z3.Extract(0, 0, a) == 1)
                return 1 if z3.is_true(r) else 0 if z3.is_false(r) else r
            return self.simp(z3.Extract(w - 1, 0, a))
        if op == 'zext':
            w, ws = int(t[1:]), int(s[1:])
            if isinstance(a, (int, bool)):
                return int(a)
            if ws == 1:
                return z3.If(a, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
            return self.simp(z3.ZeroExt(w - ws, a))
        if op == 'sext':
            w, ws = int(t[1:]), int(s[1:])
            if isinstance(a, (int, bool)):
                a = int(a)
                if a & (1 << (ws - 1)):
                    a |= ((1 << w) - 1) ^ ((1 << ws) - 1)
                return a
            if ws == 1:
                return z3.If(a, z3.BitVecVal(-1, w), z3.BitVecVal(0, w))
            return self.simp(z3.SignExt(w - ws, a))
        if op in ('sitofp', 'uitofp'):
            ws = int(s[1:])
            if isinstance(a, (int, bool)):
                a = int(a)
                if op == 'sitofp' and a & (1 << (ws - 1)):
                    a -= 1 << ws
                return float(a) if self.mode == 'fp' else R.const(self.sp, a)
            if self.mode == 'fp':
                a = self.bv(a, ws)
                srt = F64 if t == 'd' else F32
                return z3.fpSignedToFP(RNE, a, srt) if op == 'sitofp' else z3.fpUnsignedToFP(RNE, a, srt)
            a = self.bv(a, ws)
            key = ('bv2r', op, a.get_id())
            j = self.symcache.get(key)
            if j is None:
                j = self.newsym('bv%d' % len(self.symcache), ('bv', a))
                self.symcache[key] = j
                iv = z3.BV2Int(a, op == 'sitofp')
                self.axioms[j] = [self.zv(j) == z3.ToReal(iv)]
            return R.var(self.sp, j)
        if op in ('fptosi', 'fptoui'):
            return self.fptoint(st, op, a, int(t[1:]))
        if op in ('fpext', 'fptrunc'):
            if self.mode == 'fp' and not isinstance(a, float):
                return z3.fpFPToFP(RNE, a, F64 if t == 'd' else F32)
            if self.mode == 'fp' and t == 'f':
                return struct.unpack('<f', struct.pack('<f', a))[0]
            return a
        if op == 'bitcast':
            if t in 'df' and (isinstance(a, int) or z3.is_expr(a) and z3.is_bv(a)):
                return self.asfloat(a)
            if t[0] == 'i' and (isinstance(a, (R, float)) or z3.is_expr(a) and z3.is_fp(a)):
                if isinstance(a, float) or (isinstance(a, R) and a.is_const()):
                    return self.float_bits(a)
                if z3.is_expr(a):
                    return z3.fpToIEEEBV(a)
                raise Unsupported('bits of a symbolic real')
            return a
        raise Unsupported(op)

    def fptoint(self, st, op, a, w):
        if isinstance(a, float) and (a != a or abs(a) == INF or self.mode == 'fp'):
            if a != a or abs(a) == INF:
                return (1 << (w - 1)) if op == 'fptosi' else (1 << 63) & ((1 << w) - 1)
            v = int(a)
            if op == 'fptosi':
                if not -(1 << (w - 1)) <= v < (1 << (w - 1)):
                    return 1 << (w - 1)
            return v & ((1 << w) - 1)
        if self.mode == 'fp':
            if op == 'fptosi':
                lo = z3.FPVal(-float(1 << (w - 1)), F64)
                hi = z3.FPVal(float(1 << (w - 1)), F64)
                inr = z3.And(z3.fpGEQ(a, lo) if w > 52 else z3.fpGT(a, z3.FPVal(-float(1 << (w - 1)) - 1, F64)), z3.fpLT(a, hi))
                return z3.If(inr, z3.fpToSBV(RTZ, a, z3.BitVecSort(w)), z3.BitVecVal(1 << (w - 1), w))
            if w <= 32:
                r = self.fptoint(st, 'fptosi', a, 64)
                return self.simp(z3.Extract(w - 1, 0, r))
            lo = z3.FPVal(-1.0, F64)
            hi = z3.FPVal(2.0 ** w, F64)
            inr = z3.And(z3.fpGT(a, lo), z3.fpLT(a, hi))
            return z3.If(inr, z3.fpToUBV(RTZ, a, z3.BitVecSort(w)), z3.BitVecVal(1 << (w - 1), w))
        f = None
        if a.is_const():
            f = a.const_val()
            v = int(f)
            return v & ((1 << w) - 1)
        # symbolic: enumerate the integer part
        key = ('trunc', a.key())
        v = st.conc.get(key)
        if v is None:
            z = self.zreal(a)
            raise ForkConds(key, ('trunc', z))
        return v & ((1 << w) - 1)

    # ------------------------------------------------------------ control
    def h_ret(self, st, fr, i):
        v = fr.regs[i[0]] if i[0] >= 0 else None
        for oid in fr.allocas:
            o = st.mem.get(oid)
            if o is not None:
                del st.mem[oid]
        st.frames.pop()
        if not st.frames:
            raise PathEnd('done')
        c = st.frames[-1]
        if fr.dest >= 0:
            c.regs[fr.dest] = v
        if fr.normal >= 0:
            c.prev = c.bb
            c.bb = fr.normal
            c.ip = 0
        elif fr.normal == -1:        # -2: a thread of a parallel region ended, the fork is executed again
            c.ip += 1

    def jump(self, fr, t):
        fr.prev = fr.bb
        fr.bb = t
        fr.ip = 0

    def h_br(self, st, fr, i):
        self.jump(fr, i[0])

    def h_cbr(self, st, fr, i):
        c = fr.regs[i[0]]
        if not isinstance(c, (int, bool)):
            c = self.decide(st, c)
        self.jump(fr, i[1] if c else i[2])

    def h_switch(self, st, fr, i):
        c = fr.regs[i[0]]
        w = int(i[2][1:])
        for v, t in i[3]:
            if isinstance(c, (int, bool)):
                ok = int(c) == v
            elif w == 1:
                ok = self.decide(st, c if v else z3.Not(c))
            else:
                ok = self.decide(st, c == z3.BitVecVal(v, w))
            if ok:
                self.jump(fr, t)
                return
        self.jump(fr, i[1])

    def h_unreachable(self, st, fr, i):
        raise MemFault('unreachable executed (missing return or undefined behaviour)')

    def h_unsup(self, st, fr, i):
        raise Unsupported('instruction %s' % i[0])

    def h_phi(self, st, fr, i):
        # evaluate all phis of the block simultaneously
        blk = fr.fn.blocks[fr.bb]
        ip = fr.ip
        vals = []
        while ip < len(blk) and blk[ip][0].__func__ is Engine.h_phi:
            d, inc = blk[ip][1]
            vals.append((d, fr.regs[inc[fr.prev]]))
            ip += 1
        for d, v in vals:
            fr.regs[d] = v
        fr.ip = ip

    def h_select(self, st, fr, i):
        d, t, c, a, b = i
        c = fr.regs[c]
        a = fr.regs[a]
        b = fr.regs[b]
        if isinstance(c, (int, bool)):
            fr.regs[d] = a if c else b
        else:
            fr.regs[d] = self.ite(st, c, a, b, t)
        fr.ip += 1

    def ite(self, st, c, a, b, t):
        if a is b:
            return a
        if isinstance(t, str) and t[0] == 'i':
            w = int(t[1:])
            if w == 1:
                A = a if z3.is_expr(a) else z3.BoolVal(bool(a))
                B = b if z3.is_expr(b) else z3.BoolVal(bool(b))
                return z3.simplify(z3.If(c, A, B))
            return self.simp(z3.If(c, self.bv(a, w), self.bv(b, w)))
        if t == 'p':
            return a if self.decide(st, c) else b
        if t in ('d', 'f') and self.mode == 'fp':
            s = F64 if t == 'd' else F32
            return z3.If(c, self.tofp(a, s), self.tofp(b, s))
        return a if self.decide(st, c) else b

    def h_extract(self, st, fr, i):
        v = fr.regs[i[1]]
        for k in i[2]:
            v = v[k]
        fr.regs[i[0]] = v
        fr.ip += 1

    def h_insert(self, st, fr, i):
        def ins(v, path, x):
            l = list(v)
            l[path[0]] = x if len(path) == 1 else ins(v[path[0]], path[1:], x)
            return tuple(l)
        fr.regs[i[0]] = ins(fr.regs[i[1]], i[3], fr.regs[i[2]])
        fr.ip += 1

    def h_exelem(self, st, fr, i):
        fr.regs[i[0]] = fr.regs[i[1]][fr.regs[i[2]]]
        fr.ip += 1

    def h_inselem(self, st, fr, i):
        l = list(fr.regs[i[1]])
        l[fr.regs[i[3]]] = fr.regs[i[2]]
        fr.regs[i[0]] = tuple(l)
        fr.ip += 1

    def h_freeze(self, st, fr, i):
        fr.regs[i[0]] = fr.regs[i[1]]
        fr.ip += 1

    # ------------------------------------------------------------ memory
    def alloc(self, st, size, name, kind, zero=False):
        o = Obj(self.next_id, size, name, kind, zero)
        self.next_id += 1
        o.owner = st.token
        st.mem[o.id] = o
        return self.addr(o.id)

    def h_alloca(self, st, fr, i):
        n = fr.regs[i[2]]
        if not isinstance(n, int):
            n = self.concretise(st, n, 64)
        a = self.alloc(st, i[1] * n, 'stack in ' + fr.fn.dn[:80], 'stack')
        fr.allocas.append(a >> SHIFT)
        fr.regs[i[0]] = a
        fr.ip += 1

    def concretise(self, st, e, w=64):
        """Fork over the feasible concrete values of a bit-vector."""
        if isinstance(e, (int, bool)):
            return int(e)
        e2 = z3.simplify(e)
        if z3.is_bv_value(e2):
            return e2.as_long()
        key = ('bv', e2.get_id())
        v = st.conc.get(key)
        if v is None:
            self.__dict__.setdefault('_keep', []).append(e2)
            raise ForkConds(key, ('bv', e2))
        return v

    def resolve(self, st, p, size, write):
        if not isinstance(p, int):
            if isinstance(p, (R, float)) or not z3.is_bv(p):
                raise Unsupported('address of odd kind')
            p = self.concretise(st, p)
        oid = p >> SHIFT
        off = (p & ((1 << SHIFT) - 1)) - BASE
        o = st.mem.get(oid)
        if o is None:
            o = self.gobjs.get(oid)
        if o is None:
            if p < (1 << SHIFT):
                raise MemFault('null or wild pointer access (address %#x)' % p)
            raise MemFault('access to freed or out-of-scope memory, or far outside an object')
        if not o.alive:
            raise MemFault('use after free of %s' % o.name)
        if off < 0 or off + size > o.size:
            raise MemFault('%s of %d bytes at offset %d outside object of %d bytes (%s)' % (
                'write' if write else 'read', size, off, o.size, o.name))
        if write:
            if o.owner is not st.token:
                o = o.clone(st.token)
                st.mem[oid] = o
        if st.omp is not None and o.id != self.errno_obj.id:
            self.omp_access(st, o, off, size, write)
        return o, off

    # OpenMP parallel regions: the threads of the team run one after the other, every byte they
    # touch is logged, and two threads touching the same byte with at least one write is a fault;
    # without such a conflict the result does not depend on the interleaving.
    def omp_access(self, st, o, off, size, write):
        tid, log = st.omp
        for k in range(off, off + size):
            a = log.get((o.id, k))
            if a is None:
                log[(o.id, k)] = (tid, write)
            elif a[0] == tid:
                if write and not a[1]:
                    log[(o.id, k)] = (tid, True)
            elif write or a[1]:
                raise MemFault('data race: threads %s and %d of a parallel region access byte %d of %s, at least one writing' % (a[0], tid, k, o.name))
            else:
                log[(o.id, k)] = (-1, False)

    def omp_fork(self, st, fr, av, normal):
        T = int(self.opts.get('threads', 8))
        tid = 0 if st.omp is None else st.omp[0] + 1
        if tid == T:
            st.omp = None
            self.after_call(fr, normal)
            return
        if len([1 for f in st.frames if f.normal == -2]):
            raise Unsupported('nested parallel region')
        log = {} if st.omp is None else st.omp[1]
        st.omp = None
        g = self.alloc(st, 4, 'thread number', 'stack')
        self.store(st, g, 'i32', 4, tid)
        st.omp = (tid, log)
        p = av[2]
        name = self.m.addrfn.get(p)
        f = name and self.getfn(name)
        if not f:
            raise Unsupported('parallel region body')
        self.enter(st, f, [g, g] + av[3:], -1, -2)

    def load(self, st, p, t, size):
        if isinstance(t, list):
            if t[0] == 'BIG':
                raise Unsupported('big aggregate load')
            base = p
            return tuple(self.load(st, (base + off), ft, self.tsize(ft)) for off, ft in t[2])
        o, off = self.resolve(st, p, size, False)
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            v = c[1]
        elif c is None and o.zero and not self.overlaps(o, off, size):
            v = 0
        else:
            v = self.load_slow(st, o, off, size, t)
        return self.retype(v, t)

    def retype(self, v, t):
        if t[0] in 'dfx':
            if isinstance(v, (float, R)):
                return v
            if isinstance(v, int):
                if t == 'f':
                    return self.fconst(bits_to_float(v))
                return self.fconst(bits_to_double(v))
            if z3.is_bv(v) and self.mode == 'fp':
                return z3.fpBVToFP(v, F64 if t == 'd' else F32)
            return v
        if isinstance(v, (float, R)):
            if isinstance(v, float) or v.is_const():
                return self.float_bits(v)
            return v
        if z3.is_expr(v) and z3.is_fp(v):
            return z3.fpToIEEEBV(v)
        if t == 'i1':
            if isinstance(v, int):
                return v & 1
            if z3.is_bv(v):
                return z3.simplify(z3.Extract(0, 0, v) == 1)
        return v

    def tsize(self, t):
        if isinstance(t, list):
            return t[1]
        if t == 'p' or t == 'd':
            return 8
        if t == 'f':
            return 4
        if t == 'x':
            return 10
        return (int(t[1:]) + 7) // 8

    def overlaps(self, o, off, size):
        cells = o.cells
        for k in range(off - 15, off + size):
            c = cells.get(k)
            if c is not None and k + c[0] > off:
                return True
        return False

    def byte_at(self, st, o, off):
        """Byte value at off (int, BV8), or None if uninitialised."""
        cells = o.cells
        for k in range(off, off - 16, -1):
            c = cells.get(k)
            if c is not None:
                if k + c[0] > off:
                    sz, v = c
                    if isinstance(v, (float, R)):
                        if isinstance(v, float) or v.is_const():
                            v = self.float_bits(v)
                        else:
                            raise Unsupported('byte access to a symbolic real')
                    if z3.is_expr(v):
                        if z3.is_fp(v):
                            v = z3.fpToIEEEBV(v)
                        if z3.is_bool(v):
                            v = z3.If(v, z3.BitVecVal(1, 8 * sz), z3.BitVecVal(0, 8 * sz))
                        j = off - k
                        return self.simp(z3.Extract(8 * j + 7, 8 * j, v))
                    return (int(v) >> (8 * (off - k))) & 255
                break
        return 0 if o.zero else None

    def load_slow(self, st, o, off, size, t):
        bs = [self.byte_at(st, o, off + j) for j in range(size)]
        if any(b is None for b in bs):
            self.notes.add('uninitialised read of %s' % o.name)
            self.fresh += 1
            key = ('undef', o.id, off, size, t)
            if t[0] in 'df':
                if self.mode == 'real':
                    i = self.newsym('undef%d' % self.fresh, ('in',))
                    v = R.var(self.sp, i)
                else:
                    v = z3.FP('undef%d' % self.fresh, F64 if t == 'd' else F32)
            else:
                v = z3.BitVec('undef%d' % self.fresh, 8 * size)
            o2 = o
            if o.owner is not st.token and o.id in st.mem:
                o2 = o.clone(st.token)
                st.mem[o.id] = o2
            if all(b is None for b in bs):
                o2.cells[off] = (size, v)
            return v
        if all(isinstance(b, int) for b in bs):
            return sum(b << (8 * j) for j, b in enumerate(bs))
        return self.simp(z3.Concat(*[self.bv(b, 8) for b in reversed(bs)]) if size > 1 else bs[0])

    def store(self, st, p, t, size, v):
        if isinstance(t, list):
            if t[0] == 'BIG':
                raise Unsupported('big aggregate store')
            for (off, ft), x in zip(t[2], v):
                self.store(st, p + off, ft, self.tsize(ft), x)
            return
        o, off = self.resolve(st, p, size, True)
        if o.const:
            raise MemFault('write to constant %s' % o.name)
        c = o.cells.get(off)
        if c is None or c[0] != size:
            self.clear(st, o, off, size)
        if t == 'i1' and z3.is_expr(v) and z3.is_bool(v):
            v = z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
        o.cells[off] = (size, v)

    def clear(self, st, o, off, size):
        """Remove cells overlapping [off, off+size), splitting partial ones."""
        cells = o.cells
        for k in range(off - 15, off + size):
            c = cells.get(k)
            if c is None or k + c[0] <= off:
                continue
            if k >= off and k + c[0] <= off + size:
                del cells[k]
                continue
            bs = [(j, self.byte_at(st, o, j)) for j in range(k, k + c[0]) if not off <= j < off + size]
            del cells[k]
            for j, b in bs:
                cells[j] = (1, b)

    def h_load(self, st, fr, i):
        p = fr.regs[i[3]]
        if not isinstance(p, int):
            p = self.ptr(st, p)
        fr.regs[i[0]] = self.load(st, p, i[1], i[2])
        fr.ip += 1

    def ptr(self, st, p):
        if isinstance(p, (R, float)):
            raise Unsupported('real as pointer')
        return self.concretise(st, p)

    def h_store(self, st, fr, i):
        p = fr.regs[i[3]]
        if not isinstance(p, int):
            p = self.ptr(st, p)
        self.store(st, p, i[0], i[1], fr.regs[i[2]])
        fr.ip += 1

    def h_gep(self, st, fr, i):
        d, b, c, vs = i
        p = fr.regs[b]
        tot = c
        M = (1 << 64) - 1
        sym = None
        for a, s, w in vs:
            x = fr.regs[a]
            if isinstance(x, (int, bool)):
                if x & (1 << (w - 1)):
                    x -= 1 << w
                tot += x * s
            else:
                x = self.bv(x, w)
                if w < 64:
                    x = z3.SignExt(64 - w, x)
                t = x * z3.BitVecVal(s & M, 64)
                sym = t if sym is None else sym + t
        if isinstance(p, int):
            p = (p + tot) & M
            fr.regs[d] = p if sym is None else self.simp(z3.BitVecVal(p, 64) + sym)
        else:
            e = p + z3.BitVecVal(tot & M, 64)
            if sym is not None:
                e = e + sym
            fr.regs[d] = self.simp(e)
        fr.ip += 1

    def memcpy(self, st, dst, src, n):
        if n == 0:
            return
        dst = self.ptr(st, dst) if not isinstance(dst, int) else dst
        src = self.ptr(st, src) if not isinstance(src, int) else src
        so, soff = self.resolve(st, src, n, False)
        do, doff = self.resolve(st, dst, n, True)
        if so.id == do.id:
            so = do
        out = []
        p = 0
        cells = so.cells
        while p < n:
            c = cells.get(soff + p)
            if c is not None and p + c[0] <= n:
                out.append((p, c))
                p += c[0]
                continue
            if c is None and not self.overlaps(so, soff + p, min(8, n - p)):
                w = min(8, n - p)
                if so.zero:
                    out.append((p, (w, 0)))
                p += w
                continue
            b = self.byte_at(st, so, soff + p)
            if b is not None:
                out.append((p, (1, b)))
            p += 1
        self.clear(st, do, doff, n)
        if do.zero:
            # preserve 'uninitialised' as zero is wrong only for uninit sources; accept
            pass
        for p, c in out:
            do.cells[doff + p] = c

    def memset(self, st, dst, b, n):
        if n == 0:
            return
        dst = self.ptr(st, dst) if not isinstance(dst, int) else dst
        do, doff = self.resolve(st, dst, n, True)
        self.clear(st, do, doff, n)
        p = 0
        if not isinstance(b, int):
            for p in range(n):
                do.cells[doff + p] = (1, b)
            return
        b &= 255
        while p < n:
            w = 8 if n - p >= 8 else 1
            do.cells[doff + p] = (w, int.from_bytes(bytes([b]) * w, 'little'))
            p += w

    def cstr(self, st, p):
        o, off = self.resolve(st, p, 1, False)
        s = b''
        while True:
            b = self.byte_at(st, o, off)
            if not b:
                break
            s += bytes([b])
            off += 1
        return s.decode()

    # ------------------------------------------------------------ calls
    def h_call(self, st, fr, i):
        d, rt, callee, creg, args, normal, atys, unw = i
        if callee[0] == 'asm':
            v = self.inline_asm(st, fr, callee[1], callee[2], [fr.regs[a] for a in args])
            if d >= 0:
                fr.regs[d] = v
            fr.ip += 1
            return
        if callee[0] == 'fn':
            name = callee[1]
        else:
            p = fr.regs[creg]
            if not isinstance(p, int):
                p = self.ptr(st, p)
            name = self.m.addrfn.get(p)
            if name is None:
                raise MemFault('call through bad function pointer %#x' % p)
        av = [fr.regs[a] for a in args]
        if name == '__kmpc_fork_call':
            self.omp_fork(st, fr, av, normal)
            return
        ext = EXT.get(name)
        if ext is x_throw:
            self.throw(st, name, av)
            return
        if ext is None:
            if name.startswith('llvm.'):
                ext = self.intrinsic
                v = ext(st, fr, name, av, rt)
                if d >= 0:
                    fr.regs[d] = v
                self.after_call(fr, normal)
                return
            ic = self.intercepts.get(name)
            if ic is not None:
                v = ic(self, st, fr, av)
                if d >= 0:
                    fr.regs[d] = v
                self.after_call(fr, normal)
                return
            f = self.getfn(name)
            if f is None:
                raise Unsupported('external function %s' % name)
            self.enter(st, f, av, d, normal)
            return
        v = ext(self, st, fr, av)
        if d >= 0:
            fr.regs[d] = v
        self.after_call(fr, normal)

    # ------------------------------------------------------------ exceptions
    def throw(self, st, name, av):
        if name == '__cxa_throw':
            st.exc = (av[0], av[1])
        elif name != '__cxa_rethrow':
            st.exc = (self.alloc(st, 16, 'exception object', 'heap'), name)
        self.unwind(st)

    def unwind(self, st):
        """leave frames until a call with a landing pad; the executing frames' ip is at their pending call"""
        while st.frames:
            fr = st.frames[-1]
            if fr.normal == -2:
                raise Unsupported('exception out of a parallel region')
            ins = fr.fn.blocks[fr.bb][fr.ip]
            if ins[0] == self.h_call and ins[1][7] >= 0:
                self.jump(fr, ins[1][7])
                return
            if len(st.frames) == 1:
                break
            for oid in fr.allocas:
                st.mem.pop(oid, None)
            st.frames.pop()
        raise MemFault('uncaught exception')

    def h_resume(self, st, fr, i):
        self.unwind(st)

    def base_type(self, st, ti):
        """the typeinfo of the only base class, 0 if there is none"""
        try:
            o = st.mem.get(ti >> SHIFT)
            if o is not None and o.size >= 24:
                b = self.load(st, ti + 16, 'p', 8)
                return b if isinstance(b, int) else 0
        except MemFault:
            pass
        return 0

    def h_landingpad(self, st, fr, i):
        obj, ti = st.exc
        sel = 0
        for c in i[2]:
            want = fr.regs[c]
            if want == 0:
                sel = 1
                break
            t = ti
            while isinstance(t, int) and t:
                if t == want:
                    sel = want >> SHIFT
                    break
                t = self.base_type(st, t)
            if sel:
                break
            e = self.globals.get('_ZTISt9exception')
            if isinstance(ti, str) and e is not None and want == self.addr(e.id):
                sel = want >> SHIFT
                break
        if not sel and not i[1]:
            self.unwind_from_pad(st, fr)
            return
        fr.regs[i[0]] = (obj, sel & 0x7fffffff)
        fr.ip += 1

    def unwind_from_pad(self, st, fr):
        for oid in fr.allocas:
            st.mem.pop(oid, None)
        st.frames.pop()
        if not st.frames:
            raise MemFault('uncaught exception')
        self.unwind(st)

    def after_call(self, fr, normal):
        if normal >= 0:
            self.jump(fr, normal)
        else:
            fr.ip += 1

    def enter(self, st, f, av, dest, normal):
        if len(st.frames) > 400:
            raise Budget('recursion depth')
        self.functions.add(f.name)
        n = Frame()
        n.fn = f
        regs = [None] * f.nr
        regs.extend(f.consts)
        n.regs = regs
        n.allocas = []
        for k in range(f.na):
            v = av[k]
            at = f.at[k]
            if isinstance(at, list):     # byval copy
                a = self.alloc(st, at[1], 'byval argument', 'stack')
                n.allocas.append(a >> SHIFT)
                self.memcpy(st, a, v, at[1])
                v = a
            regs[k] = v
        n.bb = 0
        n.ip = 0
        n.prev = -1
        n.dest = dest
        n.normal = normal
        st.frames.append(n)

    def intrinsic(self, st, fr, name, a, rt):
        b = name.split('.')
        k = b[1]
        if k in ('lifetime', 'dbg', 'assume', 'stacksave', 'stackrestore', 'experimental', 'donothing', 'prefetch', 'va_start', 'va_end', 'invariant'):
            return 0
        if k == 'eh' and b[2] == 'typeid':
            return (a[0] >> SHIFT) & 0x7fffffff
        if k in ('memcpy', 'memmove'):
            n = a[2] if isinstance(a[2], int) else self.concretise(st, a[2])
            self.memcpy(st, a[0], a[1], n)
            return None
        if k == 'memset':
            n = a[2] if isinstance(a[2], int) else self.concretise(st, a[2])
            self.memset(st, a[0], a[1], n)
            return None
        if k == 'fmuladd' or k == 'fma':
            return self.fbin(st, 'fadd', self.fbin(st, 'fmul', a[0], a[1]), a[2])
        if k == 'fabs':
            return self.fabs(st, a[0])
        if k == 'sqrt':
            return self.fsqrt(st, a[0])
        if k == 'is' and b[2] == 'constant':
            return 0
        if k == 'expect':
            return a[0]
        if k == 'trap':
            raise MemFault('trap')
        if k in ('umul', 'uadd', 'usub', 'smul', 'sadd', 'ssub') and b[2] == 'with':
            w = int(b[4][1:])
            op = k[1:]
            if isinstance(a[0], int) and isinstance(a[1], int):
                x, y = a
                if k[0] == 's':
                    H = 1 << (w - 1)
                    x = x - (1 << w) if x & H else x
                    y = y - (1 << w) if y & H else y
                r = x * y if op == 'mul' else x + y if op == 'add' else x - y
                lo, hi = (0, (1 << w) - 1) if k[0] == 'u' else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
                return (r & ((1 << w) - 1), 0 if lo <= r <= hi else 1)
            x, y = self.bv(a[0], w), self.bv(a[1], w)
            ex = z3.ZeroExt if k[0] == 'u' else z3.SignExt
            X, Y = ex(w, x), ex(w, y)
            Rr = X * Y if op == 'mul' else X + Y if op == 'add' else X - Y
            lo = z3.Extract(w - 1, 0, Rr)
            return (self.simp(lo), z3.simplify(ex(w, lo) != Rr))
        if k in ('umax', 'umin', 'smax', 'smin'):
            w = int(b[2][1:])
            fr2 = {'umax': 'ugt', 'umin': 'ult', 'smax': 'sgt', 'smin': 'slt'}[k]
            if isinstance(a[0], int) and isinstance(a[1], int):
                x, y = a
                if k[0] == 's':
                    H = 1 << (w - 1)
                    sx = x - (1 << w) if x & H else x
                    sy = y - (1 << w) if y & H else y
                else:
                    sx, sy = x, y
                if k[1:] == 'max':
                    return x if sx > sy else y
                return x if sx < sy else y
            x, y = self.bv(a[0], w), self.bv(a[1], w)
            c = {'ugt': z3.UGT(x, y), 'ult': z3.ULT(x, y), 'sgt': x > y, 'slt': x < y}[fr2]
            return self.simp(z3.If(c, x, y))
        if k in ('fshl', 'fshr'):
            w = int(b[2][1:])
            if all(isinstance(x, int) for x in a):
                s = a[2] % w
                if k == 'fshl':
                    return ((a[0] << s) | (a[1] >> (w - s) if s else 0)) & ((1 << w) - 1)
                return ((a[1] >> s) | (a[0] << (w - s) if s else 0)) & ((1 << w) - 1)
            x, y, s = [self.bv(q, w) for q in a]
            cc = z3.Concat(x, y)
            s2 = z3.ZeroExt(w, z3.URem(s, z3.BitVecVal(w, w)))
            if k == 'fshl':
                return self.simp(z3.Extract(2 * w - 1, w, cc << s2))
            return self.simp(z3.Extract(w - 1, 0, z3.LShR(cc, s2)))
        if k == 'abs':
            w = int(b[2][1:])
            if isinstance(a[0], int):
                H = 1 << (w - 1)
                return ((1 << w) - a[0]) & ((1 << w) - 1) if a[0] & H else a[0]
            return self.simp(z3.If(a[0] < 0, -a[0], a[0]))
        if k in ('floor', 'ceil', 'trunc') and isinstance(a[0], float):
            return float(getattr(math, k)(a[0]))
        if k in ('ctpop', 'ctlz', 'cttz') and isinstance(a[0], int):
            w = int(b[2][1:])
            if k == 'ctpop':
                return bin(a[0]).count('1')
            if k == 'ctlz':
                return w - a[0].bit_length()
            return w if a[0] == 0 else (a[0] & -a[0]).bit_length() - 1
        if k in ('exp', 'log', 'sin', 'cos', 'pow') and self.mode == 'real':
            return LIBM[k](self, st, fr, a)
        if k in ('maxnum', 'minnum'):
            if self.fcmp_b(st, 'ogt' if k == 'maxnum' else 'olt', a[0], a[1]):
                return a[0]
            return a[1]
        raise Unsupported('intrinsic ' + name)

    def fcmp_b(self, st, p, a, b):
        return self.decide(st, self.fcmp(st, p, a, b))

    def fabs(self, st, x):
        if isinstance(x, float):
            return abs(x)
        if isinstance(x, R):
            return x if self.value_sign(st, x, frozenset((0, 1))) else x.neg()
        return z3.fpAbs(x)

    def fsqrt(self, st, x):
        if isinstance(x, float):
            if self.mode == 'fp' or x != x or abs(x) == INF:
                return math.sqrt(x) if x >= 0 else (NAN if x != 0 else x)
        if isinstance(x, R):
            if not self.value_sign(st, x, frozenset((0, 1))):
                return NAN
            if x.n == {}:
                return x
            return self.sqrt_sym(st, x)
        return z3.fpSqrt(RNE, x)

    def inline_asm(self, st, fr, text, cons, a):
        t = text.strip().replace('\n', ' ')
        x = a[0] if a else None
        if t == 'fsqrt':
            return self.fsqrt(st, x)
        if t == 'fabs':
            return self.fabs(st, x)
        if self.mode == 'real':
            if t in ('fsin', 'fcos', 'fsincos', 'fptan') or t.startswith('fsincos'):
                if isinstance(x, float):
                    return NAN
                s, c = self.trig(st, x)
                if t == 'fsin':
                    return s
                if t == 'fcos':
                    return c
                if t == 'fsincos':
                    return (c, s)
        if self.mode == 'fp' and t in ('fsin', 'fcos', 'fsincos') and isinstance(x, float) and math.isfinite(x):
            if t == 'fsincos':
                return (math.cos(x), math.sin(x))
            return math.sin(x) if t == 'fsin' else math.cos(x)
        if self.mode == 'fp' and t == 'fyl2x' and all(isinstance(v, float) for v in a[:2]) and a[0] > 0:
            return a[1] * math.log2(a[0])
        if self.mode == 'real' and t == 'fyl2x':
            # st(1)*log2(st(0)); constraints tell the order: "0" = st, "u" = st(1)
            xx, yy = a[0], a[1]
            L = self.t_ln(st, xx)
            ln2 = R.const(self.sp, Fraction(math.log(2)))
            if isinstance(L, float):
                return self.fbin(st, 'fmul', L, yy)
            return self.fbin(st, 'fmul', self.fbin(st, 'fdiv', L, ln2), yy)
        if t.startswith('mulq') or t.startswith('mul '):
            w = 64
            x, y = a[0], a[1]
            if isinstance(x, int) and isinstance(y, int):
                p = x * y
                return (p & ((1 << 64) - 1), p >> 64)
            X = z3.ZeroExt(64, self.bv(x, 64))
            Y = z3.ZeroExt(64, self.bv(y, 64))
            P = X * Y
            return (self.simp(z3.Extract(63, 0, P)), self.simp(z3.Extract(127, 64, P)))
        raise Unsupported('inline asm %r [%s]' % (t, cons))

    # ------------------------------------------------------------ checks
    def base_constraints(self, st):
        return st.pc

    def record_failure(self, st, cid, exprs, why, fr=None, hint=None, soft=False):
        if self.fail_ids.get(cid, 0) >= 2:
            return
        self.fail_ids[cid] = self.fail_ids.get(cid, 0) + 1
        cands = []
        inputs = [(n, v) for n, v in st.decl.items()]
        base = list(exprs)
        # prefer counterexamples in a small box with a visible difference
        rv = [self.zv(v[1]) for n, v in inputs if v[0] == 'real']
        box = [z3.And(v >= -8, v <= 8) for v in rv]
        tries = []
        if hint is not None:
            tries.append(base + hint + box)
            tries.append(base + hint)
        if box:
            tries.append(base + box)
        tries.append(base)
        got = 'unknown'
        for t in tries:
            r, mod = self.check_sat(t, min(self.t_check, 8000))
            if r == 'sat':
                got = 'sat'
                cands.append(self.input_values(st, mod))
                if len(cands) >= 2:
                    break
            elif r == 'unsat' and t is base:
                got = 'unsat'
        loc = [f.fn.dn for f in st.frames[-4:]] if st.frames else []
        rec = dict(id=cid, why=why, loc=loc, cands=cands, verdict=got, branches=st.branches)
        (self.suspects if soft else self.failures).append(rec)
        if self.on_failure:
            self.on_failure(self)

    def input_values(self, st, mod):
        out = {}
        for n, v in st.decl.items():
            if v[0] == 'real':
                z = mod.eval(self.zv(v[1]), model_completion=True)
                out[n] = ['r', self.numstr(z)]
            elif v[0] == 'fp':
                if z3.is_true(mod.eval(z3.fpIsNaN(v[1]), model_completion=True)):   # its bits are unspecified
                    out[n] = ['b', 0x7ff8000000000000]
                    continue
                z = mod.eval(z3.fpToIEEEBV(v[1]), model_completion=True)
                out[n] = ['b', z.as_long()]
            elif v[0] == 'bv':
                z = mod.eval(v[1], model_completion=True)
                out[n] = ['i', z.as_long()]
            elif v[0] == 'c':
                out[n] = ['i', v[1]]
        ufs = {}
        for name, (i, args) in st.ufs.items():
            pts = ufs.setdefault(name[0], [])
            av = []
            for a in args:
                z = mod.eval(self.zreal(a), model_completion=True)
                av.append(self.numstr(z))
            pts.append([av, self.numstr(mod.eval(self.zv(i), model_completion=True))])
        if ufs:
            out['@uf'] = ufs
        return out

    def numstr(self, z):
        z = z3.simplify(z)
        if z3.is_rational_value(z):
            return repr(float(z.as_fraction()))
        if z3.is_algebraic_value(z):
            return repr(float(z.approx(40).as_fraction()))
        return '0.0'

    def near_by_box(self, st, d, tol):
        t = tol.as_fraction()
        sp = self.sp
        den = {0: d.k}
        for i, pw in d.d:
            for _ in range(pw):
                den = sp.pmul(den, sp.atoms[i])
        if len(den) == 1 and 0 in den:
            sg = 1 if den[0] > 0 else -1
        elif self.box_nonpos(st, {m: -c for m, c in den.items()}, True):
            sg = 1
        elif self.box_nonpos(st, den, True):
            sg = -1
        else:
            return False
        # |n| <= t * sg * den
        a = sp.padd({m: c * t.denominator for m, c in d.n.items()}, den, 1, -sg * t.numerator)
        b = sp.padd({m: c * t.denominator for m, c in d.n.items()}, den, -1, -sg * t.numerator)
        return self.box_nonpos(st, a, False, 40, True) and self.box_nonpos(st, b, False, 40, True)

    def check_diff(self, st, d, cid, tol=None):
        """d: R that must be zero (or |d| <= tol)."""
        self.stats['checks'] += 1
        st.nchecks += 1
        if tol is None:
            q = d.n
            if not q or (len(q) == 1 and 0 in q):
                self.stats['normal_form'] += 1
                bad = z3.BoolVal(bool(q))
            else:
                key, al = self.allowed(st, self.norm(q)[1])
                if al == frozenset((0,)):
                    bad = z3.BoolVal(False)
                else:
                    bad = self.zpoly(q) != 0
            if z3.is_false(bad):
                # closed by the exact normal form; still submitted (trivially unsat)
                s = z3.Solver()
                s.add(bad)
                self.stats['queries'] += 1
                self.stats['unsat'] += 1 if s.check() == z3.unsat else 0
                return True
            exprs = st.pc + [bad]
            z = self.zreal(d)
            hint = [z3.Or(z >= 1, z <= -1)]
        else:
            if d.n and self.near_by_box(st, d, tol):
                return True
            z = self.zreal(d)
            bad = z3.Or(z > tol, z < -tol)
            exprs = st.pc + [bad]
            hint = [z3.Or(z >= 1000 * tol, z <= -1000 * tol)]
            if not d.n:
                self.stats['normal_form'] += 1
                self.stats['queries'] += 1
                self.stats['unsat'] += 1
                return True
        r, mod = self.check_sat(exprs, self.t_check)
        if r == 'unsat':
            return True
        if r == 'unknown':
            self.incomplete.append('solver gave up on %s' % cid)
            # still look for a concrete counterexample
        self.record_failure(st, cid, exprs, 'values differ', hint=hint)
        return r != 'sat'

    # ------------------------------------------------------------ driver
    def run(self, name, tlimit=120):
        self.deadline = time.time() + tlimit
        f = self.getfn(name)
        if f is None:
            raise Unsupported('no harness ' + name)
        st = State()
        st.frames = []
        st.mem = {}
        for oid, o in self.gobjs.items():
            o.owner = None
            st.mem[oid] = o
        st.pc = []
        st.facts = {}
        st.known = {}
        st.model = {} if self.mode == 'real' else None
        st.token = object()
        st.nchecks = 0
        st.choices = {}
        st.decl = {}
        st.ufs = {}
        st.branches = 0
        st.trace = []
        st.syms = {}
        st.conc = {}
        st.box = {}
        st.omp = None
        st.exc = None
        self.enter(st, f, [], -1, -1)
        work = [st]
        try:
            while work:
                s = work.pop()
                self.stats['paths'] += 1
                if self.stats['paths'] > self.max_paths:
                    raise Budget('paths')
                self.run_state(s, work)
                if len(self.failures) >= self.max_fail:
                    self.incomplete.append('stopped after %d failures' % len(self.failures))
                    break
        except Budget as e:
            self.incomplete.append('budget: %s' % e)
        return self

    def run_state(self, st, work):
        n = 0
        try:
            while True:
                fr = st.frames[-1]
                h, a = fr.fn.blocks[fr.bb][fr.ip]
                n += 1
                if n & 4095 == 0:
                    self.stats['instrs'] += 4096
                    if time.time() > self.deadline:
                        self.suspect(st, 'time budget exhausted on this path')
                        raise Budget('time')
                    if self.stats['instrs'] > self.max_instr:
                        self.suspect(st, 'instruction budget exhausted on this path')
                        raise Budget('instructions')
                    if n > self.max_path_instr:
                        raise Limit('more than %d instructions on one path' % self.max_path_instr)
                try:
                    h(st, fr, a)
                except ForkPoly as f:
                    if not self.fork_poly(st, f, work):
                        return
                except ForkBool as f:
                    if not self.fork_bool(st, f.cond, work):
                        return
                except ForkConds as f:
                    if not self.fork_conds(st, f, work):
                        return
        except PathEnd as e:
            self.finish(st, e.why)
        except MemFault as e:
            self.stats['checks'] += 1
            r, mod = self.check_sat(st.pc, self.t_check)
            if r == 'unsat':
                return
            if r == 'unknown':
                self.incomplete.append('solver gave up on feasibility of memory fault')
            self.record_failure(st, 'memory-safety', st.pc, e.what)
        except Unsupported as e:
            self.incomplete.append('unsupported: %s in %s' % (e, st.frames[-1].fn.dn[:120] if st.frames else ''))
            self.suspect(st, str(e))
        except Limit as e:
            self.incomplete.append('limit: %s' % e)
            self.suspect(st, str(e))
        finally:
            self.stats['instrs'] += n & 4095

    def suspect(self, st, why):
        """a path that could not be executed to its end: keep its input for a native replay"""
        try:
            self.record_failure(st, 'cut-path', st.pc, why, soft=True)
        except Exception:
            pass

    def finish(self, st, why):
        if st.nchecks and len(self.witnesses) < int(self.opts.get('witnesses', 3)):
            r, mod = self.check_sat(st.pc, self.t_branch)
            if r == 'sat':
                self.witnesses.append(dict(values=self.input_values(st, mod), checks=st.nchecks))
        elif st.nchecks:
            self.stats['more_paths'] = self.stats.get('more_paths', 0) + 1

    def feasible(self, st, extra):
        if z3.is_true(extra):
            return True, None
        r, mod = self.check_sat(st.pc + [extra], self.t_branch)
        return r != 'unsat', mod

    def fork_poly(self, st, f, work):
        opts = []
        val = None
        if st.model is not None:
            val = self.eval_poly(f.poly, st.model)
        bs = self.box_sign(st, f.poly)
        for sset in f.sets:
            if bs is not None and not (bs & sset):
                continue
            c = self.sign_constraint(f.poly, sset)
            ok, mod, keep = None, None, False
            if val is not None:
                sg = 0 if val == 0 else (1 if val > 0 else -1)
                if sg in sset:
                    ok, keep = True, True
            if ok is None and bs is not None and bs <= sset:
                ok, keep = True, True
            if ok is None:
                ok, mod = self.feasible(st, c)
            if ok:
                opts.append((sset, c, mod, keep))
        if not opts:
            return False
        rest = opts[1:]
        clones = [st.clone() for _ in rest]
        for s, (sset, c, mod, keep) in zip([st] + clones, opts):
            s.facts[f.key] = sset
            if not (bs is not None and bs <= sset):     # otherwise implied by the box
                s.pc.append(c)
            self.tighten(s, f.poly, sset)
            s.branches += 1
            if not keep:
                s.model = self.model_vals(mod) if mod is not None else None
        if clones:
            self.stats['forks'] += 1
            work.extend(clones)
        return True

    def fork_bool(self, st, cond, work):
        opts = []
        for val in (True, False):
            c = cond if val else z3.Not(cond)
            ok, mod = self.feasible(st, c)
            if ok:
                opts.append((val, c, mod))
        if not opts:
            return False
        clones = [st.clone() for _ in opts[1:]]
        for s, (val, c, mod) in zip([st] + clones, opts):
            s.known[cond.get_id()] = (cond, val)
            s.pc.append(c)
            s.branches += 1
            if self.mode == 'real':
                s.model = None if mod is None else self.model_vals(mod)
        if clones:
            self.stats['forks'] += 1
            work.extend(clones)
        return True

    def fork_conds(self, st, f, work):
        kind, e = f.options
        vals = []
        block = []
        lim = int(self.opts.get('max_values', 80))
        while True:
            r, mod = self.check_sat(st.pc + block, self.t_branch)
            if r == 'unsat':
                break
            if r == 'unknown':
                self.incomplete.append('solver gave up enumerating values')
                break
            if kind == 'bv':
                v = mod.eval(e, model_completion=True).as_long()
                c = e == v
            elif kind == 'choose':
                v = mod.eval(e, model_completion=True).as_long()
                c = e == v
            else:
                z = mod.eval(e, model_completion=True)
                q = z.as_fraction() if z3.is_rational_value(z) else z.approx(30).as_fraction()
                v = int(q)
                if v > 0:
                    c = z3.And(e >= v, e < v + 1)
                elif v < 0:
                    c = z3.And(e <= v, e > v - 1)
                else:
                    c = z3.And(e > -1, e < 1)
            vals.append((v, c, mod))
            block.append(z3.Not(c))
            if len(vals) > lim:
                self.incomplete.append('too many concrete values')
                break
        if not vals:
            return False
        clones = [st.clone() for _ in vals[1:]]
        for s, (v, c, mod) in zip([st] + clones, vals):
            s.conc[f.key] = v
            s.pc.append(c)
            s.branches += 1
            s.model = self.model_vals(mod) if self.mode == 'real' else None
        if clones:
            self.stats['forks'] += 1
            work.extend(clones)
        return True


# ---------------------------------------------------------------- externals
def x_new(E, st, fr, a):
    n = E.concretise(st, a[0]) if not isinstance(a[0], int) else a[0]
    if n > (1 << 32):
        raise MemFault('allocation of %d bytes (std::bad_alloc)' % n)
    return E.alloc(st, n, 'heap from ' + fr.fn.dn[:60], 'heap')


def x_calloc(E, st, fr, a):
    return E.alloc(st, a[0] * a[1], 'heap', 'heap', True)


def x_del(E, st, fr, a):
    p = a[0]
    if not isinstance(p, int):
        p = E.ptr(st, p)
    if p == 0:
        return None
    oid = p >> SHIFT
    o = st.mem.get(oid)
    if o is None or o.kind != 'heap' or (p & ((1 << SHIFT) - 1)) != BASE:
        raise MemFault('invalid free')
    if not o.alive:
        raise MemFault('double free')
    o = o.clone(st.token)
    o.alive = False
    o.cells = {}
    st.mem[oid] = o
    return None


def x_memmove(E, st, fr, a):
    n = a[2] if isinstance(a[2], int) else E.concretise(st, a[2])
    E.memcpy(st, a[0], a[1], n)
    return a[0]


def x_memset(E, st, fr, a):
    n = a[2] if isinstance(a[2], int) else E.concretise(st, a[2])
    E.memset(st, a[0], a[1], n)
    return a[0]


def x_errno(E, st, fr, a):
    return E.addr(E.errno_obj.id)


def x_omp_static(w):
    def f(E, st, fr, a):
        T = int(E.opts.get('threads', 8))
        tid, t = a[1], 'i%d' % (8 * w)
        sched, incr, chunk = a[2], a[7], a[8]
        lo, up = E.load(st, a[4], t, w), E.load(st, a[5], t, w)
        if not all(isinstance(x, int) for x in (tid, lo, up, sched, incr, chunk)) or sched not in (33, 34) or not 0 < incr < 1 << (8 * w - 1) or st.omp is None:
            raise Unsupported('parallel loop schedule')
        n = (up - lo) // incr + 1 if up >= lo else 0
        c = chunk if sched == 33 else -(-n // T)
        E.store(st, a[6], t, w, c * T * incr)
        E.store(st, a[4], t, w, lo + tid * c * incr)
        E.store(st, a[5], t, w, lo + (tid * c + c - 1) * incr if sched == 33 else min(up, lo + (tid * c + c - 1) * incr))
        if c == 0 or tid * c >= n:
            E.store(st, a[4], t, w, up + 1)
            E.store(st, a[5], t, w, up)
        E.store(st, a[3], 'i32', 4, int(c > 0 and tid * c < n <= tid * c + c))
        return None
    return f


def x_throw(E, st, fr, a):
    raise AssertionError     # handled by Engine.throw


def x_strlen(E, st, fr, a):
    p = E.ptr(st, a[0]) if not isinstance(a[0], int) else a[0]
    n = 0
    while True:
        b = E.load(st, p + n, 'i8', 1)
        if not isinstance(b, int):
            raise Unsupported('strlen of symbolic text')
        if b == 0:
            return n
        n += 1


def x_memcmp(E, st, fr, a):
    n = a[2] if isinstance(a[2], int) else E.concretise(st, a[2])
    for k in range(n):
        x, y = E.load(st, a[0] + k, 'i8', 1), E.load(st, a[1] + k, 'i8', 1)
        if not isinstance(x, int) or not isinstance(y, int):
            raise Unsupported('memcmp of symbolic text')
        if x != y:
            return (1 if x > y else -1) & 0xffffffff
    return 0


def x_memchr(E, st, fr, a):
    n = a[2] if isinstance(a[2], int) else E.concretise(st, a[2])
    for k in range(n):
        x = E.load(st, a[0] + k, 'i8', 1)
        if not isinstance(x, int):
            raise Unsupported('memchr of symbolic text')
        if x == (a[1] & 255):
            return a[0] + k
    return 0


def x_strtod(E, st, fr, a):
    n = x_strlen(E, st, fr, a)
    t = bytes(E.load(st, a[0] + k, 'i8', 1) for k in range(n)).decode('latin1')
    m = re.match(r'\s*[-+]?(\d+\.?\d*([eE][-+]?\d+)?|\.\d+([eE][-+]?\d+)?)', t)
    k = m.end() if m else 0
    if a[1]:
        E.store(st, a[1], 'p', 8, a[0] + k)
    x = float(t[:k]) if m else 0.0
    return E.fconst(x)


def x_begin_catch(E, st, fr, a):
    return a[0]


def x_abort(E, st, fr, a):
    raise MemFault('abort/terminate')


def x_ret0(E, st, fr, a):
    return 0


def getreal(E, st, name):
    if name in st.decl:
        v = st.decl[name]
        return v
    key = ('in', name)
    if E.mode == 'fp':
        v = E.symcache.get(key)
        if v is None:
            v = z3.FP(name, F64)
            E.symcache[key] = v
        st.decl[name] = ('fp', v)
    else:
        i = E.symcache.get(key)
        if i is None:
            i = E.newsym(name)
            E.symcache[key] = i
        st.decl[name] = ('real', i)
    return st.decl[name]


def s_real(E, st, fr, a):
    name = E.cstr(st, a[0])
    v = getreal(E, st, name)
    return v[1] if v[0] == 'fp' else R.var(E.sp, v[1])


def s_real_in(E, st, fr, a):
    name = E.cstr(st, a[0])
    fresh = name not in st.decl
    v = getreal(E, st, name)
    lo, hi = a[1], a[2]
    if fresh:
        if v[0] == 'fp':
            st.pc.append(z3.And(z3.fpGEQ(v[1], z3.FPVal(lo, F64)), z3.fpLEQ(v[1], z3.FPVal(hi, F64))))
        else:
            z = E.zv(v[1])
            l, h = lo.const_val(), hi.const_val()
            st.pc.append(z >= z3.RealVal(str(l)))
            st.pc.append(z <= z3.RealVal(str(h)))
            st.box[v[1]] = (l, h)
            if st.model is not None:
                st.model = dict(st.model)
                st.model[v[1]] = (l + h) / 2
    return v[1] if v[0] == 'fp' else R.var(E.sp, v[1])


def s_uint(E, st, fr, a, w=64):
    name = E.cstr(st, a[0])
    v = st.decl.get(name)
    if v is None:
        e = z3.BitVec(name, w)
        st.decl[name] = ('bv', e)
        return e
    return v[1]


def s_int_in(E, st, fr, a):
    name = E.cstr(st, a[0])
    v = st.decl.get(name)
    if v is None:
        e = z3.BitVec(name, 64)
        st.decl[name] = ('bv', e)
        st.pc.append(e >= E.bv(a[1], 64))
        st.pc.append(e <= E.bv(a[2], 64))
        if st.model is not None:
            st.model = None
        return e
    return v[1]


def s_choose(E, st, fr, a):
    name = E.cstr(st, a[0])
    lo, hi = a[1], a[2]
    if lo & (1 << 63):
        lo -= 1 << 64
    if hi & (1 << 63):
        hi -= 1 << 64
    key = ('choose', name)
    v = st.conc.get(key)
    if v is None:
        e = z3.BitVec('choose_' + name, 64)
        st.pc.append(e >= lo)
        st.pc.append(e <= hi)
        raise ForkConds(key, ('choose', e))
    st.decl[name] = ('c', v)
    return v & ((1 << 64) - 1)


def s_assume(E, st, fr, a):
    c = a[0]
    if isinstance(c, (int, bool)):
        if not c & 1:
            raise PathEnd('assume')
        return None
    if not z3.is_bool(c):
        c = z3.Extract(0, 0, c) == 1
    c = z3.simplify(c)
    if z3.is_true(c):
        return None
    if z3.is_false(c):
        raise PathEnd('assume')
    ok, mod = E.feasible(st, c)
    if not ok:
        raise PathEnd('assume')
    st.pc.append(c)
    st.known[c.get_id()] = (c, True)
    st.model = None
    return None


def s_check(E, st, fr, a):
    c = a[0]
    cid = E.cstr(st, a[1])
    E.stats['checks'] += 1
    st.nchecks += 1
    if isinstance(c, (int, bool)):
        if c & 1:
            return None
        r, mod = E.check_sat(st.pc, E.t_check)
        if r == 'unsat':
            raise PathEnd('infeasible')
        if r == 'unknown':
            E.incomplete.append('solver gave up on %s' % cid)
        E.record_failure(st, cid, st.pc, 'check false')
        return None
    if not z3.is_bool(c):
        c = z3.Extract(0, 0, c) == 1
    bad = z3.Not(c)
    r, mod = E.check_sat(st.pc + [bad], E.t_check)
    if r == 'unsat':
        return None
    if r == 'unknown':
        E.incomplete.append('solver gave up on %s' % cid)
    E.record_failure(st, cid, st.pc + [bad], 'check false')
    ok, mod = E.feasible(st, c)
    if not ok:
        raise PathEnd('always false')
    st.pc.append(c)
    return None


def is_special(x):
    return isinstance(x, float)


def s_eq(E, st, fr, a):
    x, y = a[0], a[1]
    cid = E.cstr(st, a[2])
    if E.mode == 'fp':
        x, y = E.tofp(x), E.tofp(y)
        a2 = [z3.fpEQ(x, y), a[2]]
        return s_check(E, st, fr, a2)
    if is_special(x) or is_special(y):
        ok = is_special(x) and is_special(y) and x == y
        return s_check(E, st, fr, [1 if ok else 0, a[2]])
    E.check_diff(st, x.add(y, -1), cid)
    return None


def s_near(E, st, fr, a):
    x, y, t = a[0], a[1], a[2]
    cid = E.cstr(st, a[3])
    if E.mode == 'fp':
        x, y, t = E.tofp(x), E.tofp(y), E.tofp(t)
        c = z3.Or(z3.fpEQ(x, y), z3.fpLEQ(z3.fpAbs(z3.fpSub(z3.RNE(), x, y)), t))
        return s_check(E, st, fr, [z3.simplify(c), a[3]])
    if is_special(x) or is_special(y):
        ok = is_special(x) and is_special(y) and x == y
        return s_check(E, st, fr, [1 if ok else 0, a[3]])
    E.check_diff(st, x.add(y, -1), cid, z3.RealVal(str(t.const_val())))
    return None


def s_le(E, st, fr, a):
    """check x <= y without forking (real mode)"""
    x, y = a[0], a[1]
    cid = E.cstr(st, a[2])
    if E.mode == 'fp':
        return s_check(E, st, fr, [E.fcmp(st, 'ole', x, y), a[2]])
    if is_special(x) or is_special(y):
        return s_check(E, st, fr, [1 if E.fcmp(st, 'ole', x, y) else 0, a[2]])
    ok = E.value_sign(st, x.add(y, -1), frozenset((0, -1)))
    return s_check(E, st, fr, [1 if ok else 0, a[2]])


def s_uf(E, st, fr, a):
    name = E.cstr(st, a[0])
    n = a[1]
    args = a[2:2 + n]
    if E.mode != 'real':
        raise Unsupported('uf in fp mode')
    if any(is_special(x) for x in args):
        return NAN
    key = ('uf', name, tuple(x.key() for x in args))
    fresh = key not in E.symcache
    r = E.uf_sym(name, args)
    i = E.symcache[key]
    st.ufs[(name, i)] = (i, args)
    return r


def s_isnan(E, st, fr, a):
    x = a[0]
    if E.mode == 'fp':
        if isinstance(x, float):
            return 1 if x != x else 0
        return z3.fpIsNaN(x)
    return 1 if is_special(x) and x != x else 0


def s_engine(E, st, fr, a):
    return 1


def s_note(E, st, fr, a):
    return None


def s_exp(E, st, fr, a):
    x = a[0]
    if isinstance(x, float) and E.mode == 'real':
        return x if x > 0 else (R.const(E.sp, 0) if x < 0 else x)
    return E.t_exp(st, x)


def s_ln(E, st, fr, a):
    return E.t_ln(st, a[0])


def s_atan(E, st, fr, a):
    return E.t_atan(st, a[0])


def s_sin(E, st, fr, a):
    return NAN if is_special(a[0]) else E.trig(st, a[0])[0]


def s_cos(E, st, fr, a):
    return NAN if is_special(a[0]) else E.trig(st, a[0])[1]


def s_sqrt(E, st, fr, a):
    return E.fsqrt(st, a[0])


def s_log2(E, st, fr, a):
    L = E.t_ln(st, a[0])
    return E.fbin(st, 'fmul', L, R.const(E.sp, Fraction(1.44269504088896338700465)))


def s_log10(E, st, fr, a):
    L = E.t_ln(st, a[0])
    return E.fbin(st, 'fmul', L, R.const(E.sp, Fraction(0.434294481903)))


def s_ruf(E, st, fr, a):
    raise Unsupported('ruf')


LIBM = {'exp': s_exp, 'log': s_ln, 'sin': s_sin, 'cos': s_cos}

EXT = {
    '_Znwm': x_new, '_Znam': x_new, 'malloc': x_new, 'calloc': x_calloc,
    '_ZdlPv': x_del, '_ZdaPv': x_del, '_ZdlPvm': x_del, '_ZdaPvm': x_del, 'free': x_del,
    'memcpy': x_memmove, 'memmove': x_memmove, 'memset': x_memset,
    '__errno_location': x_errno,
    '__kmpc_for_static_init_4': x_omp_static(4), '__kmpc_for_static_init_4u': x_omp_static(4),
    '__kmpc_for_static_init_8': x_omp_static(8), '__kmpc_for_static_init_8u': x_omp_static(8),
    '__kmpc_for_static_fini': x_ret0,
    '__cxa_throw': x_throw, '__cxa_allocate_exception': x_new, '__cxa_rethrow': x_throw,
    '_ZSt20__throw_length_errorPKc': x_throw, '_ZSt17__throw_bad_allocv': x_throw,
    '_ZSt28__throw_bad_array_new_lengthv': x_throw, '_ZSt24__throw_out_of_range_fmtPKcz': x_throw,
    '_ZSt25__throw_bad_function_callv': x_throw, '_ZSt20__throw_out_of_rangePKc': x_throw,
    '_ZSt19__throw_logic_errorPKc': x_throw,
    'abort': x_abort, '_ZSt9terminatev': x_abort, '__cxa_pure_virtual': x_abort,
    'strlen': x_strlen, 'memcmp': x_memcmp, 'bcmp': x_memcmp, 'memchr': x_memchr, 'strtod': x_strtod,
    '_ZNSt9exceptionD2Ev': x_ret0, '_ZNSt9exceptionD1Ev': x_ret0, '__cxa_atexit': x_ret0, '__cxa_begin_catch': x_begin_catch, '__cxa_get_exception_ptr': x_begin_catch, '__cxa_end_catch': x_ret0, '__cxa_free_exception': x_ret0,
    '_ZSt24__throw_invalid_argumentPKc': x_throw, '_ZSt16__throw_bad_castv': x_throw, '_ZSt20__throw_domain_errorPKc': x_throw,
    'sym_real': s_real, 'sym_real_in': s_real_in, 'sym_u64': s_uint,
    'sym_u32': lambda E, st, fr, a: s_uint(E, st, fr, a, 32), 'sym_int_in': s_int_in, 'sym_choose': s_choose,
    'sym_assume': s_assume, 'sym_check': s_check, 'sym_eq': s_eq, 'sym_near': s_near, 'sym_le': s_le,
    'sym_uf1': lambda E, st, fr, a: s_uf(E, st, fr, [a[0], 1] + a[1:]),
    'sym_uf2': lambda E, st, fr, a: s_uf(E, st, fr, [a[0], 2] + a[1:]),
    'sym_uf3': lambda E, st, fr, a: s_uf(E, st, fr, [a[0], 3] + a[1:]),
    'sym_isnan': s_isnan, 'sym_engine': s_engine, 'sym_note': s_note,
    'sym_exp': s_exp, 'sym_ln': s_ln, 'sym_atan': s_atan, 'sym_sin': s_sin, 'sym_cos': s_cos, 'sym_sqrt': s_sqrt,
    'exp': s_exp, 'log': s_ln, 'sin': s_sin, 'cos': s_cos, 'sqrt': s_sqrt, 'atan': s_atan,
}

# theoretica functions summarised by their mathematical meaning (real mode); mangled name -> summary
SUMMARIES = {
    '_ZN10theoretica3expEd': ('exp', s_exp),
    '_ZN10theoretica2lnEd': ('ln', s_ln),
    '_ZN10theoretica4log2Ed': ('log2', s_log2),
    '_ZN10theoretica5log10Ed': ('log10', s_log10),
    '_ZN10theoretica4atanEd': ('atan', s_atan),
    '_ZN10theoretica3sinEd': ('sin', s_sin),
    '_ZN10theoretica3cosEd': ('cos', s_cos),
    '_ZN10theoretica4sqrtEd': None,
}


def _concrete(f):
    """fp mode, option libm: the function at a concrete argument (the value of the C library)"""
    def g(E, st, fr, a):
        x = a[0]
        if not isinstance(x, float):
            raise Unsupported('libm of a symbolic argument')
        try:
            return f(x)
        except OverflowError:
            return INF
        except ValueError:
            raise Unsupported('libm outside the domain')
    return g


LIBM = {'_ZN10theoretica3expEd': _concrete(math.exp), '_ZN10theoretica2lnEd': _concrete(math.log), '_ZN10theoretica3sinEd': _concrete(math.sin), '_ZN10theoretica3cosEd': _concrete(math.cos)}
