"""Symbolic interpreter / obligation generator over the exported AST."""
import math
import subprocess
import tempfile
import os
import time
from fractions import Fraction
import z3
import ring
from values import *
from prog import Prog

FORKS = {} if os.environ.get('VERIF_FORKS') else None  # development: where paths split
if FORKS is not None:
    import atexit
    import multiprocessing.util
    multiprocessing.util.Finalize(None, lambda: [print(n, w) for w, n in sorted(FORKS.items(), key=lambda x: -x[1])[:30]], exitpriority=1)

F64 = z3.Float64()
F32 = z3.Float32()
RNE = z3.RNE()
MODELS = {}


def model(*names):
    def deco(fn):
        for n in names:
            MODELS[n] = fn
        return fn
    return deco


class Obligation:
    __slots__ = ('harness', 'label', 'kind', 'loc', 'status', 'n', 'backend', 'time', 'tape', 'detail', 'bounded')

    def __init__(self, harness, label, kind, loc):
        self.harness, self.label, self.kind, self.loc = harness, label, kind, loc
        self.status = 'proved'
        self.n = 0
        self.backend = set()
        self.time = 0.0
        self.tape = None
        self.detail = ''
        self.bounded = False


_vars_cache = {}


class Definition(set):
    """the symbols of a fact that only says what the value of a library function is: it matters only where that value
    is spoken about"""


DEFINED = {'lib.sqrt', 'lib.pow'}
_definitions = {}


def definition_key(t):
    t = z3.simplify(t)
    _definitions[t.get_id()] = t  # kept alive, so that the number stays its own
    return f'{t.decl().name() if z3.is_app(t) else "?"}#{t.get_id()}'


def vars_of(t):
    k = t.get_id()
    r = _vars_cache.get(k)
    if r is not None and r[0].eq(t):
        return r[1]
    out = set()
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(d.name() + '/' + str(d.arity()))
                if d.name() in DEFINED:
                    out.add(definition_key(x))
            stack.extend(x.children())
        elif z3.is_quantifier(x):
            stack.append(x.body())
    out = frozenset(out)
    _vars_cache[k] = (t, out)
    return out


def _ids_of(t):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() not in seen:
            seen.add(x.get_id())
            todo.extend(x.children())
    return seen


class SolverStats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.backends = {}


class Engine:
    def __init__(self, prog, harness, opts, cfg):
        self.p = prog
        self.harness = harness
        self.fid = prog.harnesses[harness][0]
        self.opts = opts  # dict
        self.real = 'real' in opts
        self.unroll = int(opts.get('unroll', 10))
        self.cfg = cfg
        self.timeout = int(opts.get('timeout', cfg.get('timeout', 20)))
        self.bounded_mode = cfg.get('bounded')  # None or a bound: unroll every loop at most so many times
        self.obls = {}
        self.covers = {}
        self.stats = SolverStats()
        self.inductive_sites = set()
        self.loop_cache = {}
        self.explore_cache = {}
        self.feas_cache = {}
        self.functions_run = set()
        self.contracts_used = set()
        self.models_used = set()
        self.uf_axioms_used = set()
        self.assumptions = set()
        self.paths = 0
        self.bounded_hit = False
        self.deadline = None
        self.loop_reports = {}
        self.spec_depth = 0
        self.in_lemma = False
        self.contract_map = {}
        for target, lst in prog.contracts.items():
            for fid, where in lst:
                # a contract stands for the callee in the harnesses that name it
                if where in str(opts.get('with', '')).split('|'):
                    self.contract_map.setdefault(target, []).append(fid)

    # ------------------------------------------------------------------ driver
    def run(self):
        while True:
            try:
                return self._run()
            except Restart:
                self.obls = {}
                self.covers = {}
                self.paths = 0
                self.feas_cache = {}
                self.explore_cache = {}
                self.loop_cache = {}
                continue

    def _run(self):
        work = [()]
        maxpaths = int(self.opts.get('paths', 20000))
        while work:
            prefix = work.pop()
            self.start_path(prefix, work)
            self.paths += 1
            if self.paths > maxpaths:
                raise Unsupported('path limit exceeded')
            if self.deadline and time.time() > self.deadline:
                raise Unsupported('time limit exceeded')
            try:
                self.call(self.fid, None, [])
            except CppThrow as e:
                try:
                    self.oblige(False, 'no exception escapes', 'exception',
                                self.exc_name(e.value) + ' thrown at ' + str(e.where))
                except Infeasible:
                    pass
            except Infeasible:
                pass
            except (BreakX, ContinueX, GotoX, ReturnX):
                raise Unsupported('control flow escaped')

    def start_path(self, prefix, work):
        self.prefix = list(prefix)
        self.pos = 0
        self.work = work
        self.mem = {}
        self.rootty = {}
        self.pc = []
        self.pcvars = []
        self.nfresh = {}
        self.nroot = 0
        self.frames = []
        self.tape = []
        self.addresses = []
        self.tape_stack = []
        self.statics = set()
        self.spec_depth = 0
        self.explore_depth = 0
        self.log = []
        self.ghost = {}
        self.exact = []  # definitions of library functions that are otherwise used through their facts
        self.gen_idx = []
        self.depth = 0
        self.writes = None
        self.locals_base = 0
        self.ranged = {}
        self.bound_vars = []

    # ------------------------------------------------------------------ solver
    def sliced(self, extra):
        need = set()
        for e in extra:
            need |= vars_of(e)
        chosen = [False] * len(self.pc)
        changed = True
        while changed:
            changed = False
            for i, vs in enumerate(self.pcvars):
                if not chosen[i] and (vs.key in need if isinstance(vs, Definition) else not vs or vs & need):
                    chosen[i] = True
                    if not vs <= need:
                        need |= vs
                        changed = True
        return [c for i, c in enumerate(self.pc) if chosen[i]]

    def solve(self, extra, want_model=False, timeout=None, full=False):
        """sat / unsat / unknown for pc and extra"""
        extra = [e if isz(e) else z3.BoolVal(e) for e in extra]
        asserts = (list(self.pc) if full else self.sliced(extra)) + list(extra)
        t0 = time.time()
        timeout = timeout or self.timeout
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time limit exceeded')
        self.stats.queries += 1
        r, m, be = solve_query(asserts, timeout, want_model)
        dt = time.time() - t0
        self.stats.time += dt
        self.stats.backends[be] = self.stats.backends.get(be, 0) + 1
        self.last_backend = be
        if self.cfg.get('verbose') and dt > 2:
            print(f'  [slow query {dt:.1f}s {r} {be}] pc={len(asserts)} at {self.where()}', flush=True)
        return r, m

    def where(self):
        return ' > '.join(self.p.functions[f.fid]['name'].split('::')[-1] + '@' + (f.loc or '').split('/')[-1]
                          for f in self.frames[-3:])

    def assume(self, c):
        if c is True:
            return
        if c is False:
            raise Infeasible()
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise Infeasible()
        self.pc.append(c)
        self.pcvars.append(vars_of(c))

    def define(self, term, fact):
        """a fact that defines the value of a library function, for any arguments that meet its precondition"""
        n = len(self.pc)
        self.assume(fact)
        if len(self.pc) > n:
            self.pcvars[n] = Definition(self.pcvars[n])
            self.pcvars[n].key = definition_key(term)

    def branch(self, c, what=''):
        """decide a condition, forking when both outcomes are possible"""
        if isinstance(c, bool):
            return c
        if not isz(c):
            raise Unsupported(f'branch on {c!r}')
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        # already decided by a syntactically identical path condition
        for q in self.pc:
            if q.eq(c):
                return True
            if z3.is_not(q) and q.arg(0).eq(c):
                return False
            if z3.is_not(c) and c.arg(0).eq(q):
                return False
        if self.spec_depth:
            raise SpecAbort()
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            if d in ('T', 'F'):
                # forced decision: condition implied
                return d == 'T'
            self.assume(c if d else z3.Not(c))
            return d
        r, _ = self.solve([c], timeout=min(self.timeout, 5))
        if r == 'unsat':
            self.prefix.append('F')
            self.pos += 1
            return False
        r2, _ = self.solve([z3.Not(c)], timeout=min(self.timeout, 5))
        if r2 == 'unsat':
            self.prefix.append('T')
            self.pos += 1
            return True
        if FORKS is not None:
            w = self.where()
            FORKS[w] = FORKS.get(w, 0) + 1
        self.work.append(tuple(self.prefix) + (False,))
        self.prefix.append(True)
        self.pos += 1
        self.assume(c)
        return True

    def choose(self, n, what=''):
        """nondeterministic choice among n alternatives (all explored)"""
        if n == 1:
            return 0
        if self.spec_depth:
            raise SpecAbort()
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            return d[1]
        if FORKS is not None:
            w = self.where()
            FORKS[w] = FORKS.get(w, 0) + n - 1
        for i in range(n - 1, 0, -1):
            self.work.append(tuple(self.prefix) + (('c', i),))
        self.prefix.append(('c', 0))
        self.pos += 1
        return 0

    def replaying(self):
        return self.pos < len(self.prefix)

    def oblige(self, c, label, kind, loc=None):
        if kind != 'ensures' and self.opts.get('noub') and kind in ('overflow',):
            return
        if self.spec_depth:
            if c is True or self.in_lemma:
                return
            if isz(c) and z3.is_true(z3.simplify(c)):
                return
            raise SpecAbort()
        loc = loc or self.cur_loc()
        key = (label, kind, loc if kind != 'ensures' else '')
        if self.replaying():
            if c is not True:
                self.assume(c if isz(c) else c)
            return
        o = self.obls.get(key)
        if o is None:
            o = self.obls[key] = Obligation(self.harness, label, kind, loc)
        if self.cfg.get('assume_only') == True:
            pass
        o.n += 1
        if self.bounded_hit or self.bounded_mode:
            o.bounded = True
        if c is True:
            o.backend.add('evaluation')
            return
        cz = c if isz(c) else z3.BoolVal(bool(c))
        cz = z3.simplify(cz)
        if z3.is_true(cz):
            o.backend.add('simplifier')
            return
        if o.status == 'failed' and o.tape is not None and o.n > 50:
            self.assume(cz)
            return
        t0 = time.time()
        if self.real and nonlinear(cz):
            r, m = self.solve_real(cz, o)
        else:
            r, m = self.solve([z3.Not(cz)])
            o.backend.add(self.last_backend)
        o.time += time.time() - t0
        if r == 'unsat':
            self.assume(cz)
            return
        if r == 'sat':
            # full model for replay
            r2, m2 = self.solve([z3.Not(cz)], want_model=True, full=True)
            if r2 == 'unsat':
                # the path itself is infeasible
                raise Infeasible()
            if self.exact:
                r3, m3 = self.solve([z3.Not(cz)] + self.exact, want_model=True, full=True, timeout=10)
                if r3 == 'unsat':
                    o.backend.add('library definitions')
                    self.assume(cz)
                    return
                if r3 == 'sat':
                    r2, m2 = r3, m3
            if o.status != 'failed' or o.tape is None:
                o.status = 'failed'
                o.detail = self.describe_path()
                if r2 == 'sat' and not self.inducting():
                    o.tape = self.make_tape(m2)
        else:
            if o.status == 'proved':
                o.status = 'unknown'
                o.detail = 'solver gave no answer; ' + self.describe_path()
        self.assume(cz)

    def solve_real(self, cz, o):
        """nonlinear goals over the reals: quick attempt, then conjunct by conjunct with polynomial identities"""
        r, m = self.solve([z3.Not(cz)], timeout=3)
        if r != 'unknown':
            o.backend.add(self.last_backend)
            return r, m
        parts, todo = [], [cz]
        while todo:
            g = todo.pop()
            if z3.is_and(g):
                todo.extend(g.children())
            elif z3.is_not(g) and z3.is_or(g.arg(0)):
                todo.extend(z3.simplify(z3.Not(x)) for x in g.arg(0).children())
            else:
                parts.append(g)
        rest = []
        for g in parts:
            if ring.applicable(g) and ring.prove(g, self.pc, timeout=self.timeout):
                o.backend.add('polynomial identity (sympy)')
            elif len(parts) > 1 and self.solve([z3.Not(g)], timeout=3)[0] == 'unsat':
                o.backend.add(self.last_backend)
            else:
                rest.append(g)
        if not rest:
            return 'unsat', None
        r, m = self.solve([z3.Not(z3.And(rest))])
        o.backend.add(self.last_backend)
        return r, m

    def inducting(self):
        return self.ghost.get('inducting', 0) > 0

    def describe_path(self):
        return 'at ' + self.where()

    def cur_loc(self):
        for f in reversed(self.frames):
            if f.loc:
                return f.loc
        return ''

    # tape: the any() calls of this path, in order
    def make_tape(self, m):
        def conv(kind, t):
            if not isz(t):
                return t
            v = m.eval(t, model_completion=True)
            return zval(v, kind)
        out = []

        def emit(entries, idxs):
            for e in entries:
                if e[0] == 'scalar':
                    t = e[3]
                    if idxs and isz(t):
                        t = z3.substitute(t, *[(v, z3.IntVal(i)) for v, i in idxs])
                    out.append((e[1], e[2], conv(e[1], t)))
                elif e[0] == 'vec':
                    n = e[2]
                    if idxs and isz(n):
                        n = z3.substitute(n, *[(v, z3.IntVal(i)) for v, i in idxs])
                    n = conv('int', n)
                    out.append(('size', e[1], n))
                    for i in range(min(n, 64)):
                        emit(e[4], idxs + [(e[3], i)])
        emit(self.tape, [])
        return out

    # ------------------------------------------------------------------ symbols
    def fresh_name(self, base):
        n = self.nfresh.get(base, 0)
        self.nfresh[base] = n + 1
        return base if n == 0 else f'{base}!{n}'

    def fresh(self, base, sort):
        return z3.Const(self.fresh_name(base), sort)

    def fsort(self, t=None):
        return z3.RealSort() if self.real else F64

    def fconst(self, x):
        """z3 term of a concrete double"""
        if isz(x):
            return x
        if self.real:
            if isinstance(x, float):
                if math.isinf(x) or math.isnan(x):
                    raise Unsupported('infinity or NaN where double is treated as a real')
                x = Fraction(x)
            return z3.RealVal(str(x)) if isinstance(x, Fraction) and x.denominator == 1 else z3.Q(x.numerator, x.denominator) if isinstance(x, Fraction) else z3.RealVal(x)
        if isinstance(x, Fraction):
            x = float(x)
        return z3.FPVal(x, F64)

    # ------------------------------------------------------------------ memory
    def alloc(self, value, ty=None, name=None):
        self.nroot += 1
        r = self.nroot
        self.mem[r] = value
        self.rootty[r] = ty
        return Loc(r)

    def load(self, loc):
        if not isinstance(loc, Loc):
            raise Unsupported(f'load of {loc!r}')
        if loc.root not in self.mem:
            self.dead(loc)
        v = self.mem[loc.root]
        for s in loc.path:
            v = self.get_step(v, s, loc)
        return v

    def dead(self, loc):
        if isinstance(loc.root, int) and loc.root <= self.nroot:
            self.oblige(False, 'no use of an object after its lifetime', 'ub')
            raise Infeasible()
        raise Unsupported(f'load of dead object {loc}')

    def loadv(self, loc):
        """load a value for use: indeterminate values are an obligation failure"""
        v = self.load(loc)
        if isinstance(v, Uninit):
            t = v.t
            k = self.p.ty(t)['k'] if t is not None else None
            if k in ('int', 'bool', 'float', 'enum', 'ptr'):
                self.oblige(False, 'no read of an indeterminate value', 'ub')
                raise Infeasible()
        return v

    def store(self, loc, val):
        if self.spec_depth and loc.root <= self.spec_root:
            raise SpecAbort()
        if self.writes is not None:
            self.writes.append((loc.root, loc.path))
        if loc.root not in self.mem and loc.root in self.rootty:
            self.dead(loc)
        if not loc.path:
            self.mem[loc.root] = val
            return
        self.mem[loc.root] = self.set_path(self.mem[loc.root], loc.path, val)

    def set_path(self, v, path, val):
        if not path:
            return val
        s = path[0]
        if len(path) == 1:
            return self.set_step(v, s, val)
        sub = self.get_step(v, s)
        return self.set_step(v, s, self.set_path(sub, path[1:], val))

    def get_step(self, v, s, loc=None):
        if isinstance(v, Struct) or isinstance(v, SysObj):
            if s in v.f:
                return v.f[s]
            if isinstance(v, Struct):
                return self.missing_field(v, s)
            raise Unsupported(f'no member {s} in {v.name}')
        if isinstance(s, tuple):
            if s[0] == 'i':
                i = s[1]
                if isinstance(v, Vec):
                    if isz(i):
                        i = self.concretize(i, 0, len(v.items))
                    if not (0 <= i < len(v.items)):
                        self.oblige(False, 'index within bounds', 'ub')
                        raise Infeasible()
                    return v.items[i]
                if isinstance(v, SVec):
                    return self.dec(z3.Select(v.arr, self.zint(i)), v.ety)
                if isinstance(v, CStr):
                    if isz(i):
                        i = self.concretize(i, 0, len(v.s) + 1)
                    return ord(v.s[i]) if i < len(v.s) else 0
                if isinstance(v, str) or (isz(v) and z3.is_string(v)):
                    return self.char_at(v, i)
                if isinstance(v, MapV):
                    k, x = v.entries[i]
                    return Struct('pair', {'first': k, 'second': x})
                if i == 0 or (isz(i) and False):
                    return v  # a single object seen as an array of one
            if s[0] == 'o' and isinstance(v, Opt):
                return v.val
            if s[0] == 'va' and isinstance(v, Variant):
                return v.val
            if s[0] == 'fn' and isinstance(v, Fun):
                return v.val
            if s[0] in ('mv', 'mk', 'e') and isinstance(v, MapV):
                i = self.node_index(v, s[1])
                if s[0] == 'mv':
                    return v.entries[i][1]
                if s[0] == 'mk':
                    return v.entries[i][0]
                return Struct('pair', {'first': v.entries[i][0], 'second': v.entries[i][1]})
            if s[0] == 'cast':
                return v
        if isinstance(v, Uninit):
            t = v.t
            rec = self.p.rec_of(t) if t is not None else None
            if rec is not None:
                st = self.uninit_struct(rec)
                if isinstance(st, Struct):
                    return self.get_step(st, s)
            ty = self.p.ty(t) if t is not None else {}
            if ty.get('k') == 'arr':
                return Uninit(ty['to'])
            self.oblige(False, 'no read of an indeterminate value', 'ub')
            raise Infeasible()
        raise Unsupported(f'cannot access {s} of {type(v).__name__} {v!r}')

    def node_index(self, v, node):
        i = v.find(node)
        if i is None:
            self.oblige(False, 'reference to an element that is still there', 'ub')
            raise Infeasible()
        return i

    def missing_field(self, v, s):
        if isinstance(s, tuple) and s[0] == 'b' and isinstance(v.rec, int):
            return self.default_rec(s[1])
        raise Unsupported(f'no member {s} in {self.p.records[v.rec]["name"] if isinstance(v.rec, int) else v.rec}: has {list(v.f)}')

    def set_step(self, v, s, val):
        if isinstance(v, (Struct, SysObj)):
            return v.set(s, val)
        if isinstance(s, tuple):
            if s[0] == 'i':
                i = s[1]
                if isinstance(v, Vec):
                    if isz(i):
                        i = self.concretize(i, 0, len(v.items))
                    it = list(v.items)
                    if not (0 <= i < len(it)):
                        self.oblige(False, 'index within bounds', 'ub')
                        raise Infeasible()
                    it[i] = val
                    return Vec(it, v.ety)
                if isinstance(v, SVec):
                    return SVec(v.n, z3.Store(v.arr, self.zint(i), self.enc(val, v.ety)), v.ety)
                if i == 0 and not isinstance(v, (CStr,)):
                    if isinstance(v, (str,)) or (isz(v) and z3.is_string(v)):
                        raise Unsupported('write into a string')
                    return val
            if s[0] == 'o':
                return Opt(v.has if isinstance(v, Opt) else True, val)
            if s[0] == 'va':
                return Variant(v.idx, val)
            if s[0] == 'fn':
                return Fun(val)
            if s[0] == 'mv' and isinstance(v, MapV):
                i = self.node_index(v, s[1])
                return v.put(i, (v.entries[i][0], val))
            if s[0] == 'e' and isinstance(v, MapV):
                return v.put(self.node_index(v, s[1]), (val.f['first'], val.f['second']))
        if isinstance(v, Uninit):
            t = v.t
            rec = self.p.rec_of(t) if t is not None else None
            if rec is not None:
                return self.set_step(self.uninit_struct(rec), s, val)
            ty = self.p.ty(t) if t is not None else {}
            if ty.get('k') == 'arr':
                return self.set_step(Vec([Uninit(ty['to'])] * ty['n'], ty['to']), s, val)
        raise Unsupported(f'cannot set {s} of {type(v).__name__}')

    def concretize(self, i, lo, hi):
        """make a symbolic integer concrete by forking over [lo, hi); outside is an obligation"""
        if not isz(i):
            return i
        i = z3.simplify(i)
        if z3.is_int_value(i):
            return i.as_long()
        self.oblige(z3.And(i >= lo, i < hi), 'index within bounds', 'ub')
        for k in range(lo, hi - 1):
            if self.branch(i == k):
                return k
        if hi - 1 >= lo:
            self.assume(i == hi - 1)
            return hi - 1
        raise Infeasible()

    # ------------------------------------------------------------------ scalars
    def zint(self, i):
        return i if isz(i) else z3.IntVal(i)

    def zbool(self, b):
        return b if isz(b) else z3.BoolVal(b)

    def int_range(self, t):
        ty = self.p.ty(t)
        while ty['k'] == 'enum':
            ty = self.p.ty(ty['under'])
        if ty['k'] == 'bool':
            return 0, 1
        b = ty['bits']
        if ty['signed']:
            return -(1 << (b - 1)), (1 << (b - 1)) - 1
        return 0, (1 << b) - 1

    def wrap(self, v, t, src_range=None):
        """integer conversion to type t (modular)"""
        lo, hi = self.int_range(t)
        if not isz(v):
            v = int(v)
            return (v - lo) % (hi - lo + 1) + lo
        if src_range and src_range[0] >= lo and src_range[1] <= hi:
            return v
        if self.in_range(v, lo, hi):
            return v
        m = hi - lo + 1
        return z3.simplify((v - lo) % m + lo)

    def in_range(self, v, lo, hi):
        key = (tuple(str(x) for x in self.prefix[:self.pos]), v.get_id(), lo, hi, len(self.pc))
        if z3.is_int_value(v):
            return lo <= v.as_long() <= hi
        if self.spec_depth == 0 and key in self.feas_cache:
            return self.feas_cache[key][0]
        r, _ = self.solve([z3.Or(v < lo, v > hi)], timeout=3)
        self.feas_cache[key] = (r == "unsat", v)
        return r == 'unsat'

    def is_unsigned(self, t):
        ty = self.p.ty(t)
        while ty['k'] == 'enum':
            ty = self.p.ty(ty['under'])
        return ty['k'] == 'int' and not ty['signed']

    def arith(self, op, a, b, t, loc=None):
        ty = self.p.ty(t)
        if ty['k'] == 'float':
            return self.farith(op, a, b, ty)
        if ty['k'] == 'bool':
            a, b = self.b2i(a), self.b2i(b)
        if op in ('+', '-', '*'):
            if isinstance(a, bool):
                a = int(a)
            if isinstance(b, bool):
                b = int(b)
            a, b = self.b2i(a), self.b2i(b)
            r = a + b if op == '+' else a - b if op == '-' else a * b
            return self.int_result(r, t, loc)
        if op in ('/', '%'):
            a, b = self.b2i(a), self.b2i(b)
            nz = (b != 0)
            self.oblige(nz, 'no division by zero', 'ub', loc)
            if nz is False:
                raise Infeasible()
            if not isz(a) and not isz(b):
                q = abs(a) // abs(b)
                if (a < 0) != (b < 0):
                    q = -q
                return self.int_result(q if op == '/' else a - q * b, t, loc)
            az, bz = self.zint(a), self.zint(b)
            if self.is_unsigned(t):
                return z3.simplify(az / bz if op == '/' else az % bz)
            q = z3.If(az >= 0, az / bz, -((-az) / bz))
            r = q if op == '/' else az - q * bz
            return self.int_result(z3.simplify(r), t, loc)
        if op in ('<<', '>>', '&', '|', '^'):
            a, b = self.b2i(a), self.b2i(b)
            if not isz(a) and not isz(b):
                if op == '<<':
                    if not (0 <= b < ty_bits(self, t)):
                        self.oblige(False, 'shift amount in range', 'ub', loc)
                        raise Infeasible()
                    return self.wrap(a << b, t)
                return {'>>': lambda: a >> b, '&': lambda: a & b, '|': lambda: a | b, '^': lambda: a ^ b}[op]()
            n = ty_bits(self, t)
            if op in ('<<', '>>') and not isz(b):
                if op == '<<':
                    return self.wrap(a * (1 << b), t)
                return z3.simplify(self.zint(a) / (1 << b))
            if op == '&' and not isz(b) and b >= 0 and (b & (b + 1)) == 0:
                return z3.simplify(self.zint(a) % (b + 1))
            A, B = z3.Int2BV(self.zint(a), n), z3.Int2BV(self.zint(b), n)
            R = {'<<': lambda: A << B, '>>': lambda: (z3.LShR(A, B) if self.is_unsigned(t) else A >> B),
                 '&': lambda: A & B, '|': lambda: A | B, '^': lambda: A ^ B}[op]()
            return z3.BV2Int(R, not self.is_unsigned(t))
        raise Unsupported(f'operator {op}')

    def int_result(self, r, t, loc=None):
        lo, hi = self.int_range(t)
        if not isz(r):
            if lo <= r <= hi:
                return r
            if self.is_unsigned(t):
                return (r - lo) % (hi - lo + 1) + lo
            self.oblige(False, 'no signed overflow', 'overflow', loc)
            raise Infeasible()
        r = z3.simplify(r)
        if z3.is_int_value(r):
            return self.int_result(r.as_long(), t, loc)
        if self.is_unsigned(t):
            return self.wrap(r, t)
        if self.opts.get('noov'):
            self.assumptions.add('machine integers treated as mathematical (no overflow obligations)')
            return r
        self.oblige(z3.And(r >= lo, r <= hi), 'no signed overflow', 'overflow', loc)
        return r

    def b2i(self, v):
        if isinstance(v, bool):
            return int(v)
        if isz(v) and z3.is_bool(v):
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        return v

    def farith(self, op, a, b, ty):
        if self.real:
            if isz(a) or isz(b):
                if isinstance(a, float) or isinstance(b, float):
                    # infinities against a finite real
                    return self.real_inf(op, a, b)
                if op == '/':
                    self.oblige(self.fconst(b) != 0, 'no division by zero (real)', 'ub')
                    A, B = z3.simplify(self.fconst(a)), self.fconst(b)
                    if z3.is_mul(A) and A.num_args() == 2:  # the divisor is not zero
                        for i in (0, 1):
                            if A.arg(i).eq(B):
                                return A.arg(1 - i)
                    return z3.simplify(A / B)
                # light simplification
                if op == '*':
                    for x, y in ((a, b), (b, a)):
                        if not isz(x):
                            if x == 0:
                                return Fraction(0)
                            if x == 1:
                                return y
                if op == '+':
                    if not isz(a) and a == 0:
                        return b
                    if not isz(b) and b == 0:
                        return a
                if op == '-' and not isz(b) and b == 0:
                    return a
                A, B = self.fconst(a), self.fconst(b)
                if op == '-' and A.eq(B):
                    return Fraction(0)
                return {'+': lambda: A + B, '-': lambda: A - B, '*': lambda: A * B}[op]()
            if isinstance(a, float) or isinstance(b, float):
                fa, fb = float(a), float(b)
                return self.norm_real(fop(op, fa, fb))
            if op == '/':
                if b == 0 and a != 0:
                    return math.copysign(math.inf, a)
                if b == 0:
                    self.oblige(False, 'no division by zero (real)', 'ub')
                    raise Infeasible()
                return a / b
            return {'+': a + b, '-': a - b, '*': a * b}[op]
        if not isz(a) and not isz(b):
            return fop(op, float(a), float(b), ty['bits'])
        A, B = self.fconst(a), self.fconst(b)
        if ty['bits'] != 64:
            raise Unsupported('symbolic float32 arithmetic') if not self.real else None
        if op in '+*' and A.get_id() > B.get_id():  # these commute: one order makes equal terms identical
            A, B = B, A
        return {'+': z3.fpAdd, '-': z3.fpSub, '*': z3.fpMul, '/': z3.fpDiv}[op](RNE, A, B)

    def norm_real(self, x):
        if isinstance(x, float) and not (math.isinf(x) or math.isnan(x)):
            return Fraction(x)
        return x

    def real_inf(self, op, a, b):
        if op == '+':
            return a if isinstance(a, float) else b
        if op == '-':
            return a if isinstance(a, float) else -b
        raise Unsupported('infinity in real arithmetic')

    def compare(self, op, a, b):
        """comparison of scalars; result Python bool or z3 Bool"""
        if isinstance(a, bool) and isinstance(b, bool) or (not isz(a) and not isz(b)):
            if isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)):
                return self.ptr_compare(op, a, b)
            return {'==': lambda: a == b, '!=': lambda: a != b, '<': lambda: a < b, '<=': lambda: a <= b,
                    '>': lambda: a > b, '>=': lambda: a >= b}[op]()
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return self.ptr_compare(op, a, b)
        fa = self.is_float(a) or self.is_float(b)
        if fa:
            if self.real:
                # one side may be a concrete infinity / NaN
                for x, y, flip in ((a, b, False), (b, a, True)):
                    if isinstance(x, float):
                        if math.isnan(x):
                            return op == '!='
                        pos = x > 0
                        rel = {'==': False, '!=': True, '<': not pos, '<=': not pos, '>': pos, '>=': pos}
                        o = op if not flip else {'<': '>', '<=': '>=', '>': '<', '>=': '<='}.get(op, op)
                        return rel[o]
                A, B = self.fconst(a), self.fconst(b)
                return {'==': lambda: A == B, '!=': lambda: A != B, '<': lambda: A < B, '<=': lambda: A <= B,
                        '>': lambda: A > B, '>=': lambda: A >= B}[op]()
            A, B = self.fconst(a), self.fconst(b)
            return {'==': lambda: z3.fpEQ(A, B), '!=': lambda: z3.Not(z3.fpEQ(A, B)), '<': lambda: z3.fpLT(A, B),
                    '<=': lambda: z3.fpLEQ(A, B), '>': lambda: z3.fpGT(A, B), '>=': lambda: z3.fpGEQ(A, B)}[op]()
        if (isz(a) and z3.is_bool(a)) or (isz(b) and z3.is_bool(b)):
            if op == '==':
                return z3.simplify(self.zbool(self.tobool(a)) == self.zbool(self.tobool(b)))
            if op == '!=':
                return z3.simplify(self.zbool(self.tobool(a)) != self.zbool(self.tobool(b)))
            a, b = self.b2i(a), self.b2i(b)
        if isinstance(a, bool):
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        if isinstance(a, str) or isinstance(b, str) or (isz(a) and z3.is_string(a)):
            A, B = self.zstr(a), self.zstr(b)
            return {'==': lambda: A == B, '!=': lambda: A != B, '<': lambda: A < B, '<=': lambda: A <= B,
                    '>': lambda: B < A, '>=': lambda: B <= A}[op]()
        return {'==': lambda: a == b, '!=': lambda: a != b, '<': lambda: a < b, '<=': lambda: a <= b,
                '>': lambda: a > b, '>=': lambda: a >= b}[op]()

    def zstr(self, s):
        return z3.StringVal(s) if isinstance(s, str) else s

    def is_float(self, v):
        return isinstance(v, (float, Fraction)) or (isz(v) and (z3.is_fp(v) or z3.is_real(v)))

    def ptr_compare(self, op, a, b):
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            eq = isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.f == b.f
            return eq if op == '==' else not eq
        la, lb = a.loc if isinstance(a, Ptr) else None, b.loc if isinstance(b, Ptr) else None
        if la is None or lb is None:
            eq = la is None and lb is None
        else:
            la, lb = self.canon_loc(la), self.canon_loc(lb)
            if la.root == lb.root and len(la.path) == len(lb.path) and la.path[:-1] == lb.path[:-1] \
                    and la.path and isinstance(la.path[-1], tuple) and la.path[-1][0] == 'i' \
                    and isinstance(lb.path[-1], tuple) and lb.path[-1][0] == 'i':
                return self.compare(op, la.path[-1][1], lb.path[-1][1])
            eq = la.same(lb)
        if op == '==':
            return eq
        if op == '!=':
            return not eq
        # distinct objects lie in memory in some order, the same for every comparison
        return self.compare(op, self.address(la), self.address(lb))

    def address(self, loc):
        if loc is None:
            return 0
        for known, a in self.addresses:
            if known.same(loc):
                return a
        a = self.fresh('address', z3.IntSort())
        self.assume(a > 0)
        for _, b in self.addresses:
            self.assume(a != b)
        self.addresses.append((loc, a))
        return a

    def canon_loc(self, l):
        return l

    def tobool(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, int):
            return v != 0
        if isinstance(v, (float, Fraction)):
            return v != 0
        if isinstance(v, Ptr):
            return v.loc is not None
        if isinstance(v, FnPtr):
            return True
        if isinstance(v, Fun):
            return v.val is not None
        if isinstance(v, MemPtr):
            return True
        if isz(v):
            if z3.is_bool(v):
                return v
            if z3.is_int(v):
                return v != 0
            if z3.is_fp(v):
                return z3.Not(z3.fpIsZero(v))
            if z3.is_real(v):
                return v != 0
        raise Unsupported(f'bool of {v!r}')

    def truth(self, v):
        return self.branch(self.tobool(v))

    def neg(self, b):
        return (not b) if isinstance(b, bool) else z3.simplify(z3.Not(b))

    def conj(self, *bs):
        zs = []
        for b in bs:
            if b is False:
                return False
            if b is True:
                continue
            zs.append(b)
        return True if not zs else zs[0] if len(zs) == 1 else z3.And(*zs)

    def disj(self, *bs):
        zs = []
        for b in bs:
            if b is True:
                return True
            if b is False:
                continue
            zs.append(b)
        return False if not zs else zs[0] if len(zs) == 1 else z3.Or(*zs)

    def to_float(self, v, bits=64):
        """integer to floating"""
        v = self.b2i(v)
        if not isz(v):
            return Fraction(v) if self.real else float(v)
        if self.real:
            return z3.ToReal(v)
        return z3.fpRealToFP(RNE, z3.ToReal(v), F64) if hasattr(z3, 'fpRealToFP') else z3.fpToFP(RNE, z3.ToReal(v), F64)

    def to_int(self, v, t, loc=None):
        """floating to integer (truncation), with a range obligation"""
        lo, hi = self.int_range(t)
        if not isz(v):
            if isinstance(v, float) and (math.isnan(v) or math.isinf(v)):
                self.oblige(False, 'float to integer conversion in range', 'ub', loc)
                raise Infeasible()
            i = math.trunc(v)
            if not lo <= i <= hi:
                self.oblige(False, 'float to integer conversion in range', 'ub', loc)
                raise Infeasible()
            return i
        if self.real:
            i = z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
            if not self.opts.get('noov'):
                self.oblige(z3.And(i >= lo, i <= hi), 'float to integer conversion in range', 'ub', loc)
            return i
        ok = z3.And(z3.Not(z3.fpIsNaN(v)), z3.Not(z3.fpIsInf(v)),
                    z3.fpGT(v, z3.FPVal(float(lo) - 1 if lo > -2**53 else float(lo), F64)) if lo > -2**53
                    else z3.fpGEQ(v, z3.FPVal(float(lo), F64)),
                    z3.fpLT(v, z3.FPVal(float(hi + 1), F64)))
        self.oblige(ok, 'float to integer conversion in range', 'ub', loc)
        ty = self.p.ty(t)
        bits = 64
        bv = z3.fpToSBV(z3.RTZ(), v, z3.BitVecSort(bits)) if ty.get('signed', True) else z3.fpToUBV(z3.RTZ(), v, z3.BitVecSort(bits))
        return z3.BV2Int(bv, ty.get('signed', True))

    # ------------------------------------------------------------------ default / zero / uninit values
    def uninit(self, t):
        ty = self.p.ty(t)
        k = ty['k']
        if k == 'rec':
            return self.uninit_rec(ty['rec'], t)
        if k == 'arr':
            return Vec([self.uninit(ty['to'])] * ty['n'], ty['to'])
        return Uninit(t)

    def uninit_rec(self, rec, t=None):
        r = self.p.records[rec]
        v = self.sys_default(rec)
        if v is not None:
            return v
        return self.uninit_struct(rec)

    def uninit_struct(self, rec):
        r = self.p.records[rec]
        v = self.sys_default(rec)
        if v is not None:
            return v
        f = {}
        for b in r.get('bases', []):
            f[('b', b['rec'])] = self.uninit_rec(b['rec'])
        for x in r.get('fields', []):
            f[x['n']] = self.uninit(x['t'])
        return Struct(rec, f)

    def zero(self, t):
        ty = self.p.ty(t)
        k = ty['k']
        if k in ('int', 'enum'):
            return 0
        if k == 'bool':
            return False
        if k == 'float':
            return Fraction(0) if self.real else 0.0
        if k in ('ptr', 'nullptr'):
            return Ptr(None)
        if k == 'arr':
            return Vec([self.zero(ty['to']) for _ in range(ty['n'])], ty['to'])
        if k == 'rec':
            rec = ty['rec']
            v = self.sys_default(rec)
            if v is not None:
                return v
            r = self.p.records[rec]
            f = {}
            for b in r.get('bases', []):
                f[('b', b['rec'])] = self.zero_rec(b['rec'])
            for x in r.get('fields', []):
                f[x['n']] = self.zero(x['t'])
            return Struct(rec, f)
        if k == 'memptr':
            return MemPtr()
        if k == 'ref':
            return Uninit(t)
        raise Unsupported(f'zero of {ty["s"]}')

    def zero_rec(self, rec):
        v = self.sys_default(rec)
        if v is not None:
            return v
        r = self.p.records[rec]
        f = {}
        for b in r.get('bases', []):
            f[('b', b['rec'])] = self.zero_rec(b['rec'])
        for x in r.get('fields', []):
            f[x['n']] = self.zero(x['t'])
        return Struct(rec, f)

    def default_rec(self, rec):
        return self.zero_rec(rec)

    def sys_default(self, rec):
        """default value of a modelled library class, None for others"""
        r = self.p.records[rec]
        n = r['name']
        h = SYSDEFAULT.get(n)
        if h:
            return h(self, rec)
        if r.get('sys') and n in ('std::pair', 'std::tuple'):
            return None
        if r.get('sys') and not r.get('agg') and n not in SYSSTRUCT:
            return SysObj(n, {}, rec)
        return None

    # ------------------------------------------------------------------ z3 encoding of composite values
    def sort_of(self, t):
        ty = self.p.ty(t)
        k = ty['k']
        if k == 'bool':
            return z3.BoolSort()
        if k in ('int', 'enum'):
            return z3.IntSort()
        if k == 'float':
            return self.fsort()
        if k == 'rec':
            n = self.p.records[ty['rec']]['name']
            if n == 'std::basic_string':
                return z3.StringSort()
            key = ('sort', ty['rec'], self.real)
            if key not in SORTS:
                leaves = self.leaf_fields(ty['rec'])
                name = f'R{ty["rec"]}_{"r" if self.real else "f"}_{id(self.p) % 100000}'
                D = z3.Datatype(name)
                D.declare('mk', *[(f'{name}_{i}', self.sort_of(ft)) for i, (_, ft) in enumerate(leaves)])
                SORTS[key] = (D.create(), leaves)
            return SORTS[key][0]
        raise Unsupported(f'no logical sort for {ty["s"]}')

    def leaf_fields(self, rec):
        r = self.p.records[rec]
        if r.get('sys') and r['name'] not in ('std::pair',):
            raise Unsupported(f'{r["name"]} inside a symbolic sequence')
        out = []
        for b in r.get('bases', []):
            for path, ft in self.leaf_fields(b['rec']):
                out.append(((('b', b['rec']),) + path, ft))
        for x in r.get('fields', []):
            ft = x['t']
            fty = self.p.ty(ft)
            if fty['k'] == 'rec' and self.p.records[fty['rec']]['name'] != 'std::basic_string':
                for path, lt in self.leaf_fields(fty['rec']):
                    out.append(((x['n'],) + path, lt))
            else:
                out.append(((x['n'],), ft))
        return out

    def enc(self, v, t):
        ty = self.p.ty(t)
        k = ty['k']
        if isinstance(v, Uninit):
            return self.fresh('indeterminate', self.sort_of(t))
        if k == 'bool':
            return self.zbool(v)
        if k in ('int', 'enum'):
            return self.zint(v)
        if k == 'float':
            return self.fconst(v)
        if k == 'rec':
            if self.p.records[ty['rec']]['name'] == 'std::basic_string':
                return self.zstr(v)
            s = self.sort_of(t)
            leaves = SORTS[('sort', ty['rec'], self.real)][1]
            args = []
            for path, lt in leaves:
                x = v
                for st in path:
                    x = self.get_step(x, st)
                args.append(self.enc(x, lt))
            return s.constructor(0)(*args)
        raise Unsupported(f'encoding of {ty["s"]}')

    def dec(self, term, t):
        term = z3.simplify(term)
        ty = self.p.ty(t)
        if ty['k'] == 'rec' and self.p.records[ty['rec']]['name'] != 'std::basic_string':
            s = self.sort_of(t)
            leaves = SORTS[('sort', ty['rec'], self.real)][1]
            v = self.shape(ty['rec'])
            for i, (path, lt) in enumerate(leaves):
                v = self.set_path(v, path, self.dec(s.accessor(0, i)(term), lt))
            return v
        if ty['k'] in ('int', 'enum'):
            if z3.is_int_value(term):
                return term.as_long()
            lo, hi = self.int_range(t)
            if not term.get_id() in self.ranged:
                self.ranged[term.get_id()] = term
                if not (lo == 0 and hi == 0):
                    c = z3.And(term >= lo, term <= hi)
                    bound = [v for v in self.bound_vars if v.get_id() in _ids_of(term)]
                    if bound:
                        c = z3.ForAll(bound, c)
                    self.assume(c)
            return term
        if ty['k'] == 'bool':
            if z3.is_true(term):
                return True
            if z3.is_false(term):
                return False
        return term

    def shape(self, rec):
        r = self.p.records[rec]
        f = {}
        for b in r.get('bases', []):
            f[('b', b['rec'])] = self.shape(b['rec'])
        for x in r.get('fields', []):
            fty = self.p.ty(x['t'])
            if fty['k'] == 'rec' and self.p.records[fty['rec']]['name'] != 'std::basic_string':
                f[x['n']] = self.shape(fty['rec'])
            else:
                f[x['n']] = Uninit(x['t'])
        return Struct(rec, f)

    # ------------------------------------------------------------------ expressions
    def ev(self, e):
        """a Loc for glvalues, a value for prvalues"""
        k = e['k']
        m = getattr(self, 'e_' + k, None)
        if m is None and e.get('what') == 'SourceLocExpr':  # __builtin_FILE() and the like, in the text of a failed assertion
            return Ptr(None) if self.p.ty(e['t'])['k'] == 'ptr' else 0
        if m is None:
            raise Unsupported(f'expression {k} {e.get("what", "")} {e.get("loc", "")}')
        if self.frames and e.get('loc'):
            self.frames[-1].loc = e['loc']
        return m(e)

    def rv(self, e):
        """value of any expression"""
        v = self.ev(e)
        if isinstance(v, Loc):
            if e.get('lv'):
                return self.loadv(v)
        return v

    def lv(self, e):
        v = self.ev(e)
        if isinstance(v, Loc) and e.get('lv'):
            return v
        return self.alloc(v, e.get('t'))

    def e_Lit(self, e):
        ty = self.p.ty(e['t'])
        if 'f' in e:
            s = e['f']
            x = float(s) if s in ('nan', 'inf', '-inf') else float.fromhex(s)
            if ty['k'] == 'float' and ty['bits'] == 32 and not math.isinf(x) and not math.isnan(x):
                import struct
                x = struct.unpack('f', struct.pack('f', x))[0]
            return self.norm_real(x) if self.real else x
        i = int(e['i'])
        if ty['k'] == 'bool':
            return i != 0
        if ty['k'] == 'float':
            return Fraction(i) if self.real else float(i)
        return i

    def e_Null(self, e):
        return Ptr(None)

    def e_Zero(self, e):
        return None if self.p.ty(e['t'])['k'] == 'void' else self.zero(e['t'])

    def e_Nop(self, e):
        return None

    def e_Str(self, e):
        key = ('str', tuple(e['b']))
        if key not in self.mem:
            self.mem[key] = CStr(''.join(chr(c & 0xff) for c in e['b']))
        return Loc(key)

    def e_DefInit(self, e):
        return self.ev(e['e'])

    def e_This(self, e):
        fr = self.frames[-1]
        f = self.p.functions[fr.fid]
        if f.get('rec') is not None and self.p.records[f['rec']].get('lambda') and f['name'].endswith('operator()'):
            r = self.p.records[f['rec']]
            if 'thiscap' in r:
                v = self.load(fr.this + r['thiscap'])
                if isinstance(v, Ptr):
                    return v
                return Ptr(fr.this + r['thiscap'])
        return Ptr(fr.this)

    def e_Var(self, e):
        v = e['v']
        fr = self.frames[-1]
        if e.get('g'):
            return self.global_loc(v)
        if e.get('cap'):
            f = self.p.functions[fr.fid]
            if f.get('rec') is not None:
                r = self.p.records[f['rec']]
                for c in r.get('captures', []):
                    if c['var'] == v:
                        l = fr.this + c['field']
                        if c['byref']:
                            x = self.load(l)
                            return x.loc
                        return l
        if v in fr.vars:
            return fr.vars[v]
        # default-argument or nested context
        for g in reversed(self.frames[:-1]):
            if v in g.vars:
                return g.vars[v]
        raise Unsupported(f'unbound variable {e.get("n")}')

    def global_loc(self, v):
        key = ('g', v)
        gv = self.p.vars[v]
        if key not in self.mem:
            h = GLOBALS.get(gv.get('q'))
            if h:
                self.mem[key] = h(self, gv)
            elif 'init' in gv and gv['init'] is not None:
                ty = self.p.ty(gv['t'])
                if self.spec_depth:
                    raise SpecAbort()
                self.frames.append(Frame(self.fid, None, {}))
                try:
                    w = self.writes
                    self.writes = None
                    if ty['k'] == 'ref':
                        self.mem[key] = Ptr(self.lv(gv['init']))
                    else:
                        self.mem[key] = self.uninit(gv['t'])
                        self.init_into(Loc(key), gv['init'], gv['t'])
                    self.writes = w
                finally:
                    self.frames.pop()
            else:
                if gv.get('sys'):
                    raise Unsupported(f'global {gv.get("q")} has no model')
                self.mem[key] = self.zero(gv['t'])
            self.rootty[key] = gv['t']
        if self.p.ty(gv['t'])['k'] == 'ref':
            return self.mem[key].loc
        return Loc(key)

    def e_Fn(self, e):
        return FnPtr(e['f'])

    def e_MemPtr(self, e):
        return MemPtr(e.get('field'), e.get('f'), e.get('rec'))

    def e_Mat(self, e):
        t = e.get('vt', e['t'])
        inner = e['e']
        if inner['k'] in ('Ctor', 'InitList', 'Lambda'):
            loc = self.alloc(self.uninit_shallow(t), t)
            if self.frames:
                self.frames[-1].own.append(loc.root)
            self.init_into(loc, inner, t)
            return loc
        v = self.rv(inner)
        loc = self.alloc(v, t)
        if self.frames:
            self.frames[-1].own.append(loc.root)
        return loc

    def uninit_shallow(self, t):
        return Uninit(t)

    def e_Mem(self, e):
        if e['arrow']:
            p = self.rv(e['e'])
            loc = self.deref(p, e.get('loc'))
        else:
            b = self.ev(e['e'])
            if not (isinstance(b, Loc) and e['e'].get('lv')):
                v = self.get_step(b, e['n'])
                if e.get('isref'):
                    return v.loc
                return self.alloc(v, e['t']) if e.get('lv') else v
            loc = b
        l = loc + e['n']
        if e.get('isref'):
            v = self.load(l)
            if isinstance(v, Ptr):
                return v.loc
            raise Unsupported('reference member not bound')
        return l

    def deref(self, p, where=None):
        if isinstance(p, Ptr):
            if p.loc is None:
                self.oblige(False, 'no null dereference', 'ub', where)
                raise Infeasible()
            return p.loc
        if isinstance(p, Iter):
            return self.iter_deref(p)
        if isinstance(p, Loc):
            return p
        if isinstance(p, Uninit):
            self.oblige(False, 'no read of an indeterminate value', 'ub', where)
            raise Infeasible()
        raise Unsupported(f'dereference of {p!r}')

    def e_Un(self, e):
        op = e['op']
        if op == '*':
            return self.deref(self.rv(e['e']), e.get('loc'))
        if op == '&':
            v = self.ev(e['e'])
            if isinstance(v, (FnPtr, MemPtr)):
                return v
            if isinstance(v, Loc):
                return Ptr(v)
            raise Unsupported('address of a value')
        if op in ('++', '--'):
            loc = self.lv(e['e'])
            old = self.loadv(loc)
            d = 1 if op == '++' else -1
            if isinstance(old, Ptr):
                new = self.ptr_add(old, d)
            elif self.is_float(old):
                new = self.arith('+', old, Fraction(d) if self.real else float(d), e['t'])
            else:
                new = self.arith_small('+', old, d, e['t'], e.get('loc'))
            self.store(loc, new)
            if e['post']:
                return old
            return loc
        v = self.rv(e['e'])
        if op == '!':
            return self.neg(self.tobool(v))
        if op == '-':
            if self.is_float(v):
                if isz(v):
                    return -v if self.real else z3.fpNeg(v)
                return -v
            v = self.b2i(v)
            return self.int_result(-v, e['t'], e.get('loc'))
        if op == '+':
            return v
        if op == '~':
            if isz(v):
                return self.wrap(-v - 1, e['t'])
            return self.wrap(~int(v), e['t'])
        raise Unsupported(f'unary {op}')

    def arith_small(self, op, a, b, t, loc):
        """arithmetic on a type narrower than int: promoted, then converted back"""
        ty = self.p.ty(t)
        if ty['k'] == 'int' and ty['bits'] < 32:
            a, b = self.b2i(a), self.b2i(b)
            return self.wrap(a + b if op == '+' else a - b, t)
        return self.arith(op, a, b, t, loc)

    def ptr_add(self, p, d):
        if p.loc is None:
            if not isz(d) and d == 0:
                return p
            self.oblige(False, 'no arithmetic on null', 'ub')
            raise Infeasible()
        path = p.loc.path
        if path and isinstance(path[-1], tuple) and path[-1][0] == 'i':
            n = path[-1][1] + d
            if isz(n):
                n = z3.simplify(n)
                if z3.is_int_value(n):
                    n = n.as_long()
            return Ptr(Loc(p.loc.root, path[:-1] + (('i', n),)), p.kind)
        if not isz(d) and d == 0:
            return p
        return Ptr(p.loc + ('i', d), p.kind)

    def e_Bin(self, e):
        op = e['op']
        if op in ('&&', '||'):
            a = self.tobool(self.rv(e['l']))
            if isinstance(a, bool):
                if (op == '&&') != a:
                    return a
                return self.tobool(self.rv(e['r']))
            a = z3.simplify(a)
            if z3.is_true(a) or z3.is_false(a):
                a = z3.is_true(a)
                if (op == '&&') != a:
                    return a
                return self.tobool(self.rv(e['r']))
            ok, b = self.speculate(lambda: self.tobool(self.rv(e['r'])))
            if ok:
                return z3.simplify(z3.And(a, self.zbool(b)) if op == '&&' else z3.Or(a, self.zbool(b)))
            a = self.branch(a)
            if (op == '&&') != a:
                return a
            return self.tobool(self.rv(e['r']))
        if op == ',':
            self.ev(e['l'])
            return self.ev(e['r'])
        a = self.rv(e['l'])
        b = self.rv(e['r'])
        if op in ('==', '!=', '<', '<=', '>', '>='):
            return self.compare(op, a, b)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == '+':
                return self.ptr_add(a, b) if isinstance(a, Ptr) else self.ptr_add(b, a)
            if op == '-':
                if isinstance(b, Ptr):
                    return self.ptr_diff(a, b)
                return self.ptr_add(a, -b)
        return self.arith(op, a, b, e['t'], e.get('loc'))

    def ptr_diff(self, a, b):
        def norm(p):
            path = p.loc.path
            if path and isinstance(path[-1], tuple) and path[-1][0] == 'i':
                return Loc(p.loc.root, path[:-1]), path[-1][1]
            return p.loc, 0
        la, ia = norm(a)
        lb, ib = norm(b)
        if la.same(lb):
            return ia - ib
        raise Unsupported('difference of unrelated pointers')

    def speculate(self, fn):
        """evaluate without forking, writing or raising obligations; (False, None) if impossible"""
        self.spec_depth += 1
        saved_root = getattr(self, 'spec_root', None)
        if self.spec_depth == 1:
            self.spec_root = self.nroot if not isinstance(self.nroot, tuple) else 0
        npc = len(self.pc)
        nf = dict(self.nfresh)
        ntape = len(self.tape)
        nframes = len(self.frames)
        nwr = len(self.writes) if self.writes is not None else None
        keys = None
        loc0 = self.frames[-1].loc if self.frames else None
        try:
            v = fn()
            return True, v
        except (SpecAbort, CppThrow, Infeasible):
            del self.pc[npc:]
            del self.pcvars[npc:]
            self.nfresh = nf
            del self.tape[ntape:]
            del self.frames[nframes:]
            if self.frames:
                self.frames[-1].loc = loc0
            if nwr is not None:
                del self.writes[nwr:]
            if self.spec_depth > 1:
                raise SpecAbort()
            return False, None
        finally:
            self.spec_depth -= 1
            self.spec_root = saved_root

    def e_Cond(self, e):
        c = self.tobool(self.rv(e['c']))
        if not isinstance(c, bool):
            c = z3.simplify(c)
            if z3.is_true(c):
                c = True
            elif z3.is_false(c):
                c = False
        if isinstance(c, bool):
            return self.ev(e['a'] if c else e['b'])
        if not e.get('lv') and self.scalar_type(e['t']):
            ok, ab = self.speculate(lambda: (self.rv(e['a']), self.rv(e['b'])))
            if ok:
                r = self.ite(c, ab[0], ab[1])
                if r is not None:
                    return r
        return self.ev(e['a'] if self.branch(c) else e['b'])

    def scalar_type(self, t):
        return self.p.ty(t)['k'] in ('int', 'bool', 'float', 'enum')

    def ite(self, c, a, b):
        """merge two scalars, None when they cannot be merged"""
        if isinstance(c, bool):
            return a if c else b
        if not isz(a) and not isz(b) and type(a) is type(b) and isinstance(a, (int, bool, Fraction, str)) and a == b:
            return a
        if (isinstance(a, bool) or (isz(a) and z3.is_bool(a))) and (isinstance(b, bool) or (isz(b) and z3.is_bool(b))):
            return z3.simplify(z3.If(c, self.zbool(a), self.zbool(b)))
        if self.is_float(a) or self.is_float(b):
            if self.real and (isinstance(a, float) or isinstance(b, float)):
                return None
            return z3.If(c, self.fconst(a), self.fconst(b))
        if isinstance(a, str) or (isz(a) and z3.is_string(a)):
            return z3.If(c, self.zstr(a), self.zstr(b))
        if isinstance(a, (int,)) or (isz(a) and z3.is_int(a)):
            if isinstance(b, int) or (isz(b) and z3.is_int(b)):
                return z3.If(c, self.zint(a), self.zint(b))
        return None

    def e_Sub(self, e):
        b = self.rv(e['b'])
        i = self.rv(e['i'])
        if not isinstance(b, Ptr):
            b, i = i, b
        return self.deref(self.ptr_add(b, i), e.get('loc'))

    def e_Assign(self, e):
        # C++17: right operand is sequenced before the left one
        r = self.rv(e['r'])
        loc = self.lv(e['l'])
        self.store(loc, r)
        return loc

    def e_CAssign(self, e):
        r = self.rv(e['r'])
        loc = self.lv(e['l'])
        a = self.loadv(loc)
        if isinstance(a, Ptr):
            self.store(loc, self.ptr_add(a, r if e['op'] == '+' else -r))
            return loc
        t = e['l']['t']
        a = self.convert(a, t, e['ct'])
        v = self.arith(e['op'], a, r, e['crt'], e.get('loc'))
        v = self.convert(v, e['crt'], t)
        self.store(loc, v)
        return loc

    def convert(self, v, t1, t2):
        a, b = self.p.ty(t1), self.p.ty(t2)
        ka, kb = a['k'], b['k']
        if kb == 'bool':
            return self.tobool(v)
        if ka == 'float' and kb in ('int', 'enum'):
            return self.to_int(v, t2)
        if ka in ('int', 'enum', 'bool') and kb == 'float':
            return self.to_float(v, b['bits'])
        if ka in ('int', 'enum', 'bool') and kb in ('int', 'enum'):
            return self.wrap(self.b2i(v), t2, self.int_range(t1))
        if ka == 'float' and kb == 'float':
            return self.float_cast(v, a, b)
        return v

    def float_cast(self, v, a, b):
        if a['bits'] > b['bits'] and b['bits'] == 32 and not self.real:
            if not isz(v):
                import struct
                try:
                    return struct.unpack('f', struct.pack('f', v))[0]
                except OverflowError:
                    return math.copysign(math.inf, v)
            return z3.fpFPToFP(RNE, z3.fpFPToFP(RNE, v, F32), F64)
        return v

    def e_Cast(self, e):
        c = e['c']
        if c == 'LValueToRValue':
            loc = self.ev(e['e'])
            if isinstance(loc, Loc):
                return self.loadv(loc)
            return loc
        if c in ('ArrayToPointerDecay',):
            return Ptr(self.lv(e['e']) + ('i', 0))
        if c in ('IntegralCast', 'BooleanToSignedIntegral'):
            v = self.rv(e['e'])
            return self.wrap(self.b2i(v), e['t'], self.int_range(e['e']['t']))
        if c in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean', 'MemberPointerToBoolean'):
            return self.tobool(self.rv(e['e']))
        if c == 'IntegralToFloating':
            return self.to_float(self.rv(e['e']), self.p.ty(e['t'])['bits'])
        if c == 'FloatingToIntegral':
            return self.to_int(self.rv(e['e']), e['t'], e.get('loc'))
        if c == 'FloatingCast':
            return self.float_cast(self.rv(e['e']), self.p.ty(e['e']['t']), self.p.ty(e['t']))
        if c in ('DerivedToBase', 'UncheckedDerivedToBase'):
            v = self.ev(e['e'])
            if isinstance(v, Loc) and e['e'].get('lv') and e.get('lv'):
                return self.upcast(v, e['path'])
            if isinstance(v, Loc) and e['e'].get('lv'):
                v = self.loadv(v)
            if isinstance(v, Ptr):
                return Ptr(self.upcast(v.loc, e['path']) if v.loc is not None else None, v.kind)
            if isinstance(v, Struct):
                for b in e['path']:
                    v = self.get_step(v, ('b', b)) if ('b', b) in v.f else v
                return v
            return v
        if c == 'BaseToDerived':
            v = self.ev(e['e'])
            n = len(e['path'])
            if isinstance(v, Loc):
                return self.downcast(v, n)
            if isinstance(v, Ptr):
                return Ptr(self.downcast(v.loc, n) if v.loc is not None else None, v.kind)
        if c == 'NullToPointer':
            return Ptr(None)
        if c == 'NullToMemberPointer':
            return MemPtr()
        if c == 'ToVoid':
            self.ev(e['e'])
            return None
        if c in ('BitCast', 'LValueBitCast'):
            return self.ev(e['e'])
        if c in ('Dependent',):
            return self.ev(e['e'])
        raise Unsupported(f'cast {c} at {e.get("loc")}')

    def upcast(self, loc, path):
        for b in path:
            # library bases are part of the derived object's own model
            v = self.load(loc)
            if isinstance(v, Struct) or isinstance(v, Uninit):
                loc = loc + ('b', b)
            elif isinstance(v, SysObj) and ('b', b) in v.f:
                loc = loc + ('b', b)
        return loc

    def downcast(self, loc, n):
        path = loc.path
        for _ in range(n):
            if path and isinstance(path[-1], tuple) and path[-1][0] == 'b':
                path = path[:-1]
            else:
                raise Unsupported('downcast of a complete object')
        return Loc(loc.root, path)

    def dyn_loc(self, loc):
        """location of the most derived object"""
        path = loc.path
        while path and isinstance(path[-1], tuple) and path[-1][0] == 'b':
            path = path[:-1]
        return Loc(loc.root, path)

    def dyn_rec(self, loc):
        v = self.load(self.dyn_loc(loc))
        if isinstance(v, Struct):
            return v.rec
        if isinstance(v, SysObj):
            return v.rec
        if isinstance(v, Uninit):
            return self.p.rec_of(v.t)
        return None

    def e_DynCast(self, e):
        v = self.ev(e['e'])
        isref = False
        if isinstance(v, Loc) and e['e'].get('lv'):
            ty = self.p.ty(e['e']['t'])
            if ty['k'] == 'ptr':
                v = self.loadv(v)
            else:
                isref = True
        loc = v if isref else v.loc
        if loc is None:
            return Ptr(None)
        tt = self.p.ty(self.p.strip_ref(e['to']))
        if tt['k'] == 'ptr':
            tt = self.p.ty(tt['to'])
        if tt['k'] == 'void':
            return Ptr(self.dyn_loc(loc))
        r = self.cast_to_rec(loc, tt['rec'])
        if isref:
            if r is None:
                raise CppThrow(SysObj('std::bad_cast'), e.get('loc'))
            return r
        return Ptr(r)

    def cast_to_rec(self, loc, rec):
        top = self.dyn_loc(loc)
        d = self.dyn_rec(loc)
        if d is None:
            raise Unsupported('dynamic type unknown')
        bp = self.p.base_path(d, rec)
        if bp is None:
            return None
        for b in bp:
            top = top + ('b', b)
        return top

    def e_Typeid(self, e):
        t = e['of']
        if 'e' in e and e.get('poly'):
            loc = self.lv(e['e'])
            d = self.dyn_rec(loc)
            return self.alloc(TypeInfo(('rec', d)), None)
        rec = self.p.rec_of(t)
        return self.alloc(TypeInfo(('rec', rec) if rec is not None else ('t', self.unconst(t))), None)

    def unconst(self, t):
        return self.p.ty(self.p.strip_ref(t))['s']

    def type_name(self, ti):
        if ti.t[0] == 'rec':
            return self.p.records[ti.t[1]]['full']
        return ti.t[1]

    def e_Throw(self, e):
        if e['e'] is None:
            cur = self.ghost.get('current_exc')
            if not cur:
                raise Unsupported('rethrow outside a handler')
            raise cur[-1]
        v = self.rv(e['e'])
        if self.spec_depth:
            raise SpecAbort()
        raise CppThrow(v, e.get('loc'))

    def exc_name(self, v):
        if isinstance(v, Struct):
            return self.p.records[v.rec]['name'] if isinstance(v.rec, int) else str(v.rec)
        if isinstance(v, SysObj):
            return v.name
        return type(v).__name__

    def exc_matches(self, v, t):
        """does exception value v match a handler of type t"""
        t = self.p.strip_ref(t)
        ty = self.p.ty(t)
        if ty['k'] != 'rec':
            return not isinstance(v, (Struct, SysObj)) and ty['k'] in ('int', 'ptr', 'bool', 'float')
        want = self.p.records[ty['rec']]['name']
        if isinstance(v, Struct):
            for b in self.p.all_bases(v.rec):
                if b == ty['rec'] or self.p.records[b]['name'] == want:
                    return True
                if want in SYSEXC.get(self.p.records[b]['name'], ()):
                    return True
            return False
        if isinstance(v, SysObj):
            return v.name == want or want in SYSEXC.get(v.name, ())
        return False

    def e_New(self, e):
        if e.get('placement'):
            raise Unsupported('placement new')
        if e['array']:
            raise Unsupported('array new')
        loc = self.alloc(self.uninit_shallow(e['at']), e['at'])
        if e['e'] is not None:
            self.init_into(loc, e['e'], e['at'])
        else:
            self.mem[loc.root] = self.uninit(e['at'])
        return Ptr(loc)

    def e_Delete(self, e):
        self.rv(e['e'])
        return None

    def e_StdInitList(self, e):
        v = self.rv(e['e'])
        return v

    def e_ArrCopy(self, e):
        return self.rv(e['e'])

    def e_InitList(self, e):
        t = e['t']
        ty = self.p.ty(t)
        if ty['k'] == 'rec' and not self.is_modelled_rec(ty['rec']):
            loc = self.alloc(Uninit(t), t)
            self.init_into(loc, e, t)
            return self.load(loc)
        if ty['k'] == 'arr':
            items = [self.rv(x) for x in e['inits']]
            while len(items) < ty['n']:
                items.append(self.rv(e['filler']) if e.get('filler') else self.zero(ty['to']))
            return Vec(items, ty['to'])
        if ty['k'] == 'rec':
            n = self.p.records[ty['rec']]['name']
            if n == 'std::array':
                inner = e['inits']
                ety = self.p.targ(ty['rec'], 0)
                cnt = self.p.targ(ty['rec'], 1)
                if not inner:
                    return Vec([self.zero(ety)] * cnt, ety)
                v = self.rv(inner[0])
                return Vec(v.items, ety)
            if not e['inits']:
                return self.sys_default(ty['rec'])
            raise Unsupported(f'initialiser list of {n}')
        if not e['inits']:
            return self.zero(t)
        return self.rv(e['inits'][0])

    def is_modelled_rec(self, rec):
        n = self.p.records[rec]['name']
        return n in SYSDEFAULT or (self.p.records[rec].get('sys') and not self.p.records[rec].get('agg') and n not in SYSSTRUCT)

    def e_Lambda(self, e):
        f = {}
        for c in e['caps']:
            ty = self.p.ty(c['t'])
            if ty['k'] == 'ref':
                f[c['field']] = Ptr(self.lv(c['e']))
            else:
                f[c['field']] = self.rv(c['e'])
        return Struct(e['rec'], f)

    def e_StmtExpr(self, e):
        b = e['b']['b']
        for s in b[:-1]:
            self.st(s)
        if b and b[-1]['k'] == 'Expr':
            return self.ev(b[-1]['e'])
        return None

    def e_BoundM(self, e):
        raise Unsupported('bound member expression')

    # initialisation of an object at a location
    def init_into(self, loc, e, t):
        k = e['k']
        if k == 'Mat' and not e.get('lv'):
            e = e['e']
            k = e['k']
        if k == 'DefInit':
            return self.init_into(loc, e['e'], t)
        if k == 'Ctor' and self.p.functions[e['f']].get('rec') is not None:
            return self.ctor_into(loc, e)
        if k == 'InitList':
            ty = self.p.ty(e['t'])
            if ty['k'] == 'rec' and not self.is_modelled_rec(ty['rec']):
                r = self.p.records[ty['rec']]
                cur = self.uninit_struct(ty['rec'])
                self.store_init(loc, cur)
                inits = list(e['inits'])
                slots = [(('b', b['rec']), None) for b in r.get('bases', [])] + [(x['n'], x['t']) for x in r.get('fields', [])]
                if r.get('union'):
                    slots = [(e.get('unionfield'), None)]
                for (s, ft), x in zip(slots, inits):
                    if ft is not None and self.p.ty(ft)['k'] == 'ref':
                        self.store_init(loc + s, Ptr(self.lv(x)))
                    else:
                        self.init_into(loc + s, x, ft)
                return
            if ty['k'] == 'arr':
                self.store_init(loc, Vec([self.uninit(ty['to'])] * ty['n'], ty['to']))
                for i in range(ty['n']):
                    if i < len(e['inits']):
                        self.init_into(loc + ('i', i), e['inits'][i], ty['to'])
                    else:
                        self.store_init(loc + ('i', i), self.rv(e['filler']) if e.get('filler') else self.zero(ty['to']))
                return
        self.store_init(loc, self.rv(e))

    def store_init(self, loc, v):
        self.store(loc, v)

    def e_Ctor(self, e):
        f = self.p.functions[e['f']]
        loc = self.alloc(Uninit(e['t']), e['t'])
        self.ctor_into(loc, e)
        return self.load(loc)

    def ctor_into(self, loc, e):
        f = self.p.functions[e['f']]
        rec = e['rec']
        ty = self.p.ty(e['t'])
        if ty['k'] == 'arr':
            n = ty['n']
            self.store_init(loc, Vec([self.uninit(ty['to'])] * n, ty['to']))
            if not e['args']:
                e2 = dict(e)
                e2['t'] = ty['to']
                for i in range(n):
                    self.ctor_into(loc + ('i', i), e2)
            return
        kind = f.get('ctor')
        if kind in ('copy', 'move') and (f.get('defaulted') or self.is_modelled_rec(rec) or f.get('sys')):
            src = e['args'][0]
            if src['k'] in ('Ctor', 'InitList') and not src.get('lv'):
                return self.init_into(loc, src, e['t'])
            if src['k'] == 'Mat' and src['e']['k'] in ('Ctor',) and e.get('elide'):
                return self.init_into(loc, src['e'], e['t'])
            v = self.ev(src)
            if isinstance(v, Loc):
                sl = v
                v = self.load(sl)
                if kind == 'move' and not isinstance(v, (int, bool, float)) and not self.spec_depth:
                    self.moved_from(sl, v)
            self.store_init(loc, v)
            return
        if e.get('zero'):
            self.store_init(loc, self.zero(e['t']))
        args = self.eval_args(f, e['args'])
        self.construct(loc, e['f'], args, e)

    def moved_from(self, loc, v):
        if isinstance(v, Ptr) and v.kind == 'unique':
            self.store(loc, Ptr(None, 'unique'))

    def construct(self, loc, fid, args, e=None):
        f = self.p.functions[fid]
        rec = f['rec']
        if f.get('sys') or self.is_modelled_rec(rec):
            v = self.model_ctor(f, args, e, loc)
            self.store_init(loc, v)
            return
        # fresh object
        cur = self.mem.get(loc.root) if not loc.path else None
        if not (e and e.get('zero')):
            self.store_init(loc, self.uninit_struct(rec))
        if 'body' not in f:
            if f.get('defaulted'):
                if f.get('ctor') == 'default':
                    return  # trivial
                if f.get('ctor') in ('copy', 'move'):
                    self.store_init(loc, self.load(args[0]) if isinstance(args[0], Loc) else args[0])
                    return
            h = MODELS.get(f['name'])
            if h:
                self.models_used.add(f['name'])
                v = h(self, Call(self, f, None, args, e))
                if v is not None:
                    self.store_init(loc, v)
                return
            raise Unsupported(f'constructor {f["full"]} has no body')
        if f.get('ctor') in ('copy', 'move') and f.get('defaulted'):
            self.store_init(loc, self.load(args[0]) if isinstance(args[0], Loc) else args[0])
            return
        fr = self.enter(fid, loc, args)
        try:
            for i in f.get('inits', []):
                x = i['e']
                if 'base' in i:
                    bl = loc + ('b', i['base'])
                    if x['k'] == 'InhCtor':
                        self.construct(bl, self.inherited_target(x['f']), args, None)
                    else:
                        self.init_into(bl, x, x['t'])
                elif 'field' in i:
                    if self.p.ty(i['t'])['k'] == 'ref':
                        self.store_init(loc + i['field'], Ptr(self.lv(x)))
                    else:
                        self.init_into(loc + i['field'], x, i['t'])
                else:
                    self.init_into(loc, x, x['t'])
            try:
                self.st(f['body'])
            except ReturnX:
                pass
        finally:
            self.leave(fr)

    def inherited_target(self, fid):
        return fid

    # ------------------------------------------------------------------ calls
    def eval_args(self, f, args):
        out = []
        ps = f.get('params', [])
        for i, a in enumerate(args):
            if i < len(ps) and self.p.ty(ps[i]['t'])['k'] == 'ref':
                v = self.ev(a)
                if isinstance(v, Loc) and a.get('lv'):
                    out.append(v)
                else:
                    out.append(self.alloc(v, a.get('t')))
            elif i < len(ps):
                out.append(self.rv(a))
            else:
                v = self.ev(a)
                out.append(v)
        return out

    def e_Call(self, e):
        f = self.p.functions[e['f']]
        h = LAZY.get(f['name'])
        if h:
            return h(self, e, f)
        obj = None
        if 'obj' in e:
            if e['arrow']:
                p = self.rv(e['obj'])
                obj = self.deref(p, e.get('loc')) if not f.get('static') else None
            else:
                obj = self.ev(e['obj'])
                if not (isinstance(obj, Loc) and e['obj'].get('lv')):
                    obj = self.alloc(obj, e['obj'].get('t'))
        args = self.eval_args(f, e['args'])
        if self.frames and e.get('loc'):
            self.frames[-1].loc = e['loc']
        fid = e['f']
        if e.get('virt') and obj is not None:
            fid, obj = self.virtual_target(fid, obj)
        return self.call(fid, obj, args, e)

    def virtual_target(self, fid, obj):
        d = self.dyn_rec(obj)
        if d is None:
            return fid, obj
        for r in self.p.all_bases(d):
            for m in self.p.records[r].get('virt', []):
                if m['f'] == fid or fid in m['ov']:
                    if m.get('pure'):
                        continue
                    top = self.dyn_loc(obj)
                    for b in self.p.base_path(d, r) or []:
                        top = top + ('b', b)
                    return m['f'], top
        return fid, obj

    def e_CallPtr(self, e):
        fn = self.rv(e['fn'])
        if isinstance(fn, FnPtr):
            f = self.p.functions[fn.f]
            args = self.eval_args(f, e['args'])
            return self.call(fn.f, None, args, e)
        if isinstance(fn, Ptr) and fn.loc is None:
            self.oblige(False, 'no call through null', 'ub')
            raise Infeasible()
        raise Unsupported(f'call through {fn!r}')

    def e_CallMemPtr(self, e):
        m = self.rv(e['fn'])
        o = self.rv(e['obj']) if e['arrow'] else self.lv(e['obj'])
        loc = self.deref(o) if e['arrow'] else o
        f = self.p.functions[m.f]
        args = self.eval_args(f, e['args'])
        fid, loc = self.virtual_target(m.f, loc) if f.get('virtual') else (m.f, loc)
        return self.call(fid, loc, args, e)

    def enter(self, fid, this, args):
        f = self.p.functions[fid]
        if self.depth > 200:
            raise Unsupported('recursion too deep')
        self.depth += 1
        fr = Frame(fid, this, {})
        ps = f.get('params', [])
        for p, a in zip(ps, args):
            if self.p.ty(p['t'])['k'] == 'ref':
                if not isinstance(a, Loc):
                    a = self.alloc(a, p['t'])
                fr.vars[p['v']] = a
            else:
                l = fr.vars[p['v']] = self.alloc(a, p['t'])
                fr.own.append(l.root)
        self.frames.append(fr)
        return fr

    def leave(self, fr):
        while self.frames and self.frames[-1] is not fr:
            self.frames.pop()
        if self.frames:
            self.frames.pop()
        self.depth -= 1
        if not self.spec_depth:
            for r in fr.own:
                self.mem.pop(r, None)

    def call(self, fid, this, args, e=None):
        f = self.p.functions[fid]
        name = f['name']
        if not f.get('sys') and name in self.contract_map and fid not in self.contract_map[name]:
            if not (self.frames and self.frames[-1].fid in self.contract_map[name]):
                c = self.contract_of(name, fid, this, args)
                if c is not None:
                    return self.call_contract(name, c, this, args, e)
        h = MODELS.get(name)
        if h is None and f.get('sys'):
            h = self.find_model(f)
        if h is not None:
            self.models_used.add(name)
            return h(self, Call(self, f, this, args, e))
        if f.get('assign') and 'body' not in f and not f.get('sys'):
            src = self.load(args[0]) if isinstance(args[0], Loc) else args[0]
            self.store(this, src)
            return this
        if f.get('assign') and f.get('defaulted'):
            src = self.load(args[0]) if isinstance(args[0], Loc) else args[0]
            if isinstance(src, (Struct,)):
                self.store(this, src)
                return this
        if f.get('isdtor') and 'body' not in f:
            return None
        if 'body' not in f:
            raise Unsupported(f'no body and no contract for {f.get("full", name)}')
        if not name.startswith('verif'):
            self.functions_run.add((name, f.get('loc', '')))
        fr = self.enter(fid, this, args)
        try:
            self.exec_body(f['body'])
            r = None
        except ReturnX as x:
            r = x.v
        except CppThrow as x:
            if f.get('noexcept'):
                self.oblige(False, 'no exception leaves a noexcept function', 'ub', f.get('loc'))
                raise Infeasible()
            raise
        finally:
            self.leave(fr)
        return r

    def exec_body(self, body):
        if has_goto(body):
            return self.exec_goto_body(body)
        self.st(body)

    def exec_goto_body(self, body):
        """a function body whose top-level blocks carry labels"""
        labels = {}
        find_labels(body, (), labels)
        start = ()
        count = {}
        while True:
            try:
                if start == ():
                    self.st(body)
                else:
                    self.resume(body, start)
                return
            except GotoX as g:
                if g.n not in labels:
                    raise Unsupported('goto target not found')
                start = labels[g.n]
                count[g.n] = count.get(g.n, 0) + 1
                if count[g.n] > int(self.opts.get('gotos', 40)):
                    raise Unsupported('goto loop does not end')

    def resume(self, s, path):
        """continue a block statement at a label"""
        if not path:
            return self.st(s)
        k = s['k']
        i = path[0]
        if k == 'Block':
            self.resume(s['b'][i], path[1:])
            for x in s['b'][i + 1:]:
                self.st(x)
            return
        if k == 'Switch':
            try:
                self.resume(s['b'], path[1:])
            except BreakX:
                pass
            return
        if k in ('Case', 'Default', 'Label'):
            return self.resume(s['b'], path[1:])
        if k == 'If':
            return self.resume(s[i], path[1:])
        raise Unsupported(f'goto into {k}')

    def contract_of(self, name, fid, this, args):
        """the contract with the parameters of the callee, preceded by its object"""
        tf = self.p.functions[fid]
        n = 1 if this is not None else 0
        for c in self.contract_map[name]:
            f = self.p.functions[c]
            if len(f['params']) != len(args) + n:
                continue
            if n:
                pr = self.p.rec_of(f['params'][0]['t'])
                if pr is not None and tf.get('rec') is not None and pr != tf['rec']:
                    continue
            if all(self.p.strip_ref(p['t']) == self.p.strip_ref(q['t']) or
                   self.p.ty(self.p.strip_ref(p['t']))['s'] == self.p.ty(self.p.strip_ref(q['t']))['s']
                   for p, q in zip(f['params'][n:], tf['params'])):
                return c
        return None

    def call_contract(self, name, c, this, args, e):
        self.contracts_used.add(name)
        conv = []
        for p, a in zip(self.p.functions[c]['params'], ([this] if this is not None else []) + list(args)):
            if self.p.ty(p['t'])['k'] != 'ref' and isinstance(a, Loc):
                a = self.load(a)
            conv.append(a)
        return self.call(c, None, conv, e)

    def find_model(self, f):
        n = f['name']
        for pre, h in PREFIX_MODELS:
            if n.startswith(pre):
                return h
        # members of a base of a modelled template, e.g. std::_Optional_base
        return None

    def model_ctor(self, f, args, e, loc):
        n = f['name']
        h = MODELS.get(n)
        self.models_used.add(n)
        if h is None:
            rname = self.p.records[f['rec']]['name']
            h = MODELS.get(rname + '::(ctor)')
        if h is None:
            rname = self.p.records[f['rec']]['name']
            if rname in SYSEXC:
                msg = None
                for a in args:
                    v = self.load(a) if isinstance(a, Loc) else a
                    if isinstance(v, Ptr) and v.loc is not None:
                        v = self.cstr(v)
                    msg = v
                return SysObj(rname, {'what': msg}, f['rec'])
            if not args:
                d = self.sys_default(f['rec'])
                if d is not None:
                    return d
                return self.zero_rec(f['rec'])
            raise Unsupported(f'constructor {f["full"]} has no contract')
        return h(self, Call(self, f, None, args, e))

    def call_value(self, fnloc, args):
        """call a callable object stored at fnloc (or a callable value) with evaluated arguments"""
        v = self.load(fnloc) if isinstance(fnloc, Loc) else fnloc
        if isinstance(v, FnPtr):
            return self.call(v.f, None, self.adapt(v.f, args))
        if isinstance(v, Ptr) and v.loc is not None:
            return self.call_value(v.loc, args)
        if isinstance(v, Fun):
            if v.val is None:
                if self.spec_depth:
                    raise SpecAbort()
                raise CppThrow(SysObj('std::bad_function_call'), self.cur_loc())
            l = fnloc if isinstance(fnloc, Loc) else self.alloc(v)
            return self.call_value(l + ('fn',), args)
        if isinstance(v, Struct):
            l = fnloc if isinstance(fnloc, Loc) else self.alloc(v)
            r = self.p.records[v.rec]
            if 'callop' in r and not (self.p.functions[r['callop']].get('ref')) and 'body' in self.p.functions[r['callop']]:
                fid = r['callop']
                return self.call(fid, l, self.adapt(fid, args))
            # generic lambda or functor: find an operator() instantiation that fits
            cands = [x for x in self.p.functions if x.get('rec') == v.rec and x['name'].endswith('operator()')
                     and ('body' in x or x.get('sys')) and len(x.get('params', [])) == len(args)]
            good = [x for x in cands if self.fits(x, args)]
            if good:
                return self.call(good[0]['id'], l, self.adapt(good[0]['id'], args))
            # arguments with conversion functions to the parameters
            import models
            own = [self.p.functions[r['callop']]] if 'callop' in r else []
            for x in cands + [o for o in own if o not in cands and 'body' in o and len(o.get('params', [])) == len(args)]:
                conv = []
                for q, a in zip(x['params'], args):
                    v = self.load(a) if isinstance(a, Loc) else a
                    want = self.p.ty(self.p.strip_ref(q['t']))
                    if isinstance(v, Struct) and want['k'] == 'rec' and v.rec != want['rec'] and self.p.base_path(v.rec, want['rec']) is None:
                        w = models.converted(self, v, a, lambda y: y['k'] == 'rec' and y['rec'] == want['rec'])
                        a = self.alloc(w) if w is not v else a
                    conv.append(a)
                if self.fits(x, conv):
                    return self.call(x['id'], l, self.adapt(x['id'], conv))
            raise Unsupported(f'no operator() instantiation of {r["name"]}')
        if isinstance(v, SysObj):
            l = fnloc if isinstance(fnloc, Loc) else self.alloc(v)
            h = MODELS.get(v.name + '::operator()')
            if h:
                return h(self, Call(self, {'name': v.name + '::operator()', 'params': [], 'rec': v.rec}, l, args, None))
        if isinstance(v, MemPtr):
            o = args[0]
            o = self.load(o) if isinstance(o, Loc) and isinstance(self.load(o), Ptr) else o
            loc = self.deref(o) if isinstance(o, Ptr) else o
            if v.field:
                return loc + v.field
            fid = v.f
            if self.p.functions[fid].get('virtual'):
                fid, loc = self.virtual_target(fid, loc)
            return self.call(fid, loc, self.adapt(fid, args[1:]))
        raise Unsupported(f'call of {v!r}')

    def fits(self, f, args):
        for p, a in zip(f['params'], args):
            v = self.load(a) if isinstance(a, Loc) else a
            t = self.p.strip_ref(p['t'])
            ty = self.p.ty(t)
            if ty['k'] == 'rec':
                if isinstance(v, Struct) and v.rec != ty['rec'] and isinstance(v.rec, int):
                    if self.p.base_path(v.rec, ty['rec']) is None:
                        return False
                if not isinstance(v, Struct) and not self.is_modelled_rec(ty['rec']):
                    return False
                if self.p.records[ty['rec']]['name'] == 'std::basic_string' and not (isinstance(v, str) or (isz(v) and z3.is_string(v))):
                    return False
                if isinstance(v, str) and self.p.records[ty['rec']]['name'] != 'std::basic_string':
                    return False
            elif isinstance(v, (Struct, str, Vec)):
                return False
            if ty['k'] == 'bool' and not (isinstance(v, bool) or (isz(v) and z3.is_bool(v))):
                return False
            if ty['k'] == 'float' and not self.is_float(v):
                return False
        return True

    def adapt(self, fid, args):
        f = self.p.functions[fid]
        out = []
        for p, a in zip(f.get('params', []), args):
            isref = self.p.ty(p['t'])['k'] == 'ref'
            if not isref and isinstance(a, Loc):
                a = self.load(a)
            want = self.p.rec_of(p['t'])
            if want is not None and self.p.records[want]['name'] == 'std::basic_string':
                v = self.load(a) if isinstance(a, Loc) else a
                if isinstance(v, (Ptr, CStr)):      # converting constructor from characters
                    a = self.cstr(v) if isinstance(v, Ptr) else v.s
                    a = self.alloc(a) if isref else a
            if isref and isinstance(a, Loc) and want is not None:
                v = self.load(a)
                if isinstance(v, Struct) and isinstance(v.rec, int) and v.rec != want:
                    bp = self.p.base_path(v.rec, want)
                    if bp:
                        for b in bp:
                            a = a + ('b', b)
            out.append(a)
        return out

    # ------------------------------------------------------------------ statements
    def st(self, s):
        if s is None:
            return
        k = s['k']
        if s.get('loc') and self.frames:
            self.frames[-1].loc = s['loc']
        m = getattr(self, 's_' + k, None)
        if m is None:
            raise Unsupported(f'statement {k} {s.get("what", "")} {s.get("loc", "")}')
        return m(s)

    def s_Block(self, s):
        fr = self.frames[-1]
        depth = len(fr.dtors)
        try:
            for x in s['b']:
                self.st(x)
        except Infeasible:
            del fr.dtors[depth:]
            raise
        except (Unsupported, Restart, SpecAbort):
            raise
        except Exception:
            self.run_dtors(fr, depth)
            raise
        self.run_dtors(fr, depth)

    def run_dtors(self, fr, depth):
        while len(fr.dtors) > depth:
            fid, loc = fr.dtors.pop()
            f = self.p.functions[fid]
            if 'body' in f:
                self.call(fid, loc, [])

    def s_Expr(self, s):
        self.ev(s['e'])

    def s_Decl(self, s):
        fr = self.frames[-1]
        for d in s['d']:
            t = d['t']
            ty = self.p.ty(t)
            if d.get('static'):
                fr.vars[d['v']] = self.static_local(d)
                continue
            if ty['k'] == 'ref':
                fr.vars[d['v']] = self.lv(d['init'])
            else:
                loc = self.alloc(Uninit(t), t, d['n'])
                fr.vars[d['v']] = loc
                fr.own.append(loc.root)
                if d.get('init') is None:
                    self.mem[loc.root] = self.uninit(t)
                else:
                    self.init_into(loc, d['init'], t)
                rec = ty.get('rec')
                if rec is not None and 'dtor' in self.p.records[rec]:
                    fr.dtors.append((self.p.records[rec]['dtor'], loc))
            for b in d.get('bindings', []):
                fr.vars[b['v']] = self.lv(b['init'])

    def static_local(self, d):
        return self.global_loc(d['v'])

    def s_If(self, s):
        if s.get('init'):
            self.st(s['init'])
        if s.get('cv'):
            self.st(s['cv'])
        if self.truth(self.rv(s['c'])):
            self.st(s['a'])
        elif s.get('b'):
            self.st(s['b'])

    def s_Return(self, s):
        if s['e'] is None:
            raise ReturnX(None)
        fr = self.frames[-1]
        f = self.p.functions[fr.fid]
        rt = f['ret']
        if self.p.ty(rt)['k'] == 'ref':
            v = self.lv(s['e'])
        else:
            v = self.rv(s['e'])
        raise ReturnX(v)

    def s_Break(self, s):
        raise BreakX()

    def s_Continue(self, s):
        raise ContinueX()

    def s_Goto(self, s):
        raise GotoX(s['n'])

    def s_Label(self, s):
        self.st(s['b'])

    def s_Case(self, s):
        self.st(s['b'])

    def s_Default(self, s):
        self.st(s['b'])

    def s_Switch(self, s):
        if s.get('init'):
            self.st(s['init'])
        if s.get('cv'):
            self.st(s['cv'])
        c = self.b2i(self.rv(s['c']))
        body = s['b']
        stmts = body['b'] if body['k'] == 'Block' else [body]
        # flatten labels to (position, values, is_default)
        target = None
        default = None
        for i, x in enumerate(stmts):
            y = x
            hit = False
            while y['k'] in ('Case', 'Default'):
                if y['k'] == 'Default':
                    default = i
                else:
                    v = int(y['v'])
                    if 'hi' in y:
                        cond = self.conj(self.compare('>=', c, v), self.compare('<=', c, int(y['hi'])))
                    else:
                        cond = self.compare('==', c, v)
                    if target is None and self.branch(cond if not isinstance(cond, bool) else cond):
                        target = i
                        hit = True
                y = y['b']
            if hit:
                break
        if target is None:
            # a default may come later than the scanned prefix: it was fully scanned here
            target = default
        if target is None:
            return
        try:
            for x in stmts[target:]:
                self.st(x)
        except BreakX:
            pass

    def s_Try(self, s):
        fr = self.frames[-1]
        depth = len(self.frames)
        d0 = self.depth
        try:
            self.st(s['b'])
        except CppThrow as x:
            if self.spec_depth:
                raise SpecAbort()
            self.depth = d0
            for h in s['h']:
                if 't' not in h:
                    match = True
                    binding = None
                else:
                    match = self.exc_matches(x.value, h['t'])
                    binding = h.get('v')
                if match:
                    if binding is not None:
                        loc = self.alloc(x.value)
                        t = self.p.strip_ref(h['t'])
                        rec = self.p.rec_of(h['t'])
                        if isinstance(x.value, Struct) and rec is not None and isinstance(x.value.rec, int):
                            for b in self.p.base_path(x.value.rec, rec) or []:
                                loc = loc + ('b', b)
                        fr.vars[binding] = loc
                    self.ghost.setdefault('current_exc', []).append(x)
                    try:
                        self.st(h['b'])
                    finally:
                        self.ghost['current_exc'].pop()
                    return
            raise

    # loops
    def s_For(self, s):
        if s.get('init'):
            self.st(s['init'])

        def cond():
            if s.get('cv'):
                self.st(s['cv'])
            if s.get('c') is None:
                return True
            return self.tobool(self.rv(s['c']))
        self.loop(s, cond, lambda: self.st(s['b']), (lambda: self.ev(s['inc'])) if s.get('inc') else None)

    def s_Do(self, s):
        first = [True]
        try:
            self.st(s['b'])
        except BreakX:
            return
        except ContinueX:
            pass
        self.loop(s, lambda: self.tobool(self.rv(s['c'])), lambda: self.st(s['b']), None)

    def s_RangeFor(self, s):
        if s.get('init'):
            self.st(s['init'])
        self.st(s['range'])
        self.st(s['begin'])
        self.st(s['end'])

        def body():
            self.st(s['var'])
            self.st(s['b'])
        self.loop(s, lambda: self.tobool(self.rv(s['c'])), body, lambda: self.ev(s['inc']))

    def loop(self, s, cond, body, inc):
        site = s.get('loc', '') if isinstance(s, dict) else s
        if site in self.inductive_sites and not self.bounded_mode:
            import loops
            return loops.inductive(self, site, cond, body, inc)
        n = 0
        limit = self.bounded_mode or self.unroll
        hard = 0
        while True:
            c = cond()
            if isz(c):
                c = z3.simplify(c)
                if z3.is_true(c):
                    c = True
                elif z3.is_false(c):
                    c = False
            if isinstance(c, bool):
                if not c:
                    return
                hard += 1
                if hard > 5000:
                    raise Unsupported('loop does not end')
            else:
                if n >= limit:
                    if self.bounded_mode:
                        self.bounded_hit = True
                        self.assume(z3.Not(c))
                        return
                    if self.spec_depth:
                        raise SpecAbort()
                    # can it go on?
                    r, _ = self.solve([c], timeout=5)
                    if r == 'unsat':
                        return
                    self.inductive_sites.add(site)
                    raise Restart()
                n += 1
                if not self.branch(c):
                    return
            try:
                body()
            except BreakX:
                return
            except ContinueX:
                pass
            if inc:
                inc()

    # ------------------------------------------------------------------ nested exploration
    def explore(self, thunk):
        """run thunk along all its paths from the current state without committing any effect;
        returns [(extra path condition, outcome)] where outcome = ('ret', v) | ('throw', exc);
        fails with SpecAbort if it writes to existing objects"""
        if self.spec_depth:
            raise SpecAbort()
        saved = (self.prefix, self.pos, self.work, self.mem, list(self.pc), list(self.pcvars), dict(self.nfresh),
                 self.nroot, list(self.frames), list(self.tape), self.writes, self.depth, dict(self.ghost),
                 [f.loc for f in self.frames], [list(f.dtors) for f in self.frames], [dict(f.vars) for f in self.frames],
                 dict(self.rootty), dict(self.ranged))
        results = []
        work = [()]
        fr = list(self.frames)

        def restore():
            (self.prefix, self.pos, self.work) = saved[0], saved[1], saved[2]
            self.mem = dict(saved[3])
            self.pc, self.pcvars = list(saved[4]), list(saved[5])
            self.nfresh = dict(saved[6])
            self.nroot = saved[7]
            self.frames = list(saved[8])
            self.tape = list(saved[9])
            self.writes, self.depth = saved[10], saved[11]
            self.ghost = dict(saved[12])
            self.rootty = dict(saved[16])
            self.ranged = dict(saved[17])
            for f, l, d, v in zip(self.frames, saved[13], saved[14], saved[15]):
                f.loc, f.dtors, f.vars = l, list(d), dict(v)
        try:
            while work:
                prefix = work.pop()
                restore()
                self.prefix, self.pos, self.work = list(prefix), 0, work
                self.writes = []
                n0 = len(self.pc)
                root0 = saved[7]
                try:
                    out = ('ret', thunk())
                except CppThrow as x:
                    out = ('throw', x)
                except Infeasible:
                    continue
                wr = [w for w in self.writes if not (isinstance(w[0], int) and w[0] > root0)]
                results.append((self.pc[n0:], out, wr, self.mem, self.frames))
                if len(results) > 400:
                    raise Unsupported('too many paths in a nested exploration')
        finally:
            mem_saved = saved[3]
            restore()
            self.mem = mem_saved
        return results

    def summarize_bool(self, thunk):
        """the truth value of a pure predicate as one formula"""
        ok, v = self.speculate(lambda: self.tobool(self.val(thunk())))
        if ok:
            return v
        rs = self.explore(lambda: self.tobool(self.val(thunk())))
        out = []
        for pc, o, wr, _, _ in rs:
            if o[0] == 'throw' or wr:
                raise SpecAbort()
            out.append(self.conj(*pc, o[1]))
        return self.disj(*out)

    def val(self, a):
        return self.load(a) if isinstance(a, Loc) else a

    # strings
    def cstr(self, p):
        """text a char pointer points to"""
        if isinstance(p, Ptr):
            if p.loc is None:
                self.oblige(False, 'no string from null', 'ub')
                raise Infeasible()
            path = p.loc.path
            if path and isinstance(path[-1], tuple) and path[-1][0] == 'i':
                v = self.load(Loc(p.loc.root, path[:-1]))
                i = path[-1][1]
                if isinstance(v, CStr):
                    return v.s[i:].split('\0')[0]
                if isinstance(v, str):
                    return v[i:]
                if isz(v) and z3.is_string(v):
                    return v if i == 0 else z3.SubString(v, i, z3.Length(v) - i)
                if isinstance(v, Vec):
                    return ''.join(chr(c) for c in v.items[i:]).split('\0')[0]
        raise Unsupported(f'string from {p!r}')

    def char_at(self, s, i):
        if isinstance(s, str) and not isz(i):
            return ord(s[i]) if 0 <= i < len(s) else 0
        c = z3.SubString(self.zstr(s), self.zint(i), 1)
        return z3.simplify(z3.StrToCode(c))

    def slen(self, s):
        return len(s) if isinstance(s, str) else z3.Length(s)

    def sconcat(self, a, b):
        if isinstance(a, str) and isinstance(b, str):
            return a + b
        if isinstance(a, str) and a == '':
            return b
        if isinstance(b, str) and b == '':
            return a
        return z3.simplify(z3.Concat(self.zstr(a), self.zstr(b)))

    def iter_deref(self, it):
        import models
        return models.iter_deref(self, it)


def ty_bits(E, t):
    ty = E.p.ty(t)
    while ty['k'] == 'enum':
        ty = E.p.ty(ty['under'])
    return 1 if ty['k'] == 'bool' else ty['bits']


def fop(op, a, b, bits=64):
    try:
        if op == '+':
            r = a + b
        elif op == '-':
            r = a - b
        elif op == '*':
            r = a * b
        else:
            if b == 0:
                if a == 0 or math.isnan(a):
                    r = math.nan
                else:
                    r = math.copysign(math.inf, a) * math.copysign(1.0, b)
            else:
                r = a / b
    except OverflowError:
        r = math.inf
    if bits == 32 and not math.isinf(r) and not math.isnan(r):
        import struct
        try:
            r = struct.unpack('f', struct.pack('f', r))[0]
        except OverflowError:
            r = math.copysign(math.inf, r)
    return r


class Frame:
    __slots__ = ('fid', 'this', 'vars', 'loc', 'dtors', 'own')

    def __init__(self, fid, this, vars):
        self.fid, self.this, self.vars = fid, this, vars
        self.loc = None
        self.dtors = []
        self.own = []  # roots of what lives no longer than the call


class Call:
    """a call of a modelled function"""
    __slots__ = ('E', 'f', 'obj', 'args', 'e')

    def __init__(self, E, f, obj, args, e):
        self.E, self.f, self.obj, self.args, self.e = E, f, obj, args, e

    def val(self, i):
        return self.E.val(self.args[i])

    @property
    def this(self):
        return self.E.load(self.obj)

    def set(self, v):
        self.E.store(self.obj, v)

    @property
    def name(self):
        return self.f['name']

    def ptype(self, i):
        return self.E.p.strip_ref(self.f['params'][i]['t'])

    @property
    def ret(self):
        return self.f['ret']

    @property
    def rec(self):
        return self.f.get('rec')

    def targ(self, i):
        """template argument of the function"""
        ta = self.f.get('targs') or []
        if i < len(ta) and ta[i] is not None:
            return ta[i].get('t') if 't' in ta[i] else int(ta[i]['i'])
        return None

    def rtarg(self, i):
        """template argument of the class"""
        return self.E.p.targ(self.f['rec'], i)


def has_goto(s):
    if isinstance(s, dict):
        if s.get('k') == 'Goto':
            return True
        return any(has_goto(v) for kk, v in s.items() if kk in ('b', 'a', 'h'))
    if isinstance(s, list):
        return any(has_goto(x) for x in s)
    return False


def find_labels(s, path, out):
    if not isinstance(s, dict):
        return
    k = s.get('k')
    if k == 'Label':
        out[s['n']] = path
        find_labels(s['b'], path + ('b',), out)
    elif k == 'Block':
        for i, x in enumerate(s['b']):
            find_labels(x, path + (i,), out)
    elif k in ('Switch', 'Case', 'Default'):
        find_labels(s['b'], path + ('b',), out)
    elif k == 'If':
        find_labels(s.get('a'), path + ('a',), out)
        find_labels(s.get('b'), path + ('b',), out)


# ---------------------------------------------------------------- solver back ends
def nonlinear(e):
    return ring._nonlinear(e)


def solve_query(asserts, timeout, want_model):
    s = z3.Solver()
    s.set('timeout', int(min(timeout, 4) * 1000))
    s.add(*asserts)
    r = s.check()
    if r == z3.sat:
        return 'sat', (s.model() if want_model else None), 'z3'
    if r == z3.unsat:
        return 'unsat', None, 'z3'
    if timeout <= 4:
        return 'unknown', None, 'z3'
    # second attempt: cvc5 and a tactic in turn
    r2 = cvc5_query(s.to_smt2(), timeout)
    if r2 == 'unsat':
        return 'unsat', None, 'cvc5'
    if r2 == 'sat' and not want_model:
        return 'sat', None, 'cvc5'
    s = z3.Solver()
    s.set('timeout', int(timeout * 1000))
    s.set('random_seed', 7)
    s.add(*asserts)
    r = s.check()
    if r == z3.sat:
        return 'sat', (s.model() if want_model else None), 'z3'
    if r == z3.unsat:
        return 'unsat', None, 'z3'
    if r2 == 'sat':
        return 'sat', None, 'cvc5'
    return 'unknown', None, 'z3+cvc5'


def cvc5_query(smt, timeout):
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write('(set-logic ALL)\n' + smt)
        n = f.name
    try:
        p = subprocess.run(['cvc5', '--tlimit=%d' % int(timeout * 1000), '--strings-exp', '--nl-cov', n],
                           capture_output=True, text=True, timeout=timeout + 5)
        o = p.stdout.strip().split('\n')[0]
        return o if o in ('sat', 'unsat') else 'unknown'
    except Exception:
        return 'unknown'
    finally:
        os.unlink(n)


def zval(v, kind):
    """Python value of a z3 model value"""
    if kind == 'bool':
        return z3.is_true(v)
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    if z3.is_algebraic_value(v):
        a = v.approx(25)
        return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    if z3.is_fp(v):
        if z3.is_fp_value(v):
            if v.isNaN():
                return math.nan
            if v.isInf():
                return -math.inf if v.isNegative() else math.inf
            if v.isZero():
                return -0.0 if v.isNegative() else 0.0
            import struct
            bv = z3.simplify(z3.fpToIEEEBV(v)).as_long()
            return struct.unpack('>d', bv.to_bytes(8, 'big'))[0]
        return 0.0
    if z3.is_string_value(v):
        return unescape(v.as_string())
    return str(v)


def unescape(s):
    import re
    return re.sub(r'\\u\{([0-9a-fA-F]+)\}|\\u([0-9a-fA-F]{4})', lambda m: chr(int(m.group(1) or m.group(2), 16)), s)


SORTS = {}
SYSDEFAULT = {}
SYSSTRUCT = {'std::pair', 'std::tuple'}
GLOBALS = {}
LAZY = {}
PREFIX_MODELS = []
_E = ('std::exception',)
SYSEXC = {
    'std::exception': (),
    'std::logic_error': _E, 'std::runtime_error': _E, 'std::bad_cast': _E, 'std::bad_alloc': _E,
    'std::bad_function_call': _E, 'std::bad_optional_access': _E, 'std::bad_variant_access': _E, 'std::bad_weak_ptr': _E,
    'std::out_of_range': ('std::logic_error',) + _E, 'std::invalid_argument': ('std::logic_error',) + _E,
    'std::length_error': ('std::logic_error',) + _E, 'std::domain_error': ('std::logic_error',) + _E,
    'std::range_error': ('std::runtime_error',) + _E, 'std::overflow_error': ('std::runtime_error',) + _E,
    'std::system_error': ('std::runtime_error',) + _E,
    'boost::bad_lexical_cast': ('std::bad_cast',) + _E, 'boost::bad_any_cast': ('std::bad_cast',) + _E,
    'std::regex_error': ('std::runtime_error',) + _E,
}
