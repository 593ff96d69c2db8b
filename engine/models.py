"""Assumed contracts of library functions (the trusted base of the verifier)."""
import math
from fractions import Fraction
import time
import z3
from values import *
import engine as _en
from engine import model, MODELS, SYSDEFAULT, SYSSTRUCT, GLOBALS, LAZY, PREFIX_MODELS, SYSEXC, RNE, F64

# ------------------------------------------------------------------ contract primitives


def _cname(c, i=0):
    return c.E.cstr(c.val(i))


def _scalar_any(E, kind, name, sort, constrain=None):
    if E.spec_depth and not E.gen_idx:
        raise SpecAbort()
    if E.gen_idx:
        s = sort
        for _ in E.gen_idx:
            s = z3.ArraySort(z3.IntSort(), s)
        t = E.fresh(name, s)
        for v, _ in E.gen_idx:
            t = z3.Select(t, v)
    else:
        t = E.fresh(name, sort)
    E.tape.append(('scalar', kind, name, t))
    if constrain is not None:
        _gassume(E, constrain(t))
    return t


def _gassume(E, c):
    if E.gen_idx:
        for v, n in reversed(E.gen_idx):
            c = z3.ForAll([v], z3.Implies(z3.And(v >= 0, v < n), c))
    E.assume(c)


@model('verif::any_bool')
def _(E, c):
    return _scalar_any(E, 'bool', _cname(c), z3.BoolSort())


@model('verif::any_int', 'verif::any_uint')
def _(E, c):
    lo, hi = c.val(1), c.val(2)
    if not isz(lo) and not isz(hi) and lo == hi:
        E.tape.append(('scalar', 'int', _cname(c), lo))
        return lo
    return _scalar_any(E, 'int', _cname(c), z3.IntSort(), lambda t: z3.And(t >= lo, t <= hi))


@model('verif::any_double')
def _(E, c):
    return _scalar_any(E, 'double', _cname(c), E.fsort())


@model('verif::any_real')
def _(E, c):
    if E.real:
        return _scalar_any(E, 'double', _cname(c), E.fsort())
    return _scalar_any(E, 'double', _cname(c), E.fsort(),
                       lambda t: z3.And(z3.Not(z3.fpIsNaN(t)), z3.Not(z3.fpIsInf(t))))


@model('verif::any_string')
def _(E, c):
    return _scalar_any(E, 'string', _cname(c), z3.StringSort())


@model('verif::any_vector')
def _(E, c):
    name = _cname(c)
    if 'maxlen' in E.opts or E.bounded_mode:
        # bounded: every length up to the bound
        k = int(E.opts.get('maxlen', E.bounded_mode or 3))
        if E.bounded_mode and 'maxlen' not in E.opts:
            E.bounded_hit = True
        n = E.choose(k + 1)
        if 'maxlen' in E.opts:
            E.bounded_hit = True
        ents = []
        gl = c.args[1]
        E.tape.append(('scalar', 'size', name, n))
        items = []
        for i in range(n):
            v = E.val(E.call_value(gl, [i]))
            items.append(v)
        return Vec(items, E.p.targ(E.p.rec_of(c.ret), 0))
    ety = E.p.targ(E.p.rec_of(c.ret), 0)
    n = E.fresh(name + '.size', z3.IntSort())
    if E.gen_idx:
        raise Unsupported('nested any_vector')
    E.assume(z3.And(n >= 0, n < 2**31))
    i = z3.Int(E.fresh_name(name + '.i'))
    E.gen_idx.append((i, n))
    outer = E.tape
    E.tape = []
    try:
        v = E.val(E.call_value(c.args[1], [i]))
        entries = E.tape
    finally:
        E.tape = outer
        E.gen_idx.pop()
    E.tape.append(('vec', name, n, i, entries))
    arr = E.fresh(name + '.arr', z3.ArraySort(z3.IntSort(), E.sort_of(ety)))
    body = E.enc(v, ety)
    E.assume(z3.ForAll([i], z3.Select(arr, i) == body, patterns=[z3.Select(arr, i)]))
    return SVec(n, arr, ety)


@model('verif::assume')
def _(E, c):
    v = E.tobool(c.val(0))
    if E.gen_idx:
        _gassume(E, E.zbool(v))
        return
    if isz(v) and not E.replaying():
        E.assume(v)
        r, _ = E.solve([z3.BoolVal(True)], full=True, timeout=5)
        if r == 'unsat':
            raise Infeasible()
        return
    E.assume(v)


@model('verif::check')
def _(E, c):
    v = E.tobool(c.val(0))
    E.oblige(v if isinstance(v, bool) or isz(v) else bool(v), E.cstr(c.val(1)), 'ensures')


@model('verif::name')
def _(E, c):
    v = c.val(0)
    if not E.real or not isz(v):
        return v
    E.nfresh['name'] = E.nfresh.get('name', 0) + 1
    x = z3.Real('name!%d' % E.nfresh['name'])
    E.assume(x == v)
    return x


@model('verif::lemma')
def _(E, c):
    label = E.cstr(c.val(0))
    f = c.args[1]
    vals = [c.val(i) for i in range(2, len(c.args))]
    vals = [v if E.is_float(v) else E.to_float(v) for v in vals]
    E.spec_depth += 1
    E.in_lemma = True
    try:
        vs = [z3.Real('lemma!%d' % i) for i in range(len(vals))]
        body = E.zbool(E.tobool(E.val(E.call_value(f, [E.alloc(v) for v in vs]))))
        here = E.zbool(E.tobool(E.val(E.call_value(f, [E.alloc(v) for v in vals]))))
    finally:
        E.spec_depth -= 1
        E.in_lemma = False
    key = ('lemma: ' + label, 'lemma', '')
    from engine import Obligation, solve_query
    o = E.obls.get(key)
    if o is None:
        o = E.obls[key] = Obligation(E.harness, key[0], 'lemma', E.cur_loc())
        t0 = time.time()
        r, m, be = solve_query([z3.Not(body)], E.timeout, False)
        o.n += 1
        o.time = time.time() - t0
        o.backend.add(be)
        if r == 'unknown':
            o.status = 'unknown'
        elif r == 'sat':
            o.status = 'failed'
    if o.status == 'proved':
        E.assume(here)


@model('verif::fail')
def _(E, c):
    E.oblige(False, E.cstr(c.val(0)), 'ensures')
    raise Infeasible()


@model('verif::cover')
def _(E, c):
    lab = E.cstr(c.val(0))
    if E.covers.get(lab):
        return
    if E.replaying():
        return
    r, _ = E.solve([z3.BoolVal(True)], full=True)
    E.covers[lab] = E.covers.get(lab, False) or r != 'unsat'


@model('verif::native')
def _(E, c):
    return False


@model('verif::near')
def _(E, c):
    return E.compare('==', c.val(0), c.val(1))


@model('verif::same')
def _(E, c):
    a, b = [v if E.is_float(v) else E.to_float(v) for v in (c.val(0), c.val(1))]
    if isz(a) and isz(b) and a.eq(b):
        return True
    if E.real or not (isz(a) or isz(b)):
        nan = not isz(a) and not isz(b) and a != a and b != b
        return nan or E.compare('==', a, b)
    A, B = E.fconst(a), E.fconst(b)
    return z3.simplify(z3.Or(z3.fpEQ(A, B), z3.And(z3.fpIsNaN(A), z3.fpIsNaN(B))))


@model('verif::le')
def _(E, c):
    return E.compare('<=', c.val(0), c.val(1))


def _quant(E, c, exists):
    lo, hi = c.val(0), c.val(1)
    f = c.args[2]
    if not isz(lo) and not isz(hi) and hi - lo <= 64:
        out = []
        for k in range(lo, hi):
            b = E.tobool(E.val(E.call_value(f, [k])))
            if isinstance(b, bool):
                if b == exists:
                    return exists
                continue
            out.append(b)
        return E.disj(*out) if exists else E.conj(*out)
    i = z3.Int(E.fresh_name('q'))
    rng = z3.And(i >= lo, i < hi)
    E.bound_vars.append(i)
    try:
        b = E.zbool(quant_body(E, i, rng, lambda: E.call_value(f, [i])))
    finally:
        E.bound_vars.pop()
    return z3.Exists([i], z3.And(rng, b)) if exists else z3.ForAll([i], z3.Implies(rng, b))


def quant_body(E, i, rng, thunk):
    """truth of a pure predicate at a generic index i in range rng"""
    npc = len(E.pc)
    E.pc.append(rng)
    E.pcvars.append(_en.vars_of(rng))
    try:
        b = E.summarize_bool(thunk)
        return b
    finally:
        del E.pc[npc:]
        del E.pcvars[npc:]


@model('verif::forall')
def _(E, c):
    return _quant(E, c, False)


@model('verif::exists')
def _(E, c):
    return _quant(E, c, True)


# ------------------------------------------------------------------ utility
@model('std::forward', 'std::move', 'std::as_const', 'std::addressof', '__builtin_addressof', 'std::ref', 'std::cref', 'std::exchange', 'std::launder', 'std::__addressof', 'std::as_const', 'std::move_if_noexcept')
def _(E, c):
    n = c.name.split('::')[-1]
    if n == 'exchange':
        old = c.val(0)
        E.store(c.args[0], c.val(1))
        return old
    if n == 'move' and len(c.args) == 3:
        return MODELS['std::copy'](E, c)
    if 'addressof' in n:
        return Ptr(c.args[0])
    if n in ('ref', 'cref'):
        return SysObj('std::reference_wrapper', {'p': Ptr(c.args[0])})
    return c.args[0]


@model('std::swap')
def _(E, c):
    a, b = c.val(0), c.val(1)
    E.store(c.args[0], b)
    E.store(c.args[1], a)


def _cmpmodel(op):
    def f(E, c):
        return generic_compare(E, op, c.val(0), c.val(1), c.args)
    return f


def generic_compare(E, op, a, b, args=None):
    """== != < <= > >= on any modelled value"""
    if op == '!=':
        return E.neg(generic_compare(E, '==', a, b, args))
    if isinstance(a, Vec) and isinstance(b, Vec):
        if op == '==':
            if len(a.items) != len(b.items):
                return False
            return E.conj(*[generic_compare(E, '==', x, y) for x, y in zip(a.items, b.items)])
        if op in ('<', '>', '<=', '>='):
            if op == '>':
                return generic_compare(E, '<', b, a)
            if op == '<=':
                return E.neg(generic_compare(E, '<', b, a))
            if op == '>=':
                return E.neg(generic_compare(E, '<', a, b))
            for x, y in zip(a.items, b.items):
                if E.branch(generic_compare(E, '<', x, y)):
                    return True
                if E.branch(generic_compare(E, '<', y, x)):
                    return False
            return len(a.items) < len(b.items)
    if isinstance(a, SVec) and isinstance(b, SVec):
        i = z3.Int(E.fresh_name('q'))
        return E.conj(a.n == b.n, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < a.n), z3.Select(a.arr, i) == z3.Select(b.arr, i))))
    if isinstance(a, Opt) or isinstance(b, Opt):
        ah = a.has if isinstance(a, Opt) else True
        bh = b.has if isinstance(b, Opt) else True
        av = a.val if isinstance(a, Opt) else a
        bv = b.val if isinstance(b, Opt) else b
        if op == '==':
            ah, bh = E.branch(ah), E.branch(bh)
            if ah != bh:
                return False
            return True if not ah else generic_compare(E, '==', av, bv)
    if isinstance(a, Variant) and isinstance(b, Variant) and op == '==':
        return False if a.idx != b.idx else generic_compare(E, '==', a.val, b.val)
    if isinstance(a, Iter) and isinstance(b, Iter):
        if isinstance(a.i, tuple) and isinstance(b.i, tuple) and op in ('==', '!='):
            return (a.i == b.i) == (op == '==')
        r = E.compare(op, ipos(E, a), ipos(E, b))
        return r
    if isinstance(a, TypeInfo):
        return (a.t == b.t) if op == '==' else a.t != b.t
    if isinstance(a, (Fun,)) or isinstance(b, Fun):
        fa = a if isinstance(a, Fun) else b
        return (fa.val is None)
    if isinstance(a, (Struct, SysObj)) and isinstance(b, (Struct, SysObj)):
        if isinstance(a, SysObj) and 'dur' in a.f:
            return E.compare(op, a.f['dur'], b.f['dur'])
        fields = a.f.keys()
        if isinstance(a, SysObj) or E.p.records[a.rec].get('sys') or a.rec == 'pair':
            if op == '==':
                return E.conj(*[generic_compare(E, '==', a.f[k], b.f[k]) for k in fields])
            if op == '<':
                for k in fields:
                    if E.branch(generic_compare(E, '<', a.f[k], b.f[k])):
                        return True
                    if E.branch(generic_compare(E, '<', b.f[k], a.f[k])):
                        return False
                return False
        # user-defined operator
        return user_compare(E, op, a, b)
    if isinstance(a, MapV) and isinstance(b, MapV) and op == '==':
        if len(a.entries) != len(b.entries):
            return False
        return E.conj(*[E.conj(generic_compare(E, '==', x[0], y[0]), generic_compare(E, '==', x[1], y[1]))
                        for x, y in zip(a.entries, b.entries)])
    if isinstance(a, Ptr) and isinstance(b, (str,)) or isinstance(b, Ptr) and (isinstance(a, str) or (isz(a) and z3.is_string(a))):
        a = E.cstr(a) if isinstance(a, Ptr) else a
        b = E.cstr(b) if isinstance(b, Ptr) else b
    elif isinstance(a, Ptr) and isz(b) and z3.is_string(b):
        a = E.cstr(a)
    if isinstance(a, Struct) or isinstance(b, Struct):
        return user_compare(E, op, a, b)
    return E.compare(op, a, b)


def user_compare(E, op, a, b):
    nm = 'operator' + op
    la, lb = E.alloc(a), E.alloc(b)
    for f in E.p.functions:
        if f['name'].endswith(nm) and ('body' in f) and not f['name'].startswith('std::'):
            ps = f.get('params', [])
            if f.get('rec') is not None and isinstance(a, Struct) and f['rec'] == a.rec and len(ps) == 1 and E.fits(f, [lb]):
                return E.tobool(E.call(f['id'], la, E.adapt(f['id'], [lb])))
            if f.get('rec') is None and len(ps) == 2 and E.fits(f, [la, lb]):
                return E.tobool(E.call(f['id'], None, E.adapt(f['id'], [la, lb])))
    x, y = E.load(container(E, la)), E.load(container(E, lb))
    if not isinstance(x, Struct) and not isinstance(y, Struct):
        return generic_compare(E, op, x, y)     # of the library class they derive from
    def converted(v, l):
        for f in E.p.functions:
            if 'convto' in f and isinstance(v, Struct) and f.get('rec') == v.rec and E.p.ty(E.p.strip_ref(f['convto']))['k'] in ('int', 'float', 'bool'):
                r = E.call(f['id'], l, [])
                return E.load(r) if isinstance(r, Loc) else r
        return v
    x, y = converted(a, la), converted(b, lb)
    if not isinstance(x, Struct) and not isinstance(y, Struct):
        return generic_compare(E, op, x, y)
    raise Unsupported(f'{nm} on {a!r}')


for _n, _op in (('equal_to', '=='), ('not_equal_to', '!='), ('less', '<'), ('less_equal', '<='), ('greater', '>'), ('greater_equal', '>=')):
    MODELS[f'std::{_n}::operator()'] = _cmpmodel(_op)
for _op in ('==', '!=', '<', '<=', '>', '>='):
    MODELS[f'std::operator{_op}'] = _cmpmodel(_op)
    MODELS[f'__gnu_cxx::operator{_op}'] = _cmpmodel(_op)


def _arithfunctor(op):
    def f(E, c):
        return E.arith(op, c.val(0), c.val(1), c.ret if E.p.ty(c.ret)['k'] != 'ref' else E.p.strip_ref(c.ret))
    return f


for _n, _op in (('plus', '+'), ('minus', '-'), ('multiplies', '*'), ('divides', '/'), ('modulus', '%')):
    MODELS[f'std::{_n}::operator()'] = _arithfunctor(_op)


@model('std::logical_and::operator()')
def _(E, c):
    return E.conj(E.tobool(c.val(0)), E.tobool(c.val(1)))


@model('std::logical_or::operator()')
def _(E, c):
    return E.disj(E.tobool(c.val(0)), E.tobool(c.val(1)))


@model('std::logical_not::operator()', 'std::negate::operator()')
def _(E, c):
    if 'negate' in c.name:
        return -c.val(0)
    return E.neg(E.tobool(c.val(0)))


@model('std::get')
def _(E, c):
    v = c.val(0)
    if isinstance(v, Variant):
        t = (c.f.get('targs') or [None])[0]
        want = variant_index(E, v, c.args[0], c)
        if want != v.idx:
            if E.spec_depth:
                raise SpecAbort()
            raise CppThrow(SysObj('std::bad_variant_access'), E.cur_loc())
        return c.args[0] + ('va',)
    i = c.targ(0)
    ta = c.f['targs'][0]
    if isinstance(v, Vec):
        return c.args[0] + ('i', int(ta['i']))
    if isinstance(v, Struct):
        if 'i' in ta:
            return c.args[0] + ('first', 'second')[int(ta['i'])]
    if isinstance(v, SysObj) and v.name == 'std::tuple':
        if 'i' in ta:
            return c.args[0] + int(ta['i'])
        # by type
        for k, tt in enumerate(E.p.records[v.rec].get('targs', [])):
            if tt['t'] == ta['t']:
                return c.args[0] + k
    raise Unsupported('std::get')


def variant_index(E, v, loc, c):
    ta = c.f['targs'][0]
    if 'i' in ta:
        return int(ta['i'])
    # targs: T, Ts... (the variant's alternatives)
    alts = [x.get('t') for x in c.f['targs'][1:]]
    s = [E.unconst(a) for a in alts]
    return s.index(E.unconst(ta['t']))


@model('std::get_if')
def _(E, c):
    p = c.val(0)
    if p.loc is None:
        return Ptr(None)
    v = E.load(p.loc)
    if variant_index(E, v, p.loc, c) != v.idx:
        return Ptr(None)
    return Ptr(p.loc + ('va',))


@model('std::holds_alternative')
def _(E, c):
    v = c.val(0)
    return variant_index(E, v, c.args[0], c) == v.idx


@model('std::variant::index')
def _(E, c):
    return c.this.idx


def _variant_alt(E, rec, v, t):
    """index of the alternative a converting construction selects"""
    alts = [x['t'] for x in E.p.records[rec]['targs']]
    s = E.unconst(t) if t is not None else None
    for i, a in enumerate(alts):
        if E.unconst(a) == s:
            return i
    raise Unsupported(f'variant alternative for {s}')


@model('std::variant::(ctor)')
def _(E, c):
    rec = c.rec
    if not c.args:
        t0 = E.p.records[rec]['targs'][0]['t']
        return Variant(0, value_init(E, t0))
    v = c.val(0)
    if isinstance(v, Variant) and E.p.rec_of(c.f['params'][0]['t']) == rec:
        return v
    if isinstance(v, SysObj) and v.name in ('std::in_place_type_t', 'std::in_place_index_t'):
        r = E.p.records[v.rec]
        ta = r['targs'][0]
        alts = [x['t'] for x in E.p.records[rec]['targs']]
        idx = int(ta['i']) if 'i' in ta else [E.unconst(a) for a in alts].index(E.unconst(ta['t']))
        return Variant(idx, make_value(E, alts[idx], c.args[1:]))
    i = _variant_alt(E, rec, v, c.f['params'][0]['t'])
    return Variant(i, v)


@model('std::variant::operator=')
def _(E, c):
    v = c.val(0)
    if isinstance(v, Variant):
        c.set(v)
    else:
        c.set(Variant(_variant_alt(E, c.rec, v, c.f['params'][0]['t']), v))
    return c.obj


@model('std::variant::emplace')
def _(E, c):
    ta = c.f['targs'][0]
    alts = [x['t'] for x in E.p.records[c.rec]['targs']]
    idx = int(ta['i']) if 'i' in ta else [E.unconst(a) for a in alts].index(E.unconst(ta['t']))
    c.set(Variant(idx, make_value(E, alts[idx], c.args)))
    return c.obj + ('va',)


@model('std::visit')
def _(E, c):
    locs = []
    for a in c.args[1:]:
        v = E.load(a)
        locs.append(a + ('va',))
    return E.call_value(c.args[0], locs)


def value_init(E, t):
    """T()"""
    ty = E.p.ty(t)
    if ty['k'] == 'rec' and not E.is_modelled_rec(ty['rec']):
        return make_value(E, t, [])
    return E.zero(t)


def converted(E, v, loc, fits):
    """the object at loc with value v, converted by its own or an inherited conversion function to a type that fits"""
    for f in E.p.functions:
        if 'convto' in f and 'body' in f and fits(E.p.ty(E.p.strip_ref(f['convto']))) and isinstance(f.get('rec'), int) and isinstance(v.rec, int):
            path = () if f['rec'] == v.rec else E.p.base_path(v.rec, f['rec'])
            if path is not None:
                l = loc if isinstance(loc, Loc) else E.alloc(v)
                for base in path:
                    l = l + ('b', base)
                return E.val(E.call(f['id'], l, []))
    return v


def make_value(E, t, args):
    """T(args...) with evaluated arguments"""
    t = E.p.strip_ref(t)
    ty = E.p.ty(t)
    if ty['k'] != 'rec':
        if not args:
            return E.zero(t)
        v = E.val(args[0])
        if isinstance(v, Struct):
            v = converted(E, v, args[0], lambda x: x == ty)
        if ty['k'] in ('int', 'enum') and isz(v) and z3.is_bool(v):
            v = E.b2i(v)
        if ty['k'] == 'float' and not E.is_float(v):
            v = E.to_float(v)
        elif ty['k'] == 'int' and E.is_float(v):
            v = E.to_int(v, t)
        elif ty['k'] == 'bool':
            v = E.tobool(v)
        elif ty['k'] == 'int':
            v = E.wrap(E.b2i(v), t)
        return v
    rec = ty['rec']
    n = E.p.records[rec]['name']
    if n == 'std::basic_string':
        if not args:
            return ''
        v = E.val(args[0])
        return E.cstr(v) if isinstance(v, Ptr) else v.s if isinstance(v, CStr) else v
    if len(args) == 1:
        v = E.val(args[0])
        if isinstance(v, Struct) and v.rec == rec:
            return v
        if n in ('std::shared_ptr', 'std::unique_ptr', 'std::weak_ptr') and isinstance(v, Ptr):
            return Ptr(v.loc, 'shared')
        if n == 'std::function':
            return v if isinstance(v, Fun) else Fun(v)
        if n in ('std::vector', 'std::list', 'std::deque', 'std::set') and isinstance(v, (Vec, SVec)):
            return v
        if n == 'std::optional' and isinstance(v, Opt):
            return v
        if n == 'std::variant' and isinstance(v, Variant):
            return v
        if n in ITERS and isinstance(v, Iter):
            return v
    if n in ('std::vector', 'std::list', 'std::deque') and not args:
        return E.sys_default(rec)
    if n == 'std::pair' and len(args) == 2:
        fs = E.p.records[rec]['fields']
        return Struct(rec, {'first': make_value(E, fs[0]['t'], [args[0]]), 'second': make_value(E, fs[1]['t'], [args[1]])})
    if not args and 'defctor' in E.p.records[rec]:
        f = E.p.functions[E.p.records[rec]['defctor']]
        loc = E.alloc(E.zero_rec(rec), t)
        E.construct(loc, f['id'], E.adapt(f['id'], [E.ev(a) for a in E.p.records[rec].get('defargs', [])]), {'zero': True} if f.get('defaulted') else None)
        return E.load(loc)
    # constructors by arity and fit
    cands = [f for f in E.p.functions if f.get('rec') == rec and 'ctor' in f and not f.get('ref')
             and len(f.get('params', [])) == len(args)]
    good = [f for f in cands if E.fits(f, args)]
    if not good:
        good = cands
    if not args and not good:
        if E.p.records[rec].get('nontrivial'):
            raise Unsupported(f'no exported default constructor of {E.p.records[rec]["full"]}')
        return E.zero(t)
    if not good:
        raise Unsupported(f'no exported constructor of {E.p.records[rec]["full"]} with {len(args)} arguments')
    loc = E.alloc(Uninit(t), t)
    E.construct(loc, good[0]['id'], E.adapt(good[0]['id'], args))
    return E.load(loc)


# ------------------------------------------------------------------ mathematics
def real_only(E, what):
    pass


@model('std::abs', 'std::fabs', 'abs', 'fabs', '__builtin_fabs', 'std::labs')
def _(E, c):
    v = c.val(0)
    if isinstance(v, SysObj) and v.name == 'valexpr':
        raise Unsupported('valarray')
    if isinstance(v, Vec):
        return Vec([fabs(E, x) for x in v.items], v.ety)
    if E.is_float(v):
        return fabs(E, v)
    v = E.b2i(v)
    if not isz(v):
        return E.int_result(abs(v), c.ret)
    return E.int_result(z3.If(v >= 0, v, -v), c.ret)


def fabs(E, v):
    if not isz(v):
        return abs(v)
    if E.real:
        return z3.If(v >= 0, v, -v)
    if v.decl().kind() == z3.Z3_OP_FPA_SUB and v.arg(1).get_id() > v.arg(2).get_id():  # |x - y| = |y - x|
        v = z3.fpSub(v.arg(0), v.arg(2), v.arg(1))
    return z3.fpAbs(v)


@model('std::isnan', '__builtin_isnan')
def _(E, c):
    v = c.val(0)
    if not isz(v):
        return isinstance(v, float) and math.isnan(v)
    return False if E.real else z3.fpIsNaN(v)


@model('std::isinf', '__builtin_isinf')
def _(E, c):
    v = c.val(0)
    if not isz(v):
        return isinstance(v, float) and math.isinf(v)
    return False if E.real else z3.fpIsInf(v)


@model('std::isfinite', '__builtin_isfinite')
def _(E, c):
    v = c.val(0)
    if not isz(v):
        return not (isinstance(v, float) and (math.isinf(v) or math.isnan(v)))
    return True if E.real else z3.Not(z3.Or(z3.fpIsNaN(v), z3.fpIsInf(v)))


@model('std::signbit')
def _(E, c):
    v = c.val(0)
    if not isz(v):
        return math.copysign(1, float(v)) < 0
    return v < 0 if E.real else z3.fpIsNegative(v)


def uf(E, name, arity=1):
    s = E.fsort()
    return z3.Function('lib.' + name, *([s] * (arity + 1)))


def squares(t):
    """t is a sum of products of squares and non-negative numbers, as it is written"""
    if z3.is_rational_value(t):
        return t.as_fraction() >= 0
    if z3.is_add(t):
        return all(squares(c) for c in t.children())
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        return squares(t.arg(1)) and squares(t.arg(2))
    if z3.is_mul(t):
        odd = {}
        for c in t.children():
            if c.get_id() in odd:
                del odd[c.get_id()]
            elif not squares(c):
                odd[c.get_id()] = c
        return not odd
    if z3.is_app_of(t, z3.Z3_OP_POWER):
        return z3.is_rational_value(t.arg(1)) and t.arg(1).as_fraction().denominator == 1 and t.arg(1).as_fraction() % 2 == 0
    return z3.is_app(t) and t.decl().name() == 'lib.sqrt' and t.num_args() == 1


def rsqrt(E, x):
    if not isz(x):
        if isinstance(x, float):
            return x if x > 0 else math.nan
        if x >= 0:
            n, d = math.isqrt(x.numerator), math.isqrt(x.denominator)
            if n * n == x.numerator and d * d == x.denominator:
                return Fraction(n, d)
        else:
            E.oblige(False, 'square root of a non-negative number', 'ub')
            raise Infeasible()
    X = E.fconst(x)
    if not squares(X):
        E.oblige(X >= 0, 'square root of a non-negative number', 'ub')
    f = uf(E, 'sqrt')
    r = f(X)
    E.define(r, z3.And(r >= 0, r * r == X))
    return r


@model('std::sqrt', 'sqrt', 'sqrtf', 'std::sqrtf')
def _(E, c):
    x = c.val(0)
    if not E.is_float(x):
        x = E.to_float(x)
    if E.real:
        return rsqrt(E, x)
    if not isz(x):
        return math.sqrt(x) if x >= 0 else math.nan
    return z3.fpSqrt(RNE, x)


@model('std::hypot', 'hypot')
def _(E, c):
    xs = [c.val(i) for i in range(len(c.args))]
    xs = [x if E.is_float(x) else E.to_float(x) for x in xs]
    if E.real:
        s = Fraction(0)
        for x in xs:
            s = E.farith('+', s, E.farith('*', x, x, None), None)
        return rsqrt(E, s)
    if all(not isz(x) for x in xs):
        return math.hypot(*xs)
    raise Unsupported('hypot in IEEE mode')


@model('std::pow', 'pow')
def _(E, c):
    a, b = c.val(0), c.val(1)
    if not E.is_float(a):
        a = E.to_float(a)
    if not isz(b) and float(b) == int(b) and 0 <= int(b) <= 8:
        if E.real:
            r = Fraction(1)
            for _i in range(int(b)):
                r = E.farith('*', r, a, None)
            return r
        if isz(a) and int(b) == 2:
            return z3.fpMul(RNE, a, a)
    if not isz(a) and not isz(b):
        return E.norm_real(math.pow(a, b)) if E.real else math.pow(a, b)
    if E.real:
        if not isz(b) and b == Fraction(1, 2):
            return rsqrt(E, a)
        b = b if E.is_float(b) else E.to_float(b)
        base = E.fconst(a)
        r = uf(E, 'pow', 2)(base, E.fconst(b))
        E.define(r, z3.Implies(base > 0, r > 0))
        return r
    raise Unsupported('pow')


def _floorlike(name):
    def f(E, c):
        v = c.val(0)
        if not E.is_float(v):
            return E.to_float(v)
        if not isz(v):
            if isinstance(v, float) and (math.isinf(v) or math.isnan(v)):
                return v
            r = {'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc,
                 'round': lambda x: math.floor(x + Fraction(1, 2)) if x >= 0 else -math.floor(-x + Fraction(1, 2))}[name](Fraction(v))
            if E.real:
                return Fraction(r)
            return math.copysign(float(r), v) if r == 0 else float(r)
        if E.real:
            if name == 'floor':
                return z3.ToReal(z3.ToInt(v))
            if name == 'ceil':
                return -z3.ToReal(z3.ToInt(-v))
            if name == 'trunc':
                return z3.If(v >= 0, z3.ToReal(z3.ToInt(v)), -z3.ToReal(z3.ToInt(-v)))
            return z3.If(v >= 0, z3.ToReal(z3.ToInt(v + z3.Q(1, 2))), -z3.ToReal(z3.ToInt(-v + z3.Q(1, 2))))
        mode = {'floor': z3.RTN(), 'ceil': z3.RTP(), 'trunc': z3.RTZ(), 'round': z3.RNA()}[name]
        return z3.fpRoundToIntegral(mode, v)
    return f


for _n in ('floor', 'ceil', 'trunc', 'round'):
    MODELS['std::' + _n] = MODELS[_n] = _floorlike(_n)


@model('std::fmod', 'fmod')
def _(E, c):
    a, b = c.val(0), c.val(1)
    if not isz(a) and not isz(b):
        return E.norm_real(math.fmod(a, b)) if E.real else math.fmod(a, b)
    if E.real:
        A, B = E.fconst(a), E.fconst(b)
        E.oblige(B != 0, 'fmod by non-zero', 'ub')
        q = A / B
        t = z3.If(q >= 0, z3.ToInt(q), -z3.ToInt(-q))
        return A - B * z3.ToReal(t)
    raise Unsupported('fmod')


@model('std::copysign', 'copysign')
def _(E, c):
    a, b = c.val(0), c.val(1)
    if not isz(a) and not isz(b):
        r = math.copysign(float(a), float(b))
        return E.norm_real(r) if E.real else r
    if E.real:
        m = fabs(E, a)
        return z3.If(E.fconst(b) >= 0, E.fconst(m), -E.fconst(m))
    A, B = E.fconst(a), E.fconst(b)
    return z3.If(z3.fpIsNegative(B), z3.fpNeg(z3.fpAbs(A)), z3.fpAbs(A))


def _trig(name):
    def f(E, c):
        vs = [c.val(i) for i in range(len(c.args))]
        vs = [v if E.is_float(v) else E.to_float(v) for v in vs]
        if not E.real:
            if all(not isz(v) for v in vs):
                try:
                    return getattr(math, name)(*vs)
                except ValueError:
                    return math.nan
            # some function of its arguments
            return z3.Function('ieee_' + name, *([z3.Float64()] * (len(vs) + 1)))(*[E.fconst(v) for v in vs])
        V = [E.fconst(v) for v in vs]
        f = uf(E, name, len(V))
        r = f(*V)
        E.uf_axioms_used.add(name)
        if name in ('sin', 'cos'):
            s, k = uf(E, 'sin')(*V), uf(E, 'cos')(*V)
            E.assume(z3.And(s * s + k * k == 1, s >= -1, s <= 1, k >= -1, k <= 1))
            if not isz(vs[0]) and vs[0] == 0:
                return Fraction(0) if name == 'sin' else Fraction(1)
            if z3.is_app(V[0]) and V[0].decl().name() == 'lib.atan2':  # the direction of a vector
                y, x = V[0].children()
                h = E.fconst(rsqrt(E, x * x + y * y))
                E.assume(z3.Implies(z3.Or(x != 0, y != 0), z3.And(h > 0, k * h == x, s * h == y)))
        if name in ('acos', 'asin'):
            E.oblige(z3.And(V[0] >= -1, V[0] <= 1), name + ' argument within [-1, 1]', 'ub')
            if name == 'acos':
                E.assume(z3.And(r >= 0, r <= z3.RealVal('3.1415926536'), uf(E, 'cos')(r) == V[0], uf(E, 'sin')(r) >= 0,
                                uf(E, 'sin')(r) * uf(E, 'sin')(r) == 1 - V[0] * V[0]))
            else:
                E.assume(z3.And(r >= -z3.RealVal('1.5707963268'), r <= z3.RealVal('1.5707963268'), uf(E, 'sin')(r) == V[0]))
        if name == 'atan2':
            E.assume(z3.And(r >= -z3.RealVal('3.1415926536'), r <= z3.RealVal('3.1415926536')))
        if name == 'exp':
            E.assume(r > 0)
        return r
    return f


for _n in ('sin', 'cos', 'tan', 'acos', 'asin', 'atan', 'atan2', 'exp', 'log'):
    MODELS['std::' + _n] = MODELS[_n] = _trig(_n)


@model('std::min', 'std::max')
def _(E, c):
    mx = c.name.endswith('max')
    if len(c.args) == 1:
        v = c.val(0)
        best = v.items[0]
        for x in v.items[1:]:
            cond = E.compare('<', best, x) if mx else E.compare('<', x, best)
            m = E.ite(cond, x, best)
            best = m if m is not None else (x if E.branch(cond) else best)
        return best
    a, b = c.val(0), c.val(1)
    if len(c.args) == 3:
        cond = E.tobool(E.val(E.call_value(c.args[2], [c.args[0], c.args[1]] if mx else [c.args[1], c.args[0]])))
    else:
        cond = generic_compare(E, '<', a, b) if mx else generic_compare(E, '<', b, a)
    m = E.ite(cond, b, a)
    if m is not None:
        return E.alloc(m)
    return c.args[1] if E.branch(cond) else c.args[0]


@model('std::clamp')
def _(E, c):
    v, lo, hi = c.val(0), c.val(1), c.val(2)
    bad = E.compare('<', hi, lo)
    E.oblige(E.neg(bad), 'clamp bounds ordered', 'ub')
    a = E.ite(E.compare('<', v, lo), lo, None if False else v)
    r = E.ite(E.compare('<', v, lo), lo, E.ite(E.compare('<', hi, v), hi, v))
    if r is None:
        r = lo if E.branch(E.compare('<', v, lo)) else hi if E.branch(E.compare('<', hi, v)) else v
    return E.alloc(r)


@model('std::minmax')
def _(E, c):
    a, b = c.val(0), c.val(1)
    lt = generic_compare(E, '<', b, a)
    lo, hi = E.ite(lt, b, a), E.ite(lt, a, b)
    if lo is None or hi is None:
        if E.branch(lt):
            lo, hi = b, a
        else:
            lo, hi = a, b
    rec = E.p.rec_of(c.ret)
    return Struct(rec, {'first': Ptr(E.alloc(lo)), 'second': Ptr(E.alloc(hi))})


# ------------------------------------------------------------------ strings
SYSDEFAULT['std::basic_string'] = lambda E, r: ''
SYSDEFAULT['std::basic_string_view'] = lambda E, r: ''


def is_str(v):
    return isinstance(v, str) or (isz(v) and z3.is_string(v))


def as_str(E, v):
    if isinstance(v, Ptr):
        return E.cstr(v)
    if is_str(v):
        return v
    if isinstance(v, int):
        return chr(v & 0xff)
    if isz(v) and z3.is_int(v):
        return z3.StrFromCode(v)
    if isinstance(v, CStr):
        return v.s
    raise Unsupported(f'string from {v!r}')


@model('std::basic_string::(ctor)', 'std::basic_string_view::(ctor)')
def _(E, c):
    if not c.args:
        return ''
    v = c.val(0)
    if len(c.args) >= 2:
        w = c.val(1)
        if is_str(v) and not isinstance(w, SysObj):
            n = c.val(2) if len(c.args) > 2 and not isinstance(c.val(2), SysObj) else None
            return substr(E, v, w, n)
        if isinstance(v, int) and isinstance(w, int) and E.p.ty(c.ptype(0))['k'] == 'int':
            return chr(w & 0xff) * v
        if isinstance(v, int) and isz(w) and E.p.ty(c.ptype(0))['k'] == 'int':
            s = ''
            for _ in range(v):
                s = E.sconcat(s, as_str(E, w))
            return s
        if isinstance(v, Iter):
            loc, a, b = rng(E, v, w)
            s = E.load(loc)
            if is_str(s):
                return substr(E, s, a, b - a)
            return ''.join(chr(x) for x in s.items[a:b])
        if isinstance(v, Ptr) and isinstance(w, int):
            return E.cstr(v)[:w]
        if isinstance(v, Ptr) and isinstance(w, Ptr):
            s = E.cstr(v)
            return s[:E.ptr_diff(w, v)]
        if not isinstance(w, SysObj):
            raise Unsupported(f'string from {v!r}, {w!r}')
    if isinstance(v, Vec):
        return ''.join(chr(x) for x in v.items)
    return as_str(E, v)


def substr(E, s, pos, n=None):
    if isinstance(n, int) and n >= 2**63:
        n = None
    if isinstance(s, str) and not isz(pos) and not isz(n):
        if pos > len(s):
            throw(E, 'std::out_of_range')
        return s[pos:] if n is None else s[pos:pos + n]
    L = E.slen(s)
    if E.branch(E.compare('>', pos, L)):
        throw(E, 'std::out_of_range')
    S = E.zstr(s)
    rest = L - pos
    if n is None:
        return z3.simplify(z3.SubString(S, E.zint(pos), E.zint(rest)))
    k = z3.If(E.zint(n) < rest, E.zint(n), E.zint(rest))
    return z3.simplify(z3.SubString(S, E.zint(pos), k))


def throw(E, name, what=''):
    if E.spec_depth:
        raise SpecAbort()
    raise CppThrow(SysObj(name, {'what': what}), E.cur_loc())


@model('std::basic_string::operator=', 'std::basic_string::assign', 'std::basic_string_view::operator=')
def _(E, c):
    c.set(as_str(E, c.val(0)))
    return c.obj


@model('std::basic_string::operator+=', 'std::basic_string::append', 'std::basic_string::push_back')
def _(E, c):
    v = c.val(0)
    if len(c.args) == 2 and isinstance(v, int):
        s = chr(c.val(1)) * v
    elif len(c.args) == 2 and isinstance(v, (Iter, Ptr)) and not isinstance(c.val(1), int):
        loc, a, b = rng(E, v, c.val(1))
        s = substr(E, E.load(loc), a, b - a)
    else:
        s = as_str(E, v)
    c.set(E.sconcat(c.this, s))
    return c.obj


@model('std::operator+')
def _(E, c):
    a, b = c.val(0), c.val(1)
    if isinstance(a, Iter) or isinstance(b, Iter):
        it, d = (a, b) if isinstance(a, Iter) else (b, a)
        return iter_add(E, it, d)
    if isinstance(a, SysObj) and 'dur' in a.f:
        return MODELS['std::chrono::operator+'](E, c)
    return E.sconcat(as_str(E, a), as_str(E, b))


@model('std::basic_string::size', 'std::basic_string::length', 'std::basic_string_view::size', 'std::basic_string_view::length')
def _(E, c):
    return E.slen(c.this)


@model('std::basic_string::empty', 'std::basic_string_view::empty')
def _(E, c):
    s = c.this
    return s == '' if isinstance(s, str) else z3.Length(s) == 0


def trim(E, s, left=True, right=True):
    """s without the white space (C locale) at its ends"""
    ws = ' \t\n\v\f\r'
    if isinstance(s, str):
        return s.strip(ws) if left and right else s.lstrip(ws) if left else s.rstrip(ws)
    blank = z3.Union(*[z3.Re(x) for x in ws])
    a, r, b = (E.fresh(n, z3.StringSort()) for n in ('ltrim', 'trimmed', 'rtrim'))
    E.assume(s == z3.Concat(a, r, b))
    E.assume(z3.InRe(a, z3.Star(blank)) if left else a == '')
    E.assume(z3.InRe(b, z3.Star(blank)) if right else b == '')
    if left:
        E.assume(z3.Or(r == '', z3.Not(z3.InRe(z3.SubString(r, 0, 1), blank))))
    if right:
        E.assume(z3.Or(r == '', z3.Not(z3.InRe(z3.SubString(r, z3.Length(r) - 1, 1), blank))))
    if left and right:
        E.assume(z3.Implies(r == '', b == ''))
    return r


@model('boost::algorithm::trim_copy', 'boost::trim_copy')
def _(E, c):
    return trim(E, as_str(E, c.val(0)))


@model('boost::algorithm::trim', 'boost::trim')
def _(E, c):
    E.store(c.args[0], trim(E, as_str(E, c.val(0))))


@model('std::basic_string::clear')
def _(E, c):
    c.set('')


@model('std::basic_string::substr', 'std::basic_string_view::substr')
def _(E, c):
    return substr(E, c.this, c.val(0) if c.args else 0, c.val(1) if len(c.args) > 1 else None)


@model('std::basic_string::c_str', 'std::basic_string::data', 'std::basic_string_view::data')
def _(E, c):
    return Ptr(c.obj + ('i', 0))


@model('std::basic_string::operator[]', 'std::basic_string_view::operator[]')
def _(E, c):
    i = c.val(0)
    E.oblige(E.conj(E.compare('>=', i, 0), E.compare('<=', i, E.slen(c.this))), 'string index within bounds', 'ub')
    return c.obj + ('i', i)


@model('std::basic_string::at')
def _(E, c):
    i = c.val(0)
    if E.branch(E.compare('>=', i, E.slen(c.this))):
        throw(E, 'std::out_of_range')
    return c.obj + ('i', i)


@model('std::basic_string::front', 'std::basic_string_view::front')
def _(E, c):
    E.oblige(E.compare('>', E.slen(c.this), 0), 'string not empty', 'ub')
    return c.obj + ('i', 0)


@model('std::basic_string::back', 'std::basic_string_view::back')
def _(E, c):
    E.oblige(E.compare('>', E.slen(c.this), 0), 'string not empty', 'ub')
    L = E.slen(c.this)
    return c.obj + ('i', L - 1)


@model('std::basic_string::pop_back')
def _(E, c):
    E.oblige(E.compare('>', E.slen(c.this), 0), 'string not empty', 'ub')
    s = c.this
    c.set(s[:-1] if isinstance(s, str) else z3.SubString(s, 0, z3.Length(s) - 1))


NPOS = 2**64 - 1


@model('std::basic_string::find', 'std::basic_string_view::find')
def _(E, c):
    s, t = c.this, as_str(E, c.val(0))
    p = c.val(1) if len(c.args) > 1 else 0
    if isinstance(s, str) and isinstance(t, str) and not isz(p):
        r = s.find(t, p)
        return NPOS if r < 0 else r
    r = z3.IndexOf(E.zstr(s), E.zstr(t), E.zint(p))
    return z3.If(r < 0, z3.IntVal(NPOS), r)


@model('std::basic_string::rfind')
def _(E, c):
    s, t = c.this, as_str(E, c.val(0))
    if isinstance(s, str) and isinstance(t, str):
        p = c.val(1) if len(c.args) > 1 else NPOS
        r = s.rfind(t, 0, min(p + len(t), len(s)) if p < NPOS else len(s))
        return NPOS if r < 0 else r
    r = z3.LastIndexOf(E.zstr(s), E.zstr(t))
    return z3.If(r < 0, z3.IntVal(NPOS), r)


@model('std::basic_string::find_first_of', 'std::basic_string::find_first_not_of', 'std::basic_string::find_last_of', 'std::basic_string::find_last_not_of')
def _(E, c):
    s, t = c.this, as_str(E, c.val(0))
    if isinstance(s, str) and isinstance(t, str):
        n = c.name.split('::')[-1]
        p = c.val(1) if len(c.args) > 1 else (0 if 'first' in n else NPOS)
        idx = range(p, len(s)) if 'first' in n else range(min(p, len(s) - 1), -1, -1)
        for i in idx:
            if (s[i] in t) != ('not' in n):
                return i
        return NPOS
    if len(t) == 1 and c.name.endswith('find_first_of'):
        return MODELS['std::basic_string::find'](E, c)
    n = c.name.split('::')[-1]
    if isinstance(t, str) and t and (len(c.args) == 1 or (not isz(c.val(1)) and c.val(1) == (0 if 'first' in n else NPOS))):
        any_ = z3.AllChar(z3.ReSort(z3.StringSort()))
        inset = charset(t)
        outset = z3.Diff(any_, inset)
        if 'not' in n:
            inset, outset = outset, inset
        S = E.zstr(s)
        if E.branch(S == z3.StringVal('')) or E.branch(z3.InRe(S, z3.Plus(outset))):
            return NPOS
        a, h, b = E.fresh('find.a', z3.StringSort()), E.fresh('find.h', z3.StringSort()), E.fresh('find.b', z3.StringSort())
        E.assume(z3.And(S == z3.Concat(a, h, b), z3.Length(a) < NPOS, z3.InRe(h, inset), z3.InRe(a if 'first' in n else b, z3.Star(outset))))
        return z3.Length(a)
    raise Unsupported(c.name)


@model('std::basic_string::compare')
def _(E, c):
    if len(c.args) == 1:
        a, b = c.this, as_str(E, c.val(0))
    elif len(c.args) == 3:
        a, b = substr(E, c.this, c.val(0), c.val(1)), as_str(E, c.val(2))
    else:
        raise Unsupported('string compare')
    if isinstance(a, str) and isinstance(b, str):
        return (a > b) - (a < b)
    A, B = E.zstr(a), E.zstr(b)
    return z3.If(A == B, z3.IntVal(0), z3.If(A < B, z3.IntVal(-1), z3.IntVal(1)))


@model('std::basic_string::operator basic_string_view', 'std::basic_string::(conv)')
def _(E, c):
    return c.this


@model('std::basic_string::erase')
def _(E, c):
    s = c.this
    p = c.val(0) if c.args else 0
    n = c.val(1) if len(c.args) > 1 else NPOS
    if isinstance(p, Iter):
        i = ipos(E, p)
        j = ipos(E, n) if isinstance(n, Iter) else i + 1
        if not isinstance(s, str) or isz(i) or isz(j):
            raise Unsupported('string erase by iterator')
        c.set(s[:i] + s[j:])
        return Iter(p.loc, i)
    c.set(E.sconcat(substr(E, s, 0, p), substr(E, s, p + n) if n < 2**62 else ''))
    return c.obj


@model('std::basic_string::reserve', 'std::vector::reserve', 'std::vector::shrink_to_fit')
def _(E, c):
    return None


@model('std::to_string')
def _(E, c):
    v = c.val(0)
    if E.is_float(v):
        if not isz(v):
            return '%f' % float(v)
        return z3.Function('lib.to_string_double', E.fsort(), z3.StringSort())(v)
    return int_text(E, v)


def int_text(E, v):
    v = E.b2i(v)
    if not isz(v):
        return str(v)
    v = z3.simplify(v)
    if z3.is_int_value(v):
        return str(v.as_long())
    t = z3.Function('lib.int_text', z3.IntSort(), z3.StringSort())(v)
    exact = z3.If(v >= 0, z3.IntToStr(v), z3.Concat(z3.StringVal('-'), z3.IntToStr(-v)))
    if E.spec_depth:
        return exact
    ok, val, neg = int_shape(E, t)
    E.assume(z3.And(ok, val == v, neg == (v < 0)))
    E.exact.append(t == exact)
    return t


def no_ws(S):
    return z3.InRe(S, z3.Star(z3.Diff(_ANY, re_ws())))


def int_shape(E, S):
    """(S is a decimal integer, its value, it starts with a minus sign), by the facts the conversions guarantee"""
    if z3.is_string_value(S):
        c = S.as_string()
        if not is_int_text(c):
            return z3.BoolVal(False), z3.IntVal(0), z3.BoolVal(c[:1] == '-')
        return z3.BoolVal(True), z3.IntVal(int(c)), z3.BoolVal(c[:1] == '-')
    ok = z3.Function('lib.is_integer_text', z3.StringSort(), z3.BoolSort())(S)
    val = z3.Function('lib.integer_value', z3.StringSort(), z3.IntSort())(S)
    neg = z3.PrefixOf(z3.StringVal('-'), S)
    if E.spec_depth:
        return ok, val, neg
    mark = ('int_shape', S.get_id())
    if mark not in E.ghost:
        E.ghost[mark] = S
        E.assume(z3.Implies(ok, z3.And(S != z3.StringVal(''), no_ws(S), z3.Or(z3.And(neg, val <= 0), z3.And(z3.Not(neg), val >= 0)))))
        signed = z3.Or(neg, z3.PrefixOf(z3.StringVal('+'), S))
        digits = z3.If(signed, z3.SubString(S, 1, z3.Length(S) - 1), S)
        mag = z3.StrToInt(digits)
        E.exact.append(z3.And(ok == z3.InRe(S, z3.Concat(z3.Option(charset('+-')), z3.Plus(z3.Range('0', '9')))),
                              val == z3.If(neg, -mag, mag)))
    return ok, val, neg


@model('strcmp', 'std::strcmp')
def _(E, c):
    a, b = E.cstr(c.val(0)), E.cstr(c.val(1))
    if isinstance(a, str) and isinstance(b, str):
        return (a > b) - (a < b)
    return z3.If(E.zstr(a) == E.zstr(b), z3.IntVal(0), z3.IntVal(1))


@model('strlen', 'std::strlen', 'std::char_traits::length')
def _(E, c):
    return E.slen(E.cstr(c.val(0)))


@model('isspace', 'std::isspace')
def _(E, c):
    v = c.val(0)
    if not isz(v):
        return 1 if v in (9, 10, 11, 12, 13, 32) else 0
    return z3.If(z3.Or(v == 32, z3.And(v >= 9, v <= 13)), z3.IntVal(1), z3.IntVal(0))


@model('isdigit', 'std::isdigit')
def _(E, c):
    v = c.val(0)
    if not isz(v):
        return 1 if 48 <= v <= 57 else 0
    return z3.If(z3.And(v >= 48, v <= 57), z3.IntVal(1), z3.IntVal(0))


WS = ' \t\n\v\f\r'


def charset(t):
    t = sorted(set(t))
    return z3.Union(*[z3.Re(z3.StringVal(ch)) for ch in t]) if len(t) > 1 else z3.Re(z3.StringVal(t[0]))


def re_ws():
    return charset(WS)


def parse_ok(kind):
    return z3.Function(f'lib.parse_{kind}_ok', z3.StringSort(), z3.BoolSort())


def parse_val(E, kind, sort):
    return z3.Function(f'lib.parse_{kind}', z3.StringSort(), sort)


def is_int_text(s):
    import re
    return re.fullmatch(r'[+-]?[0-9]+', s)


def lex_int(E, s, t):
    """(ok, value) of a whole-string integer conversion to type t, as boost::lexical_cast defines it"""
    lo, hi = E.int_range(t)
    uns = lo == 0
    if isinstance(s, str):
        if not is_int_text(s):
            return False, 0
        v = int(s)
        if uns and s[0] == '-':
            # lexical_cast negates modulo 2^n when the magnitude fits
            if -v > hi:
                return False, 0
            return True, v % (hi + 1)
        return (lo <= v <= hi), v
    ok, val, neg = int_shape(E, E.zstr(s))
    if uns:
        return z3.And(ok, val <= hi, val >= -hi), z3.If(val < 0, hi + 1 + val, val)
    return z3.And(ok, val >= lo, val <= hi), val


def fp_parse(E, s):
    """(ok, value) of a whole-string floating point conversion (strtod syntax without hex)"""
    if isinstance(s, str):
        import re
        m = re.fullmatch(r'[+-]?(\d+\.?\d*([eE][+-]?\d+)?|\.\d+([eE][+-]?\d+)?)', s)
        if m:
            return True, E.norm_real(float(s)) if E.real else float(s)
        l = s.lower().lstrip('+-') if s[:1] in '+-' else s.lower()
        if l in ('inf', 'infinity', 'nan'):
            return True, float(s)
        return False, 0.0
    S = E.zstr(s)
    ok, val = parse_ok('double')(S), parse_val(E, 'double', E.fsort())(S)
    if not E.spec_depth and ('fp_parse', S.get_id()) not in E.ghost:
        E.ghost['fp_parse', S.get_id()] = S
        E.assume(z3.Implies(ok, z3.And(S != z3.StringVal(''), no_ws(S))))
        d = z3.Plus(z3.Range('0', '9'))
        E.exact.append(z3.Implies(ok, z3.InRe(S, z3.Concat(z3.Option(charset('+-')), d, z3.Option(z3.Concat(z3.Re('.'), d))))))
    return ok, val


@model('boost::lexical_cast')
def _(E, c):
    t = E.p.strip_ref(c.ret)
    v = c.val(0)
    if isinstance(v, Ptr):
        v = E.cstr(v)
    ty = E.p.ty(t)
    if ty['k'] == 'rec' and E.p.records[ty['rec']]['name'] == 'std::basic_string':
        if is_str(v):
            return v
        st = E.alloc(Stream())
        stream_insert(E, st, E.alloc(v), c.ptype(0))
        return E.load(st).out
    if not is_str(v):
        raise Unsupported('lexical_cast from non-string')
    if ty['k'] == 'float':
        ok, val = fp_parse(E, v)
    elif ty['k'] == 'bool':
        if isinstance(v, str):
            ok, val = v in ('0', '1', '+0', '+1', '-0'), v.endswith('1')
        else:
            raise Unsupported('lexical_cast<bool>')
    elif ty['k'] == 'int':
        ok, val = lex_int(E, v, t)
    else:
        # through stream extraction without skipping whitespace, as lexical_cast does for other types
        st = E.alloc(Stream(inp=v, flags=('noskipws',)))
        loc = E.alloc(value_init(E, t), t)
        for f in E.p.functions:
            if f['name'].endswith('operator>>') and 'body' in f and len(f['params']) == 2 and E.p.rec_of(f['params'][1]['t']) == ty.get('rec'):
                E.call(f['id'], None, [st, loc])
                break
        else:
            raise Unsupported('lexical_cast to ' + ty['s'] + ': no operator>> extracted')
        s = E.load(st)
        if E.branch(E.disj(s.fail, s.bad)) or not E.branch(E.compare('==', s.inp, '')):
            throw(E, 'boost::bad_lexical_cast')
        return E.load(loc)
    if not E.branch(ok):
        throw(E, 'boost::bad_lexical_cast')
    return val


def _sto(kind):
    def f(E, c):
        s = c.val(0)
        if isinstance(s, Ptr):
            s = E.cstr(s)
        if isinstance(s, str):
            import re
            pat = r'\s*([+-]?(?:\d+\.?\d*(?:[eE][+-]?\d+)?|\.\d+(?:[eE][+-]?\d+)?|inf(?:inity)?|nan))' if kind == 'd' else r'\s*([+-]?\d+)'
            m = re.match(pat, s, re.I)
            if not m:
                throw(E, 'std::invalid_argument')
            if len(c.args) > 1 and isinstance(c.val(1), Ptr) and c.val(1).loc is not None:
                E.store(c.val(1).loc, m.end())
            if kind == 'd':
                return E.norm_real(float(m.group(1))) if E.real else float(m.group(1))
            v = int(m.group(1))
            lo, hi = E.int_range(c.ret)
            if lo == 0 and v < 0 and -v <= hi:
                return v % (hi + 1)
            if not lo <= v <= hi:
                throw(E, 'std::out_of_range')
            return v
        S = E.zstr(s)
        sort = E.fsort() if kind == 'd' else z3.IntSort()
        name = 'stod' if kind == 'd' else 'sto' + E.p.ty(c.ret)['s'].replace(' ', '_')
        ok = z3.Function(f'lib.{name}_ok', z3.StringSort(), z3.BoolSort())(S)
        inr = z3.Function(f'lib.{name}_inrange', z3.StringSort(), z3.BoolSort())(S)
        val = z3.Function(f'lib.{name}', z3.StringSort(), sort)(S)
        used = z3.Function(f'lib.{name}_used', z3.StringSort(), z3.IntSort())(S)
        if not E.branch(ok):
            throw(E, 'std::invalid_argument')
        if not E.branch(inr):
            throw(E, 'std::out_of_range')
        E.assume(z3.And(used >= 1, used <= z3.Length(S)))
        if kind != 'd':
            lo, hi = E.int_range(c.ret)
            E.assume(z3.And(val >= lo, val <= hi))
        if len(c.args) > 1 and isinstance(c.val(1), Ptr) and c.val(1).loc is not None:
            E.store(c.val(1).loc, used)
        return val
    return f


for _n in ('stod', 'stof'):
    MODELS['std::' + _n] = _sto('d')
for _n in ('stoi', 'stol', 'stoll', 'stoul', 'stoull'):
    MODELS['std::' + _n] = _sto('i')

# ------------------------------------------------------------------ streams
for _n in ('std::basic_istringstream', 'std::basic_ostringstream', 'std::basic_stringstream', 'std::basic_istream',
           'std::basic_ostream', 'std::basic_iostream', 'std::basic_ios', 'std::ios_base', 'std::basic_ofstream', 'std::basic_ifstream', 'std::basic_fstream'):
    SYSDEFAULT[_n] = lambda E, r: Stream()
SYSDEFAULT['std::basic_stringstream'] = SYSDEFAULT['std::basic_iostream'] = lambda E, r: Stream(flags=('rw',))
for _g in ('std::cout', 'std::cerr', 'std::clog', 'std::cin'):
    GLOBALS[_g] = lambda E, v: Stream()


@model('std::basic_istringstream::(ctor)', 'std::basic_stringstream::(ctor)', 'std::basic_ostringstream::(ctor)', 'std::basic_ofstream::(ctor)', 'std::basic_ifstream::(ctor)')
def _(E, c):
    if c.args and is_str(c.val(0)):
        if 'fstream' in c.name:
            return Stream()
        if 'basic_stringstream' in c.name:
            return Stream(inp=c.val(0), out=c.val(0), flags=('rw',))
        return Stream(inp=c.val(0)) if 'ostring' not in c.name else Stream(out=c.val(0))
    return Stream(flags=('rw',)) if 'basic_stringstream' in c.name else Stream()


@model('std::basic_ostringstream::str', 'std::basic_stringstream::str', 'std::basic_istringstream::str')
def _(E, c):
    s = c.this
    if c.args:
        v = c.val(0)
        c.set(s.upd(inp=v, out=v if 'ostring' in c.name or 'rw' in s.flags else ''))
        return None
    if 'rw' in s.flags:
        return s.out
    if s.inp != '' if isinstance(s.inp, str) else True:
        return E.sconcat(s.inp, s.out)
    return s.out


@model('std::basic_ios::(conv)', 'std::basic_ios::good')
def _(E, c):
    s = c.this
    if c.name.endswith('good'):
        return E.neg(E.disj(s.fail, s.bad, s.eof))
    return E.neg(E.disj(s.fail, s.bad))


@model('std::basic_ios::operator!', 'std::basic_ios::fail')
def _(E, c):
    return E.disj(c.this.fail, c.this.bad)


@model('std::basic_ios::eof')
def _(E, c):
    return c.this.eof


@model('std::basic_ios::clear')
def _(E, c):
    c.set(c.this.upd(fail=False, eof=False, bad=False))


@model('std::basic_ios::setstate')
def _(E, c):
    v = c.val(0)
    s = c.this
    if not isz(v):
        c.set(s.upd(bad=True if v & 1 else s.bad, eof=True if v & 2 else s.eof, fail=True if v & 4 else s.fail))


def extract_token(E, loc):
    """skip whitespace, read up to whitespace: (got, token)"""
    s = E.load(loc)
    if E.branch(E.disj(s.fail, s.bad, s.eof)):
        E.store(loc, s.upd(fail=True))
        return False, ''
    t = s.inp
    noskip = 'noskipws' in s.flags
    if isinstance(t, str):
        u = t if noskip else t.lstrip(WS)
        k = 0
        while k < len(u) and u[k] not in WS:
            k += 1
        tok, rest = u[:k], u[k:]
        E.store(loc, s.upd(inp=rest, eof=(rest == ''), fail=(tok == '')))
        return tok != '', tok
    S = E.zstr(t)
    ws = re_ws()
    allw = z3.InRe(S, z3.Star(ws))
    plain = z3.InRe(S, z3.Plus(z3.Diff(z3.AllChar(z3.ReSort(z3.StringSort())), ws)))
    if E.branch(plain):
        E.store(loc, s.upd(inp='', eof=True))
        return True, t
    if E.branch(allw):
        E.store(loc, s.upd(inp=t if noskip else '', eof=True if not noskip else (S == z3.StringVal('')), fail=True))
        return False, ''
    if noskip and E.branch(z3.InRe(z3.SubString(S, 0, 1), ws)):
        E.store(loc, s.upd(fail=True))
        return False, ''
    lead = E.fresh('stream.lead', z3.StringSort())
    tok = E.fresh('stream.token', z3.StringSort())
    rest = E.fresh('stream.rest', z3.StringSort())
    nonws = z3.Diff(z3.AllChar(z3.ReSort(z3.StringSort())), ws)
    E.assume(z3.And(S == z3.Concat(lead, tok, rest), z3.InRe(lead, z3.Star(ws)), z3.InRe(tok, z3.Plus(nonws)),
                    z3.Or(rest == z3.StringVal(''), z3.InRe(z3.SubString(rest, 0, 1), ws))))
    E.store(loc, s.upd(inp=rest, eof=(rest == z3.StringVal(''))))
    return True, tok


def skip_ws(E, loc):
    """the sentry of formatted input: False if nothing is left"""
    s = E.load(loc)
    if E.branch(E.disj(s.fail, s.bad, s.eof)):
        E.store(loc, s.upd(fail=True))
        return False
    if 'noskipws' not in s.flags:
        if isinstance(s.inp, str):
            E.store(loc, s.upd(inp=s.inp.lstrip(WS)))
        else:
            S = E.zstr(s.inp)
            if E.branch(z3.InRe(z3.SubString(S, 0, 1), re_ws())):
                lead, rest = E.fresh('stream.lead', z3.StringSort()), E.fresh('stream.rest', z3.StringSort())
                E.assume(z3.And(S == z3.Concat(lead, rest), z3.InRe(lead, z3.Plus(re_ws())),
                                z3.Not(z3.InRe(z3.SubString(rest, 0, 1), re_ws()))))
                E.store(loc, s.upd(inp=rest))
    s = E.load(loc)
    if E.branch(E.compare('==', s.inp, '')):
        E.store(loc, s.upd(fail=True, eof=True))
        return False
    return True


def extract_bool(E, loc, a):
    if not skip_ws(E, loc):
        return loc
    s = E.load(loc)
    for word, v in (('true', True), ('false', False)):
        if isinstance(s.inp, str):
            hit, rest = s.inp.startswith(word), s.inp[len(word):]
        else:
            S = E.zstr(s.inp)
            hit, rest = z3.PrefixOf(z3.StringVal(word), S), z3.SubString(S, len(word), z3.Length(S) - len(word))
        if E.branch(hit):
            E.store(a, v)
            E.store(loc, s.upd(inp=rest))
            return loc
    E.store(a, False)
    E.store(loc, s.upd(fail=True))
    return loc


def extract_int(E, loc, a, t):
    if not skip_ws(E, loc):
        return loc
    s = E.load(loc)
    S = E.zstr(s.inp)
    lo, hi = E.int_range(t)
    digit = z3.Range('0', '9')
    num = z3.Concat(z3.Option(charset('+-')), z3.Plus(digit))
    ok, val, neg = int_shape(E, S)
    if E.branch(ok):
        word, rest, eof = S, '', True
    elif E.branch(z3.InRe(S, z3.Concat(num, z3.Star(_ANY)))):
        word, rest, eof = E.fresh('stream.number', z3.StringSort()), E.fresh('stream.rest', z3.StringSort()), False
        ok, val, neg = int_shape(E, word)
        E.assume(z3.And(S == z3.Concat(word, rest), ok, rest != z3.StringVal(''),
                        z3.Not(z3.InRe(z3.SubString(rest, 0, 1), digit))))
    else:
        rest = E.fresh('stream.rest', z3.StringSort())
        E.store(a, E.zero(t))
        E.store(loc, s.upd(fail=True, inp=rest))
        return loc
    mag = z3.If(val < 0, -val, val)
    s = s.upd(inp=rest, eof=eof)
    if lo == 0:
        if E.branch(mag <= hi):
            E.store(a, z3.If(val < 0, hi + 1 + val, val))
            E.store(loc, s)
        else:
            E.store(a, hi)
            E.store(loc, s.upd(fail=True))
        return loc
    if E.branch(z3.And(val >= lo, val <= hi)):
        E.store(a, val)
        E.store(loc, s)
    else:
        E.store(a, z3.If(val < 0, z3.IntVal(lo), z3.IntVal(hi)))
        E.store(loc, s.upd(fail=True))
    return loc


@model('std::operator>>', 'std::__detail::operator>>')
def _(E, c):
    v = c.val(1)
    if isinstance(v, SysObj) and v.name == 'manip':
        return c.args[0]
    t = c.ptype(1)
    ty = E.p.ty(t)
    if ty['k'] == 'rec' and E.p.records[ty['rec']]['name'] == 'std::basic_string':
        ok, tok = extract_token(E, c.args[0])
        s = E.load(c.args[0])
        if ok:
            E.store(c.args[1], tok)
        elif E.load(c.args[0]).inp == '' or True:
            # the string is erased once the sentry succeeds
            E.store(c.args[1], '')
        return c.args[0]
    if ty['k'] == 'rec':
        # rvalue stream overload: dispatch to the user's operator>>
        for f in E.p.functions:
            if f['name'].endswith('operator>>') and 'body' in f and len(f['params']) == 2 and E.p.rec_of(f['params'][1]['t']) == ty['rec']:
                E.call(f['id'], None, [c.args[0], c.args[1]])
                return c.args[0]
    raise Unsupported('operator>> ' + ty['s'])


@model('std::basic_istream::operator>>')
def _(E, c):
    a = c.args[0]
    v = E.val(a)
    if isinstance(v, FnPtr):
        return manip(E, c.obj, E.p.functions[v.f]['name'])
    t = c.ptype(0)
    ty = E.p.ty(t)
    s = c.this
    if ty['k'] == 'bool' and 'boolalpha' in s.flags:
        return extract_bool(E, c.obj, a)
    if ty['k'] in ('int', 'bool') and not isinstance(s.inp, str):
        return extract_int(E, c.obj, a, t)
    ok, tok = extract_token(E, c.obj)
    if not ok:
        return c.obj
    if isinstance(tok, str):
        import re
        if ty['k'] == 'float':
            m = re.match(r'[+-]?(\d+\.?\d*([eE][+-]?\d+)?|\.\d+([eE][+-]?\d+)?)', tok)
            val = (E.norm_real(float(m.group(0))) if E.real else float(m.group(0))) if m else None
        else:
            m = re.match(r'[+-]?\d+', tok)
            val = int(m.group(0)) if m else None
            if m:
                lo, hi = E.int_range(t)
                if not lo <= val <= hi:
                    if lo == 0 and -hi <= val < 0:
                        val = val % (hi + 1)
                    else:
                        E.store(a, hi if val > 0 else lo)
                        E.store(c.obj, E.load(c.obj).upd(fail=True))
                        return c.obj
        if val is None:
            E.store(a, E.zero(t))
            E.store(c.obj, s.upd(fail=True))
            return c.obj
        rest = tok[m.end():] + (E.load(c.obj).inp if isinstance(E.load(c.obj).inp, str) else '')
        E.store(a, val if ty['k'] != 'bool' else val != 0)
        E.store(c.obj, s.upd(inp=rest, eof=rest == ''))
        return c.obj
    raise Unsupported('symbolic stream extraction of ' + ty['s'])


@model('std::getline')
def _(E, c):
    s = c.val(0)
    d = c.val(2) if len(c.args) > 2 else 10
    if isinstance(s.inp, str) and not isz(d):
        if s.inp == '' or s.fail is True or s.eof is True:
            E.store(c.args[0], s.upd(fail=True, eof=True))
            if s.fail is not True:
                E.store(c.args[1], '')
            return c.args[0]
        i = s.inp.find(chr(d))
        line, rest, eof = (s.inp, '', True) if i < 0 else (s.inp[:i], s.inp[i + 1:], False)
        E.store(c.args[1], line)
        E.store(c.args[0], s.upd(inp=rest, eof=eof))
        return c.args[0]
    # symbolic text
    if E.branch(E.disj(s.fail, s.eof, E.compare('==', s.inp, ''))):
        E.store(c.args[0], s.upd(fail=True, eof=True))
        return c.args[0]
    S = E.zstr(s.inp)
    D = z3.StringVal(chr(d))
    if E.branch(z3.Contains(S, D)):
        i = z3.IndexOf(S, D, 0)
        E.store(c.args[1], z3.SubString(S, 0, i))
        E.store(c.args[0], s.upd(inp=z3.SubString(S, i + 1, z3.Length(S) - i - 1)))
    else:
        E.store(c.args[1], s.inp)
        E.store(c.args[0], s.upd(inp='', eof=True))
    return c.args[0]


def out(E, loc, text):
    s = E.load(loc)
    if E.spec_depth and loc.root in GLOBAL_SINKS(E):
        return loc
    E.store(loc, s.upd(out=E.sconcat(s.out, text), inp=E.sconcat(s.inp, text) if 'rw' in s.flags else s.inp))
    return loc


def GLOBAL_SINKS(E):
    return ()


def manip(E, loc, name):
    n = name.split('::')[-1]
    if n == 'endl':
        return out(E, loc, '\n')
    if n in ('flush', 'ws', 'ends'):
        return loc
    s = E.load(loc)
    fl = tuple(f for f in s.flags if f not in FLAGGROUP.get(n, ())) + (n,)
    if n.startswith('no'):
        fl = tuple(f for f in s.flags if f not in (n, n[2:])) + (n,)
    elif 'no' + n in fl:
        fl = tuple(f for f in fl if f != 'no' + n)
    E.store(loc, s.upd(flags=fl))
    return loc


FLAGGROUP = {'fixed': ('scientific', 'fixed'), 'scientific': ('fixed', 'scientific'), 'boolalpha': ('boolalpha',), 'defaultfloat': ('fixed', 'scientific'), 'left': ('left', 'right'), 'right': ('left', 'right')}


def double_text(E, v, flags):
    """text of a double under the stream's formatting state"""
    fl = tuple(sorted(str(f) for f in flags if f not in ('boolalpha',)))
    if not isz(v):
        x = float(v)
        prec = 6
        for f in flags:
            if isinstance(f, tuple) and f[0] == 'prec':
                prec = f[1]
        if math.isnan(x):
            return 'nan' if math.copysign(1, x) > 0 else '-nan'
        if math.isinf(x):
            return 'inf' if x > 0 else '-inf'
        if 'fixed' in flags:
            return '%.*f' % (prec, x)
        return '%.*g' % (prec, x)
    f = z3.Function('lib.print_double' + ''.join(fl), E.fsort(), z3.StringSort())
    t = f(v)
    if not E.real:
        # fixed texts of the non-finite values
        E.assume(z3.Implies(z3.And(z3.fpIsInf(v), z3.fpIsPositive(v)), t == z3.StringVal('inf')))
        E.assume(z3.Implies(z3.And(z3.fpIsInf(v), z3.fpIsNegative(v)), t == z3.StringVal('-inf')))
    return t


@model('std::basic_ostream::operator<<')
def _(E, c):
    v = c.val(0)
    if isinstance(v, FnPtr):
        return manip(E, c.obj, E.p.functions[v.f]['name'])
    t = c.ptype(0)
    ty = E.p.ty(t)
    s = c.this
    if ty['k'] == 'bool' or isinstance(v, bool) or (isz(v) and z3.is_bool(v)):
        if 'boolalpha' in s.flags:
            return out(E, c.obj, ('true' if v else 'false') if isinstance(v, bool) else z3.If(v, z3.StringVal('true'), z3.StringVal('false')))
        return out(E, c.obj, int_text(E, v))
    if ty['k'] == 'float':
        return out(E, c.obj, double_text(E, v, s.flags))
    if ty['k'] in ('int', 'enum'):
        return out(E, c.obj, int_text(E, v))
    if ty['k'] == 'ptr' or ty['k'] == 'nullptr':
        return out(E, c.obj, 'pointer')
    raise Unsupported('operator<< ' + ty['s'])


@model('std::operator<<', 'std::__detail::operator<<')
def _(E, c):
    v = c.val(1)
    if isinstance(v, SysObj) and v.name == 'manip':
        s = c.val(0)
        if v.f['k'] == 'quoted':
            return out(E, c.args[0], quoted_text(E, v.f['v']))
        if v.f['k'] in ('setw', 'setfill'):
            E.store(c.args[0], s.upd(flags=s.flags + ((v.f['k'], v.f['v']),)))
            return c.args[0]
        if v.f['k'] == 'prec':
            E.store(c.args[0], s.upd(flags=tuple(f for f in s.flags if not (isinstance(f, tuple) and f[0] == 'prec')) + (('prec', v.f['v']),)))
            return c.args[0]
        return c.args[0]
    ty = E.p.ty(c.ptype(1))
    if isinstance(v, Ptr) and v.kind == 'shared':
        return out(E, c.args[0], 'pointer')
    if ty['k'] == 'int' and not ty.get('char'):
        return out(E, c.args[0], int_text(E, v))
    if isinstance(v, (Struct, SysObj)):
        return stream_insert(E, c.args[0], c.args[1], c.ptype(1))
    text = as_str(E, v)
    return out(E, c.args[0], padded(E, c.args[0], text))


def padded(E, loc, text):
    s = E.load(loc)
    w = [f for f in s.flags if isinstance(f, tuple) and f[0] == 'setw']
    if not w:
        return text
    E.store(loc, s.upd(flags=tuple(f for f in s.flags if not (isinstance(f, tuple) and f[0] == 'setw'))))
    fill = [f for f in s.flags if isinstance(f, tuple) and f[0] == 'setfill']
    ch = chr(fill[-1][1]) if fill else ' '
    if isinstance(text, str) and not isz(w[-1][1]):
        return text.ljust(w[-1][1], ch) if 'left' in s.flags else text.rjust(w[-1][1], ch)
    raise Unsupported('symbolic padding')


def quoted_text(E, v):
    if isinstance(v, str):
        return '"' + v.replace('\\', '\\\\').replace('"', '\\"') + '"'
    f = z3.Function('lib.quoted', z3.StringSort(), z3.StringSort())
    return f(E.zstr(v))


def stream_insert(E, sloc, vloc, t):
    """os << v through the overloads exported for v's type"""
    v = E.val(vloc)
    rec = E.p.rec_of(t)
    for f in E.p.functions:
        if f['name'].endswith('operator<<') and 'body' in f and len(f['params']) == 2:
            if rec is not None and E.p.rec_of(f['params'][1]['t']) == rec:
                return E.call(f['id'], None, [sloc, vloc])
    s = E.load(sloc)
    if isinstance(v, bool) or (isz(v) and z3.is_bool(v)):
        return out(E, sloc, int_text(E, v))
    if E.is_float(v):
        return out(E, sloc, double_text(E, v, s.flags))
    if isinstance(v, int) or (isz(v) and z3.is_int(v)):
        return out(E, sloc, int_text(E, v))
    if is_str(v):
        return out(E, sloc, v)
    raise Unsupported(f'stream insertion of {v!r}')


@model('std::quoted')
def _(E, c):
    v = c.val(0)
    return SysObj('manip', {'k': 'quoted', 'v': as_str(E, v)})


@model('std::setw', 'std::setfill', 'std::setprecision')
def _(E, c):
    return SysObj('manip', {'k': {'setw': 'setw', 'setfill': 'setfill', 'setprecision': 'prec'}[c.name.split('::')[-1]], 'v': c.val(0)})


@model('std::endl', 'std::flush', 'std::boolalpha', 'std::fixed')
def _(E, c):
    return manip(E, c.args[0], c.name)


@model('std::basic_ostream::flush', 'std::basic_ostream::put', 'std::basic_ostream::write')
def _(E, c):
    if c.name.endswith('put'):
        return out(E, c.obj, as_str(E, c.val(0)))
    if c.name.endswith('write'):
        return out(E, c.obj, E.cstr(c.val(0))[:c.val(1)])
    return c.obj


@model('std::ios_base::precision', 'std::ios_base::width', 'std::ios_base::setf')
def _(E, c):
    if c.args and 'precision' in c.name:
        s = c.this
        c.set(s.upd(flags=tuple(f for f in s.flags if not (isinstance(f, tuple) and f[0] == 'prec')) + (('prec', c.val(0)),)))
    return 6


# ------------------------------------------------------------------ exceptions
def _what(E, c):
    v = c.this
    if isinstance(v, Struct):
        for k in v.f:
            if isinstance(k, tuple) and isinstance(v.f[k], SysObj):
                v = v.f[k]
                break
    w = v.f.get('what') if isinstance(v, SysObj) else None
    if w is None:
        w = ''
    return Ptr(E.alloc(w) + ('i', 0))


for _n in SYSEXC:
    MODELS[_n + '::what'] = _what


# ------------------------------------------------------------------ typeid, type_info
@model('std::type_info::name')
def _(E, c):
    return Ptr(E.alloc(CStr(E.type_name(c.this))) + ('i', 0))


@model('std::type_info::operator==', 'std::type_info::operator!=', 'std::type_index::operator==')
def _(E, c):
    eq = c.this.t == c.val(0).t
    return eq if c.name.endswith('==') else not eq


@model('std::type_index::(ctor)')
def _(E, c):
    return c.val(0)


@model('abi::__cxa_demangle', '__cxxabiv1::__cxa_demangle', '__cxa_demangle')
def _(E, c):
    return c.val(0)


# ------------------------------------------------------------------ std::function
SYSDEFAULT['std::function'] = lambda E, r: Fun(None)


@model('std::function::(ctor)')
def _(E, c):
    if not c.args:
        return Fun(None)
    v = c.val(0)
    return wrap_fun(E, v)


def wrap_fun(E, v):
    if isinstance(v, Fun):
        return v
    if isinstance(v, Ptr) and v.loc is None:
        return Fun(None)
    if isinstance(v, SysObj) and v.name == 'std::nullptr':
        return Fun(None)
    return Fun(v)


@model('std::function::operator()')
def _(E, c):
    v = c.this
    r = E.call_value(c.obj, c.args)
    if E.p.ty(c.f['ret'])['k'] != 'ref' and isinstance(r, Loc):
        r = E.load(r)
    rk = E.p.ty(c.f['ret'])['k']
    if rk == 'float' and r is not None and not E.is_float(r):
        r = E.to_float(r)
    if rk == 'bool' and r is not None:
        r = E.tobool(r)
    elif rk in ('int', 'enum') and isinstance(r, Struct):
        r = make_value(E, c.f['ret'], [r])
    return r


@model('std::function::operator=')
def _(E, c):
    c.set(wrap_fun(E, c.val(0)))
    return c.obj


@model('std::function::(conv)')
def _(E, c):
    return c.this.val is not None


@model('std::invoke')
def _(E, c):
    return E.call_value(c.args[0], c.args[1:])


@model('std::reference_wrapper::get', 'std::reference_wrapper::(conv)')
def _(E, c):
    return c.this.f['p'].loc


@model('std::reference_wrapper::operator()')
def _(E, c):
    return E.call_value(c.this.f['p'].loc, c.args)


@model('std::reference_wrapper::(ctor)')
def _(E, c):
    if isinstance(c.val(0), SysObj) and c.val(0).name == 'std::reference_wrapper':
        return c.val(0)
    return SysObj('std::reference_wrapper', {'p': Ptr(c.args[0])}, c.rec)


@model('std::function::swap')
def _(E, c):
    a, b = c.this, c.val(0)
    c.set(b)
    E.store(c.args[0], a)


# ------------------------------------------------------------------ pair / tuple
@model('std::pair::(ctor)')
def _(E, c):
    r = E.p.records[c.rec]
    fs = [x for x in r['fields'] if x['n'] in ('first', 'second')]
    if not c.args:
        return Struct(c.rec, {x['n']: value_init(E, x['t']) for x in fs})
    v = c.val(0)
    if len(c.args) == 1:
        return Struct(c.rec, dict(v.f))
    if isinstance(v, SysObj) and v.name == 'std::piecewise_construct_t':
        a, b = c.val(1), c.val(2)
        return Struct(c.rec, {'first': make_value(E, fs[0]['t'], [x.loc if isinstance(x, Ptr) else x for x in tuple_items(a)]),
                              'second': make_value(E, fs[1]['t'], [x.loc if isinstance(x, Ptr) else x for x in tuple_items(b)])})
    return Struct(c.rec, {'first': conv_to(E, c.args[0], fs[0]['t']), 'second': conv_to(E, c.args[1], fs[1]['t'])})


def tuple_items(t):
    return [t.f[k] for k in sorted(k for k in t.f if isinstance(k, int))]


def conv_to(E, a, t):
    """value a (Loc or value) converted to type t"""
    ty = E.p.ty(t)
    if ty['k'] == 'ref':
        return Ptr(a if isinstance(a, Loc) else E.alloc(a))
    v = E.val(a)
    if ty['k'] == 'rec':
        n = E.p.records[ty['rec']]['name']
        if isinstance(v, Struct) and v.rec == ty['rec']:
            return v
        return make_value(E, t, [a])
    return make_value(E, t, [a])


@model('std::make_pair')
def _(E, c):
    rec = E.p.rec_of(c.ret)
    return Struct(rec, {'first': decay(E, c.val(0)), 'second': decay(E, c.val(1))})


def decay(E, v):
    if isinstance(v, CStr):
        return Ptr(E.alloc(v) + ('i', 0))
    return v


@model('std::pair::operator=')
def _(E, c):
    v = c.val(0)
    cur = c.this
    if isinstance(cur, Struct):
        f = {}
        for k in ('first', 'second'):
            if isinstance(cur.f.get(k), Ptr) and E.p.ty([x for x in E.p.records[c.rec]['fields'] if x['n'] == k][0]['t'])['k'] == 'ref':
                E.store(cur.f[k].loc, v.f[k])
                f[k] = cur.f[k]
            else:
                f[k] = v.f[k]
        c.set(Struct(c.rec, f))
    return c.obj


SYSDEFAULT['std::tuple'] = lambda E, r: SysObj('std::tuple', {i: value_init(E, x['t']) for i, x in enumerate(E.p.records[r].get('targs', [])) if E.p.ty(x['t'])['k'] != 'ref'}, r)


@model('std::tuple::(ctor)')
def _(E, c):
    ts = E.p.records[c.rec].get('targs', [])
    if not c.args:
        return SYSDEFAULT['std::tuple'](E, c.rec)
    if len(c.args) == 1 and isinstance(c.val(0), SysObj) and c.val(0).name == 'std::tuple' and len(ts) != 1:
        return SysObj('std::tuple', {k: (conv_to(E, E.load(v.loc) if isinstance(v, Ptr) and v.kind == 'raw' and E.p.ty(ts[k]['t'])['k'] != 'ptr' and v.loc is not None else v, ts[k]['t'])) for k, v in c.val(0).f.items()}, c.rec)
    return SysObj('std::tuple', {i: conv_to(E, a, ts[i]['t']) for i, a in enumerate(c.args)}, c.rec)


@model('std::make_tuple', 'std::forward_as_tuple', 'std::tie')
def _(E, c):
    rec = E.p.rec_of(c.ret)
    f = {}
    for i, a in enumerate(c.args):
        f[i] = Ptr(a if isinstance(a, Loc) else E.alloc(a)) if not c.name.endswith('make_tuple') else decay(E, E.val(a))
    return SysObj('std::tuple', f, rec)


@model('std::tuple::operator=')
def _(E, c):
    v = c.val(0)
    cur = c.this
    ts = E.p.records[c.rec].get('targs', [])
    items = [v.f['first'], v.f['second']] if isinstance(v, Struct) else [v.f[k] for k in range(len(ts))]
    f = {}
    for i, x in enumerate(items):
        if E.p.ty(ts[i]['t'])['k'] == 'ref':
            E.store(cur.f[i].loc, x)
            f[i] = cur.f[i]
        else:
            f[i] = x
    c.set(SysObj('std::tuple', f, c.rec))
    return c.obj


@model('std::apply')
def _(E, c):
    v = c.val(1)
    args = []
    for k in range(len(v.f)):
        x = v.f[k]
        args.append(x.loc if isinstance(x, Ptr) and x.kind == 'raw' else c.args[1] + k)
    return E.call_value(c.args[0], args)


# ------------------------------------------------------------------ optional
SYSDEFAULT['std::optional'] = lambda E, r: Opt(False)
SYSDEFAULT['boost::optional'] = lambda E, r: Opt(False)
GLOBALS['std::nullopt'] = lambda E, v: SysObj('std::nullopt_t')
GLOBALS['boost::none'] = lambda E, v: SysObj('std::nullopt_t')
GLOBALS['std::in_place'] = lambda E, v: SysObj('std::in_place_t')
GLOBALS['std::piecewise_construct'] = lambda E, v: SysObj('std::piecewise_construct_t')
GLOBALS['std::ignore'] = lambda E, v: SysObj('std::ignore')


def to_opt(E, c, rec):
    t = E.p.targ(rec, 0)
    v = c.val(0)
    if isinstance(v, SysObj) and v.name in ('std::nullopt_t', 'boost::none_t'):
        return Opt(False)
    if isinstance(v, SysObj) and v.name == 'std::in_place_t':
        return Opt(True, make_value(E, t, c.args[1:]))
    if isinstance(v, Opt):
        if v.has is False:
            return v
        return Opt(v.has, conv_to(E, v.val, t))
    return Opt(True, conv_to(E, c.args[0], t))


@model('std::optional::(ctor)', 'boost::optional::(ctor)')
def _(E, c):
    if not c.args:
        return Opt(False)
    return to_opt(E, c, c.rec)


@model('std::optional::operator=', 'boost::optional::operator=')
def _(E, c):
    c.set(to_opt(E, c, c.rec))
    return c.obj


@model('std::optional::emplace')
def _(E, c):
    c.set(Opt(True, make_value(E, E.p.targ(c.rec, 0), c.args)))
    return c.obj + ('o',)


@model('std::make_optional')
def _(E, c):
    rec = E.p.rec_of(c.ret)
    return Opt(True, make_value(E, E.p.targ(rec, 0), c.args))


@model('std::optional::has_value', 'std::optional::(conv)', 'boost::optional::(conv)', 'boost::optional::has_value', 'boost::optional::is_initialized')
def _(E, c):
    return c.this.has


@model('boost::optional::operator!')
def _(E, c):
    return E.neg(c.this.has)


@model('std::optional::value', 'boost::optional::value')
def _(E, c):
    if not E.branch(c.this.has):
        throw(E, 'std::bad_optional_access')
    return c.obj + ('o',)


@model('std::optional::operator*', 'boost::optional::operator*', 'boost::optional::get')
def _(E, c):
    h = c.this.has
    E.oblige(h, 'optional holds a value', 'ub')
    if h is False:
        raise Infeasible()
    return c.obj + ('o',)


@model('std::optional::operator->', 'boost::optional::operator->')
def _(E, c):
    h = c.this.has
    E.oblige(h, 'optional holds a value', 'ub')
    if h is False:
        raise Infeasible()
    return Ptr(c.obj + ('o',))


@model('std::optional::reset')
def _(E, c):
    c.set(Opt(False))


@model('std::optional::value_or', 'boost::optional::value_or')
def _(E, c):
    v = c.this
    if v.has is True:
        return v.val
    d = conv_to(E, c.args[0], E.p.targ(c.rec, 0))
    if v.has is False:
        return d
    m = E.ite(v.has, v.val, d)
    if m is not None:
        return m
    return v.val if E.branch(v.has) else d


def _optcmp(op):
    def f(E, c):
        a, b = c.val(0), c.val(1)
        for x, y in ((a, b), (b, a)):
            if isinstance(y, SysObj) and y.name in ('std::nullopt_t',):
                r = E.neg(x.has)
                return r if op == '==' else E.neg(r)
        return generic_compare(E, op, a, b)
    return f


for _op in ('==', '!=', '<', '<=', '>', '>='):
    MODELS[f'std::operator{_op}'] = _optcmp(_op)

# ------------------------------------------------------------------ smart pointers
for _n in ('std::shared_ptr', 'std::unique_ptr', 'std::weak_ptr', 'std::__shared_ptr', 'std::__shared_ptr_access', 'std::__weak_ptr'):
    SYSDEFAULT[_n] = lambda E, r: Ptr(None, 'shared')


def _ptr_conv(E, v, rec):
    """convert a pointer to the element type of rec (upcast if needed)"""
    if not isinstance(v, Ptr) or v.loc is None:
        return Ptr(None, 'shared') if not isinstance(v, Ptr) else Ptr(None, 'shared')
    t = E.p.targ(rec, 0)
    want = E.p.rec_of(t) if t is not None else None
    loc = v.loc
    if want is not None:
        cur = E.load(loc)
        if isinstance(cur, Struct) and isinstance(cur.rec, int) and cur.rec != want:
            bp = E.p.base_path(cur.rec, want)
            if bp:
                for b in bp:
                    loc = loc + ('b', b)
    return Ptr(loc, 'shared')


@model('std::shared_ptr::(ctor)', 'std::unique_ptr::(ctor)', 'std::weak_ptr::(ctor)')
def _(E, c):
    if not c.args:
        return Ptr(None, 'shared')
    v = c.val(0)
    if len(c.args) == 2 and isinstance(c.val(1), Ptr) and isinstance(v, Ptr) and 'shared' in c.name:
        return Ptr(c.val(1).loc, 'shared')
    r = _ptr_conv(E, v, c.rec)
    if 'unique' in c.name:
        r = Ptr(r.loc, 'unique')
        if isinstance(c.args[0], Loc) and isinstance(v, Ptr) and v.kind == 'unique' and not E.spec_depth:
            E.store(c.args[0], Ptr(None, 'unique'))
    return r


@model('std::shared_ptr::operator=', 'std::unique_ptr::operator=', 'std::weak_ptr::operator=')
def _(E, c):
    v = c.val(0)
    r = _ptr_conv(E, v, c.rec)
    if 'unique' in c.name:
        r = Ptr(r.loc, 'unique')
        if isinstance(c.args[0], Loc) and isinstance(v, Ptr):
            E.store(c.args[0], Ptr(None, 'unique'))
    c.set(r)
    return c.obj


def _make_ptr(kind):
    def f(E, c):
        rec = E.p.rec_of(c.ret)
        t = E.p.targ(rec, 0)
        loc = E.alloc(Uninit(t), t)
        ty = E.p.ty(t)
        if ty['k'] == 'rec' and not E.is_modelled_rec(ty['rec']):
            cands = [x for x in E.p.functions if x.get('rec') == ty['rec'] and 'ctor' in x and not x.get('ref')
                     and len(x.get('params', [])) == len(c.args)]
            good = [x for x in cands if E.fits(x, c.args)] or cands
            if good:
                E.construct(loc, good[0]['id'], E.adapt(good[0]['id'], c.args))
            elif not c.args:
                E.mem[loc.root] = E.zero(t)
            elif len(c.args) == 1 and isinstance(c.val(0), Struct) and c.val(0).rec == ty['rec']:
                E.mem[loc.root] = c.val(0)
            else:
                raise Unsupported('make_shared: no constructor of ' + ty['s'])
        else:
            E.mem[loc.root] = make_value(E, t, c.args)
        return Ptr(loc, kind)
    return f


MODELS['std::make_shared'] = _make_ptr('shared')
MODELS['std::make_unique'] = _make_ptr('unique')


for _p in ('std::shared_ptr', 'std::unique_ptr', 'std::__shared_ptr', 'std::__shared_ptr_access'):
    MODELS[_p + '::get'] = lambda E, c: Ptr(c.this.loc)
    MODELS[_p + '::operator->'] = lambda E, c: Ptr(E.deref(c.this))
    MODELS[_p + '::operator*'] = lambda E, c: E.deref(c.this)
    MODELS[_p + '::(conv)'] = lambda E, c: c.this.loc is not None


@model('std::shared_ptr::reset', 'std::unique_ptr::reset', 'std::__shared_ptr::reset', 'std::weak_ptr::reset')
def _(E, c):
    c.set(Ptr(c.val(0).loc if c.args and isinstance(c.val(0), Ptr) else None, 'shared'))


@model('std::unique_ptr::release')
def _(E, c):
    v = c.this
    c.set(Ptr(None, 'unique'))
    return Ptr(v.loc)


@model('std::weak_ptr::lock')
def _(E, c):
    return Ptr(c.this.loc, 'shared')


@model('std::weak_ptr::expired', 'std::__weak_ptr::expired')
def _(E, c):
    return c.this.loc is None


@model('std::dynamic_pointer_cast', 'std::static_pointer_cast', 'std::const_pointer_cast')
def _(E, c):
    v = c.val(0)
    if v.loc is None:
        return Ptr(None, 'shared')
    rec = E.p.rec_of(c.ret)
    want = E.p.rec_of(E.p.targ(rec, 0))
    if 'const_' in c.name or want is None:
        return Ptr(v.loc, 'shared')
    return Ptr(E.cast_to_rec(v.loc, want), 'shared')


@model('std::enable_shared_from_this::shared_from_this')
def _(E, c):
    l = E.dyn_loc(c.obj)
    rec = E.p.rec_of(c.ret)
    want = E.p.rec_of(E.p.targ(rec, 0))
    return Ptr(E.cast_to_rec(l, want), 'shared')


SYSDEFAULT['std::enable_shared_from_this'] = lambda E, r: SysObj('std::enable_shared_from_this', {}, r)

# ------------------------------------------------------------------ sequences
SEQ = ('vector', 'list', 'deque', 'set', 'unordered_set', 'multiset', 'forward_list', 'initializer_list', 'queue', 'stack', 'valarray')
for _n in SEQ:
    SYSDEFAULT['std::' + _n] = lambda E, r: Vec((), E.p.targ(r, 0))
SYSDEFAULT['std::array'] = None
del SYSDEFAULT['std::array']
SYSDEFAULT['std::variant'] = lambda E, r: Variant(0, value_init(E, E.p.records[r]['targs'][0]['t']))


def _array_default(E, r):
    ety, n = E.p.targ(r, 0), E.p.targ(r, 1)
    return Vec([E.uninit(ety)] * n, ety)


SYSDEFAULT['std::array'] = _array_default
MAPS = ('map', 'unordered_map', 'multimap')
for _n in MAPS:
    SYSDEFAULT['std::' + _n] = lambda E, r, _n=_n: MapV((), E.p.targ(r, 0), E.p.targ(r, 1), _n != 'unordered_map')


def seq_len(E, v):
    if isinstance(v, Vec):
        return len(v.items)
    if isinstance(v, SVec):
        return v.n
    if isinstance(v, MapV):
        return len(v.entries)
    if is_str(v):
        return E.slen(v)
    raise Unsupported(f'length of {v!r}')


def container(E, l):
    """the library container that a class derives from"""
    v = E.load(l)
    while isinstance(v, Struct):
        bs = [k for k in v.f if isinstance(k, tuple) and k[0] == 'b']
        bs = [k for k in bs if isinstance(v.f[k], (Vec, SVec, MapV, Struct)) or is_str(v.f[k])] if len(bs) > 1 else bs
        if len(bs) != 1:
            break
        l = l + bs[0]
        v = E.load(l)
    return l


def rng(E, a, b):
    """iterator pair to (container location, first index, last index)"""
    if isinstance(a, Iter):
        if a.rev:
            raise Unsupported('reverse range')
        i, j = ipos(E, a), ipos(E, b)
        E.oblige(E.compare('<=', i, j), 'range does not end before it begins', 'ub')
        if not isz(i) and not isz(j) and i > j:
            raise Infeasible()
        return a.loc, i, j
    if isinstance(a, Ptr):
        def sp(p):
            path = p.loc.path
            if path and isinstance(path[-1], tuple) and path[-1][0] == 'i':
                return Loc(p.loc.root, path[:-1]), path[-1][1]
            return p.loc, 0
        if a.loc is None:
            return None, 0, 0
        l, i = sp(a)
        _, j = sp(b)
        E.oblige(E.compare('<=', i, j), 'range does not end before it begins', 'ub')
        return l, i, j
    raise Unsupported(f'range {a!r}')


def elem(loc, i, E=None):
    if E is not None:
        v = E.load(loc)
        if isinstance(v, MapV):
            return map_elem(E, loc, i)
    return loc + ('i', i)


def map_elem(E, loc, i):
    """location of a map entry seen as a pair"""
    return loc + ('e', E.load(loc).ids[i])


def miter(E, loc, i, rev=False):
    """iterator to the i-th entry of a map"""
    v = E.load(loc)
    n = len(v.entries)
    if not (0 <= i <= n):
        E.oblige(False, 'iterator stays within its range', 'ub')
        raise Infeasible()
    return Iter(loc, ('n', v.ids[i] if i < n else None), rev)


def ipos(E, it):
    if isinstance(it.i, tuple):
        v = E.load(it.loc)
        if it.i[1] is None:
            return len(v.entries)
        i = v.find(it.i[1])
        if i is None:
            E.oblige(False, 'iterator to an element that is still there', 'ub')
            raise Infeasible()
        return i
    return it.i


def iter_deref(E, it):
    if isinstance(it, Ptr):
        return E.deref(it)
    v = E.load(it.loc)
    i = ipos(E, it)
    if it.rev:
        i = i - 1
    n = seq_len(E, v)
    E.oblige(E.conj(E.compare('>=', i, 0), E.compare('<', i, n)), 'iterator dereferenceable', 'ub')
    if not isz(i) and not isz(n) and not (0 <= i < n):
        raise Infeasible()
    if isinstance(v, MapV):
        return map_elem(E, it.loc, i)
    return it.loc + ('i', i)


def iter_add(E, it, d):
    if isinstance(it, Ptr):
        return E.ptr_add(it, d)
    if isinstance(it, Struct):      # an iterator class of the repository
        steps = [f for f in E.p.functions if f.get('rec') == it.rec and f['name'].endswith('operator++') and 'body' in f and not f.get('params')]
        if not steps or isz(d) or d < 0:
            raise Unsupported('std::next of ' + E.p.records[it.rec]['name'])
        l = E.alloc(it)
        for _ in range(d):
            E.call(steps[0]['id'], l, [])
        return E.load(l)
    if it.rev:
        d = -d
    n = ipos(E, it) + d
    if isinstance(it.i, tuple):
        return miter(E, it.loc, n, it.rev)
    if isz(n):
        n = z3.simplify(n)
        if z3.is_int_value(n):
            n = n.as_long()
    return Iter(it.loc, n, it.rev)


ITERS = ('__gnu_cxx::__normal_iterator', 'std::_List_iterator', 'std::_List_const_iterator', 'std::_Deque_iterator',
         'std::_Rb_tree_iterator', 'std::_Rb_tree_const_iterator', 'std::__detail::_Node_iterator',
         'std::__detail::_Node_const_iterator', 'std::reverse_iterator', 'std::_Fwd_list_iterator', 'std::__detail::_Node_iterator_base')


def _iter_ctor(E, c):
    if not c.args:
        return Uninit(None)
    v = c.val(0)
    return v


for _p in ITERS:
    MODELS[_p + '::(ctor)'] = _iter_ctor
    MODELS[_p + '::operator*'] = lambda E, c: iter_deref(E, c.this)
    MODELS[_p + '::operator->'] = lambda E, c: Ptr(iter_deref(E, c.this))
    MODELS[_p + '::base'] = lambda E, c: Iter(c.this.loc, c.this.i)
    MODELS[_p + '::operator[]'] = lambda E, c: iter_deref(E, iter_add(E, c.this, c.val(0)))

    def _inc(E, c, d=1):
        v = c.this
        n = iter_add(E, v, d)
        chk = E.load(v.loc) if isinstance(v, Iter) else None
        if chk is not None:
            E.oblige(E.conj(E.compare('>=', ipos(E, n), 0), E.compare('<=', ipos(E, n), seq_len(E, chk))), 'iterator stays within its range', 'ub')
        c.set(n)
        return v if c.args else c.obj
    MODELS[_p + '::operator++'] = _inc
    MODELS[_p + '::operator--'] = lambda E, c: _inc(E, c, -1)

    def _adv(E, c):
        c.set(iter_add(E, c.this, c.val(0)))
        return c.obj
    MODELS[_p + '::operator+='] = _adv

    def _advm(E, c):
        c.set(iter_add(E, c.this, -c.val(0)))
        return c.obj
    MODELS[_p + '::operator-='] = _advm
    MODELS[_p + '::operator+'] = lambda E, c: iter_add(E, c.this, c.val(0))
    MODELS[_p + '::operator-'] = lambda E, c: iter_add(E, c.this, -c.val(0)) if not isinstance(c.val(0), Iter) else ipos(E, c.this) - ipos(E, c.val(0))
    MODELS[_p + '::operator=='] = lambda E, c: generic_compare(E, '==', c.this, c.val(0))
    MODELS[_p + '::operator!='] = lambda E, c: generic_compare(E, '!=', c.this, c.val(0))
    MODELS[_p + '::operator='] = lambda E, c: (c.set(c.val(0)), c.obj)[1]


def _iterdiff(E, c):
    a, b = c.val(0), c.val(1)
    if isinstance(a, Iter) and isinstance(b, Iter):
        return (ipos(E, a) - ipos(E, b)) if not a.rev else (ipos(E, b) - ipos(E, a))
    if isinstance(b, (int,)) or isz(b):
        return iter_add(E, a, -b)
    if isinstance(a, SysObj):
        return MODELS['std::chrono::operator-'](E, c)
    raise Unsupported('operator-')


MODELS['std::operator-'] = _iterdiff
MODELS['__gnu_cxx::operator-'] = _iterdiff
MODELS['__gnu_cxx::operator+'] = lambda E, c: iter_add(E, c.val(1), c.val(0)) if isinstance(c.val(1), Iter) else iter_add(E, c.val(0), c.val(1))
for _op in ('==', '!='):
    MODELS[f'std::__detail::operator{_op}'] = _cmpmodel(_op)


def _seqnames(m, kinds=('vector', 'list', 'deque', 'array', 'set', 'initializer_list', 'basic_string', 'map', 'unordered_map', 'unordered_set', 'basic_string_view', 'multiset', 'multimap', 'valarray')):
    return ['std::%s::%s' % (k, m) for k in kinds]


@model(*_seqnames('begin'), *_seqnames('cbegin'), 'std::begin', 'std::cbegin', 'std::data')
def _(E, c):
    l = c.obj if c.obj is not None else container(E, c.args[0])
    return mk_iter(E, l, 0, c)


def mk_iter(E, l, i, c):
    t = c.f.get('ret')
    if t is not None and E.p.ty(E.p.strip_ref(t))['k'] == 'ptr':
        return Ptr(l + ('i', i))
    if isinstance(E.load(l), MapV):
        return miter(E, l, i)
    return Iter(l, i)


@model(*_seqnames('end'), *_seqnames('cend'), 'std::end', 'std::cend')
def _(E, c):
    l = c.obj if c.obj is not None else container(E, c.args[0])
    return mk_iter(E, l, seq_len(E, E.load(l)), c)


@model(*_seqnames('rbegin'), *_seqnames('crbegin'), 'std::rbegin')
def _(E, c):
    l = c.obj if c.obj is not None else container(E, c.args[0])
    v = E.load(l)
    return miter(E, l, len(v.entries), True) if isinstance(v, MapV) else Iter(l, seq_len(E, v), True)


@model(*_seqnames('rend'), *_seqnames('crend'), 'std::rend')
def _(E, c):
    l = c.obj if c.obj is not None else container(E, c.args[0])
    return miter(E, l, 0, True) if isinstance(E.load(l), MapV) else Iter(l, 0, True)


@model(*_seqnames('size', ('vector', 'list', 'deque', 'array', 'set', 'initializer_list', 'map', 'unordered_map', 'unordered_set', 'queue', 'stack', 'multiset', 'multimap', 'valarray')), 'std::size')
def _(E, c):
    v = c.this if c.obj is not None else E.load(container(E, c.args[0])) if isinstance(c.args[0], Loc) else c.val(0)
    return seq_len(E, v)


@model(*_seqnames('empty', ('vector', 'list', 'deque', 'array', 'set', 'map', 'unordered_map', 'unordered_set', 'queue', 'stack', 'multiset', 'multimap')), 'std::empty')
def _(E, c):
    v = c.this if c.obj is not None else E.load(container(E, c.args[0])) if isinstance(c.args[0], Loc) else c.val(0)
    return E.compare('==', seq_len(E, v), 0)


@model(*_seqnames('operator[]', ('vector', 'deque', 'array', 'valarray')))
def _(E, c):
    i = c.val(0)
    n = seq_len(E, c.this)
    E.oblige(E.conj(E.compare('>=', i, 0), E.compare('<', i, n)), 'index within bounds', 'ub')
    if not isz(i) and not isz(n) and not 0 <= i < n:
        raise Infeasible()
    if E.p.ty(c.ret)['k'] == 'bool':
        return E.load(c.obj + ('i', i))
    return c.obj + ('i', i)


@model(*_seqnames('at', ('vector', 'deque', 'array')))
def _(E, c):
    i = c.val(0)
    n = seq_len(E, c.this)
    if E.branch(E.disj(E.compare('<', i, 0), E.compare('>=', i, n))):
        throw(E, 'std::out_of_range')
    return c.obj + ('i', i)


@model(*_seqnames('front', ('vector', 'list', 'deque', 'array', 'queue')))
def _(E, c):
    n = seq_len(E, c.this)
    E.oblige(E.compare('>', n, 0), 'sequence not empty', 'ub')
    if not isz(n) and n == 0:
        raise Infeasible()
    return c.obj + ('i', 0)


@model(*_seqnames('back', ('vector', 'list', 'deque', 'array', 'queue')), 'std::stack::top')
def _(E, c):
    n = seq_len(E, c.this)
    E.oblige(E.compare('>', n, 0), 'sequence not empty', 'ub')
    if not isz(n) and n == 0:
        raise Infeasible()
    return c.obj + ('i', n - 1)


def append(E, loc, x):
    v = E.load(loc)
    if isinstance(v, Vec):
        E.store(loc, Vec(v.items + (x,), v.ety))
    elif isinstance(v, SVec):
        E.store(loc, SVec(v.n + 1, z3.Store(v.arr, v.n, E.enc(x, v.ety)), v.ety))
    else:
        raise Unsupported('append to ' + repr(v))


@model(*_seqnames('push_back', ('vector', 'list', 'deque')), 'std::queue::push', 'std::stack::push')
def _(E, c):
    x = c.val(0)
    v = c.this
    append(E, c.obj, conv_elem(E, c, x, v))


def conv_elem(E, c, x, v):
    return x


@model(*_seqnames('push_front', ('list', 'deque')))
def _(E, c):
    v = c.this
    c.set(Vec((c.val(0),) + v.items, v.ety))


@model(*_seqnames('emplace_back', ('vector', 'list', 'deque')), 'std::queue::emplace', 'std::stack::emplace')
def _(E, c):
    t = E.p.targ(c.rec, 0)
    v = c.this
    # construct in place so that the object's identity is its element
    x = make_value(E, t, c.args)
    append(E, c.obj, x)
    return c.obj + ('i', seq_len(E, E.load(c.obj)) - 1)


@model(*_seqnames('pop_back', ('vector', 'list', 'deque')), 'std::stack::pop')
def _(E, c):
    v = c.this
    n = seq_len(E, v)
    E.oblige(E.compare('>', n, 0), 'sequence not empty', 'ub')
    if isinstance(v, Vec):
        if not v.items:
            raise Infeasible()
        c.set(Vec(v.items[:-1], v.ety))
    else:
        c.set(SVec(v.n - 1, v.arr, v.ety))


@model(*_seqnames('pop_front', ('list', 'deque')), 'std::queue::pop')
def _(E, c):
    v = c.this
    n = seq_len(E, v)
    E.oblige(E.compare('>', n, 0), 'sequence not empty', 'ub')
    if not v.items:
        raise Infeasible()
    c.set(Vec(v.items[1:], v.ety))


@model(*_seqnames('clear', ('vector', 'list', 'deque', 'set', 'unordered_set')))
def _(E, c):
    v = c.this
    c.set(Vec((), v.ety))


@model(*_seqnames('resize', ('vector', 'list', 'deque')))
def _(E, c):
    v = c.this
    n = c.val(0)
    t = E.p.targ(c.rec, 0)
    if isinstance(v, Vec) and not isz(n):
        x = c.val(1) if len(c.args) > 1 else None
        it = list(v.items[:n])
        while len(it) < n:
            it.append(x if x is not None else value_init(E, t))
        c.set(Vec(it, v.ety))
        return
    raise Unsupported('resize')


@model(*[f'std::{k}::(ctor)' for k in ('vector', 'list', 'deque', 'initializer_list', 'queue', 'stack', 'valarray')])
def _(E, c):
    t = E.p.targ(c.rec, 0)
    args = [a for a in c.args if not (isinstance(E.val(a), SysObj) and 'allocator' in E.val(a).name)]
    if not args:
        return Vec((), t)
    v = E.val(args[0])
    if isinstance(v, (Vec, SVec)):
        if isinstance(v, Vec):
            return Vec(v.items, t)
        return v
    if isinstance(v, (Iter, Ptr)) and len(args) == 2:
        w = E.val(args[1])
        loc, a, b = rng(E, v, w)
        src = E.load(loc) if loc is not None else Vec((), t)
        if isinstance(src, Vec):
            return Vec([conv_to(E, x, t) for x in src.items[a:b]], t)
        if isinstance(src, SVec) and not isz(a) and a == 0:
            return SVec(b, src.arr, t)
        if isinstance(src, MapV):
            return Vec([Struct(E.p.rec_of(t), {'first': k, 'second': x}) for k, x in src.entries[a:b]], t)
    if 'valarray' in c.name and len(args) == 2:  # value and number, in this order
        n = E.val(args[1])
        if not isinstance(n, int):
            raise Unsupported('valarray constructor')
        return Vec([v] * n, t)
    if isinstance(v, int):
        x = E.val(args[1]) if len(args) > 1 else value_init(E, t)
        return Vec([x] * v, t)
    if isz(v) and z3.is_int(v):
        x = E.val(args[1]) if len(args) > 1 else value_init(E, t)
        return SVec(v, z3.K(z3.IntSort(), E.enc(x, t)), t)
    raise Unsupported(f'{c.name}({v!r})')


@model(*[f'std::{k}::operator=' for k in ('vector', 'list', 'deque', 'array', 'set', 'map', 'unordered_map', 'unordered_set', 'queue')], 'std::vector::assign', 'std::vector::swap')
def _(E, c):
    v = c.val(0)
    if c.name.endswith('swap'):
        o = c.this
        c.set(v)
        E.store(c.args[0], o)
        return None
    if len(c.args) == 2:
        w = c.val(1)
        if isinstance(v, (Iter, Ptr)):
            loc, a, b = rng(E, v, w)
            c.set(Vec(E.load(loc).items[a:b], c.this.ety))
        else:
            c.set(Vec([w] * v, c.this.ety))
        return None
    c.set(v)
    return c.obj


@model('std::array::(ctor)')
def _(E, c):
    if c.args:
        return c.val(0)
    return _array_default(E, c.rec)


@model('std::array::fill')
def _(E, c):
    v = c.this
    c.set(Vec([c.val(0)] * len(v.items), v.ety))


@model('std::array::data', 'std::vector::data')
def _(E, c):
    return Ptr(c.obj + ('i', 0))


@model(*_seqnames('insert', ('vector', 'list', 'deque')), 'std::vector::emplace', 'std::list::emplace')
def _(E, c):
    v = c.this
    it = c.val(0)
    if not isinstance(v, Vec):
        raise Unsupported('insert into a symbolic sequence')
    i = it.i
    if c.name.endswith('emplace'):
        new = [make_value(E, E.p.targ(c.rec, 0), c.args[1:])]
    elif len(c.args) == 2:
        x = c.val(1)
        new = list(x.items) if isinstance(x, Vec) and E.p.rec_name(c.f['params'][1]['t']) == 'std::initializer_list' else [x]
    else:
        loc, a, b = rng(E, c.val(1), c.val(2))
        new = list(E.load(loc).items[a:b]) if loc is not None else []
    c.set(Vec(v.items[:i] + tuple(new) + v.items[i:], v.ety))
    return Iter(c.obj, i)


@model(*_seqnames('erase', ('vector', 'list', 'deque')))
def _(E, c):
    v = c.this
    a = c.val(0)
    if not isinstance(v, Vec):
        raise Unsupported('erase from a symbolic sequence')
    b = c.val(1).i if len(c.args) > 1 else a.i + 1
    if not (0 <= a.i <= b <= len(v.items)):
        E.oblige(False, 'erase range within the sequence', 'ub')
        raise Infeasible()
    c.set(Vec(v.items[:a.i] + v.items[b:], v.ety))
    return Iter(c.obj, a.i)


@model('std::list::splice')
def _(E, c):
    it = c.val(0)
    o = c.val(1)
    v = c.this
    c.set(Vec(v.items[:it.i] + o.items + v.items[it.i:], v.ety))
    E.store(c.args[1], Vec((), o.ety))


@model('std::list::merge')
def _(E, c):
    other = c.args[0]
    a, b = list(c.this.items), list(E.load(other).items)
    out = []

    def less(x, y):
        if isinstance(x, Ptr):      # the order of unrelated addresses is unspecified: any
            return E.branch(E.fresh('order', z3.BoolSort()))
        return E.branch(generic_compare(E, '<', x, y))
    while a and b:
        out.append((b if less(b[0], a[0]) else a).pop(0))
    c.set(Vec(tuple(out + a + b), c.this.ety))
    E.store(other, Vec((), E.load(other).ety))


@model('std::list::remove_if', 'std::list::remove')
def _(E, c):
    v = c.this
    keep = []
    for i, x in enumerate(v.items):
        if c.name.endswith('_if'):
            b = E.tobool(E.val(E.call_value(c.args[0], [c.obj + ('i', i)])))
        else:
            b = generic_compare(E, '==', x, c.val(0))
        if not E.branch(b):
            keep.append(i)
    v = c.this
    c.set(Vec([v.items[i] for i in keep], v.ety))
    return len(v.items) - len(keep)


# sets: insertion order replaced by key order when the keys are concrete
@model('std::set::(ctor)', 'std::unordered_set::(ctor)', 'std::multiset::(ctor)')
def _(E, c):
    t = E.p.targ(c.rec, 0)
    if not c.args:
        return Vec((), t)
    v = c.val(0)
    if isinstance(v, Vec):
        items = v.items
    elif isinstance(v, Iter):
        loc, a, b = rng(E, v, c.val(1))
        items = E.load(loc).items[a:b]
    else:
        return Vec((), t)
    l = E.alloc(Vec((), t))
    for x in items:
        set_insert(E, l, x, not c.name.startswith('std::unordered'))
    return E.load(l)


def set_insert(E, loc, x, ordered):
    v = E.load(loc)
    for i, y in enumerate(v.items):
        if E.branch(generic_compare(E, '==', x, y)):
            return i, False
        if ordered and E.branch(generic_compare(E, '<', x, y)):
            E.store(loc, Vec(v.items[:i] + (x,) + v.items[i:], v.ety))
            return i, True
    E.store(loc, Vec(v.items + (x,), v.ety))
    return len(v.items), True


@model('std::set::insert', 'std::unordered_set::insert', 'std::set::emplace', 'std::unordered_set::emplace')
def _(E, c):
    if len(c.args) == 2 and isinstance(c.val(0), Iter):
        loc, a, b = rng(E, c.val(0), c.val(1))
        t = E.p.targ(c.rec, 0)
        for x in E.load(loc).items[a:b]:
            if isinstance(x, Struct) and E.p.ty(t)['k'] != 'rec':
                x = make_value(E, t, [x])
            set_insert(E, c.obj, x, 'unordered' not in c.name)
        return None
    x = make_value(E, E.p.targ(c.rec, 0), c.args) if c.name.endswith('emplace') else c.val(0)
    i, new = set_insert(E, c.obj, x, 'unordered' not in c.name)
    rec = E.p.rec_of(c.ret)
    if rec is not None and E.p.records[rec]['name'] == 'std::pair':
        return Struct(rec, {'first': Iter(c.obj, i), 'second': new})
    return Iter(c.obj, i)


@model('std::set::merge', 'std::unordered_set::merge', 'std::multiset::merge')
def _(E, c):
    o = E.load(c.args[0])
    keep = []
    for x in o.items:
        if not set_insert(E, c.obj, x, 'unordered' not in c.name)[1]:
            keep.append(x)
    try:
        E.store(c.args[0], Vec(keep, o.ety))
    except Unsupported:
        pass
    return None


@model('std::set::find', 'std::unordered_set::find', 'std::set::count', 'std::unordered_set::count', 'std::set::contains')
def _(E, c):
    v = c.this
    if c.name.endswith('count'):
        return E.b2i(E.disj(*[generic_compare(E, '==', c.val(0), y) for y in v.items])) if v.items else 0
    for i, y in enumerate(v.items):
        if E.branch(generic_compare(E, '==', c.val(0), y)):
            return Iter(c.obj, i)
    return Iter(c.obj, len(v.items))


@model('std::set::lower_bound', 'std::set::upper_bound')
def _(E, c):
    v, k = c.this, c.val(0)
    for i, y in enumerate(v.items):
        stop = generic_compare(E, '<', k, y) if c.name.endswith('upper_bound') else E.neg(generic_compare(E, '<', y, k))
        if E.branch(stop):
            return Iter(c.obj, i)
    return Iter(c.obj, len(v.items))


@model('std::set::erase', 'std::unordered_set::erase')
def _(E, c):
    v = c.this
    x = c.val(0)
    if isinstance(x, Iter):
        c.set(Vec(v.items[:x.i] + v.items[x.i + 1:], v.ety))
        return Iter(c.obj, x.i)
    for i, y in enumerate(v.items):
        if E.branch(generic_compare(E, '==', x, y)):
            c.set(Vec(v.items[:i] + v.items[i + 1:], v.ety))
            return 1
    return 0


# maps
def map_find(E, m, k):
    for i, (q, _) in enumerate(m.entries):
        if E.branch(generic_compare(E, '==', k, q)):
            return i
    return None


def map_put(E, loc, k, v):
    m = E.load(loc)
    pos = len(m.entries)
    if m.ordered:
        for i, (q, _) in enumerate(m.entries):
            if E.branch(generic_compare(E, '<', k, q)):
                pos = i
                break
    new = MapV(m.entries[:pos] + ((k, v),) + m.entries[pos:], m.kty, m.vty, m.ordered, m.ids[:pos] + (next(MapV.counter),) + m.ids[pos:])
    E.store(loc, new)
    return pos


def _mapn(m):
    return ['std::%s::%s' % (k, m) for k in MAPS]


@model(*_mapn('(ctor)'))
def _(E, c):
    d = E.sys_default(c.rec)
    if not c.args:
        return d
    v = c.val(0)
    if isinstance(v, MapV):
        return v
    if isinstance(v, Vec):
        l = E.alloc(d)
        for x in v.items:
            if map_find(E, E.load(l), x.f['first']) is None or 'multi' in c.name:
                map_put(E, l, x.f['first'], x.f['second'])
        return E.load(l)
    if isinstance(v, Iter):
        loc, a, b = rng(E, v, c.val(1))
        src = E.load(loc)
        l = E.alloc(d)
        ents = src.entries[a:b] if isinstance(src, MapV) else [(x.f['first'], x.f['second']) for x in src.items[a:b]]
        for k, x in ents:
            if map_find(E, E.load(l), k) is None:
                map_put(E, l, k, x)
        return E.load(l)
    return d


@model(*_mapn('find'))
def _(E, c):
    i = map_find(E, c.this, c.val(0))
    return miter(E, c.obj, i if i is not None else len(c.this.entries))


@model(*_mapn('count'), *_mapn('contains'))
def _(E, c):
    m, k = c.this, c.val(0)
    r = E.disj(*[generic_compare(E, '==', k, q) for q, _ in m.entries]) if m.entries else False
    return E.b2i(r) if c.name.endswith('count') else r


@model(*_mapn('operator[]'))
def _(E, c):
    k = c.val(0)
    i = map_find(E, c.this, k)
    if i is None:
        i = map_put(E, c.obj, conv_to(E, k, c.this.kty), value_init(E, c.this.vty))
    return c.obj + ('mv', E.load(c.obj).ids[i])


@model(*_mapn('at'))
def _(E, c):
    i = map_find(E, c.this, c.val(0))
    if i is None:
        throw(E, 'std::out_of_range')
    return c.obj + ('mv', E.load(c.obj).ids[i])


@model(*_mapn('emplace'), *_mapn('try_emplace'), *_mapn('insert'), *_mapn('insert_or_assign'))
def _(E, c):
    m = c.this
    n = c.name.split('::')[-1]
    vty = m.vty
    if n == 'insert' and len(c.args) == 2 and isinstance(c.val(0), Iter):
        loc, a, b = rng(E, c.val(0), c.val(1))
        src = E.load(loc)
        for k, x in (src.entries[a:b] if isinstance(src, MapV) else [(y.f['first'], y.f['second']) for y in src.items[a:b]]):
            if map_find(E, E.load(c.obj), k) is None:
                map_put(E, c.obj, k, x)
        return None
    if len(c.args) == 1:
        p = c.val(0)
        if isinstance(p, Vec):
            for y in p.items:
                if map_find(E, E.load(c.obj), y.f['first']) is None:
                    map_put(E, c.obj, y.f['first'], y.f['second'])
            return None
        k, mk = p.f['first'], (lambda: conv_to(E, p.f['second'], vty))
        k = E.load(k.loc) if isinstance(k, Ptr) and E.p.ty(m.kty)['k'] != 'ptr' else k
    else:
        a0 = c.val(0)
        if isinstance(a0, SysObj) and a0.name == 'std::piecewise_construct_t':
            ka, va = tuple_items(c.val(1)), tuple_items(c.val(2))
            k = make_value(E, m.kty, [x.loc if isinstance(x, Ptr) else x for x in ka])
            mk = lambda: make_value(E, vty, [x.loc if isinstance(x, Ptr) else x for x in va])
        else:
            k = conv_to(E, c.args[0], m.kty)
            rest = c.args[1:]
            mk = (lambda: conv_to(E, rest[0], vty)) if len(rest) == 1 else (lambda: make_value(E, vty, rest))
    i = map_find(E, m, k) if 'multimap' not in c.name else None
    new = i is None
    if new:
        x = mk()
        i = map_put(E, c.obj, k, x)
    elif n == 'insert_or_assign':
        E.store(c.obj + ('mv', E.load(c.obj).ids[i]), mk())
    rec = E.p.rec_of(c.ret)
    if rec is not None and E.p.records[rec]['name'] == 'std::pair':
        return Struct(rec, {'first': miter(E, c.obj, i), 'second': new})
    return miter(E, c.obj, i)


@model(*_mapn('equal_range'), *_mapn('lower_bound'), *_mapn('upper_bound'))
def _(E, c):
    m, k = c.this, c.val(0)
    n = c.name.split('::')[-1]
    if 'unordered' in c.name:
        lo = map_find(E, m, k)
        lo = len(m.entries) if lo is None else lo
        hi = lo if lo == len(m.entries) else lo + 1
    else:
        lo = 0
        while lo < len(m.entries) and E.branch(generic_compare(E, '<', m.entries[lo][0], k)):
            lo += 1
        hi = lo
        while hi < len(m.entries) and not E.branch(generic_compare(E, '<', k, m.entries[hi][0])):
            hi += 1
    if n != 'equal_range':
        return miter(E, c.obj, lo if n == 'lower_bound' else hi)
    return Struct(E.p.rec_of(c.ret), {'first': miter(E, c.obj, lo), 'second': miter(E, c.obj, hi)})


@model(*_mapn('erase'))
def _(E, c):
    m = c.this
    x = c.val(0)
    if isinstance(x, Iter):
        i = ipos(E, x)
        if i >= len(m.entries):
            E.oblige(False, 'erases an element', 'ub')
            raise Infeasible()
        c.set(m.without(i))
        return miter(E, c.obj, i)
    i = map_find(E, m, x)
    if i is None:
        return 0
    c.set(m.without(i))
    return 1


@model(*_mapn('clear'))
def _(E, c):
    m = c.this
    c.set(MapV((), m.kty, m.vty, m.ordered))


# ------------------------------------------------------------------ iterator utilities and algorithms
@model('std::next')
def _(E, c):
    return iter_add(E, c.val(0), c.val(1) if len(c.args) > 1 else 1)


@model('std::prev')
def _(E, c):
    return iter_add(E, c.val(0), -c.val(1) if len(c.args) > 1 else -1)


@model('std::advance')
def _(E, c):
    E.store(c.args[0], iter_add(E, c.val(0), c.val(1)))


@model('std::distance')
def _(E, c):
    a, b = c.val(0), c.val(1)
    if isinstance(a, Iter):
        d = ipos(E, b) - ipos(E, a)
        return -d if a.rev else d
    return E.ptr_diff(b, a)


@model('std::back_inserter', 'std::inserter', 'std::front_inserter')
def _(E, c):
    return SysObj('back_inserter', {'p': Ptr(c.args[0])})


def put_out(E, dst, x, k):
    """*dst++ = x; returns the advanced iterator"""
    if isinstance(dst, SysObj):
        append(E, dst.f['p'].loc, x)
        return dst
    if isinstance(dst, Iter):
        E.store(iter_deref(E, dst), x)
        return iter_add(E, dst, 1)
    E.store(E.deref(dst), x)
    return E.ptr_add(dst, 1)


def concrete_range(E, a, b):
    loc, i, j = rng(E, a, b)
    if isz(i) or isz(j):
        return loc, i, j, False
    return loc, i, j, True


def pred_call(E, f, *args):
    v = E.val(E.call_value(f, list(args)))
    if isinstance(v, Struct):  # a class that converts to bool
        v = converted(E, v, None, lambda x: x['k'] == 'bool')
    return E.tobool(v)


@model('std::any_of', 'std::all_of', 'std::none_of')
def _(E, c):
    kind = c.name.split('::')[-1]
    a, b = c.val(0), c.val(1)
    loc, i, j, conc = concrete_range(E, a, b)
    f = c.args[2]
    if conc:
        for k in range(i, j):
            r = E.branch(pred_call(E, f, elem(loc, k, E)))
            if kind == 'any_of' and r:
                return True
            if kind == 'all_of' and not r:
                return False
            if kind == 'none_of' and r:
                return False
        return kind != 'any_of'
    q = z3.Int(E.fresh_name('q'))
    rg = z3.And(q >= i, q < j)
    try:
        body = E.zbool(quant_body(E, q, rg, lambda: E.call_value(f, [elem(loc, q)])))
    except SpecAbort:
        raise Unsupported('effectful predicate over a symbolic range')
    if kind == 'any_of':
        return z3.Exists([q], z3.And(rg, body))
    if kind == 'all_of':
        return z3.ForAll([q], z3.Implies(rg, body))
    return z3.ForAll([q], z3.Implies(rg, z3.Not(body)))


@model('std::find_if', 'std::find', 'std::find_if_not')
def _(E, c):
    a, b = c.val(0), c.val(1)
    loc, i, j, conc = concrete_range(E, a, b)
    byval = c.name.endswith('find')
    neg = c.name.endswith('_not')
    if conc:
        for k in range(i, j):
            el = elem(loc, k, E)
            r = generic_compare(E, '==', E.load(el), c.val(2)) if byval else pred_call(E, c.args[2], el)
            if E.branch(r) != neg:
                return like(a, loc, k)
        return like(a, loc, j)
    q = z3.Int(E.fresh_name('q'))
    rg = z3.And(q >= i, q < j)
    body = E.zbool(quant_body(E, q, rg, (lambda: generic_compare(E, '==', E.load(elem(loc, q)), c.val(2))) if byval else (lambda: E.call_value(c.args[2], [elem(loc, q)]))))
    if neg:
        body = z3.Not(body)
    r = E.fresh('found', z3.IntSort())
    E.assume(z3.And(r >= i, r <= j))
    E.assume(z3.ForAll([q], z3.Implies(z3.And(q >= i, q < r), z3.Not(body))))
    E.assume(z3.Implies(r < j, z3.substitute(body, (q, r))))
    return like(a, loc, r)


def like(it, loc, k):
    if isinstance(it, Iter):
        return miter(E, loc, k) if isinstance(it.i, tuple) else Iter(loc, k)
    return Ptr(loc + ('i', k))


@model('std::count_if', 'std::count')
def _(E, c):
    loc, i, j, conc = concrete_range(E, c.val(0), c.val(1))
    if not conc:
        raise Unsupported('count over a symbolic range')
    n = 0
    for k in range(i, j):
        el = elem(loc, k, E)
        r = generic_compare(E, '==', E.load(el), c.val(2)) if c.name.endswith('count') else pred_call(E, c.args[2], el)
        n = n + E.b2i(r) if not isinstance(r, bool) else n + int(r)
    return n


@model('std::for_each')
def _(E, c):
    loc, i, j, conc = concrete_range(E, c.val(0), c.val(1))
    f = c.args[2]
    if conc:
        for k in range(i, j):
            E.call_value(f, [elem(loc, k, E)])
    else:
        idx_loop(E, 'for_each', i, j, lambda k: E.call_value(f, [elem(loc, k)]))
    return c.val(2)


def idx_loop(E, name, i, j, body):
    cur = E.alloc(i)
    site = 'lib:' + name + ':' + (E.cur_loc() or '')
    E.loop(site, lambda: E.compare('<', E.load(cur), j), lambda: body(E.load(cur)), lambda: E.store(cur, E.load(cur) + 1))


@model('std::accumulate')
def _(E, c):
    loc, i, j, conc = concrete_range(E, c.val(0), c.val(1))
    acc = E.alloc(c.val(2))
    rt = c.ret

    def step(k):
        x = elem(loc, k, E) if conc else elem(loc, k)
        if len(c.args) > 3:
            r = E.val(E.call_value(c.args[3], [acc, x]))
        else:
            a, b = E.load(acc), E.load(x)
            if is_str(a):
                r = E.sconcat(a, as_str(E, b))
            else:
                t1 = E.p.strip_ref(rt)
                k1 = E.p.ty(t1)['k']
                if k1 == 'float':
                    if not E.is_float(b):
                        b = E.to_float(b)
                    r = E.arith('+', a, b, t1)
                elif E.is_float(b):
                    raise Unsupported('accumulate: mixed')
                else:
                    r = E.arith('+', a, b, t1)
        E.store(acc, r)
    if conc:
        for k in range(i, j):
            step(k)
    else:
        idx_loop(E, 'accumulate', i, j, step)
    return E.load(acc)


@model('std::transform')
def _(E, c):
    loc, i, j, conc = concrete_range(E, c.val(0), c.val(1))
    if not conc:
        raise Unsupported('transform over a symbolic range')
    if len(c.args) == 4:
        dst = c.val(2)
        for k in range(i, j):
            dst = put_out(E, dst, E.val(E.call_value(c.args[3], [elem(loc, k, E)])), k)
        return dst
    loc2, i2, _ = rng(E, c.val(2), c.val(2))
    dst = c.val(3)
    for k in range(i, j):
        dst = put_out(E, dst, E.val(E.call_value(c.args[4], [elem(loc, k, E), elem(loc2, i2 + k - i, E)])), k)
    return dst


@model('std::copy', 'std::copy_if', 'std::copy_n')
def _(E, c):
    if c.name.endswith('copy_n'):
        raise Unsupported('copy_n')
    loc, i, j, conc = concrete_range(E, c.val(0), c.val(1))
    if not conc:
        raise Unsupported('copy over a symbolic range')
    dst = c.val(2)
    for k in range(i, j):
        if c.name.endswith('_if') and not E.branch(pred_call(E, c.args[3], elem(loc, k, E))):
            continue
        dst = put_out(E, dst, E.load(elem(loc, k, E)), k)
    return dst


@model('std::remove_if', 'std::remove')
def _(E, c):
    loc, i, j, conc = concrete_range(E, c.val(0), c.val(1))
    if not conc:
        raise Unsupported('remove_if over a symbolic range')
    keep = []
    for k in range(i, j):
        el = elem(loc, k, E)
        r = generic_compare(E, '==', E.load(el), c.val(2)) if c.name.endswith('remove') else pred_call(E, c.args[2], el)
        if not E.branch(r):
            keep.append(k)
    v = E.load(loc)
    if isinstance(v, str):
        n = i + len(keep)
        E.store(loc, v[:i] + ''.join(v[k] for k in keep) + v[n:])
        return like(c.val(0), loc, n)
    kept = [v.items[k] for k in keep]
    tail = [v.items[k] for k in range(i + len(keep), j)]
    E.store(loc, Vec(v.items[:i] + tuple(kept) + tuple(tail) + v.items[j:], v.ety))
    return like(c.val(0), loc, i + len(keep))


@model('std::unique')
def _(E, c):
    loc, i, j, conc = concrete_range(E, c.val(0), c.val(1))
    if not conc:
        raise Unsupported('unique over a symbolic range')
    keep = []
    for k in range(i, j):
        if keep:
            x, y = elem(loc, keep[-1], E), elem(loc, k, E)
            r = pred_call(E, c.args[2], x, y) if len(c.args) > 2 else generic_compare(E, '==', E.load(x), E.load(y))
            if E.branch(r):
                continue
        keep.append(k)
    v = E.load(loc)
    left = [k for k in range(i, j) if k not in keep]
    E.store(loc, Vec(v.items[:i] + tuple(v.items[k] for k in keep + left) + v.items[j:], v.ety))
    return like(c.val(0), loc, i + len(keep))


@model('std::minmax_element')
def _(E, c):
    loc, i, j, conc = concrete_range(E, c.val(0), c.val(1))
    if not conc:
        raise Unsupported('minmax_element over a symbolic range')

    def less(p, q):
        p, q = elem(loc, p, E), elem(loc, q, E)
        return E.branch(pred_call(E, c.args[2], p, q) if len(c.args) > 2 else generic_compare(E, '<', E.load(p), E.load(q)))
    lo = hi = i
    for k in range(i + 1, j):
        if less(k, lo):
            lo = k
        if not less(k, hi):  # the last one of several
            hi = k
    return Struct(E.p.rec_of(c.ret), {'first': like(c.val(0), loc, lo), 'second': like(c.val(0), loc, hi)})


@model('std::fill')
def _(E, c):
    loc, i, j, conc = concrete_range(E, c.val(0), c.val(1))
    if not conc:
        raise Unsupported('fill over a symbolic range')
    for k in range(i, j):
        E.store(elem(loc, k, E), c.val(2))


@model('std::min_element', 'std::max_element')
def _(E, c):
    loc, i, j, conc = concrete_range(E, c.val(0), c.val(1))
    if not conc:
        raise Unsupported('min_element over a symbolic range')
    mx = 'max' in c.name
    best = i
    for k in range(i + 1, j):
        x, y = elem(loc, k, E), elem(loc, best, E)
        p, q = (y, x) if mx else (x, y)
        r = pred_call(E, c.args[2], p, q) if len(c.args) > 2 else generic_compare(E, '<', E.load(p), E.load(q))
        if E.branch(r):
            best = k
    return like(c.val(0), loc, best)


@model('std::sort', 'std::stable_sort')
def _(E, c):
    loc, i, j, conc = concrete_range(E, c.val(0), c.val(1))
    if not conc:
        raise Unsupported('sort over a symbolic range')
    v = E.load(loc)
    items = list(v.items[i:j])
    out_ = []
    for x in items:
        pos = len(out_)
        for k, y in enumerate(out_):
            r = pred_call(E, c.args[2], E.alloc(x), E.alloc(y)) if len(c.args) > 2 else generic_compare(E, '<', x, y)
            if E.branch(r):
                pos = k
                break
        out_.insert(pos, x)
    E.store(loc, Vec(v.items[:i] + tuple(out_) + v.items[j:], v.ety))


@model('std::reverse')
def _(E, c):
    loc, i, j, conc = concrete_range(E, c.val(0), c.val(1))
    v = E.load(loc)
    E.store(loc, Vec(v.items[:i] + tuple(reversed(v.items[i:j])) + v.items[j:], v.ety))


@model('std::equal')
def _(E, c):
    loc, i, j, conc = concrete_range(E, c.val(0), c.val(1))
    loc2, i2, _ = rng(E, c.val(2), c.val(2))
    if not conc:
        raise Unsupported('equal over a symbolic range')
    return E.conj(*[generic_compare(E, '==', E.load(elem(loc, k, E)), E.load(elem(loc2, i2 + k - i, E))) for k in range(i, j)])


@model('std::lower_bound', 'std::upper_bound')
def _(E, c):
    loc, i, j, conc = concrete_range(E, c.val(0), c.val(1))
    if not conc:
        raise Unsupported('lower_bound over a symbolic range')
    up = 'upper' in c.name
    for k in range(i, j):
        el = elem(loc, k, E)
        if up:
            stop = pred_call(E, c.args[3], c.args[2], el) if len(c.args) > 3 else generic_compare(E, '<', c.val(2), E.load(el))
        else:
            lt = pred_call(E, c.args[3], el, c.args[2]) if len(c.args) > 3 else generic_compare(E, '<', E.load(el), c.val(2))
            stop = E.neg(lt)
        if E.branch(stop):
            return like(c.val(0), loc, k)
    return like(c.val(0), loc, j)


@model('std::binary_search')
def _(E, c):
    loc, i, j, conc = concrete_range(E, c.val(0), c.val(1))
    return E.disj(*[generic_compare(E, '==', E.load(elem(loc, k, E)), c.val(2)) for k in range(i, j)])


@model('std::iota')
def _(E, c):
    loc, i, j, conc = concrete_range(E, c.val(0), c.val(1))
    for n, k in enumerate(range(i, j)):
        E.store(elem(loc, k, E), c.val(2) + n)


# ------------------------------------------------------------------ concurrency primitives: sequential meaning
for _n in ('std::mutex', 'std::recursive_mutex', 'std::lock_guard', 'std::unique_lock', 'std::scoped_lock', 'std::condition_variable', 'std::shared_mutex', 'std::timed_mutex'):
    SYSDEFAULT[_n] = lambda E, r, _n=_n: SysObj(_n, {}, r)
    MODELS[_n + '::(ctor)'] = lambda E, c, _n=_n: SysObj(_n, {}, c.rec)
    for _m in ('lock', 'unlock', 'notify_one', 'notify_all', 'wait'):
        MODELS[_n + '::' + _m] = lambda E, c: None
    MODELS[_n + '::try_lock'] = lambda E, c: True

for _n in ('std::atomic', 'std::__atomic_base'):
    SYSDEFAULT[_n] = lambda E, r: SysObj('std::atomic', {'v': E.zero(E.p.targ(r, 0))}, r)
    MODELS[_n + '::(ctor)'] = lambda E, c: SysObj('std::atomic', {'v': c.val(0) if c.args else E.zero(E.p.targ(c.rec, 0))}, c.rec)
    MODELS[_n + '::load'] = MODELS[_n + '::(conv)'] = lambda E, c: c.this.f['v']

    def _st(E, c):
        c.set(c.this.set('v', c.val(0)))
        return c.val(0)
    MODELS[_n + '::store'] = MODELS[_n + '::operator='] = _st

    def _xchg(E, c):
        o = c.this.f['v']
        c.set(c.this.set('v', c.val(0)))
        return o
    MODELS[_n + '::exchange'] = _xchg

# ------------------------------------------------------------------ chrono: durations as a count of their period
@model('std::chrono::duration::(ctor)')
def _(E, c):
    if not c.args:
        return SysObj('std::chrono::duration', {'dur': 0}, c.rec)
    v = c.val(0)
    if isinstance(v, SysObj):
        return SysObj('std::chrono::duration', {'dur': dur_conv(E, v, c.rec)}, c.rec)
    rep = E.p.targ(c.rec, 0)
    return SysObj('std::chrono::duration', {'dur': make_value(E, rep, [v])}, c.rec)


def period(E, rec):
    """(num, den) of a duration record"""
    pr = E.p.rec_of(E.p.targ(rec, 1))
    return E.p.targ(pr, 0), E.p.targ(pr, 1)


def dur_conv(E, v, rec):
    n1, d1 = period(E, v.rec)
    n2, d2 = period(E, rec)
    f = Fraction(n1, d1) / Fraction(n2, d2)
    rep = E.p.ty(E.p.targ(rec, 0))
    x = v.f['dur']
    if rep['k'] == 'float':
        if not E.is_float(x):
            x = E.to_float(x)
        if f == 1:
            return x
        if E.real:
            return E.farith('*', x, f, None)
        return E.farith('/', x, float(f.denominator), {'bits': 64}) if f.numerator == 1 else E.farith('*', x, float(f), {'bits': 64})
    if E.is_float(x):
        y = E.farith('*', x, f if E.real else float(f), {'bits': 64})
        return E.to_int(y, E.p.targ(rec, 0))
    if f == 1:
        return x
    if f.denominator == 1:
        return E.int_result(x * f.numerator, E.p.targ(rec, 0))
    return E.arith('/', x * f.numerator, f.denominator, E.p.targ(rec, 0))


@model('std::chrono::duration_cast', 'std::chrono::floor', 'std::chrono::round')
def _(E, c):
    rec = E.p.rec_of(c.ret)
    return SysObj('std::chrono::duration', {'dur': dur_conv(E, c.val(0), rec)}, rec)


@model('std::chrono::duration::count')
def _(E, c):
    return c.this.f['dur']


@model('std::chrono::time_point::time_since_epoch')
def _(E, c):
    v = c.this
    rec = E.p.rec_of(c.ret)
    return SysObj('std::chrono::duration', {'dur': v.f['dur']}, rec)


@model('std::chrono::time_point::(ctor)')
def _(E, c):
    if not c.args:
        return SysObj('std::chrono::time_point', {'dur': 0}, c.rec)
    v = c.val(0)
    return SysObj('std::chrono::time_point', {'dur': v.f['dur']}, c.rec)


SYSDEFAULT['std::chrono::time_point'] = lambda E, r: SysObj('std::chrono::time_point', {'dur': 0}, r)
SYSDEFAULT['std::chrono::duration'] = lambda E, r: SysObj('std::chrono::duration', {'dur': 0}, r)


def tp_period_rec(E, rec):
    """duration record of a duration or time_point record"""
    if E.p.records[rec]['name'] == 'std::chrono::time_point':
        return E.p.rec_of(E.p.targ(rec, 1))
    return rec


def to_common(E, v, rec):
    d = tp_period_rec(E, rec)
    src = SysObj('std::chrono::duration', {'dur': v.f['dur']}, tp_period_rec(E, v.rec))
    return dur_conv(E, src, d)


@model('std::chrono::operator+', 'std::chrono::operator-')
def _(E, c):
    rec = E.p.rec_of(c.ret)
    a, b = to_common(E, c.val(0), rec), to_common(E, c.val(1), rec)
    op = c.name[-1]
    rep = E.p.targ(tp_period_rec(E, rec), 0)
    return SysObj(E.p.records[rec]['name'], {'dur': E.arith(op, a, b, rep)}, rec)


def _chcmp(op):
    def f(E, c):
        a, b = c.val(0), c.val(1)
        ra, rb = tp_period_rec(E, a.rec), tp_period_rec(E, b.rec)
        n1, d1 = period(E, ra)
        n2, d2 = period(E, rb)
        x, y = a.f['dur'], b.f['dur']
        f1, f2 = Fraction(n1, d1), Fraction(n2, d2)
        if f1 != f2:
            if E.is_float(x) or E.is_float(y):
                if not E.is_float(x):
                    x = E.to_float(x)
                if not E.is_float(y):
                    y = E.to_float(y)
                if E.real:
                    x, y = E.farith('*', x, f1, None), E.farith('*', y, f2, None)
                else:
                    if f1 > f2:
                        x = E.farith('*', x, float(f1 / f2), {'bits': 64})
                    else:
                        y = E.farith('*', y, float(f2 / f1), {'bits': 64})
            else:
                g = f1 / f2
                x, y = x * g.numerator, y * g.denominator
        elif E.is_float(x) != E.is_float(y):
            x = x if E.is_float(x) else E.to_float(x)
            y = y if E.is_float(y) else E.to_float(y)
        return E.compare(op, x, y)
    return f


for _op in ('==', '!=', '<', '<=', '>', '>='):
    MODELS[f'std::chrono::operator{_op}'] = _chcmp(_op)


@model('std::chrono::duration::operator+=', 'std::chrono::duration::operator-=')
def _(E, c):
    v = c.this
    o = to_common(E, c.val(0), c.rec)
    c.set(SysObj(v.name, {'dur': E.arith(c.name[-2], v.f['dur'], o, E.p.targ(c.rec, 0))}, v.rec))
    return c.obj


@model('std::chrono::duration::zero', 'std::chrono::duration::max', 'std::chrono::duration::min')
def _(E, c):
    rec = E.p.rec_of(c.ret)
    t = E.p.targ(rec, 0)
    k = c.name.split('::')[-1]
    if k == 'zero':
        v = E.zero(t)
    else:
        v = E.int_range(t)[1 if k == 'max' else 0]
    return SysObj('std::chrono::duration', {'dur': v}, rec)


def _now(E, c):
    rec = E.p.rec_of(c.ret)
    kind = c.name.split('::')[2]
    cur = E.ghost.get('now_' + kind)
    t = E.fresh('now.' + kind, z3.IntSort())
    E.tape.append(('scalar', 'clock', kind, t))
    E.assume(z3.And(t >= 0, t < 2**62))
    if kind == 'steady_clock' and cur is not None:
        E.assume(t >= cur)
    E.ghost['now_' + kind] = t
    return SysObj('std::chrono::time_point', {'dur': t}, rec)


for _k in ('steady_clock', 'system_clock', 'high_resolution_clock', '_V2::steady_clock', '_V2::system_clock'):
    MODELS[f'std::chrono::{_k}::now'] = _now

MODELS['std::this_thread::sleep_for'] = lambda E, c: None
MODELS['std::this_thread::yield'] = lambda E, c: None


# stand-ins shared by many libraries
@model('std::terminate', 'abort', 'exit', 'std::exit', 'std::abort', '__assert_fail')
def _(E, c):
    E.oblige(False, 'the program is not terminated (' + c.name + ')', 'ub')
    raise Infeasible()


@model('std::uncaught_exceptions')
def _(E, c):
    return 0


@model('getenv', 'std::getenv')
def _(E, c):
    return Ptr(None)


@model('free', 'std::free')
def _(E, c):
    return None


@model('__builtin_expect')
def _(E, c):
    return c.val(0)


@model('__builtin_unreachable')
def _(E, c):
    E.oblige(False, 'unreachable code is not reached', 'ub')
    raise Infeasible()


@model('std::allocator::(ctor)')
def _(E, c):
    return SysObj('std::allocator', {}, c.rec)


# ------------------------------------------------------------------ numeric_limits
def _numlim(which):
    def f(E, c):
        t = E.p.targ(c.f['rec'], 0) if 'rec' in c.f and c.f['rec'] is not None else c.ret
        ty = E.p.ty(c.ret)
        if ty['k'] == 'float':
            d = ty['bits'] != 32
            import struct
            val = {
                'epsilon': 2.0 ** -52 if d else 2.0 ** -23,
                'max': 1.7976931348623157e308 if d else 3.4028234663852886e38,
                'lowest': -1.7976931348623157e308 if d else -3.4028234663852886e38,
                'min': 2.2250738585072014e-308 if d else 1.1754943508222875e-38,
                'infinity': math.inf, 'quiet_NaN': math.nan, 'signaling_NaN': math.nan,
                'denorm_min': 5e-324 if d else 1.401298464324817e-45}[which]
            return E.norm_real(val) if E.real and not (math.isinf(val) or math.isnan(val)) else val
        lo, hi = E.int_range(c.ret)
        return {'max': hi, 'min': lo, 'lowest': lo}[which]
    return f


for _w in ('epsilon', 'max', 'lowest', 'min', 'infinity', 'quiet_NaN', 'signaling_NaN', 'denorm_min'):
    model('std::numeric_limits::' + _w)(_numlim(_w))

# ------------------------------------------------------------------ regular expressions (ECMAScript)
import re as _re
try:
    from re import _parser as _sre, _constants as _src
except ImportError:  # pragma: no cover
    import sre_parse as _sre
    import sre_constants as _src

_ANY = z3.AllChar(z3.ReSort(z3.StringSort()))


def _chars(lo, hi):
    return z3.Range(chr(lo), chr(hi)) if lo != hi else z3.Re(z3.StringVal(chr(lo)))


def _cat(name):
    n = str(name)
    neg = 'NOT' in n
    if 'WORD' in n:
        r = z3.Union(z3.Range('a', 'z'), z3.Range('A', 'Z'), z3.Range('0', '9'), z3.Re(z3.StringVal('_')))
    elif 'DIGIT' in n:
        r = z3.Range('0', '9')
    elif 'SPACE' in n:
        r = re_ws()
    else:
        raise Unsupported('regex category ' + n)
    return z3.Diff(_ANY, r) if neg else r


def _union(rs):
    return rs[0] if len(rs) == 1 else z3.Union(*rs)


def _rseq(items):
    items = [i for i in items if i is not None]
    if not items:
        return z3.Re(z3.StringVal(''))
    return items[0] if len(items) == 1 else z3.Concat(*items)


def sre_to_z3(node):
    op, av = node
    o = str(op)
    if o == 'LITERAL':
        return z3.Re(z3.StringVal(chr(av)))
    if o == 'NOT_LITERAL':
        return z3.Diff(_ANY, z3.Re(z3.StringVal(chr(av))))
    if o == 'ANY':
        return z3.Diff(_ANY, charset('\n\r'))
    if o == 'IN':
        rs, neg = [], False
        for k, v in av:
            ks = str(k)
            if ks == 'NEGATE':
                neg = True
            elif ks == 'LITERAL':
                rs.append(z3.Re(z3.StringVal(chr(v))))
            elif ks == 'RANGE':
                rs.append(_chars(*v))
            elif ks == 'CATEGORY':
                rs.append(_cat(v))
            else:
                raise Unsupported('regex set ' + ks)
        r = _union(rs)
        return z3.Diff(_ANY, r) if neg else r
    if o == 'BRANCH':
        return _union([_rseq([sre_to_z3(x) for x in b]) for b in av[1]])
    if o == 'SUBPATTERN':
        return _rseq([sre_to_z3(x) for x in av[3]])
    if o in ('MAX_REPEAT', 'MIN_REPEAT'):
        lo, hi, body = av
        r = _rseq([sre_to_z3(x) for x in body])
        if hi == _src.MAXREPEAT:
            return z3.Star(r) if lo == 0 else z3.Plus(r) if lo == 1 else z3.Concat(*([r] * (lo - 1) + [z3.Plus(r)]))
        if (lo, hi) == (0, 1):
            return z3.Option(r)
        return z3.Loop(r, lo, hi)
    if o == 'AT':
        return None
    raise Unsupported('regex ' + o)


def sre_words(seq, limit=24):
    """the words of a small finite regular language, or None"""
    out = ['']
    for op, av in seq:
        o = str(op)
        if o == 'LITERAL':
            alts = [chr(av)]
        elif o == 'IN' and all(str(k) == 'LITERAL' for k, _ in av):
            alts = [chr(v) for _, v in av]
        elif o == 'SUBPATTERN':
            alts = sre_words(list(av[3]))
        elif o == 'BRANCH':
            alts = []
            for b in av[1]:
                w = sre_words(list(b))
                if w is None:
                    return None
                alts += w
        elif o in ('MAX_REPEAT', 'MIN_REPEAT') and av[:2] == (0, 1):
            alts = sre_words(list(av[2]))
            alts = alts and alts + ['']
        elif o == 'AT':
            continue
        else:
            return None
        if alts is None or len(out) * len(alts) > limit:
            return None
        out = [a + b for a in out for b in alts]
    return list(dict.fromkeys(out))


def _has_group(seq):
    for op, av in seq:
        o = str(op)
        if o == 'SUBPATTERN':
            if av[0] is not None or _has_group(av[3]):
                return True
        elif o in ('MAX_REPEAT', 'MIN_REPEAT'):
            if _has_group(av[2]):
                return True
        elif o == 'BRANCH':
            if any(_has_group(b) for b in av[1]):
                return True
    return False


def sre_capture(E, seq, text, groups):
    """text is known to match seq: name the parts that the groups captured"""
    seq = [n for n in seq if str(n[0]) != 'AT']
    if not _has_group(seq):
        E.assume(z3.InRe(E.zstr(text), _rseq([sre_to_z3(n) for n in seq])))
        return
    if len(seq) == 1:
        op, av = seq[0]
        o = str(op)
        if o == 'SUBPATTERN':
            if av[0] is not None:
                groups[av[0]] = (True, text)
            return sre_capture(E, list(av[3]), text, groups)
        if o in ('MAX_REPEAT', 'MIN_REPEAT') and av[:2] == (0, 1):
            r = _rseq([sre_to_z3(x) for x in av[2]])
            if E.branch(z3.InRe(E.zstr(text), r)):
                return sre_capture(E, list(av[2]), text, groups)
            E.assume(E.zstr(text) == z3.StringVal(''))
            return
        if o == 'BRANCH':
            for b in av[1]:
                r = _rseq([sre_to_z3(x) for x in b])
                if E.branch(z3.InRe(E.zstr(text), r)):
                    return sre_capture(E, list(b), text, groups)
            raise Infeasible()
        raise Unsupported('captures in a repetition')
    # split into runs without groups and single items with groups
    parts, run = [], []
    for n in seq:
        if _has_group([n]):
            if run:
                parts.append(run)
            parts.append([n])
            run = []
        else:
            run.append(n)
    if run:
        parts.append(run)
    if len(parts) == 1:
        return sre_capture(E, parts[0], text, groups)
    vs = []
    for prt in parts:
        if all(str(n[0]) == 'LITERAL' for n in prt):
            vs.append(z3.StringVal(''.join(chr(n[1]) for n in prt)))
        else:
            v = E.fresh('match', z3.StringSort())
            E.assume(z3.InRe(v, _rseq([sre_to_z3(n) for n in prt])))
            vs.append(v)
    E.assume(E.zstr(text) == z3.Concat(*vs))
    for prt, v in zip(parts, vs):
        if _has_group(prt):
            sre_capture(E, prt, v, groups)


@model('std::basic_regex::(ctor)')
def _(E, c):
    v = c.val(0) if c.args else ''
    if isinstance(v, SysObj):
        return v
    t = as_str(E, v)
    if not isinstance(t, str):
        raise Unsupported('regular expression of symbolic text')
    return SysObj('regex', {'pat': t})


SYSDEFAULT['std::match_results'] = lambda E, r: SysObj('smatch', {'groups': None, 'ok': False})


@model('std::match_results::(ctor)')
def _(E, c):
    if c.args and isinstance(c.val(0), SysObj):
        return c.val(0)
    return SysObj('smatch', {'groups': None, 'ok': False})


@model('std::regex_search')
@model('std::regex_match')
def _(E, c):
    text = c.val(0)
    if isinstance(text, Ptr):
        text = E.cstr(text)
    if not is_str(text):
        raise Unsupported('regex_match over iterators')
    mloc = None
    if isinstance(c.val(1), SysObj) and c.val(1).name == 'smatch':
        mloc, rx = c.args[1], c.val(2)
    else:
        rx = c.val(1)
    if rx.name != 'regex':
        raise Unsupported('regex_match')
    pat = rx.f['pat']
    tree = _sre.parse(pat)
    ngroups = tree.state.groups
    if c.name.startswith('std::regex_search'):
        # decided by whether some substring matches; the groups (leftmost match) only for a constant text
        if isinstance(text, str):
            m = _re.search(pat, text, _re.ASCII)
            if mloc is not None:
                gs = [(m.group(i) is not None, m.group(i) or '') for i in range(ngroups)] if m else None
                E.store(mloc, SysObj('smatch', {'groups': gs, 'ok': bool(m)}))
            return bool(m)
        if any(str(op) in ('AT', 'ASSERT', 'ASSERT_NOT') for op, _ in tree):
            raise Unsupported('regex_search with anchors on a symbolic text')
        allc = z3.Full(z3.ReSort(z3.StringSort()))
        hit = z3.InRe(E.zstr(text), _rseq([allc, _rseq([sre_to_z3(n) for n in tree]), allc]))
        if mloc is None:
            return hit
        if E.branch(hit):
            gs = 'unknown'  # which substring: not decided
            E.store(mloc, SysObj('smatch', {'groups': gs, 'ok': True}))
            return True
        E.store(mloc, SysObj('smatch', {'groups': None, 'ok': False}))
        return False
    if isinstance(text, str):
        m = _re.fullmatch(pat, text, _re.ASCII)
        if mloc is not None:
            gs = [(m.group(i) is not None, m.group(i) or '') for i in range(ngroups)] if m else None
            E.store(mloc, SysObj('smatch', {'groups': gs, 'ok': bool(m)}))
        return bool(m)
    words = sre_words(list(tree))
    if words is not None:
        # a finite language: decide by equality with each word
        for w in words:
            if E.branch(E.compare('==', text, w)):
                m = _re.fullmatch(pat, w, _re.ASCII)
                if mloc is not None:
                    E.store(mloc, SysObj('smatch', {'groups': [(m.group(i) is not None, m.group(i) or '') for i in range(ngroups)], 'ok': True}))
                return True
        if mloc is not None:
            E.store(mloc, SysObj('smatch', {'groups': None, 'ok': False}))
        return False
    r = _rseq([sre_to_z3(n) for n in tree])
    if mloc is None:
        return z3.InRe(E.zstr(text), r)
    if E.branch(z3.InRe(E.zstr(text), r)):
        groups = {}
        sre_capture(E, list(tree), text, groups)
        gs = [(True, text)] + [groups.get(i, (False, '')) for i in range(1, ngroups)]
        E.store(mloc, SysObj('smatch', {'groups': gs, 'ok': True}))
        return True
    E.store(mloc, SysObj('smatch', {'groups': None, 'ok': False}))
    return False


def _group(E, c):
    g = c.this.f['groups']
    if g == 'unknown':
        raise Unsupported('groups of a regex_search')
    i = c.val(0) if c.args else 0
    if g is None or i >= len(g):
        return (False, '')
    return g[i]


@model('std::match_results::operator[]')
def _(E, c):
    m, t = _group(E, c)
    return E.alloc(SysObj('submatch', {'matched': m, 'str': t, 'first': None, 'second': None}, E.p.rec_of(c.ret)))


@model('std::match_results::str')
def _(E, c):
    return _group(E, c)[1]


@model('std::match_results::length')
def _(E, c):
    return E.slen(_group(E, c)[1])


@model('std::match_results::size')
def _(E, c):
    return len(c.this.f['groups'] or [])


@model('std::match_results::ready', 'std::match_results::empty')
def _(E, c):
    return not c.this.f['ok'] if 'empty' in c.name else True


@model('std::sub_match::str', 'std::sub_match::(conv)', 'std::sub_match::operator basic_string')
def _(E, c):
    return c.this.f['str']


@model('std::sub_match::length')
def _(E, c):
    return E.slen(c.this.f['str'])


@model('std::ios_base::flags')
def _(E, c):
    old = c.this.flags
    if c.args:
        v = c.val(0)
        if not (isinstance(v, SysObj) and v.name == 'fmtflags'):
            raise Unsupported('ios_base::flags with computed flags')
        c.set(c.this.upd(flags=v.f['flags']))
    return SysObj('fmtflags', {'flags': old})


@model('std::basic_istream::peek', 'std::basic_istream::get')
def _(E, c):
    if c.args:
        raise Unsupported(c.name)
    s = c.this
    if E.branch(E.disj(s.fail, s.bad, s.eof)):
        if c.name.endswith('get'):
            c.set(s.upd(fail=True))
        return -1
    if E.branch(E.compare('==', s.inp, '')):
        c.set(s.upd(eof=True, fail=c.name.endswith('get') or s.fail))
        return -1
    t = s.inp
    if isinstance(t, str):
        ch, rest = ord(t[0]), t[1:]
    else:
        ch, rest = z3.StrToCode(z3.SubString(t, 0, 1)), z3.SubString(t, 1, z3.Length(t) - 1)
    if c.name.endswith('get'):
        c.set(s.upd(inp=rest))
    return ch


@model('std::char_traits::eof')
def _(E, c):
    return -1


@model('std::char_traits::eq_int_type')
def _(E, c):
    return E.compare('==', c.val(0), c.val(1))


@model('std::_Bit_reference::operator bool', 'std::_Bit_reference::(conv)')
def _(E, c):
    v = E.load(c.obj)
    return E.load(v) if isinstance(v, Loc) else v


@model('std::_Bit_reference::operator=')
def _(E, c):
    v = E.load(c.obj)
    x = c.val(0)
    x = E.load(x) if isinstance(x, Loc) else x
    E.store(v if isinstance(v, Loc) else c.obj, E.tobool(x))
    return c.obj


# ------------------------------------------------------------------ boost string algorithms
@model('boost::algorithm::is_space')
def _(E, c):
    return SysObj('boost::is_classified', {'set': ' \t\n\v\f\r'})


@model('boost::algorithm::is_any_of')
def _(E, c):
    v = c.val(0)
    v = v.s if isinstance(v, CStr) else E.cstr(v) if isinstance(v, Ptr) else v
    if not isinstance(v, str):
        raise Unsupported('is_any_of a symbolic set')
    return SysObj('boost::is_classified', {'set': v})


@model('boost::algorithm::split')
def _(E, c):
    text, pred = c.val(1), c.val(2)
    if not isinstance(text, str) or not (isinstance(pred, SysObj) and pred.name == 'boost::is_classified'):
        raise Unsupported('boost::split of a symbolic text')
    compress = False
    if len(c.args) > 3 and c.val(3) not in (1,):
        compress = True  # token_compress_on = 0, token_compress_off = 1
    out, cur, prev = [], '', False
    for ch in text:
        if ch in pred.f['set']:
            if not (compress and prev):
                out.append(cur)
                cur = ''
            prev = True
        else:
            cur += ch
            prev = False
    out.append(cur)
    E.store(c.args[0], Vec(out, c.val(0).ety))
    return c.args[0]


# ------------------------------------------------------------------ valarray: elementwise operations
def is_valarray(c, i):
    if i >= len(c.f.get('params', [])):
        return False
    r = c.E.p.rec_of(c.ptype(i))
    return r is not None and c.E.p.records[r]['name'] in ('std::valarray', 'std::_Expr')


def elementwise(E, op, a, b, ety=None):
    """a op b where at least one of them is an array"""
    if isinstance(a, SVec) or isinstance(b, SVec):
        raise Unsupported('valarray of symbolic size')
    n = len(a.items) if isinstance(a, Vec) else len(b.items)
    t = (a if isinstance(a, Vec) else b).ety
    scalar = lambda x: make_value(E, t, [x]) if isinstance(x, Struct) and t is not None else x
    xs = a.items if isinstance(a, Vec) else [scalar(a)] * n
    ys = b.items if isinstance(b, Vec) else [scalar(b)] * n
    if len(xs) != len(ys):
        E.oblige(False, 'arrays of equal size', 'ub')
        raise Infeasible()
    out = []
    for x, y in zip(xs, ys):
        if op in ('+', '-', '*', '/'):
            out.append(E.farith(op, x, y, E.p.ty(t)) if E.is_float(x) or E.is_float(y) else E.arith(op, x, y, t))
        elif op == '&&':
            out.append(E.conj(E.tobool(x), E.tobool(y)))
        elif op == '||':
            out.append(E.disj(E.tobool(x), E.tobool(y)))
        else:
            out.append(generic_compare(E, op, x, y))
    return Vec(out, t)


def _valarray_op(name, op):
    old = MODELS.get(name)

    def f(E, c):
        if is_valarray(c, 0) or is_valarray(c, 1):
            return elementwise(E, op, c.val(0), c.val(1))
        if old is None:
            raise Unsupported(f'no body and no contract for {c.name}')
        return old(E, c)
    MODELS[name] = f


for _op in ('<', '>', '<=', '>=', '==', '!=', '+', '-', '*', '/', '&&', '||'):
    _valarray_op(f'std::operator{_op}', _op)
for _n, _op in (('less', '<'), ('greater', '>'), ('less_equal', '<='), ('greater_equal', '>='), ('equal_to', '=='), ('not_equal_to', '!=')):
    _valarray_op(f'std::{_n}::operator()', _op)


@model('std::valarray::min', 'std::valarray::max', 'std::valarray::sum', 'std::_Expr::min', 'std::_Expr::max', 'std::_Expr::sum')
def _(E, c):
    v = c.this
    if not isinstance(v, Vec):
        raise Unsupported('valarray of symbolic size')
    E.oblige(len(v.items) > 0, 'array not empty', 'ub')
    what = c.name.rsplit('::', 1)[1]
    xs = v.items
    if all(isinstance(x, bool) or (isz(x) and z3.is_bool(x)) for x in xs):
        if what == 'min':
            return E.conj(*xs)
        if what == 'max':
            return E.disj(*xs)
    r = xs[0]
    for x in xs[1:]:
        if what == 'sum':
            r = E.farith('+', r, x, E.p.ty(v.ety)) if E.is_float(r) else E.arith('+', r, x, v.ety)
        elif E.branch(generic_compare(E, '<', x, r) if what == 'min' else generic_compare(E, '<', r, x)):
            r = x
    return r


@model('getpid')
def _(E, c):
    return 4242  # only names the node that parameters are read from


@model('boost::math::constants::pi', 'boost::math::constants::pi<double>')
def _(E, c):
    return Fraction(math.pi) if E.real else math.pi
