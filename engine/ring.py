"""Polynomial identities: an equality between real terms follows from the equalities of the path condition when the
numerator of their difference lies in the ideal those generate (denominators are non-zero: the engine generates that
obligation at each division).  Decided with sympy Groebner bases in a child process with a time limit."""
import os
import select
import signal
import z3


class NotPoly(Exception):
    pass


class Conv:
    def __init__(self):
        import sympy
        self.S = sympy
        self.syms = {}

    def sym(self, key):
        if key not in self.syms:
            self.syms[key] = self.S.Symbol('v%d' % len(self.syms))
        return self.syms[key]

    def conv(self, e):
        S = self.S
        if z3.is_rational_value(e):
            return S.Rational(e.numerator_as_long(), e.denominator_as_long())
        if z3.is_int_value(e):
            return S.Integer(e.as_long())
        k = e.decl().kind()
        ch = e.children()
        if k == z3.Z3_OP_ADD:
            return S.Add(*[self.conv(c) for c in ch])
        if k == z3.Z3_OP_MUL:
            return S.Mul(*[self.conv(c) for c in ch])
        if k == z3.Z3_OP_SUB:
            r = self.conv(ch[0])
            for c in ch[1:]:
                r = r - self.conv(c)
            return r
        if k == z3.Z3_OP_UMINUS:
            return -self.conv(ch[0])
        if k == z3.Z3_OP_DIV:
            return self.conv(ch[0]) / self.conv(ch[1])
        if k == z3.Z3_OP_POWER and z3.is_int_value(ch[1]) or (k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) and ch[1].denominator_as_long() == 1):
            n = ch[1].as_long() if z3.is_int_value(ch[1]) else ch[1].numerator_as_long()
            return self.conv(ch[0]) ** n
        if k == z3.Z3_OP_TO_REAL:
            return self.sym(('toreal', e.arg(0).sexpr()))
        if k == z3.Z3_OP_ITE:
            return self.sym(('ite', self.cond(ch[0]), str(S.cancel(S.together(self.conv(ch[1])))), str(S.cancel(S.together(self.conv(ch[2]))))))
        if k == z3.Z3_OP_UNINTERPRETED:
            if ch and all(z3.is_real(c) for c in ch):
                return self.sym((e.decl().name(),) + tuple(str(S.cancel(S.together(self.conv(c)))) for c in ch))
            return self.sym(e.sexpr())
        return self.sym(e.sexpr())


    def cond(self, e):
        S = self.S
        k = e.decl().kind()
        if k in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ) and z3.is_real(e.arg(0)):
            d = S.cancel(S.together(self.conv(e.arg(0)) - self.conv(e.arg(1))))
            return (k, str(d))
        if k in (z3.Z3_OP_NOT, z3.Z3_OP_AND, z3.Z3_OP_OR):
            return (k,) + tuple(self.cond(c) for c in e.children())
        return e.sexpr()


def _nonlinear(e, depth=0):
    if z3.is_mul(e):
        return sum(1 for c in e.children() if not z3.is_rational_value(c)) > 1 or any(_nonlinear(c) for c in e.children())
    if z3.is_app(e) and e.decl().kind() in (z3.Z3_OP_DIV, z3.Z3_OP_POWER):
        return True
    return any(_nonlinear(c) for c in e.children())


def applicable(goal):
    return z3.is_eq(goal) and z3.is_real(goal.arg(0)) and _nonlinear(goal)


def _work(goal, hyps, q):
    try:
        c = Conv()
        S = c.S
        num = S.numer(S.together(c.conv(goal.arg(0)) - c.conv(goal.arg(1))))
        num = S.expand(num)
        if num == 0:
            q.put(True)
            return
        hs = []
        for h in hyps:
            if z3.is_eq(h) and z3.is_real(h.arg(0)):
                try:
                    p = S.expand(S.numer(S.together(c.conv(h.arg(0)) - c.conv(h.arg(1)))))
                except Exception:
                    continue
                if p != 0 and not p.is_number:
                    hs.append(p)
        # only hypotheses connected with the goal
        need = set(num.free_symbols)
        used = []
        ch = True
        while ch:
            ch = False
            for p in hs:
                if p not in used and p.free_symbols & need:
                    used.append(p)
                    if not p.free_symbols <= need:
                        need |= p.free_symbols
                    ch = True
        if not used:
            q.put(False)
            return
        # eliminate symbols that a hypothesis gives as a linear function of others
        def linear(p):
            for v in sorted(p.free_symbols, key=lambda s: -int(s.name[1:])):
                P = S.Poly(p, v)
                if P.degree() == 1 and P.coeff_monomial(v).is_number:
                    return v, S.expand(-P.coeff_monomial(1) / P.coeff_monomial(v))
            return None
        for _ in range(60):
            for p in used:
                if len(p.free_symbols) <= 4 and S.Poly(p, *p.free_symbols).total_degree() <= 2 and linear(p):
                    v, e = linear(p)
                    used = [S.expand(x.subs(v, e)) for x in used if x is not p]
                    used = [x for x in used if x != 0 and not x.is_number]
                    num = S.expand(num.subs(v, e))
                    break
            else:
                break
            if num == 0:
                q.put(True)
                return
        small = [p for p in used if p.free_symbols <= num.free_symbols]
        for hs in (small, used):
            if not hs:
                continue
            syms = set(num.free_symbols).union(*[p.free_symbols for p in hs])
            gens = sorted(syms, key=lambda s: -int(s.name[1:]))
            if S.reduced(num, hs, *gens, order='grevlex')[1] == 0:
                q.put(True)
                return
        for hs in (small, used):
            if not hs:
                continue
            syms = set(num.free_symbols).union(*[p.free_symbols for p in hs])
            gens = sorted(syms, key=lambda s: -int(s.name[1:]))
            G = S.groebner(hs, *gens, order='grevlex')
            if G.contains(num):
                q.put(True)
                return
        q.put(False)
    except Exception as x:
        if os.environ.get('RINGDEBUG'):
            print('ring', x)
        q.put(False)


def prove(goal, hyps, timeout=20):
    """goal: equality over the reals; hyps: the path condition"""
    flat = []
    todo = list(hyps)
    while todo:
        h = todo.pop()
        if z3.is_and(h):
            todo.extend(h.children())
        else:
            flat.append(h)
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)

            class Q:
                def put(self, v):
                    os.write(wr, b'1' if v else b'0')
            _work(goal, flat, Q())
        finally:
            os._exit(0)
    os.close(wr)
    out = b''
    try:
        if select.select([rd], [], [], timeout)[0]:
            out = os.read(rd, 1)
    finally:
        os.close(rd)
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
        os.waitpid(pid, 0)
    return out == b'1'
