"""Path exploration, feasibility and obligations."""
import time
import mpmath
import z3
from . import sym as Y
from .sym import Sym, Env, Unsupported, SH, mono_gens

mpmath.mp.dps = 40
EPS0 = mpmath.mpf(10) ** -28


class Infeasible(Exception):
    """The current path is infeasible (assumption contradicts the path)."""


class Budget(BaseException):
    pass


class Obligation(object):
    def __init__(self, name, status, how, witness=None, detail=''):
        self.name = name          # stable name
        self.status = status      # proved / refuted / unknown
        self.how = how            # normal-form / z3 / ground / ...
        self.witness = witness    # dict of base values
        self.detail = detail


class Explorer(object):
    """One symbolic execution path; decisions are replayed from ``prefix``."""

    def __init__(self, prefix, seed, budget, nsamples=24, choices=None):
        self.prefix = list(prefix)
        self.pos = 0
        self.dry = False          # explore only
        self.trace = []           # decisions taken
        self.pending = []         # alternative prefixes
        self.pc = []              # [(op, Sym, truth)]
        self.cache = {}
        self.seed = seed
        self.samples = [Env(k, seed) for k in range(nsamples)]
        self.extra = []
        self.deadline = budget
        self.obls = []
        self.solver_time = 0.
        self.z3_calls = 0
        self.axioms = []          # assumed facts as (op, Sym)
        self.assumed = []         # text of the assumptions used

    # ------------------------------------------------------------- helpers
    def check_time(self):
        if time.time() > self.deadline:
            raise Budget('time budget of the contract exhausted')

    @staticmethod
    def truth(env, op, d):
        """True/False/None (too close to call or undefined)."""
        try:
            v = env.ev(d)
        except ZeroDivisionError:
            return None
        if abs(v) < EPS0:
            v = 0
        elif abs(v) < mpmath.mpf(10) ** -20:
            return None
        if op == '<':
            return bool(v < 0)
        if op == '<=':
            return bool(v <= 0)
        return bool(v == 0)

    def sat_samples(self):
        return self.samples

    def filter(self, op, d, want):
        self.samples = [e for e in self.samples if self.truth(e, op, d) == want]

    def choose(self, n, label=''):
        """n-ary choice, all explored."""
        self.check_time()
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
        else:
            v = 0
            for i in range(1, n):
                self.pending.append(self.trace + [i])
        self.pos += 1
        self.trace.append(v)
        return v

    def key(self, op, d):
        return (op, frozenset(d.num.items()), d.dc, d.den)

    def decide(self, op, d):
        self.check_time()
        if op == '==':
            d = Sym(d.num)
        k = self.key(op, d)
        if k in self.cache:
            return self.cache[k]
        if self.pos < len(self.prefix):
            r = self.prefix[self.pos]
            v = bool(r & 1)
            self.pos += 1
            self.trace.append(r)
            if r & 2:
                self.cache[k] = v      # was implied by the path
            else:
                self.assume_(op, d, v)
            return v
        tv = [self.truth(e, op, d) for e in self.samples]
        st, sf = True in tv, False in tv
        if not st:
            st = self.feasible(op, d, True)
        if not sf:
            sf = self.feasible(op, d, False)
        if not st and not sf:
            raise Infeasible()
        if st and sf:
            # explore the likelier side first
            v = tv.count(True) >= tv.count(False)
            self.pending.append(self.trace + [int(not v)])
            self.pos += 1
            self.trace.append(int(v))
            self.assume_(op, d, v)
            return v
        v = bool(st)
        # implied by the path: a derived fact (bit 1 marks it in the trace)
        self.cache[k] = v
        self.pos += 1
        self.trace.append(int(v) | 2)
        return v

    def learn(self, op, d, v):
        """Syntactic consequences of a known atom."""
        c = self.cache
        c[self.key(op, d)] = v
        e = Sym(d.num)
        n = Sym({m: -x for m, x in d.num.items()})
        if op == '==':
            c[self.key('==', n)] = v
            if v:
                for x in (d, n):
                    c[self.key('<=', x)] = True
                    c[self.key('<', x)] = False
        else:
            # d < 0  <=>  not (-d <= 0)
            o2 = '<=' if op == '<' else '<'
            c[self.key(o2, -d)] = not v
            if v == (op == '<'):       # strict: d < 0 or d > 0
                c[self.key('==', e)] = c[self.key('==', n)] = False
                c[self.key('<=', d)] = v
                c[self.key('<', -d)] = not v

    def assume_(self, op, d, v):
        self.learn(op, d, v)
        self.pc.append((op, d, v))
        self.filter(op, d, v)
        if not self.samples:
            e = self.model()
            if e is not None:
                self.samples = [e]

    # ------------------------------------------------------------------ z3
    def tr_poly(self, p, used):
        Z = self.zvar
        acc = []
        for m, c in p.items():
            t = z3.RealVal(c)
            for i, e in mono_gens(m):
                used.add(i)
                v = Z(i)
                for _ in range(e):
                    t = t * v
            acc.append(t)
        return z3.Sum(acc) if acc else z3.RealVal(0)

    def zvar(self, i):
        return z3.Real('g%d' % i)

    def tr_atom(self, op, d, v, used):
        n = self.tr_poly(d.num, used)
        if op == '==':
            f = n == 0
        else:
            den = z3.RealVal(1)
            hasden = False
            for fid, e in d.den:
                q = self.tr_poly(Y.S.factors[fid], used)
                if e % 2:
                    den = den * q
                    hasden = True
            x = n * den if hasden else n
            f = x < 0 if op == '<' else x <= 0
        return f if v else z3.Not(f)

    def gen_axioms(self, used):
        out = []
        done = set()
        work = list(used)
        while work:
            i = work.pop()
            if i in done:
                continue
            done.add(i)
            g = Y.S.gens[i]
            u = set()
            z = self.zvar(i)
            if g.name == 'pi':
                out += [z > z3.RealVal('3.14159265358979'), z < z3.RealVal('3.14159265358980')]
            if g.rule is not None:
                out.append(z * z == self.tr_poly(g.rule, u))
            if g.kind == 'sqrt':
                out.append(z >= 0)
            if g.kind in ('cos', 'sin'):
                u.add(g.partner.idx)
            if g.kind == 'var' and g.dom and g.dom[0] == 'real':
                lo, hi, strict = Y.pre(g.dom)
                if lo is not None:
                    b = z3.RealVal(str(lo))
                    out.append(z > b if strict else z >= b)
                if hi is not None:
                    b = z3.RealVal(str(hi))
                    out.append(z < b if strict else z <= b)
            work += [j for j in u if j not in done]
        for (op, d, v) in self.axioms:
            u = set()
            f = self.tr_atom(op, d, v, u)
            if u & done or u <= done:
                out.append(f)
        for fid, q in enumerate(Y.S.factors):
            u = set(Y.p_gens(q))
            if u and u <= done:
                out.append(self.tr_poly(q, set()) != 0)
        return out

    def z3check(self, atoms, timeout=3000, want_model=False):
        """atoms: [(op, Sym, truth)], conjunction."""
        t0 = time.time()
        self.z3_calls += 1
        s = z3.SolverFor('QF_NRA')
        s.set('timeout', timeout)
        used = set()
        fs = [self.tr_atom(op, d, v, used) for (op, d, v) in atoms]
        # angle arguments used in comparisons bring in their variables only
        for f in fs + self.gen_axioms(used):
            s.add(f)
        r = s.check()
        self.solver_time += time.time() - t0
        if r == z3.sat and want_model:
            return 'sat', (s.model(), used)
        return str(r), None

    def relevant(self, atoms):
        """Path conditions sharing (transitively) generators with ``atoms``."""
        def gens(d):
            out = set(Y.p_gens(d.num))
            for fid, e in d.den:
                out |= set(Y.p_gens(Y.S.factors[fid]))
            clo = set()
            work = list(out)
            while work:
                i = work.pop()
                if i in clo:
                    continue
                clo.add(i)
                g = Y.S.gens[i]
                if g.rule:
                    work += Y.p_gens(g.rule)
                if g.partner is not None:
                    work.append(g.partner.idx)
            return clo
        cur = set()
        for (_, d, _) in atoms:
            cur |= gens(d)
        rest = [(a, gens(a[1])) for a in self.pc]
        sel = []
        changed = True
        while changed:
            changed = False
            keep = []
            for it in rest:
                if it[1] & cur:
                    cur |= it[1]
                    sel.append(it[0])
                    changed = True
                else:
                    keep.append(it)
            rest = keep
        return sel

    def feasible(self, op, d, v):
        atoms = [(op, d, v)]
        r, m = self.z3check(atoms + self.relevant(atoms), want_model=True)
        if r == 'unsat':
            return False
        if r == 'sat':
            e = self.env_from_model(m)
            if e is not None:
                ok = all(self.truth(e, o, x) in (w, None) for (o, x, w) in self.pc) and \
                    self.truth(e, op, d) == v
                if ok:
                    self.extra.append(e)
        return True

    def model(self):
        r, m = self.z3check(list(self.pc), want_model=True)
        if r == 'sat':
            e = self.env_from_model(m)
            if e is not None and all(self.truth(e, o, x) == w for (o, x, w) in self.pc):
                return e
        for e in self.extra:
            if all(self.truth(e, o, x) == w for (o, x, w) in self.pc):
                return e
        return None

    def env_from_model(self, m):
        model, used = m

        def val(i):
            v = model.eval(self.zvar(i), model_completion=True)
            try:
                if z3.is_rational_value(v):
                    return v.as_fraction()
                v = v.approx(40)
                return v.as_fraction()
            except Exception:
                return None
        over = {}
        for i in sorted(used):
            g = Y.S.gens[i]
            if g.kind == 'var' and g.value is None and g.name != 'pi':
                v = val(i)
                if v is not None:
                    over[g.name] = v
        for i in sorted(used):
            g = Y.S.gens[i]
            if g.kind in ('cos', 'sin'):
                # solve for a simple angle argument not otherwise constrained
                a = g.arg
                if not a.den and len(a.num) == 1:
                    (mm, c), = a.num.items()
                    mg = mono_gens(mm)
                    if len(mg) == 1 and mg[0][1] == 1:
                        ag = Y.S.gens[mg[0][0]]
                        if ag.name not in over and ag.kind == 'var' and ag.value is None:
                            gc = g if g.kind == 'cos' else g.partner
                            cv, sv = val(gc.idx), val(gc.partner.idx)
                            if cv is not None and sv is not None:
                                th = mpmath.atan2(mpmath.mpf(sv.numerator) / sv.denominator,
                                                  mpmath.mpf(cv.numerator) / cv.denominator)
                                over[ag.name] = th * a.dc / c
        return Env(1000 + len(self.extra), self.seed, over)

    # --------------------------------------------------------- assumptions
    def assume(self, op, d, v=True, text=None):
        """Precondition: restrict the path."""
        d = Sym.of(d)
        if text and text not in self.assumed:
            self.assumed.append(text)
        if d.isconst():
            c = d.constval()
            r = {'<': c < 0, '<=': c <= 0, '==': c == 0}[op]
            if r != v:
                raise Infeasible()
            return
        k = self.key(op, d if op != '==' else Sym(d.num))
        if k in self.cache:
            if self.cache[k] != v:
                raise Infeasible()
            return
        self.assume_(op, d, v)
        if not self.samples:
            r, m = self.z3check(list(self.pc))
            if r == 'unsat':
                raise Infeasible()

    # --------------------------------------------------------- obligations
    def witness(self, e):
        return {n: v for n, v in e.over.items()}

    def prove(self, op, d, name, tol=1e-9, timeout=10000):
        """Obligation d op 0 under the path condition."""
        self.check_time()
        if self.dry:
            return Obligation(name, 'proved', 'not checked')
        d = Sym.of(d)
        o = self._prove(op, d, name, tol, timeout)
        self.obls.append(o)
        return o

    def prove_true(self, cond, name, detail=''):
        if self.dry:
            return Obligation(name, 'proved', 'not checked')
        if cond:
            o = Obligation(name, 'proved', 'execution')
        else:
            o = self.failed(name, detail)
        self.obls.append(o)
        return o

    def failed(self, name, detail):
        e = self.samples[0] if self.samples else self.model()
        if e is None:
            return Obligation(name, 'unknown', 'path not known feasible', None, detail)
        return Obligation(name, 'refuted', 'execution', self.witness(e), detail)

    def _prove(self, op, d, name, tol, timeout):
        if d.isconst():
            c = d.constval()
            if {'<': c < 0, '<=': c <= 0, '==': c == 0}[op]:
                return Obligation(name, 'proved', 'normal-form')
            w = self.samples[0] if self.samples else None
            if w is None:
                w = self.model()
            if op == '==' and abs(float(c)) < tol:
                return Obligation(name, 'unknown', 'below tolerance', None, str(c))
            if w is not None:
                return Obligation(name, 'refuted', 'normal-form', self.witness(w), 'value %s' % c)
            return Obligation(name, 'unknown', 'path not known feasible', None, 'value %s' % c)
        k = self.key(op, d if op != '==' else Sym(d.num))
        if self.cache.get(k) is True:
            return Obligation(name, 'proved', 'path condition')
        for e in self.samples + self.extra:
            if e not in self.samples and not all(
                    self.truth(e, o, x) == w for (o, x, w) in self.pc):
                continue
            try:
                v = e.ev(d)
            except ZeroDivisionError:
                continue
            bad = (abs(v) > tol) if op == '==' else (v > tol)
            if bad:
                return Obligation(name, 'refuted', 'evaluation of the normal form',
                                  self.witness(e), 'value %s' % mpmath.nstr(v, 12))
        at = [(op, d, False)]
        if op == '==':
            at = [('==', Sym(d.num), False)]
            if not self.pc:
                at = None
        if at is not None:
            r, m = self.z3check(at + self.relevant(at), timeout=timeout, want_model=True)
            if r == 'unsat':
                return Obligation(name, 'proved', 'z3')
            if r == 'sat':
                e = self.env_from_model(m)
                if all(self.truth(e, o, x) == w for (o, x, w) in self.pc):
                    try:
                        v = e.ev(d)
                        if (abs(v) > tol) if op == '==' else (v > tol):
                            return Obligation(name, 'refuted', 'z3 model', self.witness(e),
                                              'value %s' % mpmath.nstr(v, 12))
                    except ZeroDivisionError:
                        pass
            r = self.cvc5(at + self.relevant(at))
            if r == 'unsat':
                return Obligation(name, 'proved', 'cvc5')
        return Obligation(name, 'unknown', 'undecided', None, '')

    def cvc5(self, atoms, timeout=10):
        import subprocess
        import tempfile
        import os
        s = z3.Solver()
        used = set()
        for a in atoms:
            s.add(self.tr_atom(a[0], a[1], a[2], used))
        for f in self.gen_axioms(used):
            s.add(f)
        txt = '(set-logic QF_NRA)\n' + s.to_smt2()
        fd, path = tempfile.mkstemp(suffix='.smt2')
        t0 = time.time()
        try:
            with os.fdopen(fd, 'w') as f:
                f.write(txt)
            r = subprocess.run(['cvc5', '--tlimit=%d' % (timeout * 1000), path],
                               capture_output=True, text=True, timeout=timeout + 5)
            out = r.stdout.strip().split('\n')[0]
        except Exception:
            out = 'unknown'
        finally:
            os.unlink(path)
        self.solver_time += time.time() - t0
        return out
