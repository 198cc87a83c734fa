"""Runs the contracts of a property and writes its evidence."""
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import random
import resource
import signal
import sys
import time
import traceback
import warnings
from fractions import Fraction
from . import sym as Y
from . import explore as E
from . import loops as LP
from .ctx import SymCtx, ConCtx, ContractFailure
from .sym import Env, Unsupported, SymZeroDivision
from .explore import Infeasible, Budget

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get('PVC_EVIDENCE') or os.path.join(ROOT, 'evidence')
REGISTRY = {}


class Contract(object):
    def __init__(self, prop, name, fn, sym=True, con=True, samples=24, budget=150, rt=1e-6,
                 bounded=None, paths=4000, note=None, exact=True, loops=False):
        self.prop = prop
        self.name = name
        self.fn = fn
        self.sym = sym
        self.con = con
        self.samples = samples
        self.budget = budget
        self.rt = rt
        self.bounded = bounded    # text of the bound when the contract is bounded
        self.paths = paths
        self.note = note
        self.exact = exact
        # loop rule: about sequences of any length; what it does not discharge is reported in
        # the evidence and left to the contracts that enumerate the lengths
        self.loops = loops
        if loops:
            self.con = False


def contract(prop, name=None, **kw):
    def deco(fn):
        c = Contract(prop, name or fn.__name__, fn, **kw)
        REGISTRY.setdefault(prop, []).append(c)
        return fn
    return deco


def load_contracts(prop):
    d = os.path.join(ROOT, 'contracts')
    if d not in sys.path:
        sys.path.insert(0, d)
    for f in sorted(os.listdir(d)):
        if f.endswith('.py') and f.startswith('c_'):
            importlib.import_module(f[:-3])
    return REGISTRY.get(prop, [])


# ------------------------------------------------------------------- symbolic
def run_sym(c, seed, tier):
    if not c.loops:
        return explore(c, seed, tier)
    t0 = time.time()
    store = LP.Store()
    while True:
        # what the loops change settles over several rounds; the last one counts
        store.begin()
        res = explore(c, seed, tier, store, not store.settled)
        if store.rounds > 9:
            res['unsupported'].append('the loops do not settle')
        elif not res['unsupported'] and not (res['refuted'] and store.settled):
            done = store.settled
            if not store.round_done() or not done:
                continue
        res['rounds'] = store.rounds
        res['wall'] = time.time() - t0
        return res


def explore(c, seed, tier, store=None, dry=False):
    t0 = time.time()
    budget = c.budget * (1 if tier == 'quick' else 3)
    deadline = t0 + budget
    res = dict(kind='sym', contract=c.name, paths=0, infeasible=0, proved=0, refuted=[],
               unknown=[], unsupported=[], how={}, functions=set(), solver_s=0., z3=0,
               assumptions=[], names=set(), obligations=0, bound=[],
               inputs={True: [], False: []})
    stack = [[]]
    while stack:
        prefix = stack.pop()
        if res['paths'] + res['infeasible'] >= c.paths:
            # a bounded contract stops at its bound; an unbounded one is not decided
            res['bound' if c.bounded else 'unsupported'].append('more than %d paths' % c.paths)
            break
        Y.reset()
        ex = E.Explorer(prefix, seed, deadline)
        Y.S.explorer = ex
        ex.dry = dry
        if store:
            Y.S.store = store
            store.path()
        C = None
        ok = True
        nuns = len(res['unsupported'])
        try:
            C = SymCtx(ex, dict(loops=c.loops))
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                c.fn(C)
        except Infeasible:
            ok = False
        except Unsupported as e:
            res['unsupported'].append('unsupported: %s' % e)
        except Budget as e:
            res['bound' if c.bounded else 'unsupported'].append('budget: %s' % e)
            stack = []
            ok = not c.bounded
        except SymZeroDivision as e:
            ex.obls.append(ex.failed('no division by zero', str(e)))
        except RecursionError as e:
            res['unsupported'].append('recursion')
        except Exception as e:
            ex.obls.append(ex.failed('no exception', '%s: %s\n%s' % (
                type(e).__name__, e, ''.join(traceback.format_tb(e.__traceback__)[-3:]))))
        stack.extend(ex.pending)
        res['solver_s'] += ex.solver_time
        res['z3'] += ex.z3_calls
        if store and ok:
            store.path_done()
        if not ok:
            res['infeasible'] += 1
            # obligations emitted before the path proved infeasible stay valid
        else:
            res['paths'] += 1
        choices = dict(C.choices) if C is not None else {}
        odd = len(res['unsupported']) > nuns or any([o.status == 'unknown' for o in ex.obls])
        if ok and c.con and len(res['inputs'][odd]) < 40:
            # an input that follows this path, to be tried on the real code
            e = ex.samples[0] if ex.samples else ex.model() if odd and time.time() < deadline \
                else None
            if e is not None:
                res['inputs'][odd].append((wit(e.over), choices))
        for o in ex.obls:
            res['obligations'] += 1
            res['names'].add(o.name.split('[')[0])
            if o.status == 'proved':
                res['proved'] += 1
                res['how'][o.how] = res['how'].get(o.how, 0) + 1
            elif o.status == 'refuted':
                if len(res['refuted']) < 12:
                    res['refuted'].append(dict(name=o.name, how=o.how, detail=o.detail,
                                               witness=wit(o.witness), choices=choices))
            else:
                if len(res['unknown']) < 12:
                    res['unknown'].append(dict(name=o.name, detail=o.detail))
                else:
                    res['unknown_more'] = res.get('unknown_more', 0) + 1
        if C is not None:
            res['functions'] |= C.loader.functions
            for a in C.assumptions + ex.assumed:
                if a not in res['assumptions']:
                    res['assumptions'].append(a)
        if len(res['refuted']) >= 12:
            break
    res['unsupported'] = sorted(set(res['unsupported']))[:8]
    res['wall'] = time.time() - t0
    res['functions'] = sorted(res['functions'])
    res['names'] = sorted(res['names'])
    return res


def wit(w):
    out = {}
    for k, v in (w or {}).items():
        if isinstance(v, Fraction):
            out[k] = str(v) if v.denominator < 10 ** 9 else float(v)
        else:
            out[k] = float(v)
    return out


def unwit(w):
    return {k: Fraction(v) if isinstance(v, str) else float(v) for k, v in w.items()}


# ------------------------------------------------------------------- concrete
_REAL = None


def real_mods(name):
    global _REAL
    if _REAL is None:
        repo = os.environ.get('PVC_REPO', '/repo')
        if repo not in sys.path:
            sys.path.insert(0, repo)
        os.environ.setdefault('MPLBACKEND', 'Agg')
        os.environ.setdefault('MPLCONFIGDIR', '/tmp/pvc-mpl')
        import logging
        logging.disable(logging.CRITICAL)
        _REAL = {}
    m = importlib.import_module(name)
    return m


def one_con(c, env, choices=None):
    """Returns (status, failures, C); status in ok/skip/fail."""
    C = ConCtx(env, real_mods, choices=choices, rt=c.rt)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            c.fn(C)
    except Infeasible:
        # failures seen before the infeasible precondition are void
        return 'skip', [], C
    except Unsupported:
        return 'skip', [], C
    except Exception as e:
        C.fail.append(('no exception', '%s: %s\n%s' % (
            type(e).__name__, e, ''.join(traceback.format_tb(e.__traceback__)[-3:]))))
    return ('fail' if C.fail else 'ok'), C.fail, C


def run_con(c, seed, tier, n=None):
    t0 = time.time()
    n = n or c.samples * (1 if tier == 'quick' else 12)
    res = dict(kind='con', contract=c.name, evaluations=0, ok=0, skipped=0, failures=[],
               obligations=0, distinct=0, samples=[])
    seen = set()
    for k in range(n):
        env = Env(k, seed)
        t1 = time.time()
        try:
            st, fails, C = one_con(c, env)
        except Budget as e:
            # the alarm of _child: one input that takes more than a minute is a failure
            if time.time() - t1 < 60:
                break
            res['failures'].append(dict(name='terminates', detail='no result after %d s'
                                        % (time.time() - t1), witness=wit(env.over), choices={},
                                        k=k, seed=seed))
            break
        res['evaluations'] += 1
        if st == 'skip':
            res['skipped'] += 1
            continue
        res['obligations'] += C.nobl
        key = json.dumps([wit(env.over), C.choices], sort_keys=True, default=str)
        if key not in seen:
            seen.add(key)
            if C.nobl:
                res['distinct'] += 1
        if len(res['samples']) < 2:
            w = wit(env.over)
            res['samples'].append(dict(contract=c.name, inputs=dict(list(w.items())[:12]),
                                       choices=C.choices, obligations=C.nobl))
        if st == 'ok':
            res['ok'] += 1
        else:
            res['failures'].append(dict(name=fails[0][0], detail=fails[0][1],
                                        witness=wit(env.over), choices=dict(C.choices), k=k,
                                        seed=seed))
            if len(res['failures']) >= 3:
                break
        if time.time() - t0 > c.budget * (1 if tier == 'quick' else 3):
            break
    res['wall'] = time.time() - t0
    return res


def task(a):
    prop, name, kind, seed, tier = a
    c = [x for x in REGISTRY[prop] if x.name == name][0]
    sys.setrecursionlimit(20000)
    try:
        return (run_sym if kind == 'sym' else run_con)(c, seed, tier)
    except BaseException as e:
        return dict(kind=kind, contract=name, crash='%s: %s\n%s' % (
            type(e).__name__, e, traceback.format_exc()))


INPUTS = {}     # inputs that follow the paths of a contract that was not discharged
TOTAL = {True: 500, False: 3000}


def _alarm(signum, frame):
    raise Budget('time budget of the contract exhausted')


def _child(fn, a, limit, conn):
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(limit) + 5)
    try:
        r = fn(a)
    except BaseException as e:
        r = dict(kind=a[2], contract=a[1], crash='%s: %s' % (type(e).__name__, e), failures=[],
                 stopped=isinstance(e, Budget))
    signal.alarm(0)
    conn.send(r)
    conn.close()


def run_tasks(fn, tasks, limit, jobs, deadline, by):
    """One process per task, at most `jobs` at a time.  A task that goes past its limit (or the
    deadline of the whole check) is ended and reported as not finished."""
    ctx = mp.get_context('fork')
    todo = list(tasks)
    running = {}
    results = {}
    found = False
    while todo or running:
        now = time.time()
        if now > deadline or (found and now > deadline - 0.6 * TOTAL[True]):
            for t in todo:
                results[t] = dict(kind=t[2], contract=t[1], crash='not run: out of time',
                                  failures=[], stopped=True)
            todo = []
        while todo and len(running) < jobs:
            t = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(fn, t, limit[t], b))
            p.start()
            b.close()
            running[a] = (t, p, now + limit[t] + 45)
        for a in mp.connection.wait(list(running), timeout=1.):
            t, p, _ = running.pop(a)
            try:
                r = a.recv()
            except EOFError:
                r = dict(kind=t[2], contract=t[1], crash='the process ended', failures=[])
            p.join()
            a.close()
            results[t] = r
            if r.get('failures'):
                found = True
        now = time.time()
        for a in list(running):
            t, p, end = running[a]
            if now > min(end, deadline) or (found and now > deadline - 0.6 * TOTAL[True]):
                p.kill()
                p.join()
                running.pop(a)
                a.close()
                results[t] = dict(kind=t[2], contract=t[1], crash='ended after its time limit',
                                  failures=[], stopped=True)
    return [results[t] for t in tasks]


def search(a):
    prop, name, seed = a[:3]
    c = [x for x in REGISTRY[prop] if x.name == name][0]
    try:
        for w, ch in INPUTS.get(name, []):
            v = replay(c, dict(witness=w, choices=ch), seed)
            if v is not None:
                return dict(contract=name, failures=[v])
        old = c.budget
        c.budget = min(60, old)
        r = run_con(c, seed, 'quick', n=c.samples * 20)
        c.budget = old
        return r
    except BaseException as e:
        return dict(contract=name, failures=[], crash=str(e))


def replay(c, r, seed):
    """Replay a symbolic counterexample on the untouched code."""
    out = []
    env = Env(0, seed, unwit(r['witness']))
    st, fails, C = one_con(c, env, r.get('choices'))
    if st == 'fail':
        return dict(name=fails[0][0], detail=fails[0][1], witness=wit(env.over),
                    choices=dict(C.choices))
    return None


def known_findings():
    p = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f).get('known', [])


def check(prop, tier, seed, jobs=8, only=None):
    t0 = time.time()
    cs = load_contracts(prop)
    if only:
        cs = [c for c in cs if only in c.name]
    tasks = []
    for c in cs:
        if c.sym:
            tasks.append((prop, c.name, 'sym', seed, tier))
        if c.con:
            tasks.append((prop, c.name, 'con', seed, tier))
    by = {c.name: c for c in cs}
    k = 1 if tier == 'quick' else 3
    limit = {t: by[t[1]].budget * k for t in tasks}
    total = TOTAL[tier == 'quick']
    results = run_tasks(task, tasks, limit, jobs, t0 + total, by)
    viol = []
    open_obl = []     # obligations the verifier did not discharge
    undecided = []
    crashes = []
    obl = disc = bobl = bdisc = 0
    how = {}
    fns = {}
    assumptions = []
    ev = dist = 0
    samples = []
    solver = 0.
    z3n = paths = 0
    vac = []
    stopped = []
    anylen = []       # contracts about sequences of any length
    for r in results:
        c = by[r['contract']]
        if c.loops:
            why = [r['crash']] if 'crash' in r else r['unsupported'] + r['bound'] + [
                '%s: %s' % (o['name'], o['detail'][:300]) for o in r['unknown'] + r['refuted']]
            if not why and not (r['obligations'] and r['paths']):
                why = ['no obligation was generated']
            anylen.append(dict(contract=c.name, discharged=not why, open=why[:4],
                               obligations=r.get('obligations', 0), proved=r.get('proved', 0)))
            if why:
                continue
        if 'crash' in r and r.get('stopped') and c.bounded and r['kind'] == 'sym':
            stopped.append('%s: %s' % (c.name, r['crash']))
            continue
        if 'crash' in r:
            crashes.append('%s (%s): %s' % (c.name, r['kind'], r['crash']))
            open_obl.append(dict(contract=c.name, obligation='engine', detail=r['crash']))
            continue
        if r['kind'] == 'sym':
            if c.bounded:
                bobl += r['obligations']
                bdisc += r['proved']
            else:
                obl += r['obligations']
                disc += r['proved']
            for k, v in r['how'].items():
                how[k] = how.get(k, 0) + v
            for f in r['functions']:
                fns.setdefault(f, []).append(c.name)
            solver += r['solver_s']
            z3n += r['z3']
            paths += r['paths']
            for a in r['assumptions']:
                if a not in assumptions:
                    assumptions.append(a)
            if not r['obligations'] or not r['paths']:
                vac.append(c.name)
                open_obl.append(dict(contract=c.name, obligation='feasible path',
                                     detail='no obligation was generated'))
            for u in r['bound']:
                stopped.append('%s: %s' % (c.name, u))
            for u in r['unsupported']:
                undecided.append('%s: %s' % (c.name, u))
                open_obl.append(dict(contract=c.name, obligation='extraction', detail=u))
            for u in r['unknown']:
                undecided.append('%s: %s undecided (%s)' % (c.name, u['name'], u['detail'][:120]))
                open_obl.append(dict(contract=c.name, obligation=u['name'],
                                     detail='undecided: ' + u['detail'][:600]))
            for f in r['refuted']:
                done = replay(c, f, seed)
                if done is not None:
                    viol.append(dict(contract=c.name, obligation=f['name'], via='symbolic',
                                     verifier=dict(how=f['how'], detail=f['detail'][:600]),
                                     observed=done, witness=done['witness'],
                                     choices=done['choices'], replayed=True))
                    break
            else:
                for f in r['refuted'][:4]:
                    open_obl.append(dict(contract=c.name, obligation=f['name'],
                                         detail='refuted: ' + f['detail'][:600],
                                         witness=f['witness'], choices=f['choices']))
                    undecided.append('%s: %s refuted by the verifier but not reproduced by the '
                                     'code (%s)' % (c.name, f['name'], f['detail'][:200]))
        else:
            ev += r['evaluations']
            dist += r['distinct']
            samples += r['samples']
            for f in r['failures'][:1]:
                viol.append(dict(contract=c.name, obligation=f['name'], via='run-time check',
                                 observed=dict(name=f['name'], detail=f['detail']),
                                 witness=f['witness'], choices=f['choices'], replayed=True))
            if not r['ok'] and not r['failures'] and not c.sym:
                vac.append(c.name)
                open_obl.append(dict(contract=c.name, obligation='non-vacuous run',
                                     detail='no run satisfied the preconditions'))
    if open_obl and not viol:
        # look for an input of the real code that fails the same contract
        names = sorted({o['contract'] for o in open_obl if by[o['contract']].con})
        for r in results:
            if 'inputs' in r:
                INPUTS[r['contract']] = r['inputs'][True] + r['inputs'][False]
        if names:
            todo = [(prop, n, seed + 7919) for n in names]
            if 1:
                for r in run_tasks(search, todo, {t: 60 for t in todo}, jobs,
                                   max(t0 + total, time.time()) + 90, by):
                    for f in r.get('failures', [])[:1]:
                        o = [o for o in open_obl if o['contract'] == r['contract']][0]
                        viol.append(dict(contract=r['contract'], obligation=f['name'],
                                         via='search after an open obligation', verifier=o,
                                         observed=dict(name=f['name'], detail=f['detail']),
                                         witness=f['witness'], choices=f['choices'],
                                         replayed=True))
    known = []
    fresh = []
    for v in viol:
        for kf in known_findings():
            if kf['property'] == prop and kf['contract'] == v['contract'] and \
                    v['obligation'].startswith(kf['obligation']):
                known.append((kf, v))
                break
        else:
            fresh.append(v)
    lines = []
    for kf in {id(k): k for k, v in known}.values():
        lines.append('KNOWN-FINDING: property=%s %s' % (prop, kf['what']))
    out_dir = os.path.join(EVID, 'replay')
    if fresh:
        os.makedirs(out_dir, exist_ok=True)
        f = fresh[0]
        path = os.path.join(out_dir, '%s-%s.json' % (prop, f['contract']))
        with open(path, 'w') as fh:
            json.dump(dict(property=prop, tier=tier, seed=seed, violations=fresh,
                           reproduce='python3 check.py --replay %s' % path), fh, indent=1,
                      default=str)
        for v in fresh[:6]:
            lines.append('FAILED %s / %s (%s): %s' % (
                v['contract'], v['obligation'], v['via'],
                str(v['observed'].get('detail'))[:300].replace('\n', ' | ')))
        lines.append('VIOLATION property=%s replay=%s' % (prop, path))
    known_names = {kf['contract'] for kf, v in known}
    open_obl = [o for o in open_obl if o['contract'] not in known_names]
    nfi = bool(open_obl) and not fresh
    if nfi:
        os.makedirs(out_dir, exist_ok=True)
        path = os.path.join(out_dir, '%s-open.json' % prop)
        with open(path, 'w') as fh:
            json.dump(dict(property=prop, tier=tier, seed=seed, violations=[],
                           failed_obligations=open_obl), fh, indent=1, default=str)
        for o in open_obl[:6]:
            lines.append('NOT DISCHARGED %s / %s: %s' % (
                o['contract'], o['obligation'], str(o['detail'])[:300].replace('\n', ' | ')))
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
    wall = time.time() - t0
    meta = propmeta(prop)
    cov = dict(
        obligations=obl, discharged=disc,
        checker_cmd='PVC symbolic executor over /repo sources + exact normal forms, z3 %s, cvc5'
                    % z3ver(),
        trusted_base=TRUSTED,
        bounded=dict(contracts=[dict(name=c.name, bound=c.bounded) for c in cs if c.bounded],
                     obligations=bobl, discharged=bdisc, stopped=stopped),
        any_length=dict(
            rule='loop rule by induction (pvc/loops.py); a contract not discharged here is left '
                 'to the contracts that enumerate the lengths', contracts=anylen),
        by_back_end=how, functions_under_contract=fns, paths=paths,
        solver_s=round(solver, 2), z3_queries=z3n, undecided=undecided, vacuous=vac,
        engine_errors=crashes,
        evaluations=ev, distinct_nontrivial=dist,
        rule='run-time evaluation of the same contracts on the untouched code; inputs drawn from '
             'the preconditions by seed, one in four with special values; non-trivial: at least '
             'one postcondition was evaluated and the inputs differ from all earlier ones',
        samples=samples[:12],
        explanation='Contracts verified by symbolic execution of the code extracted from /repo on '
                    'this run; every obligation is for all inputs satisfying the preconditions '
                    'unless listed under bounded.')
    data = dict(property=prop, tier=tier, seed=seed, level=meta.get('level', 'other'),
                coverage=cov,
                assumptions=meta.get('assumptions', []) + assumptions,
                wall_s=round(wall, 2), violations=len(fresh) + int(nfi))
    os.makedirs(EVID, exist_ok=True)
    if not only:
        with open(os.path.join(EVID, prop + '.json'), 'w') as fh:
            json.dump(data, fh, indent=1, default=str)
    print('%s: %d obligations, %d discharged (bounded: %d/%d), %d paths, %d run-time evaluations, '
          '%.1f s' % (prop, obl, disc, bdisc, bobl, paths, ev, wall))
    for u in undecided[:12]:
        print('UNDECIDED ' + u.replace('\n', ' | ')[:500])
    for u in stopped:
        print('BOUND REACHED ' + u)
    for u in anylen:
        print('ANY LENGTH %s: %s' % (u['contract'], '%d obligations discharged' % u['proved']
                                     if u['discharged'] else 'left to the enumeration (%s)'
                                     % ' | '.join(u['open'])[:400].replace('\n', ' | ')))
    for v in vac:
        print('VACUOUS ' + v)
    for v in crashes:
        print('ENGINE-ERROR ' + v)
    for l in lines:
        print(l)
    if os.environ.get('PVC_TIMES'):
        for r in sorted(results, key=lambda r: -r.get('wall', 0)):
            print('  %-40s %s %.1fs paths=%s obl=%s' % (
                r['contract'], r['kind'], r.get('wall', 0), r.get('paths', ''),
                r.get('obligations', '')))
    sys.stdout.flush()
    return 1 if fresh or nfi else 0


TRUSTED = [
    'the PVC engine (/verif/pvc): extraction, symbolic reals, path exploration, obligations',
    'z3 and cvc5 for the obligations that are not decided by the normal form',
    'CPython and numpy array mechanics (views, slices, broadcasting) on object arrays',
    'contracts of numpy.linalg functions as written in pvc/npx.py',
    'floating-point arithmetic treated as exact real arithmetic',
]


def z3ver():
    try:
        import z3
        return z3.get_version_string()
    except Exception:
        return '?'


def propmeta(prop):
    try:
        from . import props
        return props.META.get(prop, {})
    except ImportError:
        return {}
