"""Runs the symbolic check of one property: python3-vt -m symx.run C04"""
import hashlib
import importlib
import json
import multiprocessing
import os
import pickle
import random
import re
import resource
import signal
import sys
import time
import traceback

sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SYMX_REPO', '/repo')
PKG = os.path.join(REPO, 'xlrd')

from . import engine, rewrite, runtime, values, api        # noqa: E402


class NS(object):
    def __init__(self, pkg, prefix, world):
        self.xlrd = pkg
        self.world = world
        for f in os.listdir(PKG):
            if f.endswith('.py') and f != '__init__.py':
                n = f[:-3]
                m = sys.modules.get(prefix + '.' + n)
                if m is not None:
                    setattr(self, n, m)

    def patch_builtin(self, name, f):
        """Replace a builtin (such as open) for the code under test."""
        raise NotImplementedError


class SymNS(NS):
    def patch(self, modname, attr, val):
        setattr(getattr(self, modname), attr, val)

    def patch_open(self, f):
        self.world.builtins['open'] = f
        self._restore = True

    def patch_all(self, attr, val):
        """Replace a module global wherever the package has it."""
        for m in self.world.modules():
            if attr in vars(m):
                setattr(m, attr, val)


class RealNS(NS):
    def patch(self, modname, attr, val):
        setattr(getattr(self, modname), attr, val)

    def patch_open(self, f):
        import builtins
        for m in list(sys.modules.values()):
            if getattr(m, '__name__', '').split('.')[0] == 'xlrd':
                m.__dict__['open'] = f

    def patch_all(self, attr, val):
        for m in list(sys.modules.values()):
            if getattr(m, '__name__', '').split('.')[0] == 'xlrd' and attr in vars(m):
                setattr(m, attr, val)


def real_ns():
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    import xlrd
    assert os.path.dirname(os.path.abspath(xlrd.__file__)) == os.path.abspath(PKG), xlrd.__file__
    for f in sorted(os.listdir(PKG)):
        if f.endswith('.py') and f != '__init__.py':
            importlib.import_module('xlrd.' + f[:-3])
    return RealNS(xlrd, 'xlrd', None)


def plain_harness(name):
    if VERIF not in sys.path:
        sys.path.insert(0, VERIF)
    return importlib.import_module('harness.' + name)


def prepare(H, sx, X, case):
    """Circumstances of a case: see harness/biff.py AFTER, BESIDE."""
    B = importlib.import_module(H.__package__ + '.biff')
    B.AFTER = B.BESIDE = B.OLE = None
    if case.get('ole'):
        B.OLE = importlib.import_module(H.__package__ + '.ole').wrap
    if case.get('after') or case.get('beside'):
        R = importlib.import_module(H.__package__ + '.rich')
        if case.get('beside'):
            B.BESIDE = R.beside
        else:
            B.AFTER = lambda: R.pollute(sx, X, case['after'])
            B.AFTER()


def bounds(H):
    """The bounds of a harness in words."""
    out = list(getattr(H, 'BOUNDS', []))
    iso = getattr(H, 'ISO', {})
    if 'after' in iso:
        out.append('some of the cases again while another workbook with one of everything is opened and read before and '
                   'after the one examined (cases "+after")')
    if 'beside' in iso:
        out.append('some of the cases again with a further sheet with one of everything in the workbook (cases "+beside")')
    if 'ole' in iso:
        out.append('some of the cases again with the stream stored in a compound file (cases "+ole")')
    return out


def iso_cases(H, cases):
    """Copies of some cases in the presence of other workbooks or sheets."""
    out = []
    for kind, names in sorted(getattr(H, 'ISO', {}).items()):
        for c in cases:
            if re.fullmatch(names, c['name']):
                c2 = dict(c, name=c['name'] + '+' + kind)
                c2[kind] = c.get('bv', 80) if kind == 'after' else 1
                out.append(c2)
    return cases + out


class ReplayTimeout(BaseException):
    pass


def run_concrete(hname, case, vals, timeout=20):
    """Run the harness on the real code; returns a result dict."""
    X = real_ns()
    H = plain_harness(hname)
    sx = api.ConX(vals)
    res = {'failed': [], 'exc': None, 'skip': None, 'obs': [], 'checks': 0}

    def onalarm(sig, frm):
        raise ReplayTimeout()
    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(timeout)
    devnull = open(os.devnull, 'w')
    so, se = sys.stdout, sys.stderr
    sys.stdout = sys.stderr = devnull
    try:
        prepare(H, sx, X, case)
        H.harness(sx, X, case)
    except api.Skip as e:
        res['skip'] = str(e)
    except ReplayTimeout:
        res['exc'] = 'nontermination (no result after %d s)' % timeout
    except Exception as e:
        res['exc'] = exc_label(e)
    finally:
        signal.alarm(0)
        sys.stdout, sys.stderr = so, se
    res['failed'] = sx.failed
    res['checks'] = sx.nchecks
    res['obs'] = [(l, api.norm(v)) for l, v in sx.observed]
    res['reached'] = sorted(sx.reached)
    return res


def exc_label(e):
    tb = traceback.extract_tb(e.__traceback__)
    where = ''
    for fr in reversed(tb):
        if '/xlrd/' in fr.filename:
            where = ' at %s in %s' % (os.path.basename(fr.filename), fr.name)
            break
    try:
        msg = str(e)[:160]
    except BaseException:
        msg = '?'
    return 'exception %s%s: %s' % (type(e).__name__, where, msg)


def forked(fn, *a, **k):
    """Run fn in a forked child (fresh module state of the real package)."""
    mem = k.pop('mem', 6 << 30)
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
            except Exception:
                pass
            try:
                out = fn(*a, **k)
            except BaseException as e:
                out = {'failed': [], 'exc': 'harness error %s: %s' % (type(e).__name__, e),
                       'skip': None, 'obs': [], 'checks': 0, 'reached': []}
            with os.fdopen(w, 'wb') as fh:
                pickle.dump(out, fh)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as fh:
        data = fh.read()
    os.waitpid(pid, 0)
    if not data:
        return {'failed': [], 'exc': 'the interpreter died', 'skip': None, 'obs': [],
                'checks': 0, 'reached': []}
    return pickle.loads(data)


_W = {}


def worker_init(hname):
    sys.setrecursionlimit(3000)
    w = rewrite.World(PKG)
    hw = rewrite.World(os.path.join(VERIF, 'harness'), 'harness_sx', 'harness')
    pkg = w.load()
    _W['world'] = w
    _W['hw'] = hw
    _W['pkg'] = pkg
    import builtins
    builtins.__import__('harness_sx.' + hname)
    _W['H'] = sys.modules['harness_sx.' + hname]
    real_ns()
    plain_harness(hname)


def fresh_ns():
    w = _W['world']
    if w.fingerprint() != w.base:
        w.load()
    w.builtins['open'] = open
    return SymNS(sys.modules[w.pkgname], w.pkgname, w)


def run_case(args):
    hname, case, opts = args
    try:
        return _run_case(hname, case, opts)
    except BaseException as e:
        return {'case': case['name'], 'error': '%s: %s\n%s' % (type(e).__name__, e,
                                                               traceback.format_exc())}


def _run_case(hname, case, opts):
    t0 = time.time()
    H = _W['H']
    runtime.COVER.clear()
    ho = dict(getattr(H, 'OPTS', {}))
    ho.update(case.get('opts', {}))
    ex = engine.Explorer(query_timeout_ms=ho.get('query_ms', 120000),
                         fanout=ho.get('fanout', 300),
                         max_branches=ho.get('max_branches', 5000),
                         max_steps=ho.get('max_steps', 100000),
                         lia=ho.get('lia', 0),
                         max_paths=ho.get('max_paths', 10 ** 9),
                         deadline=opts['deadline'])
    rng = random.Random('%s/%s' % (opts['seed'], case['name']))
    out = {'case': case['name'], 'violations': [], 'inconclusive': [], 'partial': [],
           'reached': set(), 'samples': [], 'validated': 0, 'mismatch': [], 'known': []}
    nsample = ho.get('samples', 4)
    known = opts['known']
    seen_labels = set()

    def candidate(label, vals, kind):
        """Replay a counterexample on the real code."""
        key = re.sub(r'\d+', '#', label)[:80]
        if key in seen_labels:
            return
        res = forked(run_concrete, hname, case, vals)
        if res['skip'] is not None:
            out['inconclusive'].append('%s: replay left the input space (%s)' % (label, res['skip']))
            return
        bad = list(res['failed'])
        if res['exc']:
            bad.append(res['exc'])
        if not bad:
            if kind == 'exc':
                out['partial'].append('engine: ' + label)
            elif kind == 'steps':
                out['partial'].append('step limit: ' + label)
            else:
                out['inconclusive'].append('counterexample for "%s" does not reproduce: %r'
                                           % (label, compact(vals)))
            return
        seen_labels.add(key)
        for kf in known:
            if all(re.search(kf['label'], b) for b in bad) and \
                    re.search(kf.get('case', '.*'), case['name']):
                out['known'].append(kf['id'])
                return
        out['violations'].append({'label': label, 'failed': bad, 'inputs': vals})
        if len(out['violations']) >= 3:
            ex.stop = True

    def run_path(p):
        X = fresh_ns()
        sx = api.SymX(p)
        exc = None
        steps = False
        try:
            prepare(H, sx, X, case)
            H.harness(sx, X, case)
        except engine.PathEnd:
            if p.dead:
                return
        except engine.StepLimit:
            steps = True
        except (engine.BudgetExceeded, engine.Inconclusive):
            raise
        except engine.Unsupported as e:
            vals = p.input_values(p.get_model())
            out['partial'].append('unsupported: %s' % e)
            res = forked(run_concrete, hname, case, vals)
            if res['failed'] or (res['exc'] and not res['skip']):
                candidate((res['failed'] or [res['exc']])[0], vals, 'check')
            return
        except Exception as e:
            exc = e
        out['reached'] |= p.reached
        for label, vals in p.flush():
            candidate(label, vals, 'check')
        if p.pinned:
            out['partial'].append('pinned: ' + '; '.join(sorted(set(map(str, p.pins))))[:200])
        if exc is not None:
            if os.environ.get('SYMX_TB'):
                traceback.print_exception(exc)
            candidate(exc_label(exc), p.input_values(p.get_model()), 'exc')
            return
        if steps:
            candidate('nontermination (step limit)', p.input_values(p.get_model()), 'steps')
            return
        n = ex.stats.paths
        take = len(out['samples']) < 2 or rng.random() < nsample / float(n + 1)
        if take and out['validated'] < nsample * 2:
            m = p.get_model()
            vals = p.input_values(m)
            exp = [(l, api.norm(api.model_value(v, m))) for l, v in p.observed]
            res = forked(run_concrete, hname, case, vals)
            out['validated'] += 1
            if res['failed'] or res['exc']:
                candidate((res['failed'] or [res['exc']])[0], vals, 'check')
            elif res['skip'] is not None:
                out['mismatch'].append('path model rejected by the concrete run (%s)' % res['skip'])
            elif json.loads(json.dumps(exp)) != json.loads(json.dumps(res['obs'])):
                out['mismatch'].append('observation differs: inputs %r symbolic %r real %r' %
                                       (compact(vals), exp, res['obs']))
            if len(out['samples']) < 3:
                out['samples'].append({'case': case['name'], 'inputs': compact(vals),
                                       'decisions': len(p.trace), 'observed': trim(exp)})

    complete, why = True, None
    try:
        complete, why = ex.explore(run_path)
    except engine.Inconclusive as e:
        out['inconclusive'].append(str(e))
        complete, why = False, 'solver'
    if not complete:
        out['partial'].append('not exhausted: %s' % why)
    out['stats'] = ex.stats.as_dict()
    out['reached'] = sorted(out['reached'])
    out['cover'] = sorted(runtime.COVER)
    out['wall'] = time.time() - t0
    return out


def compact(vals):
    """Group name[i] inputs into hex strings for readability."""
    out = {}
    groups = {}
    for k, v in vals.items():
        m = re.match(r'^(.*)\[(\d+)\]$', k)
        if m and 0 <= v <= 255:
            groups.setdefault(m.group(1), {})[int(m.group(2))] = v
        else:
            out[k] = v
    for g, d in groups.items():
        out[g] = ' '.join('%02x' % d.get(i, 0) for i in range(max(d) + 1))
    return out


def trim(x, n=300):
    s = json.dumps(x)
    return x if len(s) <= n else s[:n] + '...'


def load_known(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as fh:
        d = json.load(fh)
    return [k for k in d.get('findings', []) if k['property'] == prop]


def main(argv):
    prop = argv[0]
    only = None
    if len(argv) > 1:
        only = argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    hname = prop.lower()
    H = plain_harness(hname)
    cases = iso_cases(H, H.cases(tier))
    if only:
        cases = [c for c in cases if re.search(only, c['name'])]
    budget = float(os.environ.get('SYMX_BUDGET', 780 if tier == 'quick' else 10 ** 5))
    known = load_known(prop)
    opts = {'deadline': t0 + budget, 'seed': seed, 'known': known}
    nproc = int(os.environ.get('SYMX_PROCS', os.cpu_count() or 4))
    results = []
    violation = None
    errors = []
    os.makedirs(os.path.join(VERIF, 'evidence', 'replays'), exist_ok=True)
    work = [(hname, c, opts) for c in cases]
    work.sort(key=lambda t: -t[1].get('weight', 1))
    if nproc <= 1:
        worker_init(hname)
        it = map(run_case, work)
        pool = None
    else:
        pool = multiprocessing.Pool(min(nproc, max(1, len(work))), worker_init, (hname,),
                                    maxtasksperchild=50)
        it = pool.imap_unordered(run_case, work, chunksize=1)
    try:
        for r in it:
            if 'error' in r:
                errors.append('%s: %s' % (r['case'], r['error']))
                continue
            results.append(r)
            if r['violations'] and violation is None:
                violation = (r['case'], r['violations'][0])
                if not os.environ.get('SYMX_ALL'):
                    break
            if os.environ.get('SYMX_V'):
                print('%-30s paths=%d dec=%d q=%d solver=%.1fs wall=%.1fs %s %s' % (
                    r['case'], r['stats']['paths'], r['stats']['decisions'],
                    r['stats']['queries'], r['stats']['solver_s'], r['wall'],
                    'VIOL ' + str([(v['label'], v['failed'], compact(v['inputs'])) for v in r['violations']])
                    if r['violations'] else '',
                    ' '.join(sorted(set(r['partial'] + r['inconclusive'] + r['mismatch'])))[:1500]), flush=True)
    finally:
        if pool is not None:
            pool.terminate()
            pool.join()

    reached = set()
    for r in results:
        reached |= set(r['reached'])
    required = set(getattr(H, 'REACH', ()))
    missing = sorted(required - reached) if not only else []
    inconclusive = [x for r in results for x in r['inconclusive']] + \
        [x for r in results for x in r['mismatch']]
    partial = sorted(set(x for r in results for x in r['partial']))
    knownhit = sorted(set(x for r in results for x in r['known']))
    tot = {}
    for r in results:
        for k, v in r['stats'].items():
            tot[k] = tot.get(k, 0) + v
    cover = sorted(set(x for r in results for x in r['cover'] if not x.startswith('harness')))
    samples = []
    for r in results:
        samples.extend(r['samples'][:1])
    samples = samples[:8] or [{'case': c['name']} for c in cases[:2]]
    wall = time.time() - t0
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': int(tot.get('paths', 0)),
            'transitions': int(tot.get('decisions', 0)),
            'traces_validated_against_impl': sum(r['validated'] for r in results),
            'samples': samples,
            'explanation': 'states = execution paths of the rewritten source explored to the end '
                           '(each stands for every input that follows it); transitions = branch '
                           'outcomes the solver found feasible both ways; on every path each '
                           'assertion was negated and given to z3.',
            'cases': len(results),
            'case_names': [r['case'] for r in results][:200],
            'functions_encoded': cover,
            'functions_encoded_count': len(cover),
            'assertions_checked': int(tot.get('checks', 0)),
            'assertion_queries': int(tot.get('assert_queries', 0)),
            'solver_queries': int(tot.get('queries', 0)),
            'solver_seconds': round(tot.get('solver_s', 0.0), 3),
            'integer_arithmetic_queries_cvc5': int(tot.get('lia', 0)),
            'solver_unknown': int(tot.get('unknown', 0)),
            'infeasible_paths_pruned': int(tot.get('infeasible', 0)),
            'concretisations_beyond_fanout': int(tot.get('pins', 0)),
            'exhaustive': not partial and not inconclusive and not errors and not missing and violation is None,
            'incomplete': partial[:20],
            'bounds': bounds(H),
            'reachability_witnesses': sorted(reached & required),
            'engine': 'symx (dynamic symbolic execution of the AST-rewritten source of %s) + z3 %s'
                      % (PKG, __import__('z3').get_version_string()),
            'source_sha256': source_hash(),
        },
        'assumptions': list(getattr(H, 'ASSUMES', [])) + GLOBAL_ASSUMES,
        'wall_s': round(wall, 2),
        'violations': sum(len(r['violations']) for r in results),
    }
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, sort_keys=True)
    for kid in knownhit:
        kf = [k for k in known if k['id'] == kid][0]
        print('KNOWN-FINDING: property=%s %s' % (prop, kf['what']))
    print('%s: %d cases, %d paths, %d decisions, %d queries, %.1fs solver, %d replayed, %.1fs'
          % (prop, len(results), tot.get('paths', 0), tot.get('decisions', 0),
             tot.get('queries', 0), tot.get('solver_s', 0), ev['coverage']
             ['traces_validated_against_impl'], wall))
    if violation is not None:
        case = [c for c in cases if c['name'] == violation[0]][0]
        rp = os.path.join(VERIF, 'evidence', 'replays', '%s-%s.json' % (
            prop, hashlib.sha1(json.dumps([violation[0], violation[1]['inputs']],
                                          sort_keys=True).encode()).hexdigest()[:10]))
        with open(rp, 'w') as fh:
            json.dump({'property': prop, 'harness': hname, 'case': case,
                       'label': violation[1]['label'], 'failed': violation[1]['failed'],
                       'inputs': violation[1]['inputs']}, fh, indent=1, sort_keys=True)
        print('counterexample (reproduced on the real code): case %s: %s; inputs %s' % (
            violation[0], '; '.join(violation[1]['failed'])[:600],
            json.dumps(compact(violation[1]['inputs']), sort_keys=True)[:1500]))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    rc = 0
    for p in partial[:10]:
        print('INCOMPLETE: %s' % p)
    for e in errors:
        print('ERROR: %s' % e)
        rc = 2
    for e in inconclusive[:10]:
        # nothing was refuted; the evidence says that the exploration is not exhaustive
        print('INCONCLUSIVE: %s' % e[:1500])
        if os.environ.get('SYMX_STRICT'):
            rc = 2
    if missing and not partial:
        print('VACUOUS: never reached %s' % ', '.join(missing))
        rc = 2
    return rc


GLOBAL_ASSUMES = [
    'The rewriting of the source (symx/rewrite.py) and the symbolic models of Python ints, bytes, '
    'str, float, dict, list, struct, array and re operations preserve the behaviour of CPython; '
    'sampled path models are re-run on the unmodified code and must give the same observations.',
    'z3 is sound.',
    'Text written to the log file is not part of the behaviour unless the property is about it.',
]


def source_hash():
    h = hashlib.sha256()
    for f in sorted(os.listdir(PKG)):
        if f.endswith('.py'):
            with open(os.path.join(PKG, f), 'rb') as fh:
                h.update(fh.read())
    return h.hexdigest()


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
