"""Explores every path of a property's harnesses and replays each on the real package."""
import collections
import importlib
import json
import multiprocessing as mp
import os
import random
import resource
import subprocess
import sys
import time
import traceback

from . import isolate

VERIF, REPO = isolate.VERIF, isolate.REPO
PATH_CPU_S = 60          # cpu seconds for one execution of a harness
CONC_CPU_S = 20


class Harness:
    def __init__(self, name, fn, quick=({},), thorough=None, witness=(), max_decisions=4000):
        self.name = name
        self.fn = fn
        self.quick = [_plain(c) for c in quick]
        self.thorough = [_plain(c) for c in thorough] if thorough is not None else self.quick
        self.witness = set(witness)
        self.max_decisions = max_decisions

    def cases(self, tier):
        return self.thorough if tier == 'thorough' else self.quick


def load(prop):
    return importlib.import_module('harness.' + prop.lower())


def import_all():
    """Import every module of the package, so that snapshots are complete."""
    base = os.path.join(REPO, 'openleadr')
    for d, dirs, files in os.walk(base):
        dirs.sort()
        for f in sorted(files):
            if f.endswith('.py'):
                rel = os.path.relpath(os.path.join(d, f), REPO)[:-3].replace(os.sep, '.')
                if rel.endswith('.__init__'):
                    rel = rel[:-9]
                if rel in ('openleadr.fingerprint',) or rel.endswith('__main__'):
                    continue
                importlib.import_module(rel)


def where(exc):
    """(short text, in_harness): where an exception was raised"""
    tb = traceback.extract_tb(exc.__traceback__)
    frames = [f for f in tb if '/symex/' not in f.filename]
    last = frames[-1] if frames else None
    try:
        text = '%s: %s' % (type(exc).__name__, str(exc)[:200])
    except Exception:                # the message holds a symbolic value and the path has ended
        text = type(exc).__name__
    loc = ''
    if last is not None:
        loc = '%s:%s in %s' % (last.filename.replace(REPO, '').replace(VERIF, ''), last.lineno, last.name)
    return text, loc, bool(last and (VERIF + '/harness') in last.filename)


def api_missing(exc):
    """The harness asked for a name the package does not have (any more)."""
    _, _, inh = where(exc)
    if isinstance(exc, ImportError):
        return True
    if isinstance(exc, (AttributeError, NameError)) and inh:
        return True
    return False


# ---------------------------------------------------------------------------
# concrete side
# ---------------------------------------------------------------------------

class ConcreteRunner:
    def __init__(self, prop):
        isolate.common()
        sys.path.insert(0, VERIF)
        sys.path.insert(0, REPO)
        import_all()
        self.mod = load(prop)
        self.harnesses = self.mod.HARNESSES
        isolate.patch_clock()
        self.snap = isolate.Snapshot()

    def run(self, hi, case, inputs):
        from .ctx import ConcreteCtx
        from .engine import PathEnd, PathInfeasible
        self.snap.restore()
        isolate._uuid_counter[0] = 0
        ctx = ConcreteCtx(inputs)
        isolate.ACTIVE[0] = ctx
        res = {'outcome': 'done', 'error': None}
        isolate.arm(CONC_CPU_S)
        try:
            self.harnesses[hi].fn(ctx, case)
        except PathInfeasible:
            res['outcome'] = 'infeasible'
        except PathEnd:
            res['outcome'] = 'stopped'
        except isolate.RunTimeout:
            res['outcome'] = 'timeout'
            ctx.checks.append(('the run terminates', False))
        except Exception as e:
            if api_missing(e):
                res['outcome'] = 'unusable'
            else:
                res['outcome'] = 'exception'
                ctx.checks.append(('no unexpected exception', False))
            t, l, _ = where(e)
            res['error'] = t + ' @ ' + l
        finally:
            isolate.disarm()
            isolate.ACTIVE[0] = None
            try:
                ctx.close()
            except BaseException:
                pass
        res['checks'] = ctx.checks
        res['observed'] = ctx.observed
        res['missing'] = ctx.missing
        return res


VARIANTS = int(os.environ.get('VERIF_VARIANTS', '1'))      # further models of each path that are replayed
VARIANT_TRIES = 6


def concrete_main(prop, conn):
    isolate.silence()
    try:
        r = ConcreteRunner(prop)
    except BaseException as e:
        conn.send(('fail', '%s: %s' % (type(e).__name__, e)))
        return
    conn.send(('ok', None))
    while True:
        try:
            msg = conn.recv()
        except EOFError:
            return
        if msg is None:
            return
        hi, case, inputs = msg
        res = r.run(hi, case, inputs)
        try:
            conn.send(res)
        except Exception:
            res['observed'] = []
            conn.send(res)


# ---------------------------------------------------------------------------
# symbolic side
# ---------------------------------------------------------------------------

class SymbolicRunner:
    def __init__(self, prop):
        isolate.common()
        sys.path.insert(0, REPO)
        from . import instrument
        instrument.install({'openleadr': (REPO, True), 'harness': (VERIF, False)})
        import_all()
        self.mod = load(prop)
        self.harnesses = self.mod.HARNESSES
        self.snap = isolate.Snapshot()

    def run(self, hi, case, prefix, stats):
        """-> dict describing the path"""
        from . import engine, runtime, values
        from .ctx import SymCtx
        self.snap.restore()
        isolate._uuid_counter[0] = 0
        h = self.harnesses[hi]
        box = {}

        def fn(p):
            ctx = SymCtx(p)
            box['ctx'] = ctx
            runtime.CLOCK = ctx.now
            isolate.ACTIVE[0] = ctx
            try:
                h.fn(ctx, case)
                if p.ended is not None:
                    raise p.ended
            finally:
                try:
                    ctx.close()
                except BaseException:
                    pass
        isolate.arm(PATH_CPU_S)
        try:
            try:
                p, outcome, exc = engine.run_path(fn, prefix, stats, max_decisions=h.max_decisions)
            except isolate.RunTimeout:
                p, outcome, exc = engine.LAST, 'budget', None
        finally:
            isolate.disarm()
            isolate.ACTIVE[0] = None
        if p.ended is not None and outcome in ('done', 'exception'):
            outcome = engine.outcome_of(p.ended)
            exc = p.ended
        res = {'outcome': outcome, 'error': None, 'pending': p.pending, 'reached': p.reached,
               'lost': p.lost, 'counters': p.counters, 'candidates': p.candidates, 'checks': p.checks,
               'decisions': len(p.decisions), 'inputs': None, 'observed': None}
        if outcome == 'infeasible':
            if p.candidates:        # nothing is left once the failed check is assumed
                res['outcome'] = 'stopped'
            return res
        if exc is not None:
            t, l, _ = where(exc)
            res['error'] = t + ' @ ' + l
            if outcome == 'exception' and api_missing(exc):
                res['outcome'] = 'unusable'
        try:
            engine.CURRENT = p
            m = p.get_model()
            res['inputs'] = p.concretise_inputs(m)
            if outcome in ('done', 'stopped'):
                obs = []
                for l, v in p.observed:
                    obs.append((l, values.concretise(v, m)))
                res['observed'] = obs
            res['variants'] = []
            for k in range(VARIANTS if outcome == 'done' else 0):
                m = engine.variant(p, random.Random('%s %d %s' % (len(p.decisions), k, res['inputs'])), VARIANT_TRIES)
                if m is not None:
                    res['variants'].append((p.concretise_inputs(m), [(l, values.concretise(v, m)) for l, v in p.observed]))
        except engine.PathInfeasible:
            res['outcome'] = 'infeasible'
        except BaseException as e:
            res['lost'] = res['lost'] + ['no model: %s' % (str(e)[:100] or type(e).__name__)]
        finally:
            engine.CURRENT = None
        return res


def _plain(v, depth=0):
    """something picklable and comparable"""
    if isinstance(v, dict):
        return {str(k): _plain(x, depth + 1) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [_plain(x, depth + 1) for x in v]
    if v is None or isinstance(v, (bool, int, float, str)):
        return v
    return str(v)


class Companion:
    def __init__(self, prop):
        self.prop = prop
        self.start()

    def start(self):
        ctx = mp.get_context('fork')
        self.conn, child = ctx.Pipe()
        self.proc = ctx.Process(target=concrete_main, args=(self.prop, child))
        self.proc.start()
        child.close()
        kind, msg = self.conn.recv()
        if kind != 'ok':
            raise RuntimeError('cannot load the package: ' + msg)

    def run(self, hi, case, inputs):
        try:
            self.conn.send((hi, case, inputs))
            if self.conn.poll(CONC_CPU_S * 4):
                return self.conn.recv()
        except (EOFError, BrokenPipeError, OSError):
            pass
        try:
            self.proc.kill()
            self.proc.join()
        except Exception:
            pass
        self.start()
        return {'outcome': 'crash', 'checks': [], 'observed': [], 'error': 'companion process died or hung',
                'missing': []}

    def stop(self):
        try:
            self.conn.send(None)
            self.proc.join(2)
        except Exception:
            pass
        if self.proc.is_alive():
            self.proc.kill()


def worker_main(prop, tier, conn):
    isolate.silence()
    comp = None
    try:
        # the companion must be forked before anything of the package is loaded
        comp = Companion(prop)
        sr = SymbolicRunner(prop)
        from .engine import Stats
        from . import runtime
        conn.send(('ready', None))
    except BaseException as e:
        conn.send(('fail', '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:])))
        if comp:
            comp.stop()
        return
    try:
        while True:
            msg = conn.recv()
            if msg is None:
                break
            hi, ci, prefix, slice_s, max_paths = msg
            h = sr.harnesses[hi]
            case = h.cases(tier)[ci]
            stats = Stats()
            out = {'paths': collections.Counter(), 'violations': [], 'leftover': [], 'reached': set(),
                   'lost': collections.Counter(), 'counters': collections.Counter(), 'validated': 0,
                   'diverged': [], 'candidates': 0, 'unreproduced': [], 'unsupported': collections.Counter(),
                   'samples': [], 'decisions': 0, 'labels': collections.Counter(), 'concrete_runs': 0,
                   'unusable': collections.Counter(), 'known_runs': 0}
            t0 = time.time()
            stack = [prefix]
            n = 0
            while stack:
                if n and (time.time() - t0 > slice_s or n >= max_paths):
                    break
                pre = stack.pop()
                n += 1
                r = sr.run(hi, case, pre, stats)
                stack.extend(r['pending'])
                out['paths'][r['outcome']] += 1
                out['decisions'] += r['decisions']
                for l in r['lost']:
                    out['lost'][l] += 1
                for k, v in r['counters'].items():
                    out['counters'][k] += v
                if r['outcome'] == 'infeasible' and not r['candidates']:
                    continue
                out['reached'] |= r['reached']
                for l, verdict in r['checks']:
                    out['labels'][l] += 1
                if r['outcome'] == 'unsupported':
                    out['unsupported'][r['error'][:160]] += 1
                if r['outcome'] == 'unusable':
                    out['unusable'][r['error'][:160]] += 1
                todo = [(msg_, inp) for msg_, inp in r['candidates']]
                out['candidates'] += len(todo)
                failed_here = False
                for label, inp in todo:
                    c = comp.run(hi, case, inp)
                    out['concrete_runs'] += 1
                    bad = [l for l, ok in c['checks'] if not ok]
                    if bad:
                        failed_here = True
                        for l in bad:
                            out['violations'].append({'harness': h.name, 'case': ci, 'label': l, 'inputs': inp,
                                                      'error': c['error']})
                    else:
                        out['unreproduced'].append({'harness': h.name, 'case': ci, 'label': label, 'inputs': inp,
                                                    'outcome': c['outcome'], 'error': c['error']})
                runs = [r] if r['inputs'] is not None else []
                for inputs, observed in r.get('variants', ()):
                    runs.append(dict(r, inputs=inputs, observed=observed))
                for r in runs:
                    c = comp.run(hi, case, r['inputs'])
                    out['concrete_runs'] += 1
                    bad = [l for l, ok in c['checks'] if not ok]
                    for l in bad:
                        out['violations'].append({'harness': h.name, 'case': ci, 'label': l,
                                                  'inputs': r['inputs'], 'error': c['error']})
                    if r['outcome'] in ('done', 'stopped', 'exception', 'unusable'):
                        same = True
                        why = None
                        if r['outcome'] == 'done' and c['outcome'] != 'done':
                            same, why = False, 'outcome %s %s' % (c['outcome'], c['error'])
                        elif r['outcome'] == 'exception' and c['outcome'] != 'exception':
                            same, why = False, 'symbolic run raised %s' % r['error']
                        elif r['outcome'] == 'unusable' and c['outcome'] != 'unusable':
                            same, why = False, 'symbolic run raised %s' % r['error']
                        elif r['observed'] is not None:
                            a, b = _plain(r['observed']), _plain(c['observed'])
                            if r['outcome'] == 'stopped':
                                b = b[:len(a)]
                            if a != b:
                                same, why = False, 'observed %s / %s' % (
                                    [x for x, y in zip(a, b) if x != y][:1], [y for x, y in zip(a, b) if x != y][:1])
                        if same and not bad and [l for l, v in r['checks'] if v == 'holds'] != \
                                [l for l, ok in c['checks'] if ok] and r['outcome'] == 'done':
                            same, why = False, 'different checks evaluated'
                        if same:
                            out['validated'] += 1
                        else:
                            out['diverged'].append({'harness': h.name, 'case': ci, 'inputs': r['inputs'],
                                                    'why': str(why)[:600]})
                    if len(out['samples']) < 1 and not bad:
                        out['samples'].append({'harness': h.name, 'case': case, 'inputs': r['inputs'],
                                               'checks': [l for l, _ in r['checks']][:12]})
            out['leftover'] = stack
            out['time'] = time.time() - t0
            out['stats'] = stats.as_dict()
            out['functions'] = set(runtime.FUNCTIONS)
            out['notes'] = set(runtime.NOTES)
            out['diverged'] = out['diverged'][:20]
            out['unreproduced'] = out['unreproduced'][:20]
            out['rss'] = resource.getrusage(resource.RUSAGE_SELF).ru_maxrss
            conn.send(('done', out))
    except (EOFError, KeyboardInterrupt):
        pass
    except BaseException as e:
        traceback.print_exc()
        try:
            conn.send(('fail', '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:])))
        except Exception:
            pass
    finally:
        comp.stop()


# ---------------------------------------------------------------------------
# parent
# ---------------------------------------------------------------------------

def known_findings(prop):
    """{(harness, label): text} of the committed file"""
    out = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path, encoding='utf-8'):
            line = line.strip()
            if line.startswith('known: '):
                head, _, text = line[7:].partition(' :: ')
                f = dict(kv.split('=', 1) for kv in head.split(' | '))
                if f['property'] == prop:
                    out[(f['harness'], f['check'])] = text
    return out


def meta_of(prop):
    """Harness names and cases, read in a child so the parent stays clean."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            isolate.common()
            sys.path.insert(0, VERIF)
            sys.path.insert(0, REPO)
            m = load(prop)
            data = {'level': getattr(m, 'LEVEL', 'model_checking'), 'bounds': m.BOUNDS,
                    'assumptions': getattr(m, 'ASSUMPTIONS', []),
                    'budget': getattr(m, 'BUDGET', {'quick': 90, 'thorough': 700}),
                    'harnesses': [{'name': h.name, 'quick': h.quick, 'thorough': h.thorough,
                                   'witness': sorted(h.witness)} for h in m.HARNESSES]}
            with os.fdopen(w, 'w') as f:
                f.write(json.dumps(data))
                f.flush()
            code = 0
        except BaseException:
            traceback.print_exc()
            sys.stderr.flush()
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r) as f:
        data = f.read()
    os.waitpid(pid, 0)
    return json.loads(data) if data else None


def confirm(prop, replay_path):
    """Re-run one counterexample in a fresh process on the unmodified package."""
    r = subprocess.run([sys.executable, os.path.join(VERIF, 'check.py'), prop, '--replay', replay_path],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    return r.returncode == 1, r.stdout.decode(errors='replace')


def replay(prop, path):
    d = json.load(open(path, encoding='utf-8'))
    r = ConcreteRunner(prop)
    hi = [i for i, h in enumerate(r.harnesses) if h.name == d['harness']][0]
    case = d['case']
    res = r.run(hi, case, d['inputs'])
    bad = [l for l, ok in res['checks'] if not ok]
    print('harness %s case %s' % (d['harness'], json.dumps(case)))
    print('inputs %s' % json.dumps(d['inputs'], ensure_ascii=True))
    print('outcome %s %s' % (res['outcome'], res['error'] or ''))
    for l, v in res['observed']:
        print('observed %s = %r' % (l, v))
    for l, ok in res['checks']:
        print(' %s %s' % ('ok  ' if ok else 'FAIL', l))
    return 1 if d['label'] in bad else 0


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('tier', nargs='?', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 2))
    ap.add_argument('--budget', type=float)
    ap.add_argument('--only')
    ap.add_argument('--keep-going', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args(argv)
    if a.replay:
        return replay(a.prop, a.replay)
    t0 = time.time()
    prop, tier = a.prop, a.tier
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    meta = meta_of(prop)
    if meta is None:
        print('the harness module of %s does not load' % prop)
        return finish_unusable(prop, tier, seed, t0, 'the harness module does not load against this tree')
    known = known_findings(prop)
    budget = a.budget or meta['budget'][tier]

    groups = {}
    for hi, h in enumerate(meta['harnesses']):
        if a.only and a.only != h['name']:
            continue
        for ci, c in enumerate(h[tier]):
            groups[(hi, ci)] = {'jobs': collections.deque([[]]), 'time': 0.0, 'running': 0, 'paths': 0}

    agg = {'paths': collections.Counter(), 'reached': collections.defaultdict(set), 'lost': collections.Counter(),
           'counters': collections.Counter(), 'validated': 0, 'diverged': [], 'candidates': 0, 'unreproduced': [],
           'unsupported': collections.Counter(), 'samples': [], 'decisions': 0, 'labels': collections.Counter(),
           'concrete_runs': 0, 'functions': set(), 'notes': set(), 'unusable': collections.Counter(), 'rss': 0,
           'n_div': 0, 'n_unrep': 0}
    from .engine import Stats
    stats = Stats()
    violations, known_hit = {}, {}
    ctx = mp.get_context('fork')
    workers = {}
    nw = max(1, a.jobs)
    for i in range(nw):
        pc, cc = ctx.Pipe()
        pr = ctx.Process(target=worker_main, args=(prop, tier, cc))
        pr.start()
        cc.close()
        workers[pc] = {'proc': pr, 'job': None, 'ready': False}
    errors = []
    stop = False
    from multiprocessing.connection import wait

    def dispatch():
        for c, w in workers.items():
            if not w['ready'] or w['job'] is not None or stop:
                continue
            avail = [k for k, g in groups.items() if g['jobs']]
            if not avail:
                return
            k = min(avail, key=lambda k: (groups[k]['time'] + 0.3 * groups[k]['running'], k))
            g = groups[k]
            prefix = g['jobs'].popleft()
            g['running'] += 1
            w['job'] = (k, prefix)
            total_jobs = sum(len(x['jobs']) for x in groups.values())
            slice_s = 0.15 if total_jobs < 2 * nw else 1.0
            w['started'] = time.time()
            c.send((k[0], k[1], prefix, slice_s, 400))

    while True:
        dispatch()
        if time.time() - t0 > budget:
            stop = True
        busy = [c for c, w in workers.items() if w['job'] is not None or not w['ready']]
        if not busy:
            break
        if stop and time.time() - t0 > budget + 90:
            break
        for c in wait(busy, timeout=1.0):
            w = workers[c]
            try:
                kind, out = c.recv()
            except (EOFError, OSError):
                errors.append('a worker process died')
                if w['job']:
                    groups[w['job'][0]]['running'] -= 1
                    agg['lost']['a worker process died during a path'] += 1
                del workers[c]
                continue
            if kind == 'fail':
                errors.append(out)
                if w['job']:
                    groups[w['job'][0]]['running'] -= 1
                    agg['lost']['a worker process failed during a path'] += 1
                w['proc'].join(1)
                del workers[c]
                continue
            if kind == 'ready':
                w['ready'] = True
                continue
            k, _ = w['job']
            w['job'] = None
            g = groups[k]
            g['running'] -= 1
            g['time'] += out['time']
            g['jobs'].extend(out['leftover'])
            g['paths'] += sum(out['paths'].values())
            hname = meta['harnesses'][k[0]]['name']
            stats.add(out['stats'])
            for f in ('paths', 'lost', 'counters', 'unsupported', 'labels', 'unusable'):
                agg[f].update(out[f])
            for f in ('validated', 'candidates', 'decisions', 'concrete_runs'):
                agg[f] += out[f]
            agg['reached'][hname] |= out['reached']
            agg['functions'] |= out['functions']
            agg['notes'] |= out['notes']
            agg['rss'] = max(agg['rss'], out['rss'])
            agg['n_div'] += len(out['diverged'])
            agg['n_unrep'] += len(out['unreproduced'])
            agg['diverged'].extend(out['diverged'][:3])
            agg['unreproduced'].extend(out['unreproduced'][:3])
            if len(agg['samples']) < 40:
                agg['samples'].extend(out['samples'])
            for v in out['violations']:
                key = (v['harness'], v['label'])
                if key in known:
                    known_hit.setdefault(key, v)
                elif key not in violations:
                    violations[key] = v
                    v['case_value'] = meta['harnesses'][k[0]][tier][v['case']]
                    if confirm_violation(prop, v):
                        if not a.keep_going:
                            stop = True
                    else:
                        agg['lost']['a counterexample did not reproduce in a fresh process: %s' % (key,)] += 1
        if not workers:
            break
    for c, w in list(workers.items()):
        try:
            if w['job'] is None:
                c.send(None)
        except Exception:
            pass
    deadline = time.time() + 3
    for c, w in workers.items():
        w['proc'].join(max(0.1, deadline - time.time()))
        if w['proc'].is_alive():
            kill_tree(w['proc'].pid)
    confirmed = [v for v in violations.values() if v.get('confirmed')]
    leftover = {}
    for (hi, ci), g in groups.items():
        if g['jobs'] or g['running']:
            leftover['%s/%d' % (meta['harnesses'][hi]['name'], ci)] = len(g['jobs']) + g['running']
    vacuous = []
    for h in meta['harnesses']:
        if a.only and a.only != h['name']:
            continue
        miss = set(h['witness']) - agg['reached'][h['name']]
        if miss:
            vacuous.append({'harness': h['name'], 'never reached': sorted(miss)})
    exhaustive = not leftover and not agg['lost'] and not agg['unsupported'] and not confirmed \
        and not agg['paths']['budget'] and not errors
    npaths = sum(v for k, v in agg['paths'].items() if k != 'infeasible')
    status = 'violation' if confirmed else ('held within the bounds' if exhaustive and not vacuous
                                            else 'held on everything explored; coverage incomplete')
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': meta['level'],
        'status': status,
        'wall_s': round(time.time() - t0, 2),
        'coverage': {
            'states': npaths,
            'transitions': agg['decisions'],
            'traces_validated_against_impl': agg['validated'],
            'samples': pick_samples(agg['samples']),
            'exhaustive_within_bounds': bool(exhaustive and not vacuous),
            'meaning': 'states = feasible symbolic paths of the harnesses through the real code; transitions = '
                       'branch decisions on them; every path was also run with one concrete solution on the '
                       'unmodified package and compared',
            'bounds': meta['bounds'],
            'assumptions': meta['assumptions'],
            'harnesses': [{'name': h['name'], 'cases': len(h[tier]),
                           'paths': sum(g['paths'] for k, g in groups.items() if k[0] == i)}
                          for i, h in enumerate(meta['harnesses'])],
            'functions_encoded': sorted(agg['functions']),
            'path_outcomes': dict(agg['paths']),
            'solver': {'name': 'z3 (python API)', **{k: (round(v, 3) if isinstance(v, float) else v)
                                                    for k, v in stats.as_dict().items()}},
            'checks_by_label': dict(agg['labels'].most_common(60)),
            'counterexample_candidates': agg['candidates'],
            'candidates_not_reproduced': agg['n_unrep'],
            'candidates_not_reproduced_samples': agg['unreproduced'][:5],
            'divergences_model_vs_impl': agg['n_div'],
            'divergence_samples': agg['diverged'][:5],
            'concrete_runs': agg['concrete_runs'],
            'unexplored_prefixes': leftover,
            'unsupported_paths': dict(agg['unsupported'].most_common(10)),
            'unusable_harness_runs': dict(agg['unusable'].most_common(10)),
            'lost': dict(agg['lost'].most_common(20)),
            'vacuous': vacuous,
            'notes': sorted(agg['notes']),
            'known_findings': ['%s: %s' % k for k in sorted(known_hit)],
            'worker_errors': errors[:3],
            'peak_rss_mb_per_worker': agg['rss'] // 1024,
        },
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s %s: %s; %d paths (%s), %d decisions, %d solver queries (%.1f s), %d checks (%d discharged), '
          '%d traces replayed and agreed, %.1f s' %
          (prop, tier, status, npaths, dict(agg['paths']), agg['decisions'], stats.queries, stats.solver_s,
           stats.checks, stats.checks_discharged, agg['validated'], time.time() - t0))
    if leftover:
        print('unexplored: %s' % leftover)
    for t, n in agg['unsupported'].most_common(5):
        print('unsupported (%d): %s' % (n, t))
    for t, n in agg['lost'].most_common(5):
        print('lost (%d): %s' % (n, t))
    for t, n in agg['unusable'].most_common(3):
        print('harness could not use the package (%d): %s' % (n, t))
    if agg['n_div'] or agg['n_unrep']:
        print('diverged: %d, candidates not reproduced: %d' % (agg['n_div'], agg['n_unrep']))
        if a.v:
            for d in agg['diverged'][:6]:
                print('   div', json.dumps(d, default=str)[:900])
            for d in agg['unreproduced'][:6]:
                print('   unrep', json.dumps(d, default=str)[:900])
    for e in errors[:2]:
        print('worker error: %s' % e)
    if vacuous:
        print('vacuous: %s' % vacuous)
    for key in sorted(known_hit):
        print('KNOWN-FINDING: property=%s %s [%s / %s]' % (prop, known[key], key[0], key[1]))
    if confirmed:
        for v in confirmed:
            print('  failing check: %s / %s  %s' % (v['harness'], v['label'], v['error'] or ''))
            print('  inputs: %s' % json.dumps(v['inputs'])[:600])
            print('VIOLATION property=%s replay=%s' % (prop, v['replay']))
        return 1
    return 0


def pick_samples(samples):
    out, seen = [], {}
    for s in samples:
        n = seen.get(s['harness'], 0)
        if n < 2 and len(out) < 12:
            seen[s['harness']] = n + 1
            out.append(s)
    return out


def confirm_violation(prop, v):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    import hashlib
    key = hashlib.sha1(json.dumps([v['harness'], v['label']]).encode()).hexdigest()[:10]
    path = os.path.join(d, '%s_%s.json' % (prop, key))
    with open(path, 'w') as f:
        json.dump({'property': prop, 'harness': v['harness'], 'case': v['case_value'], 'label': v['label'],
                   'inputs': v['inputs'], 'error': v['error']}, f, indent=1)
    v['replay'] = path
    try:
        ok, text = confirm(prop, path)
    except subprocess.TimeoutExpired:
        ok = False
    v['confirmed'] = ok
    return ok


def finish_unusable(prop, tier, seed, t0, why):
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump({'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
                   'wall_s': round(time.time() - t0, 2), 'status': why,
                   'coverage': {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': []}},
                  f)
    return 0


def kill_tree(pid):
    import signal
    try:
        kids = open('/proc/%d/task/%d/children' % (pid, pid)).read().split()
        for k in kids:
            try:
                os.kill(int(k), signal.SIGKILL)
            except OSError:
                pass
    except OSError:
        pass
    try:
        os.kill(pid, signal.SIGKILL)
    except OSError:
        pass
