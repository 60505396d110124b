"""Runs the obligations of a check: symbolic exploration, replay on the real code, evidence."""
import hashlib
import json
import mmap
import os
import pickle
import resource
import select
import signal
import sys
import time
import traceback

import sym
from sym import SymCtx, ConcCtx, Abort, Stats

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, 'known_findings.txt')


class Ob:
    """One obligation: body(S, M) run symbolically for all inputs within the bounds.

    mods     encoding: 'numeric', 'ints', 'dms' (module copies with stand-ins) or 'real' (unpatched
             code; symbolic values enter through casadi graphs or linear data)
    known    key of a known finding this obligation demonstrates
    """

    def __init__(self, name, body, mods='numeric', bounds='', functions=(), window=6, seconds=60, known=None, params=None, validate=40, timeout=4000, ob_timeout=20000):
        self.name, self.body, self.mods = name, body, mods
        self.bounds, self.functions = bounds, list(functions)
        self.window, self.seconds, self.known = window, seconds, known
        self.params = params or {}
        self.validate = validate
        self.timeout, self.ob_timeout = timeout, ob_timeout

    def run(self, S, M):
        return self.body(S, M, **self.params)


def modules(kind):
    import loader
    return {'numeric': loader.numeric, 'ints': loader.ints, 'dms': loader.dms, 'real': loader.real, 'rf': loader.rootfinders, 'grids': loader.grids}[kind]()


class HangError(Exception):
    pass


def _alarm(sig, frame):
    raise HangError('no result in time')


class Note:
    """What a worker is doing, readable by the parent when the worker was killed by a signal."""

    def __init__(self):
        self.m = mmap.mmap(-1, 1 << 17)

    def set(self, what):
        b = pickle.dumps(what)
        if len(b) + 8 <= len(self.m):
            self.m[8:8 + len(b)] = b
            self.m[:8] = len(b).to_bytes(8, 'little')

    def get(self):
        n = int.from_bytes(self.m[:8], 'little')
        return pickle.loads(self.m[8:8 + n]) if n else None


NOTE = None


def replay(ob, values, limit=60):
    """Run the body with concrete inputs on the real code. Returns (status, details)."""
    import loader
    if NOTE is not None:
        NOTE.set(('replay', dict(values)))
    M = loader.real()
    c = ConcCtx(dict(values), ob.window)
    old = sym.CTX
    sym.CTX = None
    if limit:
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(limit)
    try:
        ob.run(c, M)
    except Abort as a:
        return ('void', a.kind)
    except HangError:
        return ('fail', [('termination', 'no result within %d s' % limit)])
    except Exception as e:
        return ('fail', [('exception', '%s: %s' % (type(e).__name__, str(e).strip().split('\n')[-1][:300]), traceback.format_exc(limit=-6))])
    finally:
        if limit:
            signal.alarm(0)
        sym.CTX = old
    if c.aborted:
        return ('void', c.aborted.kind)
    if c.failed:
        return ('fail', c.failed)
    return ('pass', c.checked)


def explore(ob, deadline):
    st = Stats()
    res = dict(name=ob.name, paths=0, infeasible=0, bound=0, truncated=0, validated=0, inconclusive=[], violations=[], covers=set())
    try:
        M = modules(ob.mods)
    except Exception as e:
        # the package itself cannot be imported in this encoding
        res['inconclusive'].append('loading: %s' % e)
        M = None
    stack = [[]] if M is not None else []
    seen_fail = set()
    while stack:
        if time.time() > deadline:
            res['truncated'] = len(stack)
            break
        prefix = stack.pop()
        if NOTE is not None:
            NOTE.set(('path', prefix))
        ctx = SymCtx(prefix, st, ob.window, ob.timeout, ob.ob_timeout)
        sym.CTX = ctx
        exc = None
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(max(5, int(deadline - time.time()) + 30))
        try:
            ob.run(ctx, M)
            kind = 'ok'
        except Abort as a:
            kind = a.kind
        except HangError:
            kind = 'unsupported'
            ctx.aborted = Abort('unsupported', 'path did not finish in time')
        except RecursionError as e:
            kind, exc = 'exception', e
        except Exception as e:
            kind, exc = 'exception', e
        finally:
            signal.alarm(0)
        if ctx.aborted:
            kind = ctx.aborted.kind
        stack.extend(ctx.alternatives)
        if kind == 'infeasible':
            res['infeasible'] += 1
            continue
        if kind == 'bound':
            res['bound'] += 1
        res['paths'] += 1
        res['covers'] |= ctx.covers
        for f in ctx.findings:
            key = (f.label,)
            if key in seen_fail and len([v for v in res['violations']]) > 2:
                continue
            s, d = replay(ob, f.values)
            if s == 'fail':
                seen_fail.add(key)
                res['violations'].append(dict(label=f.label, values=f.values, detail=d, by='solver counterexample'))
            else:
                f.s = (s, d)
        # findings of a label none of whose models reproduces
        labels = {f.label for f in ctx.findings}
        for l in labels:
            if not any(v['label'] == l for v in res['violations']):
                res['inconclusive'].append('%s: counterexample not reproduced on the real code (%s)' % (l, [f.values for f in ctx.findings if f.label == l][:1]))
        res['inconclusive'] += ctx.inconclusive
        if kind in ('unsupported', 'exception'):
            msg = str(ctx.aborted.msg) if kind == 'unsupported' else '%s: %s' % (type(exc).__name__, str(exc).strip()[:300])
            hit = False
            for vals, nice in ctx.models([]):
                s, d = replay(ob, vals)
                if s == 'fail':
                    res['violations'].append(dict(label='path', values=vals, detail=d, by='replay of a path the engine could not finish' if kind == 'unsupported' else 'exception on a feasible path'))
                    hit = True
                break
            if not hit:
                tb = ''.join(traceback.format_exception(exc)[-4:]) if exc is not None else ''
                res['inconclusive'].append('%s: %s %s' % (kind, msg, tb if os.environ.get('VERIF_DEBUG') else ''))
        elif kind == 'ok' and not ctx.findings and (res['validated'] < ob.validate or ob.validate < 0):
            # witness of the path, replayed on the real code
            for vals, nice in ctx.models([]):
                s, d = replay(ob, vals)
                if s == 'fail' and nice:
                    res['violations'].append(dict(label='witness', values=vals, detail=d, by='solver witness of the path'))
                elif s == 'pass':
                    res['validated'] += 1
                elif s == 'fail':
                    res['inconclusive'].append('witness with extreme values differs: %s' % (d[:1],))
                break
            else:
                res['inconclusive'].append('no witness for a path')
        if len(res['violations']) >= 3:
            break
    sym.CTX = None
    res['covers'] = sorted(res['covers'])
    res.update(queries=st.queries, solver_time=st.solver_time, unknown=st.unknown, branches=st.branches, obligations=st.obligations)
    return res


CPU = 100        # seconds of processor time after which a single run on given inputs counts as hanging


def _child(f, note, seconds, cpu=None):
    """Run f in a child process; the signal that ended it, 0 if none."""
    global NOTE
    pid = os.fork()
    if pid == 0:
        try:
            NOTE = note
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(seconds)
            if cpu:
                resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
            f()
        finally:
            os._exit(0)
    st = os.waitpid(pid, 0)[1]
    sig = os.WTERMSIG(st) if os.WIFSIGNALED(st) else 0
    return 0 if sig == signal.SIGALRM else sig


def crashed(ob, note, sig):
    """The interpreter died, or was stopped because it did not return, while the code under test was running: find inputs and confirm on the real code."""
    res = dict(name=ob.name, paths=0, infeasible=0, bound=0, truncated=0, validated=0, inconclusive=[], violations=[], covers=[], queries=0, solver_time=0.0, unknown=0, branches=0, obligations=0, wall=0.0)
    what = note.get()
    values = None
    if what and what[0] == 'path':
        trace = Note()

        class Traced(SymCtx):
            """Notes a model of the path whenever an input or a decision is added."""

        def traced(name):
            g = getattr(SymCtx, name)

            def h(self, *a, **k):
                r = g(self, *a, **k)
                for vals, nice in self.models([]):
                    trace.set(('inputs', vals))
                    break
                return r
            setattr(Traced, name, h)
        for n in ('branch', 'enumerate', 'choice', 'int', 'bool', 'real'):
            traced(n)

        def f():
            sym.CTX = Traced(what[1], Stats(), ob.window, ob.timeout, ob.ob_timeout)
            ob.run(sym.CTX, modules(ob.mods))
        _child(f, None, 60)
        t = trace.get()
        values = t[1] if t else {}
    elif what:
        values = what[1]
    if values is not None:
        if sig == signal.SIGKILL:
            if _child(lambda: replay(ob, values, None), None, 250, CPU) == signal.SIGXCPU:
                res['violations'].append(dict(label='termination', values=values, detail=[('termination', 'no result after %d s of processor time' % CPU)], by='model of the path which did not end'))
                res['paths'] = 1
                return res
            again = 0
        else:
            again = _child(lambda: replay(ob, values), None, 60)
        if again:
            res['violations'].append(dict(label='crash', values=values, detail=[('crash', 'the interpreter ends with signal %d' % again)], by='model of the path on which the interpreter crashed'))
            res['paths'] = 1
            return res
    res['inconclusive'].append('worker ended by signal %d' % sig if sig != signal.SIGKILL else 'worker ended without a result')
    return res


def _worker(ob, seconds):
    """Run one obligation in a child process."""
    global NOTE
    r, w = os.pipe()
    note = Note()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            NOTE = note
            t = time.time()
            try:
                res = explore(ob, t + seconds)
            except Abort as a:
                res = dict(name=ob.name, error='abort %s %s' % (a.kind, a.msg))
            except Exception:
                res = dict(name=ob.name, error=traceback.format_exc())
            res['wall'] = time.time() - t
            with os.fdopen(w, 'wb') as f:
                pickle.dump(res, f)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    return pid, r, note


BUDGET = {'quick': 700, 'thorough': 9000}      # seconds for all obligations of a check


def run_all(obs, jobs, budget, listed=()):
    pending = list(obs)
    running = {}
    results = {}
    late = set()
    start = time.time()
    while pending or running:
        left = start + budget - time.time()
        while pending and len(running) < jobs and left > 1:
            ob = pending.pop(0)
            sec = min(ob.seconds, left)
            pid, fd, note = _worker(ob, sec)
            running[fd] = (pid, ob, [], time.time() + sec, note)
        if left <= 1:
            for ob in pending:
                results[ob.name] = dict(name=ob.name, error='not run (time)')
            pending = []
            if not running:
                break
        rs, _, _ = select.select(list(running), [], [], 1.0)
        for fd in rs:
            pid, ob, buf, end, note = running[fd]
            b = os.read(fd, 1 << 20)
            if b:
                buf.append(b)
                continue
            os.close(fd)
            st = os.waitpid(pid, 0)[1]
            del running[fd]
            try:
                results[ob.name] = pickle.loads(b''.join(buf))
            except Exception:
                results[ob.name] = dict(name=ob.name, error='worker ended without a result')
                if os.WIFSIGNALED(st) and os.WTERMSIG(st) in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL):
                    results[ob.name] = crashed(ob, note, os.WTERMSIG(st))
                elif pid in late:
                    results[ob.name] = crashed(ob, note, signal.SIGKILL)
            if results[ob.name].get('violations') and ob.known not in listed and not os.environ.get('VERIF_ALL'):
                # one violation decides
                for o in pending + [q[1] for q in running.values()]:
                    results[o.name] = dict(name=o.name, error=None)
                for q in running:
                    os.kill(running[q][0], signal.SIGKILL)
                    os.waitpid(running[q][0], 0)
                    os.close(q)
                return [results[o.name] for o in obs]
        for fd, (pid, ob, buf, end, note) in list(running.items()):
            if time.time() > end + 60:
                late.add(pid)
                os.kill(pid, signal.SIGKILL)
    return [results[o.name] for o in obs]


def known_keys(pid):
    """Listed findings: lines  known: property=<id> key=<key> <text>"""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            p = line.split(None, 3)
            if len(p) >= 3 and p[0] == 'known:' and p[1] == 'property=' + pid and p[2].startswith('key='):
                out[p[2][4:]] = p[3].strip() if len(p) > 3 else ''
    return out


def main(pid, obs, assumptions=(), notes=''):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '0') or 0)
    only = os.environ.get('VERIF_ONLY')
    if only:
        obs = [o for o in obs if only in o.name]
    import multiprocessing
    jobs = int(os.environ.get('VERIF_JOBS', 0)) or max(1, min(6, multiprocessing.cpu_count() - 1))
    names = [o.name for o in obs]
    assert len(set(names)) == len(names), names
    known = known_keys(pid)
    results = run_all(obs, jobs, BUDGET.get(tier, 700), known)
    by = {o.name: o for o in obs}
    tot = dict(states=0, transitions=0, traces=0, queries=0, solver=0.0, unknown=0, obl=0, bound=0)
    inconclusive, violations, findings, per = [], [], [], []
    decided = 0
    for r in results:
        ob = by[r['name']]
        if 'error' in r and r['error'] is None:
            per.append(dict(name=r['name'], error='not run (violation found)'))
            continue
        if 'error' in r:
            inconclusive.append('%s: %s' % (r['name'], r['error'][-1500:]))
            per.append(dict(name=r['name'], error=r['error'][-300:]))
            continue
        tot['states'] += r['paths']
        tot['transitions'] += r['branches']
        tot['traces'] += r['validated']
        tot['queries'] += r['queries']
        tot['solver'] += r['solver_time']
        tot['unknown'] += r['unknown']
        tot['obl'] += r['obligations']
        tot['bound'] += r['bound']
        if r['truncated']:
            r['inconclusive'].append('%d paths not explored (time)' % r['truncated'])
        if r['paths'] and r['obligations'] and not r['inconclusive']:
            decided += 1
        if not r['paths'] and not r['inconclusive']:
            r['inconclusive'].append('vacuous: no feasible path')
        inconclusive += ['%s: %s' % (r['name'], m) for m in dict.fromkeys(r['inconclusive'])]
        for v in r['violations']:
            v['obligation'] = r['name']
            if ob.known and ob.known in known:
                findings.append((ob.known, v))
            else:
                violations.append(v)
        per.append(dict(name=r['name'], encoding=ob.mods, bounds=ob.bounds, functions=ob.functions, paths=r['paths'], branches=r['branches'], assertions=r['obligations'], queries=r['queries'],
                        solver_s=round(r['solver_time'], 3), witnesses_replayed=r['validated'], outside_bound=r['bound'], inconclusive=len(r['inconclusive']), wall_s=round(r['wall'], 2), reached=r['covers']))
    functions = sorted({f for o in obs for f in o.functions})
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking',
              coverage=dict(states=tot['states'], transitions=tot['transitions'], traces_validated_against_impl=tot['traces'], samples=tot['obl'],
                            functions_encoded=functions, assertions=tot['obl'], queries_discharged=tot['queries'], solver_unknown=tot['unknown'], solver_time_s=round(tot['solver'], 3),
                            paths_outside_bound=tot['bound'], obligations=per, obligations_decided=decided, inconclusive=inconclusive[:60]),
              wall_s=round(time.time() - t0, 3), assumptions=list(assumptions), violations=len(violations))
    os.makedirs(os.path.join(VERIF, 'evidence', 'replays'), exist_ok=True)
    ev_path = os.path.join(VERIF, 'evidence', pid + '.json')
    with open(ev_path + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(ev_path + '.tmp', ev_path)
    done = set()
    for key, v in findings:
        if key not in done:
            done.add(key)
            print('KNOWN-FINDING: property=%s %s' % (pid, known[key]))
    for m in inconclusive[:20]:
        print('INCONCLUSIVE %s %s' % (pid, m[:2000 if os.environ.get('VERIF_DEBUG') else 400]))
    print('%s: %d obligations, %d paths, %d assertions, %d solver queries (%.1f s), %d witnesses replayed, %.1f s' % (pid, len(obs), tot['states'], tot['obl'], tot['queries'], tot['solver'], tot['traces'], time.time() - t0))
    if violations:
        v = violations[0]
        h = hashlib.sha1(json.dumps([v['obligation'], v['values']], sort_keys=True, default=str).encode()).hexdigest()[:10]
        path = os.path.join('evidence', 'replays', '%s-%s.json' % (pid, h))
        with open(os.path.join(VERIF, path), 'w') as f:
            json.dump(dict(property=pid, obligation=v['obligation'], tier=tier, label=v['label'], found_by=v['by'], values=v['values'], detail=v['detail'],
                           rerun='/opt/venv/bin/python check.py --replay %s' % path), f, indent=1, default=str)
        for x in violations[:3]:
            d = x['detail'][0]
            print('violated: %s / %s: %s' % (x['obligation'], d[0], str(d[1])[:300]))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if decided == 0:
        print('nothing could be decided')
        return 2
    return 0
