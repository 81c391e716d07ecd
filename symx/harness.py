"""Runs the obligations of one property: explore the real code symbolically, discharge the claims with z3, confirm
every counterexample on the unpatched code, write the evidence file."""
import importlib
import json
import os
import select
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
REPO = os.environ.get('SYMX_REPO', '/repo')


def child_env():
    e = dict(os.environ)
    e.update(MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1',
             PYTHONHASHSEED='0', SYMX_REPO=REPO, PYTHONWARNINGS='ignore')
    if not e.get('MPLCONFIGDIR'):
        d = os.path.join(os.environ.get('TMPDIR', '/tmp'), 'symx-mpl-%d' % os.getuid())
        os.makedirs(d, exist_ok=True)
        e['MPLCONFIGDIR'] = d
    return e


# ------------------------------------------------------------------ replay on the real code
class Replayer:
    """A subprocess with the unpatched libraries and /repo's real code."""

    def __init__(self):
        self.p = None

    def _start(self):
        self.p = subprocess.Popen([PY, os.path.join(HERE, 'replay.py'), '--server'], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=child_env(), text=True, bufsize=1)

    def run(self, spec, timeout=60):
        """-> dict(reproduced=bool, detail=str)"""
        if self.p is None or self.p.poll() is not None:
            self._start()
        try:
            self.p.stdin.write(json.dumps(spec) + '\n')
            self.p.stdin.flush()
            end = time.time() + timeout
            while True:
                left = end - time.time()
                if left <= 0:
                    self.close()
                    return dict(reproduced=False, detail='replay timed out', failed=True)
                r, _, _ = select.select([self.p.stdout], [], [], left)
                if r:
                    line = self.p.stdout.readline()
                    if not line:
                        self.close()
                        return dict(reproduced=False, detail='replay process ended', failed=True)
                    if line.startswith('@@'):
                        return json.loads(line[2:])
        except (BrokenPipeError, OSError, ValueError) as e:
            self.close()
            return dict(reproduced=False, detail='replay failed: %r' % e, failed=True)

    def close(self):
        if self.p is not None:
            try:
                self.p.kill()
                self.p.wait()
            except OSError:
                pass
            self.p = None


REPLAYER = Replayer()


# ------------------------------------------------------------------ worker
class _Alarm(BaseException):
    pass


def _on_alarm(*a):
    raise _Alarm()


def executed_functions():
    """Names of /repo functions entered since start_monitor()."""
    return sorted(_seen)


_seen = set()
_mon = [False]


def start_monitor():
    _seen.clear()
    m = sys.monitoring
    if not _mon[0]:
        m.use_tool_id(3, 'symx')
        m.register_callback(3, m.events.PY_START, _py_start)
        m.set_events(3, m.events.PY_START)
        _mon[0] = True
    else:
        m.restart_events()


def _py_start(code, off):
    fn = code.co_filename
    if fn.startswith(REPO):
        n = code.co_qualname
        if '<' not in n:
            _seen.add(os.path.relpath(fn, REPO) + ':' + n)
    return sys.monitoring.DISABLE


def worker_main():
    """one JSON obligation per line on stdin, one JSON result per line on stdout"""
    out = os.fdopen(os.dup(1), 'w', buffering=1)
    os.dup2(2, 1)
    signal.signal(signal.SIGALRM, _on_alarm)
    import warnings
    warnings.simplefilter('ignore')
    from . import core
    for line in sys.stdin:
        ob = json.loads(line)
        t0 = time.time()
        res = dict(id=ob['id'], status='error', detail='')
        try:
            core.reset()
            core.STATS.reset()
            start_monitor()
            mod, fn = ob['fn'].split(':')
            f = getattr(importlib.import_module(mod), fn)
            signal.alarm(int(ob.get('budget', 60)) + 5)
            try:
                res.update(f(ob) or {})
            finally:
                signal.alarm(0)
        except _Alarm:
            res.update(status='undecided', detail='time budget exhausted')
        except core.SymError as e:
            res.update(status='undecided', detail='not encodable: %s' % str(e)[:300])
        except core.Budget:
            res.update(status='undecided', detail='exploration budget exhausted')
        except MemoryError:
            res.update(status='undecided', detail='out of memory')
        except BaseException as e:       # noqa
            if isinstance(e, (KeyboardInterrupt, SystemExit)):
                raise
            res.update(status='undecided', detail='machinery: %s' % ''.join(
                traceback.format_exception_only(type(e), e)).strip()[:300] +
                ' @ ' + ' < '.join('%s:%s' % (os.path.basename(f.filename), f.lineno)
                                   for f in reversed(traceback.extract_tb(e.__traceback__)[-6:])))
        if res['status'] == 'undecided' and 'claims' not in res:
            # nothing is claimed about code that cannot be encoded or explored in time; its witness inputs are still replayed
            try:
                signal.alarm(40)
                core.reset()
                for spec in getattr(importlib.import_module(mod), 'fallback', lambda o: ())(ob):
                    r = REPLAYER.run(spec)
                    res['replays'] = res.get('replays', 0) + 1
                    if r.get('reproduced'):
                        res.update(status='violated', claims=0, proved=0, normal=0, paths=0, undecided=[res['detail']], n_undecided=1,
                                   violations=[dict(label='witness input (%s)' % res['detail'][:80], detail=r.get('detail', ''), spec=spec)])
                        break
            except BaseException as e:       # noqa
                if isinstance(e, (KeyboardInterrupt, SystemExit)):
                    raise
            finally:
                signal.alarm(0)
        res['stats'] = core.STATS.as_dict()
        res['functions'] = executed_functions()
        res['wall_s'] = round(time.time() - t0, 2)
        out.write('@@' + json.dumps(res, default=str) + '\n')
    REPLAYER.close()


class Worker:
    def __init__(self):
        self.p = None
        self.ob = None
        self.t = 0
        self.buf = b''

    def start(self):
        self.p = subprocess.Popen([PY, '-c', 'import sys; sys.path.insert(0, %r); sys.path.append(%r); '
                                   'from symx import harness; harness.worker_main()' % (HERE, VT)],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=None if os.environ.get('SYMX_DEBUG') else subprocess.DEVNULL, env=child_env())
        self.buf = b''

    def give(self, ob):
        if self.p is None or self.p.poll() is not None:
            self.start()
        self.ob, self.t = ob, time.time()
        self.p.stdin.write((json.dumps(ob) + '\n').encode())
        self.p.stdin.flush()

    def kill(self):
        if self.p is not None:
            try:
                self.p.kill()
                self.p.wait()
            except OSError:
                pass
        self.p = None


VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


def run_all(obs, jobs=None, total=None, on_result=None):
    """Run the obligations on a pool of worker processes; returns the results (missing ones = not reached)."""
    jobs = jobs or min(int(os.environ.get('SYMX_JOBS', os.cpu_count() or 4)), max(1, len(obs)))
    ws = [Worker() for _ in range(jobs)]
    todo = list(obs)
    res = {}
    t0 = time.time()
    stop = False
    try:
        while True:
            for w in ws:
                if w.ob is None and todo and not stop:
                    ob = todo.pop(0)
                    try:
                        w.give(ob)
                    except OSError:
                        w.kill()
                        w.give(ob)
            live = [w for w in ws if w.ob is not None]
            if not live:
                break
            r, _, _ = select.select([w.p.stdout for w in live], [], [], 0.5)
            for w in live:
                if w.p.stdout in r:
                    d = os.read(w.p.stdout.fileno(), 1 << 20)
                    if not d:
                        res[w.ob['id']] = dict(id=w.ob['id'], status='undecided', detail='worker ended', stats={}, functions=[])
                        w.kill()
                        w.ob = None
                        continue
                    w.buf += d
                    while b'\n' in w.buf:
                        ln, w.buf = w.buf.split(b'\n', 1)
                        if ln.startswith(b'@@'):
                            q = json.loads(ln[2:])
                            q['group'] = w.ob.get('group')
                            res[q['id']] = q
                            w.ob = None
                            if on_result and on_result(q):
                                stop = True
                elif time.time() - w.t > w.ob.get('budget', 60) + 40:
                    res[w.ob['id']] = dict(id=w.ob['id'], status='undecided', detail='killed after time budget', stats={}, functions=[])
                    w.kill()
                    w.ob = None
            if total and time.time() - t0 > total:
                for w in ws:
                    if w.ob is not None:
                        res[w.ob['id']] = dict(id=w.ob['id'], status='undecided', detail='overall time budget', stats={}, functions=[])
                        w.kill()
                        w.ob = None
                stop = True
    finally:
        for w in ws:
            w.kill()
    return res


# ------------------------------------------------------------------ deciding claims
class Claim:
    """label, formula that must hold on this path, and how to turn a model into a replay spec."""
    __slots__ = ('label', 'f', 'robust', 'spec', 'info')

    def __init__(self, label, f, spec=None, robust=None, info=None):
        from . import core
        if isinstance(f, core.SymBool):
            f = f.b
        if not isinstance(f, core.B):
            f = core.TRUE if f else core.FALSE
        self.label, self.f, self.spec, self.info = label, f, spec, info
        self.robust = robust        # formula strong enough to survive floats/rounding; None = not f


class Outcome:
    def __init__(self):
        self.claims = self.proved = self.by_form = self.paths = 0
        self.undecided = []
        self.violations = []
        self.replays = 0
        self.reached = set()

    def result(self, **kw):
        st = 'violated' if self.violations else ('undecided' if self.undecided or not self.claims else 'proved')
        d = dict(status=st, claims=self.claims, proved=self.proved, normal=self.by_form, paths=self.paths,
                 undecided=self.undecided[:5], n_undecided=len(self.undecided), violations=self.violations,
                 replays=self.replays, reached=sorted(self.reached))
        d.update(kw)
        return d


def simp(ctx, b, memo=None):
    """Use what the path already decided (cheap)."""
    from . import core
    memo = {} if memo is None else memo
    if b.id in memo:
        return memo[b.id]
    k = ctx.branch_known(b)
    r = b if k is None else (core.TRUE if k else core.FALSE)
    if k is None and b.kind in ('and', 'or', 'not'):
        if b.kind == 'not':
            r = core.bnot(simp(ctx, b.args, memo))
        else:
            r = (core.band if b.kind == 'and' else core.bor)(*[simp(ctx, x, memo) for x in b.args])
    memo[b.id] = r
    return r


def decide(out, ctx, claims, timeout=3000, max_viol=1, heur=None, qbudget=None, extra=None):
    """Discharge the claims of one path. heur(claim) -> iterable of (vals, bools) candidate assignments."""
    from . import core
    base = ctx.assume + ctx.pc
    extra = extra or []
    for c in claims:
        out.claims += 1
        core.STATS.claims += 1
        f = simp(ctx, c.f)
        if f is not core.TRUE:
            f2 = simp(ctx, core.expand_neg_b(f))
            if f2 is not core.TRUE:
                f = core.simp_or(f, ctx.known)
            if f2 is core.TRUE:
                f = f2
        if f is core.TRUE:
            out.proved += 1
            out.by_form += 1
            core.STATS.normal += 1
            continue
        if len(out.violations) >= max_viol:
            out.undecided.append('%s: not examined after a violation' % c.label)
            continue
        neg = core.bnot(f)
        if qbudget is not None and core.STATS.time > qbudget:
            v, m = 'unknown', None
        else:
            v, m = 'unknown', None
            fs = core.strengthen(f)
            if fs is core.TRUE:
                v = 'unsat'
            elif fs is not f:
                v, m = ctx.query(base + [core.bnot(fs)], timeout=timeout)
            if v != 'unsat' and core.has_ind(f):
                def leaf(ls, g):
                    gs = core.strengthen(g)
                    return gs is core.TRUE or ctx.query(base + ls + [core.bnot(gs)], timeout=timeout)[0] == 'unsat'
                if core.tableau(f, ctx.known, leaf):
                    v = 'unsat'
            if v != 'unsat':
                v, m = ctx.query(base + [neg], timeout=timeout)
        if v == 'unsat':
            out.proved += 1
            continue
        # candidates: robust model first, then the plain one, then heuristics
        done = False
        cands = []
        rob = c.robust if c.robust is not None else neg
        if heur is not None:
            for vals, bools in heur(c):
                e = core.Env(vals, bools)
                try:
                    if e.b(rob) and all(e.b(x) for x in base):
                        cands.append((vals, bools))
                        break
                except (core.SymError, ZeroDivisionError, OverflowError):
                    continue
        if not cands:
            rv, rm = ctx.query(base + extra + [rob], timeout=timeout)
            if rv == 'unsat' and getattr(extra, 'wide', None):
                rv, rm = ctx.query(base + extra.wide + [rob], timeout=timeout)
            if rv == 'unsat':
                # cannot deviate beyond the tolerance inside the bounds
                out.proved += 1
                out.reached.add('within tolerance only')
                continue
            if rv == 'sat':
                cands.append(ctx.model_vals(rm))
        if not cands and v == 'sat':
            cands.append(ctx.model_vals(m))
        why = 'solver: %s' % v
        for vals, bools in cands:
            if c.spec is None:
                break
            spec = c.spec(vals, bools)
            if spec is None:
                why += '; no concrete input'
                continue
            r = REPLAYER.run(spec)
            out.replays += 1
            if r.get('reproduced'):
                out.violations.append(dict(label=c.label, detail=r.get('detail', ''), spec=spec))
                done = True
                break
            why += '; replay: %s' % str(r.get('detail', ''))[:120]
        if not done:
            out.undecided.append('%s: %s' % (c.label, why))


# ------------------------------------------------------------------ top level
def load_known():
    p = os.path.join(HERE, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else []


def main(prop, obs, tier, level_expl, bounds, assumptions, total=None, seed=1):
    t0 = time.time()
    obs = list({o['id']: o for o in obs}.values())
    os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
    viol = []
    known = [k for k in load_known() if k['property'] == prop and k.get('status') != 'fixed']
    sup = {k['replay_id']: k for k in known if k.get('replay_id')}

    def on_result(r):
        if os.environ.get('SYMX_VERBOSE'):
            print('  %-60s %-9s %5.1fs claims %s/%s paths %s %s' % (
                r['id'], r['status'], r.get('wall_s', 0), r.get('proved'), r.get('claims'), r.get('paths'),
                (r.get('detail') or '; '.join(r.get('undecided') or []))[:int(os.environ.get('SYMX_W', 300))]), flush=True)
        return False
    res = run_all(obs, total=total, on_result=on_result)
    nviol = []
    for oid, r in res.items():
        for v in r.get('violations') or []:
            nviol.append((oid, v))
    # known findings: replay each listed input on the real code
    kf = []
    for k in known:
        r = REPLAYER.run(k['spec'])
        if r.get('reproduced'):
            kf.append(k)
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    REPLAYER.close()
    out_v = []
    for i, (oid, v) in enumerate(nviol[:20]):
        path = os.path.join(HERE, 'evidence', 'replay', '%s-%d.json' % (prop, i))
        json.dump(dict(property=prop, obligation=oid, label=v['label'], detail=v['detail'], spec=v['spec']),
                  open(path, 'w'), indent=1, default=str)
        print('VIOLATION property=%s replay=%s' % (prop, path))
        print('  %s: %s -- %s' % (oid, v['label'], str(v['detail'])[:400]))
        out_v.append(dict(obligation=oid, label=v['label'], detail=str(v['detail'])[:500], replay=path))
    tot = dict(queries=0, sat=0, unsat=0, unknown=0, solver_s=0.0, paths=0)
    funcs = set()
    for r in res.values():
        for k in tot:
            tot[k] += (r.get('stats') or {}).get(k, 0)
        funcs.update(r.get('functions') or [])
    proved = [r for r in res.values() if r['status'] == 'proved']
    und = [r for r in res.values() if r['status'] in ('undecided', 'error')]
    nclaims = sum(r.get('claims') or 0 for r in res.values())
    nproved = sum(r.get('proved') or 0 for r in res.values())
    ev = dict(property=prop, tier=tier, seed=seed, level='other',
              coverage=dict(explanation=level_expl, bounds=bounds, obligations=len(obs), obligations_proved=len(proved),
                            obligations_undecided=len(und), obligations_not_reached=len(obs) - len(res),
                            claims=nclaims, claims_proved=nproved,
                            claims_by_normal_form=sum(r.get('normal') or 0 for r in res.values()),
                            paths=sum(r.get('paths') or 0 for r in res.values()),
                            queries_discharged=tot['queries'], queries=tot, solver_s=round(tot['solver_s'], 2),
                            replays_on_real_code=sum(r.get('replays') or 0 for r in res.values()),
                            functions_encoded=sorted(funcs),
                            undecided=[dict(id=r['id'], why=(r.get('detail') or '; '.join(r.get('undecided') or []))[:300],
                                            proved=r.get('proved'), claims=r.get('claims')) for r in und][:60],
                            reached=sorted({x for r in res.values() for x in (r.get('reached') or [])})[:80]),
              assumptions=assumptions, wall_s=round(time.time() - t0, 1), violations=len(out_v),
              violation_details=out_v, known_findings=[k['what'] for k in kf],
              slowest=[[r['id'], r.get('wall_s')] for r in sorted(res.values(), key=lambda r: -(r.get('wall_s') or 0))[:5]])
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s [%s]: %d/%d obligations proved, %d undecided; %d/%d claims (%d by normal form); %d paths, %d queries, '
          'solver %.1fs, wall %.1fs' % (prop, tier, len(proved), len(obs), len(und), nproved, nclaims,
                                        ev['coverage']['claims_by_normal_form'], ev['coverage']['paths'], tot['queries'],
                                        tot['solver_s'], time.time() - t0))
    if out_v:
        return 1
    if not nproved:
        print('INCONCLUSIVE: nothing could be decided')
        return 2
    return 0
