"""Driver: runs the proof units and the replay of one property, writes evidence."""
import importlib, json, multiprocessing as mp, os, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(VERIF, 'contracts'))
sys.path.insert(0, os.path.join(VERIF, 'replay'))

TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)


class Unit:
    """collects the obligations generated for one function under contract"""

    def __init__(self, name):
        self.name = name
        self.res = []
        self.functions = []
        self.assume = []

    def fn(self, *names):
        self.functions += names

    def trust(self, *texts):
        self.assume += texts

    def ob(self, name, result, t=0.0):
        self.res.append({'obligation': self.name + ': ' + name, 'ok': bool(result.ok), 'by': result.how, 'detail': result.detail, 't': round(t, 3)})
        return result.ok

    def eq(self, name, a, b, hyps=(), prover=None):
        """obligation a == b (scalars, complex, fixed arrays)"""
        from cxxexec import Cx, FixArr, cx
        from prover import Prover, Result
        from term import T, lift
        P = prover or Prover()
        if isinstance(a, FixArr):
            b = b.e if isinstance(b, FixArr) else b
            ok = len(a.e) == len(b)
            for i, (x, y) in enumerate(zip(a.e, b)):
                ok &= self.eq('%s[%d]' % (name, i), x, y, hyps, P)
            return ok
        if isinstance(a, Cx) or isinstance(b, Cx):
            try:
                a, b = cx(a), cx(b)
            except Exception:
                return self.ob(name, Result(False, 'not a number', repr(a)[:300]))
            return self.eq(name + '.re', a.re, b.re, hyps, P) & self.eq(name + '.im', a.im, b.im, hyps, P)
        if not isinstance(a, T):
            return self.ob(name, Result(False, 'no value', '%r' % (a,)))
        b = lift(b, a.s)
        t = time.time()
        r = P.prove_eq(a, b, hyps)
        return self.ob(name, r, time.time() - t)

    def holds(self, name, goal, hyps=(), prover=None):
        from prover import Prover
        P = prover or Prover()
        t = time.time()
        r = P.prove(goal, hyps)
        return self.ob(name, r, time.time() - t)

    def true(self, name, cond, detail=''):
        from prover import Result
        return self.ob(name, Result(bool(cond), 'structural', detail if not cond else ''))

    def fail(self, name, why, detail=''):
        from prover import Result
        return self.ob(name, Result(False, why, detail))

    def satisfiable(self, name, hyps):
        """vacuity guard: the precondition must have a model"""
        import z3
        from prover import Ctx, Result
        c = Ctx(hyps, 4000)
        r = c.check(z3.BoolVal(True))
        return self.ob('precondition satisfiable: ' + name, Result(r == z3.sat, 'z3 sat', str(r)))


def _run_unit(args):
    modname, uname = args
    mod = importlib.import_module(modname)
    fn = dict(mod.UNITS)[uname]
    u = Unit(uname)
    t = time.time()
    try:
        fn(u)
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        u.fail('obligations generated', type(e).__name__, '%s%s' % (e, '\n' + traceback.format_exc()[-1500:] if os.environ.get('VERIF_VERBOSE') == '2' else ''))
    import prover
    if not u.res:
        u.fail('obligations generated', 'zero obligations')
    return {'unit': uname, 'res': u.res, 'functions': u.functions, 'assume': u.assume, 'wall': round(time.time() - t, 2),
            'stats': dict(prover.STATS)}


def _unit_child(a, q):
    try:
        q.put(_run_unit(a))
    except BaseException as e:
        q.put({'unit': a[1], 'res': [{'obligation': a[1] + ': obligations generated', 'ok': False, 'by': type(e).__name__, 'detail': str(e)[:500], 't': 0}],
               'functions': [], 'assume': [], 'wall': 0, 'stats': {}})


def run_units(modname, units, limit):
    """fork one process per unit, at most 8 at a time, with a time limit each"""
    ctx = mp.get_context('fork')
    todo = [u for u, _ in units]
    live, out = {}, {}
    while todo or live:
        while todo and len(live) < 8:
            u = todo.pop(0)
            q = ctx.Queue()
            p = ctx.Process(target=_unit_child, args=((modname, u), q))
            p.start()
            live[u] = (p, q, time.time())
        for u in list(live):
            p, q, t0 = live[u]
            r = None
            try:
                r = q.get(timeout=0.05)
            except Exception:
                if not p.is_alive():
                    try:
                        r = q.get(timeout=0.5)
                    except Exception:
                        r = None
                    if r is None:
                        r = _dead(u, 'proof process died')
                elif time.time() - t0 > limit:
                    p.kill()
                    r = _dead(u, 'time limit')
            if r is not None:
                out[u] = r
                p.join(2)
                if p.is_alive():
                    p.kill()
                del live[u]
    return [out[u] for u, _ in units]


def _dead(u, why):
    return {'unit': u, 'res': [{'obligation': u + ': obligations discharged', 'ok': False, 'by': why, 'detail': '', 't': 0}], 'functions': [], 'assume': [], 'wall': 0, 'stats': {}}


def known():
    f = os.path.join(VERIF, 'known-findings.jsonl')
    out = []
    if os.path.exists(f):
        for line in open(f):
            line = line.strip()
            if line:
                out.append(json.loads(line))
    return out


def main(pid):
    t0 = time.time()
    mod = importlib.import_module('c_' + pid)
    limit = 700 if TIER == 'thorough' else 420
    # the replay harness is built while the proofs run
    ctx = mp.get_context('fork')
    rq = ctx.Queue()
    rp = None
    if hasattr(mod, 'replay'):
        rp = ctx.Process(target=_replay_child, args=('c_' + pid, rq))
        rp.start()
    rs = run_units('c_' + pid, mod.UNITS, limit)
    rep = {'cases': 0, 'failures': [], 'samples': [], 'error': None}
    if rp is not None:
        try:
            rep = rq.get(timeout=max(60, (2400 if TIER == 'thorough' else 780) - (time.time() - t0)))
        except Exception:
            rep['error'] = 'replay gave no result'
            rp.kill()
        rp.join(5)
        if rp.is_alive():
            rp.kill()
    obs = [o for r in rs for o in r['res']]
    failed = [o for o in obs if not o['ok']]
    kf = [k for k in known() if k['property'] == pid and k.get('status') == 'open']
    shown = []

    def is_known(key):
        for k in kf:
            if any(key == m or (m.endswith('*') and key.startswith(m[:-1])) for m in k['match']):
                if k not in shown:
                    shown.append(k)
                return True
        return False
    failed_new = [o for o in failed if not is_known(o['obligation'])]
    rep_new = [f for f in rep['failures'] if not is_known(f['key'])]
    for k in shown:
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    fns = sorted({f for r in rs for f in r['functions']})
    backends = {}
    for o in obs:
        if o['ok']:
            backends[o['by']] = backends.get(o['by'], 0) + 1
    trusted = list(getattr(mod, 'TRUSTED', [])) + [a for r in rs for a in r['assume']]
    seen = set()
    trusted = [x for x in trusted if not (x in seen or seen.add(x))]
    ev = {
        'property': pid, 'tier': TIER, 'seed': SEED, 'level': mod.LEVEL,
        'coverage': {
            'obligations': len(obs), 'discharged': len(obs) - len(failed),
            'checker_cmd': 'python3-vt engine/check.py %s  (VC generator over clang / Python AST of /repo; z3 %s, cvc5)' % (pid, _z3v()),
            'trusted_base': trusted,
            'functions_under_contract': fns,
            'discharged_by': backends,
            'solver_s': round(sum(r['stats'].get('z3_time', 0) for r in rs), 2),
            'solver_calls': sum(r['stats'].get('z3_calls', 0) for r in rs),
            'units': [{'unit': r['unit'], 'obligations': len(r['res']), 'wall_s': r['wall']} for r in rs],
            'bounded_standins': list(getattr(mod, 'BOUNDED', [])),
            'replay_cases_on_real_code': rep['cases'],
            'replay_samples': rep['samples'][:3],
            'failed': [{k: o[k] for k in ('obligation', 'by')} for o in failed],
        },
        'assumptions': trusted,
        'wall_s': round(time.time() - t0, 2),
        'violations': len(failed_new) + len(rep_new),
    }
    if mod.LEVEL != 'proof':
        ev['coverage']['evaluations'] = rep['cases']
        ev['coverage']['distinct_nontrivial'] = rep['cases']
        ev['coverage']['rule'] = getattr(mod, 'RULE', '')
        ev['coverage']['samples'] = rep['samples'][:3]
        ev['coverage']['explanation'] = getattr(mod, 'RULE', '')
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1, default=str)
    print('%s: %d/%d obligations discharged over %d functions (%s); %d replay cases, %d failing; %.1fs' % (
        pid, len(obs) - len(failed), len(obs), len(fns), ', '.join('%s %d' % kv for kv in sorted(backends.items())), rep['cases'], len(rep['failures']), time.time() - t0))
    if rep['error']:
        print('replay error: %s' % rep['error'])
    if os.environ.get('VERIF_VERBOSE'):
        for r in rs:
            print('  unit %s: %d obligations, %.1fs' % (r['unit'], len(r['res']), r['wall']))
        for o in failed:
            print('  FAILED %s [%s] %s' % (o['obligation'], o['by'], o['detail'][:1800]))
        for f in rep['failures'][:10]:
            print('  REPLAY %s: %s' % (f['key'], f['what'][:600]))
    if not failed_new and not rep_new and rep['error'] and not failed:
        # proofs all accepted but the replay could not be carried out on this tree
        failed_new = [{'obligation': 'replay on the real code', 'by': 'error', 'detail': rep['error']}]
    if failed_new or rep_new:
        rd = os.path.join(VERIF, 'replays')
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, '%s.json' % pid)
        json.dump({'property': pid, 'failed_obligations': failed_new, 'failing_inputs': rep_new[:20], 'replay_error': rep['error'],
                   'how': 'VERIF_VERBOSE=1 python3-vt engine/check.py %s' % pid}, open(path, 'w'), indent=1, default=str)
        for o in failed_new[:6]:
            print('failed obligation: %s [%s] %s' % (o['obligation'], o['by'], o['detail'][:300].replace('\n', ' ')))
        for f in rep_new[:4]:
            print('failing input: %s: %s' % (f['key'], f['what'][:300]))
        if rep_new:
            print('VIOLATION property=%s replay=%s' % (pid, path))
        else:
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path))
        return 1
    return 0


def _z3v():
    import z3
    return z3.get_version_string()


class Replay:
    """concrete evaluation of the contracts on the real code"""

    def __init__(self):
        self.cases, self.failures, self.samples = 0, [], []
        self.tier, self.seed = TIER, SEED

    def case(self, key, ok, what, sample=None):
        self.cases += 1
        if sample is not None and len(self.samples) < 3:
            self.samples.append(str(sample)[:400])
        if not ok and len(self.failures) < 200:
            self.failures.append({'key': key, 'what': str(what)})
        return ok

    def close(self, key, got, want, what, rtol=1e-8, atol=1e-10, scale0=0.):
        import numpy as np
        got, want = np.asarray(got), np.asarray(want)
        if got.shape != want.shape:
            return self.case(key, False, '%s: shape %s, contract %s' % (what, got.shape, want.shape))
        scale = np.max(np.abs(want)) if want.size and np.all(np.isfinite(want)) else 1.
        with np.errstate(all='ignore'):
            bad = ~(np.abs(got - want) <= atol * max(scale, scale0, 1e-300) + rtol * np.abs(want))
            both = (np.isnan(got) & np.isnan(want)) | (got == want)
        bad &= ~both
        ok = not bad.any()
        msg = what
        if not ok:
            i = np.argwhere(bad)[0] if got.ndim else ()
            msg = '%s: at %s got %r, contract requires %r' % (what, tuple(int(q) for q in i), got[tuple(i)], want[tuple(i)])
        return self.case(key, ok, msg, what)


def _replay_child(modname, q):
    r = Replay()
    err = None
    try:
        mod = importlib.import_module(modname)
        mod.replay(r)
    except BaseException as e:
        err = '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:])
    q.put({'cases': r.cases, 'failures': r.failures, 'samples': r.samples, 'error': err})


if __name__ == '__main__':
    try:
        rc = main(sys.argv[1])
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 1
        pid = sys.argv[1]
        rd = os.path.join(VERIF, 'replays')
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, pid + '.json')
        open(path, 'w').write(json.dumps({'property': pid, 'error': traceback.format_exc()}))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path))
    sys.stdout.flush()
    os._exit(rc)
