"""Decides one property on the current source of /repo.

    python3-vt /verif/vx/run.py C01 [quick|thorough]

1. the contracts of the property (vx/contracts/cXX.py) are verified against the code parsed from /repo: every obligation must be
   accepted by the verifier;
2. the contracts are evaluated on the real code (witness/cXX.py, CPython) on generated inputs: this cross-checks the trusted models
   of the libraries and gives the failing inputs of the violations.
Exit 0: the property holds on everything explored; exit 1: a line VIOLATION property=<id> replay=<path>."""
import sys, os, json, time, subprocess, importlib, multiprocessing as mp, traceback
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
REPO = os.environ.get('VX_REPO', '/repo')
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else 'python3'

def unit_names(prop):
    m = importlib.import_module('vx.contracts.' + prop.lower())
    names = []
    class V:
        tier = os.environ.get('VX_TIER', 'quick')
        def unit(self, name, body, **k): names.append(name)
    m.units(V())
    return names, m

def run_unit(args):
    prop, name, tier = args
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 * 2**30, 6 * 2**30))
    sys.setrecursionlimit(20000)
    t0 = time.time()
    try:
        from vx.contract import Verifier
        from vx import core
        m = importlib.import_module('vx.contracts.' + prop.lower())
        v = Verifier(); v.tier = tier
        orig = v.unit
        v.unit = lambda n, b, **k: orig(n, b, **k) if n == name else None
        core.Z.stats.update({k: 0 for k in core.Z.stats})
        m.units(v)
        r = v.results[0]
        return dict(name=name, obl=[dict(name=o['name'], ok=o['ok'], why=None if o['ok'] else str(o['why'])[:3000]) for o in r.obl],
                    funcs=sorted(map(str, r.funcs)), used=sorted(map(str, r.used)), paths=r.paths, time=time.time() - t0, stats=dict(core.Z.stats))
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt): raise
        return dict(name=name, obl=[dict(name='within reach', ok=False, why='%s: %s %s' % (type(e).__name__, e, traceback.format_exc()[-1500:]))], funcs=[], used=[], paths=0, time=time.time() - t0, stats={})

def worker(args, q):
    q.put(run_unit(args))

def run_units(prop, names, tier, limit, per_unit, jobs=8):
    """one process per unit (a unit that does not answer is ended and counts as not decided)"""
    todo = list(names); live = []; done = []
    end = time.time() + limit
    ctx = mp.get_context('fork')
    def lost(n, why): return dict(name=n, obl=[dict(name='within reach', ok=False, why=why)], funcs=[], used=[], paths=0, time=per_unit, stats={})
    while todo or live:
        while todo and len(live) < jobs and time.time() < end:
            n = todo.pop(0); q = ctx.SimpleQueue()
            p = ctx.Process(target=worker, args=((prop, n, tier), q)); p.start()
            live.append((n, p, q, time.time()))
        if todo and time.time() >= end:
            done += [lost(n, 'not decided: time limit of the check') for n in todo]; todo = []
        for x in list(live):
            n, p, q, t = x
            if not q.empty():
                done.append(q.get()); p.join(5)
                if p.is_alive(): p.kill()
                live.remove(x)
            elif not p.is_alive():
                time.sleep(.05)
                if not q.empty(): done.append(q.get())
                else: done.append(lost(n, 'not decided: the verifier stopped (exit code %s)' % p.exitcode))
                live.remove(x)
            elif time.time() - t > per_unit or time.time() > end + 30:
                p.kill(); done.append(lost(n, 'not decided: no answer within %d s' % per_unit)); live.remove(x)
        time.sleep(.01)
    return done

def start_witness(prop, seed, budget, check=None, key=None):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', VX_REPO=REPO, OPENBLAS_NUM_THREADS='1', MPLBACKEND='Agg')
    cmd = [PY, '-W', 'ignore', os.path.join(HERE, 'witness', 'run.py'), prop, '--budget', str(budget), '--seed', str(seed)]
    if check: cmd += ['--check', check, '--key', key]
    return subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env, cwd='/tmp')
def end_witness(p, limit):
    try: out, err = p.communicate(timeout=limit)
    except subprocess.TimeoutExpired:
        p.kill(); out, err = p.communicate()
        return None, 'witness search: no answer within %d s' % limit
    for l in reversed(out.splitlines()):
        if l.startswith('{'):
            try: return json.loads(l), None
            except ValueError: pass
    return None, 'witness search failed (exit %s): %s' % (p.returncode, (err or out)[-2500:])

def known(prop):
    """entries  finding: property=C01 check=<name> match=<text>   of the committed file"""
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('finding: property=%s ' % prop):
                d = {}
                rest = l[len('finding: '):].strip()
                for part in rest.split(' ', 2):
                    k, _, v = part.partition('=')
                    d[k] = v
                out.append(d)
    return out

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    os.environ['VX_TIER'] = tier
    quick = tier == 'quick'
    witness = os.path.exists(os.path.join(HERE, 'witness', prop.lower() + '.py'))
    wbudget = 25 if quick else 180
    wp = start_witness(prop, seed, wbudget) if witness else None
    names, mod = unit_names(prop)
    res = run_units(prop, names, tier, 420 if quick else 1500, 240 if quick else 900, jobs=7)
    wres, werr = (None, None)
    if wp: wres, werr = end_witness(wp, wbudget * 3 + 60)
    order = {n: i for i, n in enumerate(names)}
    res.sort(key=lambda r: order.get(r['name'], 0))
    nobl = sum(len(r['obl']) for r in res)
    nok = sum(1 for r in res for o in r['obl'] if o['ok'])
    failed = [(r['name'], o) for r in res for o in r['obl'] if not o['ok']]
    viols = list(wres['violations']) if wres else []
    # ---- known findings
    kf = known(prop)
    new = lambda vs: [v for v in vs if not any(d.get('check') == v['check'] and d.get('match', '') in v['what'] for d in kf)]
    rest = new(viols)
    if failed and witness and not rest and wres is not None:
        # longer search for a failing input
        w2, e2 = end_witness(start_witness(prop, seed + 1, 90 if quick else 240), 400)
        if w2: rest = new(w2['violations'])
    for i, d in enumerate(kf): print('KNOWN-FINDING: property=%s %s: %s' % (prop, d.get('check'), d.get('match')))
    viols = rest
    # ---- evidence
    stats = {}
    for r in res:
        for k, x in r['stats'].items(): stats[k] = round(stats.get(k, 0) + x, 3)
    proved = [r['name'] for r in res if all(o['ok'] for o in r['obl'])]
    bounded = getattr(mod, 'BOUNDED', [])
    level = getattr(mod, 'LEVEL', 'proof')
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=dict(
        obligations=nobl, discharged=nok, checker_cmd='python3-vt /verif/vx/run.py %s %s' % (prop, tier),
        trusted_base=getattr(mod, 'TRUSTED', []) + COMMON_TRUST,
        functions_under_contract=sorted({f for r in res for f in r['funcs']}),
        back_ends=dict(guarded_sum_normaliser='equations of matrix entries', z3=dict(queries=stats.get('z3_queries'), seconds=stats.get('z3_time'), unknown=stats.get('unknown')), cvc5=dict(queries=stats.get('cvc5_queries'), seconds=stats.get('cvc5_time'))),
        units=[dict(contract=r['name'], paths=r['paths'], obligations=len(r['obl']), discharged=sum(1 for o in r['obl'] if o['ok']), seconds=round(r['time'], 2),
                    bounded=next((b for p, b in bounded if p in r['name']), None)) for r in res],
        failed_obligations=['%s: %s' % (n, o['name']) for n, o in failed],
        cross_check_on_real_code=wres['cases'] if wres else None, evaluations=sum(wres['cases'].values()) if wres else 0),
        assumptions=getattr(mod, 'ASSUME', []), wall_s=round(time.time() - t0, 2), violations=len(viols) + (1 if failed and not viols else 0))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    for n, o in failed[:12]: print('FAILED OBLIGATION %s :: %s :: %s' % (n, o['name'], (o['why'] or '')[:400]))
    if werr: print('WITNESS: ' + werr)
    if werr and not failed: failed.append(('witness', dict(name='the contracts can be evaluated on the real code', why=werr)))
    if not nobl: failed.append(('contracts', dict(name='at least one obligation', why='no obligation')))
    print('%s %s: %d/%d obligations discharged in %d contracts, %s evaluations on the real code, %.1f s' % (prop, tier, nok, nobl, len(res), ev['coverage']['evaluations'], time.time() - t0))
    if not failed and not viols: return 0
    rp = os.path.join(HERE, 'evidence', 'replay-%s.json' % prop)
    rep = dict(property=prop, tier=tier, seed=seed, failed_obligations=[dict(contract=n, obligation=o['name'], verifier_output=o['why']) for n, o in failed], failing_inputs=viols)
    if viols:
        v = viols[0]
        rep['replay_cmd'] = '%s %s %s --check %s --key %s' % (PY, os.path.join(HERE, 'witness', 'run.py'), prop, v['check'], v['key'])
        print('FAILING INPUT %s: %s' % (v['check'], v['what'][:500]))
    json.dump(rep, open(rp, 'w'), indent=1)
    print('VIOLATION property=%s replay=%s%s' % (prop, rp, '' if viols else ' no-failing-input-found'))
    return 1

COMMON_TRUST = [
    'the interpreter of Python of the verifier (vx/interp.py, vx/loops.py, vx/mat.py): semantics given to the statements of /repo',
    'the decision procedures: guarded-sum normaliser (vx/core.py), z3 4.x, cvc5',
    'the contracts assumed for numpy, mpmath and scipy (vx/libs.py), cross-checked on every run by evaluating the same contracts on the real libraries (witness/)',
    'double arithmetic is treated as exact (mathematical) arithmetic; multiple-precision operations which are not exact are an explicit rounding function',
]
if __name__ == '__main__':
    try: sys.exit(main())
    except SystemExit: raise
    except BaseException as e:
        traceback.print_exc()
        p = sys.argv[1] if len(sys.argv) > 1 else '?'
        rp = os.path.join(HERE, 'evidence', 'replay-%s.json' % p)
        os.makedirs(os.path.dirname(rp), exist_ok=True)
        json.dump(dict(property=p, failed_obligations=['the check could not be run'], verifier_output=traceback.format_exc()), open(rp, 'w'))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (p, rp))
        sys.exit(1)
