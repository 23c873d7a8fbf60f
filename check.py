#!/opt/venv/bin/python
"""check.py <PROPERTY> [--tier quick|thorough] [--only NAME] [--replay FILE]

Decides one property of /repo: extracts the functions under contract from the working tree, proves every
obligation, and cross-checks the same contracts on the real imported code.  Exit 0 / 1 (VIOLATION)."""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.path.abspath(os.environ.get('PYVC_REPO', '/repo'))
ENV = dict(PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', TZ='UTC', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
           PYTHONHASHSEED='0', PYVC_REPO=REPO, PYTHONPATH=REPO, PYTHONWARNINGS='ignore', HDF5_USE_FILE_LOCKING='FALSE')
if os.environ.get('PYVC_CHILD') != '1':
    env = dict(os.environ)
    env.update(ENV)
    env['PYVC_CHILD'] = '1'
    py = '/opt/venv/bin/python'
    os.execve(py, [py, os.path.abspath(__file__)] + sys.argv[1:], env)

import argparse, importlib, json, multiprocessing as mp, pickle, random, shutil, signal, tempfile, time, traceback
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
import warnings
warnings.simplefilter('ignore')
from pyvc import harness as H  # noqa

LEVELS = {}


def job_sym(ct, tier, budget):
    r = H.run_symbolic(ct, tier, budget)
    return dict(kind='sym', id=ct.id, status=r.status, reason=r.reason, complete=r.complete, paths=r.paths,
                obs=[dict(label=o.label, status=o.status, backend=o.backend, time=round(o.time, 4), note=o.note,
                          model=H.jsonable(o.model) if o.model else None, path=o.path if o.status != 'proved' else None)
                     for o in r.obligations],
                invariants={f'{k[0]}:{k[1]}': v for k, v in r.invariants.items()}, inv_checks=r.inv_checks, loops=r.loops,
                assumptions=r.assumptions, bounded=r.bounded, solver_time=r.solver_time, files=r.files, wall=r.wall,
                tb=getattr(r, 'last_tb', None))


def job_conc(ct, seed, trials, seconds, tier):
    q = H.run_concrete(ct, seed, trials, seconds, tier)
    q.update(kind='conc', id=ct.id)
    if q.get('violation'):
        q['violation'].pop('values', None)
    return q


def job_exh(ct, tier, seconds):
    """finite domain: the contract enumerates it itself on the real code"""
    t0 = time.time()
    r, label, drawn, detail = H.run_one_concrete(ct, random.Random(0), None, limit=seconds, tier=tier)
    out = dict(kind='conc', id=ct.id, trials=1, rejected=0, violation=None, error=None, skip=None, wall=time.time() - t0, exhaustive=True)
    if r == 'violation':
        out['violation'] = dict(label=label, inputs=H.jsonable(drawn), detail=detail, contract=ct.id)
    elif r == 'skip':
        out['skip'] = label
    elif r == 'error':
        out['error'] = (label, detail)
    return out


def guided(ct, model, seed, seconds, tier):
    """look for a failing input on the real code, starting from a counter-model of the verifier"""
    t0 = time.time()
    rng = random.Random(f'{seed}:{ct.id}:guided')
    vals = {k: v for k, v in (model or {}).items() if v is not None}
    tries = 0
    while time.time() - t0 < seconds and tries < 4000:
        if tries == 0:
            v = dict(vals)
        else:
            v = {}
            for k, x in vals.items():
                t = rng.random()
                if tries < 60 and t < 0.8 or t < 0.5:
                    v[k] = mutate(x, rng) if rng.random() < 0.4 else x
        tries += 1
        r, label, drawn, detail = H.run_one_concrete(ct, rng, v, limit=ct.kw.get('limit', 20), tier=tier)
        if r == 'violation':
            return dict(label=label, inputs=H.jsonable(drawn), detail=detail, contract=ct.id, tries=tries)
    return None


def mutate(x, rng):
    if isinstance(x, bool):
        return x
    if isinstance(x, float):
        return x + rng.choice([0.0, 1e-3, -1e-3, 1.0, -1.0, x * 0.1, 0.5])
    return x


def worker(fn, args, conn):
    try:
        os.setpgid(0, 0)
    except OSError:
        pass
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    except Exception:
        pass
    try:
        r = fn(*args)
    except BaseException as e:  # noqa
        r = dict(kind='crash', error=f'{type(e).__name__}: {e}', tb=traceback.format_exc()[-2000:])
    try:
        conn.send_bytes(pickle.dumps(r))
    except Exception:
        pass
    conn.close()
    os._exit(0)


def run_jobs(jobs, width):
    """jobs: list of (key, fn, args, timeout)"""
    ctx = mp.get_context('fork')
    todo, live, out = list(jobs), [], {}
    while todo or live:
        while todo and len(live) < width:
            key, fn, args, to = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=worker, args=(fn, args, b))
            p.start()
            b.close()
            live.append([key, p, a, time.time() + to])
        nxt = []
        ready = mp.connection.wait([l[2] for l in live], timeout=0.2)
        for l in live:
            key, p, conn, dl = l
            if conn in ready:
                try:
                    out[key] = pickle.loads(conn.recv_bytes())
                except EOFError:
                    out[key] = dict(kind='crash', error='worker died')
                conn.close()
                p.join(5)
                if p.is_alive():
                    kill(p)
            elif time.time() > dl:
                kill(p)
                out[key] = dict(kind='timeout', error='time limit')
                conn.close()
            else:
                nxt.append(l)
        live = nxt
    return out


import multiprocessing.connection  # noqa


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except Exception:
        pass
    try:
        p.kill()
    except Exception:
        pass
    p.join(5)


def load(prop):
    importlib.import_module('contracts.' + prop.lower())
    return [c for c in H.REGISTRY if c.prop == prop]


def preload():
    for m in ('numpy', 'pandas'):
        importlib.import_module(m)
    m = importlib.import_module('impactutils')
    assert os.path.realpath(m.__file__).startswith(os.path.realpath(REPO) + os.sep), m.__file__


def known_findings(prop):
    p = os.path.join(HERE, 'known_findings.jsonl')
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and l.startswith('{'):
                d = json.loads(l)
                if d.get('property') == prop and d.get('status') == 'known':
                    out.append(d)
    return out


def is_known(kf, ctid, label):
    for d in kf:
        if d['contract'] == ctid and label == d['label']:
            return d
    return None


def main():
    """everything runs with a scratch directory as its working directory: what the code under test writes under a
    relative name, or in temporary files, stays in there"""
    cwd, scratch = os.getcwd(), tempfile.mkdtemp(prefix='pyvc_')
    for n in ('cwd', 'tmp'):
        os.mkdir(os.path.join(scratch, n))
    os.chdir(os.path.join(scratch, 'cwd'))
    os.environ['TMPDIR'] = tempfile.tempdir = os.path.join(scratch, 'tmp')
    try:
        return decide(cwd)
    finally:
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)


def decide(cwd):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--replay')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    if a.replay:
        a.replay = os.path.join(cwd, a.replay)
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    t0 = time.time()
    cts = load(a.prop)
    if a.replay:
        return replay(a, cts)
    if a.only:
        cts = [c for c in cts if a.only in c.name]
    preload()
    # import the real modules once, before forking
    for ct in cts:
        for f in ct.funcs:
            parts = f.split('.')
            for k in range(len(parts), 1, -1):
                try:
                    importlib.import_module('.'.join(parts[:k]))
                    break
                except ImportError:
                    continue
    from pyvc import selftest
    thorough = tier == 'thorough'
    jobs = [('selftest', selftest.run, (), 120)]
    for ct in cts:
        b = ct.kw.get('budget', 60) * (6 if thorough else 1)
        if ct.kind in ('proof', 'bounded'):
            jobs.append((('sym', ct.id), job_sym, (ct, tier, b), b + 40))
        if ct.kind == 'exhaustive':
            s = ct.kw.get('seconds', 60) * (4 if thorough else 1)
            jobs.append((('conc', ct.id), job_exh, (ct, tier, s), s + 30))
        else:
            tr = ct.kw.get('trials', 3000) * (20 if thorough else 1)
            s = ct.kw.get('seconds', 6) * (15 if thorough else 1)
            jobs.append((('conc', ct.id), job_conc, (ct, seed, tr, s, tier), s + ct.kw.get('limit', 20) + 30))
    # long jobs first
    jobs.sort(key=lambda j: -j[3])
    width = int(os.environ.get('PYVC_JOBS', '8'))
    res = run_jobs(jobs, width)
    st = res.pop('selftest')
    selfok = isinstance(st, dict) and st.get('ok')

    # ---- counter-models: look for a failing input on the real code
    g = []
    for ct in cts:
        s = res.get(('sym', ct.id))
        if s and s.get('kind') == 'sym' and not (res.get(('conc', ct.id)) or {}).get('violation'):
            bad = [o for o in s['obs'] if o['status'] != 'proved']
            for i, o in enumerate(bad[:3]):
                sec = ct.kw.get('guided', 20 if not thorough else 120)
                g.append((('g', ct.id, i), guided, (ct, o['model'], seed, sec, tier), sec + 40))
            if s['status'] != 'ok' and not bad:
                sec = ct.kw.get('guided', 20 if not thorough else 120)
                g.append((('g', ct.id, 0), guided, (ct, {}, seed + 7, sec, tier), sec + 40))
    gres = run_jobs(g, width) if g else {}

    kf = known_findings(a.prop)
    violations, rows, notes, known = [], [], [], []
    tot = disch = 0
    backends = {}
    stime = 0.0
    assumptions, files, loops, invs, bounded = set(), {}, set(), {}, []
    undecided = []
    for ct in cts:
        s = res.get(('sym', ct.id))
        q = res.get(('conc', ct.id)) or {}
        row = dict(contract=ct.id, kind=ct.kind, functions=ct.funcs)
        viol = q.get('violation')
        if q.get('kind') == 'conc':
            row['concrete'] = dict(trials=q['trials'], rejected=q['rejected'], wall=round(q['wall'], 2))
            if q.get('error'):
                notes.append(f'{ct.id}: harness error in the concrete run: {q["error"][0]}')
                row['concrete']['error'] = q['error']
            if q.get('skip'):
                row['concrete']['skip'] = q['skip']
        elif q:
            row['concrete'] = dict(error=q.get('error'))
            notes.append(f'{ct.id}: concrete run {q.get("kind")} {q.get("error")}')
        witnessless = None
        if s is not None:
            if s.get('kind') == 'sym':
                n = len(s['obs'])
                ok = sum(o['status'] == 'proved' for o in s['obs'])
                tot += n + s['inv_checks']
                disch += ok + s['inv_checks']
                for o in s['obs']:
                    backends[o['backend']] = backends.get(o['backend'], 0) + 1
                stime += s['solver_time']
                assumptions.update(s['assumptions'])
                files.update(s['files'])
                loops.update(s['loops'])
                invs.update(s['invariants'])
                proved = s['status'] == 'ok' and s['complete'] and ok == n and n > 0
                row['symbolic'] = dict(status=s['status'], reason=s['reason'], complete=s['complete'], paths=s['paths'],
                                       obligations=n, discharged=ok, wall=round(s['wall'], 2))
                if ct.kind == 'bounded' and not s['bounded']:
                    s['bounded'] = [ct.kw.get('bound', 'bounded')]
                if s['bounded']:
                    row['symbolic']['bounds'] = s['bounded']
                    bounded.append(f'{ct.id}: {", ".join(s["bounded"])}')
                row['verdict'] = ('proved' if not s['bounded'] else 'proved within the bound') if proved else 'not proved'
                if not proved:
                    undecided.append(f"{ct.id}: {s['status']} {s['reason']}")
                    tot += 0 if ok < n else 1
                for i, o in enumerate([o for o in s['obs'] if o['status'] != 'proved'][:3]):
                    w = gres.get(('g', ct.id, i))
                    if isinstance(w, dict) and w.get('inputs') is not None and not viol:
                        viol = w
                        viol['obligation'] = o['label']
                    if o['status'] == 'refuted' and witnessless is None:
                        witnessless = o
                if s['status'] != 'ok' and not viol:
                    w = gres.get(('g', ct.id, 0))
                    if isinstance(w, dict) and w.get('inputs') is not None:
                        viol = w
            else:
                row['verdict'] = 'not proved'
                row['symbolic'] = dict(status=s.get('kind'), reason=s.get('error'), tb=s.get('tb'))
                undecided.append(f"{ct.id}: {s.get('kind')} {s.get('error')}")
                tot += 1
        else:
            row['verdict'] = 'exhaustive over its finite domain' if ct.kind == 'exhaustive' else 'bounded (sampled run-time check)'
            bounded.append(f'{ct.id}: {ct.kw.get("bound", row["verdict"])}')
        if viol:
            row['verdict'] = 'violated'
            d = is_known(kf, ct.id, viol['label'])
            if d:
                known.append(d)
            else:
                violations.append((ct, viol, None))
        elif witnessless is not None:
            row['verdict'] = 'violated (no failing input found)'
            violations.append((ct, None, witnessless))
        rows.append(row)
        if a.v:
            print(json.dumps(row))

    if violations and not any(v for _, v, _ in violations):
        # no failing input for the refuted obligations: search longer with the run-time contracts on the same functions
        hit = {f for ct, _, _ in violations for f in ct.funcs}
        more = []
        for ct in cts:
            if ct.kind == 'concrete' and hit & set(ct.funcs):
                sec = 4 * ct.kw.get('seconds', 6)
                more.append((('more', ct.id), job_conc, (ct, seed + 101, 20 * ct.kw.get('trials', 3000), sec, tier), sec + ct.kw.get('limit', 20) + 30))
        for (_, i), q in (run_jobs(more, width) if more else {}).items():
            if isinstance(q, dict) and q.get('violation'):
                ct = next(c for c in cts if c.id == i)
                if not is_known(kf, i, q['violation']['label']):
                    violations.append((ct, q['violation'], None))
    witnessed = any(v for _, v, _ in violations)

    if not cts:
        print('no contracts for', a.prop)
        return 2
    if not selfok:
        print('engine self-test failed:', st)
    kf_used = set()
    for d in known:
        if id(d) not in kf_used:
            kf_used.add(id(d))
            print(f"KNOWN-FINDING: property={a.prop} {d['what']}")
    seen = set()
    vlist = []
    os.makedirs(os.path.join(HERE, 'replay'), exist_ok=True)
    for ct, v, o in violations:
        path = os.path.join(HERE, 'replay', f"{a.prop}-{ct.name}.json")
        body = dict(property=a.prop, contract=ct.id, functions=ct.funcs)
        if v:
            body.update(obligation=v.get('obligation') or v['label'], label=v['label'], inputs=v['inputs'], detail=v['detail'],
                        how_to_replay=f'python3 {HERE}/check.py {a.prop} --replay {path}')
        else:
            body.update(obligation=o['label'], verifier=dict(status=o['status'], backend=o['backend'], counter_model=o['model'],
                                                             path=o['path'], note=o['note']),
                        note='no failing input found on the real code')
        with open(path, 'w') as f:
            json.dump(body, f, indent=1, default=str)
        print(f"  {ct.id}: obligation '{body['obligation']}' fails" + (f"; {str(v['detail'])[:300]}" if v and v.get('detail') else ''))
        if v or not witnessed:
            print(f"VIOLATION property={a.prop} replay={path}" + ('' if v else ' no-failing-input-found'))
        vlist.append(dict(contract=ct.id, obligation=body['obligation'], replay=path, witness=bool(v)))
    for n in notes:
        print('note:', n)
    for u in undecided:
        print('not proved:', u)
    man = json.load(open(os.path.join(HERE, 'MANIFEST.json')))
    level = next((c['level'] for c in man['checks'] if c['property'] == a.prop), 'proof')
    nprov = sum(r['verdict'] == 'proved' for r in rows)
    funcs = sorted({f for ct in cts for f in ct.funcs})
    pf = sorted({f for ct, r in zip(cts, rows) if r['verdict'] == 'proved' for f in ct.funcs})
    ev = dict(property=a.prop, tier=tier, seed=seed, level=level,
              coverage=dict(obligations=tot, discharged=disch,
                            checker_cmd=f'python3 check.py {a.prop} --tier {tier}',
                            trusted_base=TRUSTED, backends=backends, solver_s=round(stime, 2),
                            functions_under_contract=funcs, functions_with_discharged_contract=pf,
                            contracts=rows, contracts_proved=nprov, contracts_total=len(rows),
                            bounded_parts=bounded, not_proved=undecided, loops_cut_at_invariant=sorted(loops),
                            invariants=invs, source_sha256_16=files, selftest=st, violation_list=vlist,
                            explanation=f'{nprov} of {len(rows)} contracts proved for all inputs; '
                                        f'{sum(r["verdict"] == "proved within the bound" for r in rows)} proved within a stated bound; '
                                        f'{sum(ct.kind == "exhaustive" for ct in cts)} exhaustive over a finite domain; '
                                        f'{sum(ct.kind == "concrete" for ct in cts)} run-time checks on sampled inputs (never counted as proved)',
                            sampled_runs=sum(r.get('concrete', {}).get('trials', 0) or 0 for r in rows)),
              assumptions=ASSUME + sorted(assumptions), wall_s=round(time.time() - t0, 2), violations=len(vlist))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', a.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print(f"{a.prop}: {len(rows)} contracts, {nprov} proved for all inputs, {disch}/{tot} obligations discharged "
          f"({', '.join(f'{k} {v}' for k, v in sorted(backends.items()))}), solver {stime:.1f} s, wall {time.time() - t0:.1f} s")
    return 1 if violations else 0


TRUSTED = ['pyvc (the verification-condition generator in /verif/pyvc: extraction, symbolic semantics of Python, numpy model)',
           'z3 4.x (python bindings), cvc5 1.1.2', 'CPython 3.12 running the extracted bodies',
           'the contracts in /verif/contracts']
ASSUME = ['floating-point numbers are treated as mathematical reals in the proofs (the sampled run of the same contract on the '
          'real code uses floats with a tolerance)',
          'Python integers are unbounded; numpy integer overflow is not modelled',
          'the numpy functions used behave as their models in pyvc/npmodel.py',
          'signed zero and NaN inputs are outside the proofs']


def replay(a, cts):
    d = json.load(open(a.replay))
    ct = next((c for c in cts if c.id == d['contract']), None)
    preload()
    if ct is None or 'inputs' not in d:
        print(json.dumps(d, indent=1))
        return 1
    r, label, drawn, detail = H.run_one_concrete(ct, random.Random(1), d['inputs'], limit=60)
    print(r, label, detail or '')
    print(json.dumps(H.jsonable(drawn), indent=1)[:4000])
    return 1 if r == 'violation' else 0


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
