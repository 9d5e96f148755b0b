#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough]

Decides one property of the checker on /repo's current source:
 1. clang's AST of the current source is extracted and every function under
    contract the property depends on is verified against its contract;
 2. the inductive and arithmetic lemmas the proofs use are proved (Z3, Lean);
 3. the binary built from the current source is run on generated inputs with
    an independent oracle (failing inputs for failed obligations, bounded
    stand-in where a function is out of reach, validation of the assumptions).
Exit 0: held.  Exit 1: a VIOLATION line was printed.  Anything else: no answer.
"""
import sys, os, time, json, shutil, tempfile, random, importlib, hashlib, subprocess, argparse, threading
import multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from vf.props import PROPS
from vf.conc import core

JOBS = min(8, os.cpu_count() or 4)


def log(*a):
    print('[%s]' % time.strftime('%H:%M:%S'), *a, file=sys.stderr, flush=True)


# ---------------------------------------------------------------- proofs
G = {}


def _task(i):
    from vf import verify
    c, f, o = G['jobs'][i]
    return i, verify.run_one(G['p'], G['d'], c, f, o['timeout'], focus=o['focus'], budget=o['budget'], smt=o['smt'])


def _fork_task(i, q):
    try:
        q.put(_task(i))
    except BaseException as x:      # noqa: a crash of the prover is not an answer
        q.put((i, {'fn': G['jobs'][i][1].qual, 'status': 'error', 'error': repr(x)[:300], 'obs': [], 'used': [], 'unresolved': [], 'weak': [],
                   'sig': '', 'wall': 0.0}))


def prove(prop, spec, tier, deadline, variant):
    """verify the contracts the property depends on; returns records and notes"""
    from vf.cast import Program
    from vf.domain import Domain
    t = time.time()
    res = dict(recs=[], missing=[], trusted=[], error=None, lemmas=[])
    try:
        p = Program()
        d = Domain(p, **variant.get('domain', {}))
        regs = []
        for m in variant['mods']:
            for c in importlib.import_module('vf.' + m).contracts(d):
                fs = d.register(c)
                regs.append((c, fs))
    except Exception as x:          # noqa: extraction failed
        res['error'] = '%s: %s' % (type(x).__name__, str(x)[:400])
        return res
    if spec.get('frame'):
        from vf import frame
        res['frame'] = frame.check(p, spec['frame'])
    G['p'], G['d'] = p, d
    opts = dict(timeout=10000 if tier == 'quick' else 30000, focus=prop, budget=300 if tier == 'quick' else 600,
                smt=tier == 'thorough')
    by_mangled = {}
    for c, fs in regs:
        for f in fs:
            by_mangled[f.mangled] = (c, f)
    todo, seen = [], set()

    def want(m):
        if m in seen or m not in by_mangled:
            return
        seen.add(m)
        c, f = by_mangled[m]
        if c.trusted:
            res['trusted'].append('%s: assumed contract (%s)' % (f.qual, c.why))
        else:
            todo.append((c, f))
    for r in variant['roots']:
        hit = False
        for c, fs in regs:
            if c.fn == r:
                for f in fs:
                    hit = True
                    want(f.mangled)
        if not hit:
            res['missing'].append(r)
    G['jobs'] = []
    q = mp.Queue()
    run = {}
    while todo or run:
        while todo and len(run) < JOBS:
            c, f = todo.pop(0)
            G['jobs'].append((c, f, opts))
            i = len(G['jobs']) - 1
            pr = mp.Process(target=_fork_task, args=(i, q), daemon=True)
            pr.start()
            run[i] = pr
        try:
            i, rec = q.get(timeout=1)
        except Exception:           # noqa: queue.Empty
            dead = [i for i, pr in run.items() if not pr.is_alive()]
            if dead:
                time.sleep(0.5)
                if q.empty():
                    for i in dead:
                        run.pop(i)
                        res['recs'].append({'fn': G['jobs'][i][1].qual, 'status': 'error', 'error': 'prover process died', 'obs': [],
                                            'used': [], 'unresolved': [], 'weak': [], 'sig': '', 'wall': 0.0})
            if time.time() > deadline:
                for i, pr in run.items():
                    pr.terminate()
                    res['recs'].append({'fn': G['jobs'][i][1].qual, 'status': 'timeout', 'error': 'time budget used up', 'obs': [],
                                        'used': [], 'unresolved': [], 'weak': [], 'sig': '', 'wall': 0.0})
                for c, f in todo:
                    res['recs'].append({'fn': f.qual, 'status': 'timeout', 'error': 'time budget used up', 'obs': [],
                                        'used': [], 'unresolved': [], 'weak': [], 'sig': '', 'wall': 0.0})
                break
            continue
        run.pop(i).join()
        res['recs'].append(rec)
        for m in rec['used']:
            want(m)
    # inductive lemmas of the specification functions
    from vf import verify
    for nm, hyps, goal, ax in d.lemma_obs:
        r, det, mdl = verify.check1(hyps, goal, ax, 20000, True)
        res['lemmas'].append((nm, r, 'z3'))
    res['wall'] = time.time() - t
    res['given'] = sorted({a for c, fs in regs if any(f.mangled in seen for f in fs) for a in getattr(c, 'assumes', [])})
    return res


def lean(files):
    out = []
    for f in files:
        path = os.path.join(HERE, 'lemmas', f + '.lean')
        try:
            p = subprocess.run(['lean', path], capture_output=True, text=True, timeout=300)
            ok = p.returncode == 0 and 'sorry' not in p.stdout + p.stderr and 'error' not in p.stdout
        except (OSError, subprocess.TimeoutExpired):
            ok = None
        n = sum(1 for l in open(path) if l.startswith('theorem'))
        out.append((f, ok, n))
    return out


# ---------------------------------------------------------------- concrete runs
def concrete(prop, spec, tier, seed, exe, scratch, deadline, mult=1):
    R = core.Runner(exe, scratch)
    for m in spec.get('conc', []):
        M = importlib.import_module('vf.conc.' + m)
        R.all(M.cases(prop, random.Random('%s-%d' % (prop, seed)), tier), deadline=deadline)
        if R.fails:
            break
    return R


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--no-proof', action='store_true')
    ap.add_argument('--no-conc', action='store_true')
    a = ap.parse_args()
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    prop, spec = a.prop, PROPS[a.prop]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='verif-')
    try:
        return check(prop, spec, tier, seed, t0, scratch, a)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def check(prop, spec, tier, seed, t0, scratch, a):
    budget = 600 if tier == 'quick' else 3000
    # the binary is built while the proofs run
    built = {}

    def bld():
        try:
            built['exe'] = core.build(scratch, spec.get('flags', ('-O1',)))
        except core.BuildError as x:
            built['err'] = str(x)
    th = threading.Thread(target=bld)
    variants = spec.get('variants') or [dict(mods=spec.get('mods', []), roots=spec.get('roots', []))]
    pres = []
    # (threads and fork do not mix: the build finishes first)
    th.start()
    th.join()
    log('binary built')
    if 'err' in built:
        print('the checker does not build: ' + built['err'], file=sys.stderr)
        return 2
    # concrete runs first: a failing input settles the matter
    R = core.Runner(built['exe'], scratch)
    if not a.no_conc:
        R = concrete(prop, spec, tier, seed, built['exe'], scratch, t0 + (240 if tier == 'quick' else 1500))
        log('%d concrete checks in %d runs, %d failures' % (R.checks, R.runs, len(R.fails)))
    for v in variants:
        if v['mods'] and not a.no_proof:
            pres.append(prove(prop, spec, tier, t0 + budget, v))
    log('proofs done')
    lem = lean(spec.get('lemmas', [])) if not a.no_proof else []
    # ---- judgement
    obs = [(r, o) for pr in pres for r in pr['recs'] for o in r['obs']]
    nob = len(obs) + sum(len(pr['lemmas']) for pr in pres) + sum(n for _, _, n in lem)
    nok = sum(o['status'] == 'proved' for _, o in obs) + sum(r == 'proved' for pr in pres for _, r, _ in pr['lemmas']) + \
        sum(n for _, ok, n in lem if ok)
    definite, undecided = [], []
    for pr in pres:
        if pr['error']:
            undecided.append('extraction: ' + pr['error'])
        for f, w in pr.get('frame', []):
            undecided.append('frame of %s: %s' % (f, w))
        for m in pr['missing']:
            undecided.append('%s: no such function in the current source' % m)
        for r in pr['recs']:
            bad = [o for o in r['obs'] if o['status'] != 'proved']
            if r['status'] != 'ok':
                undecided.append('%s: %s %s' % (r['fn'], r['status'], r.get('error', '') or '; '.join(r['unresolved'])))
            elif bad:
                f = [o for o in bad if o['status'] == 'failed']
                if f and not r['weak']:
                    definite += [(r, o) for o in f]
                else:
                    undecided.append('%s: %s (%s)%s' % (r['fn'], bad[0]['name'], bad[0]['status'], ' loop without invariant: ' + r['weak'][0] if r['weak'] else ''))
        for nm, r, _ in pr['lemmas']:
            if r != 'proved':
                undecided.append('lemma %s: %s' % (nm, r))
    for f, ok, n in lem:
        if not ok:
            undecided.append('Lean file %s was not accepted' % f)
    if definite and not R.fails and spec.get('conc'):
        # look harder for a failing input
        log('obligation failed: %s; searching for a failing input' % definite[0][1]['name'])
        R2 = concrete(prop, spec, 'thorough', seed + 1, built['exe'], scratch, time.time() + 120)
        R.runs += R2.runs
        R.checks += R2.checks
        R.fails += R2.fails
    viol = []
    known = known_findings(prop)
    os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
    why = '\n'.join('failed obligation: %s / %s' % (r['fn'], o['name']) for r, o in definite)
    if R.fails:
        for c, got, out in R.fails[:3]:
            hit = [k for k in known if k['match'] in c.what]
            if hit:
                print('KNOWN-FINDING: property=%s %s' % (prop, hit[0]['what']))
                continue
            p = core.write_replay(prop, c, got, out, why)
            viol.append('VIOLATION property=%s replay=%s' % (prop, p))
            print('%s: %s: expected %s, got %s' % (prop, c.what, c.expect, got))
    elif definite:
        r, o = definite[0]
        d = os.path.join(HERE, 'evidence', 'replay', '%s-%s' % (prop, hashlib.sha1((r['fn'] + o['name']).encode()).hexdigest()[:12]))
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        with open(os.path.join(d, 'README'), 'w') as f:
            f.write('property: %s\n%s\n\nThe verifier rejects these obligations on the current source; no failing input was found in %d runs (%d checks).\n' % (prop, why, R.runs, R.checks))
            for r, o in definite:
                f.write('\nfunction   : %s   %s\nobligation : %s\nsolver     : z3, %s\npath       : %s\nmodel      : %s\n' % (
                    r['fn'], r['sig'], o['name'], o['detail'], ' '.join(str(x) for x in o['trace']), o['model']))
        viol.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, d))
        print('%s: obligation not discharged: %s / %s' % (prop, r['fn'], o['name']))
    evidence(prop, spec, tier, seed, t0, pres, lem, R, nob, nok, definite, undecided, viol)
    print('%s: %d of %d obligations discharged in %d functions, %d concrete checks, %.0f s' % (
        prop, nok, nob, sum(len(pr['recs']) for pr in pres), R.checks, time.time() - t0))
    for u in undecided:
        print('  undecided by proof (bounded check only): ' + u)
    for v in viol:
        print(v)
    return 1 if viol else 0


def known_findings(prop):
    p = os.path.join(HERE, 'known_findings.jsonl')
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('{'):
                k = json.loads(l)
                if k.get('property') == prop and k.get('status') == 'open':
                    out.append(k)
    return out


def evidence(prop, spec, tier, seed, t0, pres, lem, R, nob, nok, definite, undecided, viol):
    fns = []
    trusted, lib, assum = set(), set(), set()
    for pr in pres:
        trusted |= set(pr['trusted'])
        assum |= set(pr.get('given', []))
        for r in pr['recs']:
            fns.append({'function': r['fn'], 'signature': r['sig'], 'status': r['status'], 'obligations': len(r['obs']),
                        'discharged': sum(o['status'] == 'proved' for o in r['obs']), 'solver_s': round(sum(o['time'] for o in r['obs']), 2),
                        'return_paths': r.get('returns'), 'inlined': r.get('inlined', []), 'wall_s': round(r['wall'], 2)})
            lib |= set(r.get('lib', []))
    back = {}
    for pr in pres:
        for r in pr['recs']:
            for o in r['obs']:
                if o['status'] == 'proved':
                    b = o['backend'] + (' (%s)' % o['detail'] if o['detail'] else '')
                    back[b] = back.get(b, 0) + 1
                    if o.get('other'):
                        back['also ' + o['other']] = back.get('also ' + o['other'], 0) + 1
        for nm, r, b in pr['lemmas']:
            if r == 'proved':
                back['z3 (induction)'] = back.get('z3 (induction)', 0) + 1
    for f, ok, n in lem:
        if ok:
            back['lean'] = back.get('lean', 0) + n
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': spec.get('level', 'proof'),
        'coverage': {
            'obligations': nob, 'discharged': nok, 'by_backend': back,
            'checker_cmd': 'python3-vt check.py %s --tier %s' % (prop, tier),
            'functions_under_contract': fns,
            'solver_s': round(sum(f['solver_s'] for f in fns), 2),
            'trusted_base': sorted(trusted) + BASE + (['assumed contracts of library functions: ' + ', '.join(sorted(lib))] if lib else []),
            'frames_checked': sorted(spec.get('frame', {})),
            'undecided_by_proof': undecided,
            'evaluations': R.runs, 'distinct_nontrivial': R.checks,
            'rule': spec.get('rule', 'bounded, not counted as proof: generated scripts are run by the binary built from the current source and compared with an independent oracle; '
                             'every check names one verdict the property demands'),
            'samples': R.samples[:6],
        },
        'assumptions': sorted(assum) + spec.get('assumptions', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(viol),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    tmp = os.path.join(HERE, 'evidence', '.%s.tmp' % prop)
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(HERE, 'evidence', prop + '.json'))


BASE = ['clang 18 front end (AST of the current source)', 'the verification condition generator vf/ (symbolic execution of the AST)',
        'z3 4.x (obligations)', 'assumed contracts of the C++ standard library and GMP (vf/stdlib.py)']

if __name__ == '__main__':
    sys.exit(main())
