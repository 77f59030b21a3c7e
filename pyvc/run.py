"""Decides one property: proves its contracts on the current source of /repo, runs the native stand-ins, writes evidence.

usage: python -m pyvc.run C07 [quick|thorough]      (see check.sh)
       python -m pyvc.run --replay FILE"""
import copyreg
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

import cbor2

copyreg.pickle(cbor2.CBORTag, lambda t: (cbor2.CBORTag, (t.tag, t.value)))

from . import contract as K
from . import native, values

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = {}           # set before the workers fork


from .contract import History, Violation                # noqa: E402,F401


def load(pid):
    m = importlib.import_module('specs.' + pid.lower())
    return m


# ---- workers ---------------------------------------------------------------------------------------------

def merge(a, b):
    for n in ('paths', 'returns', 'raises', 'obligations', 'discharged', 'checks'):
        setattr(a, n, getattr(a, n) + getattr(b, n))
    a.seconds += b.seconds
    a.solver_s += b.solver_s
    a.solver_max = max(a.solver_max, b.solver_max)
    for k in b.by:
        a.by[k] = a.by.get(k, 0) + b.by[k]
    a.failed += b.failed
    a.undecided += b.undecided
    a.inlined |= b.inlined
    a.used |= b.used
    a.trusted |= b.trusted
    return a


def w_prove(args):
    ci, prefixes, npaths, seconds, lemmas, seed = args
    c = PROP['contracts'][ci]
    subst = K.substitutions([PROP['contracts'][i] for i in lemmas if i != ci], PROP['assumed'])
    from . import ext
    res = K.Result(c.name)
    t0 = time.time()
    st0 = (values.STATS.checks, values.STATS.time)
    values.STATS.max = 0.0
    stack = [list(p) for p in prefixes]
    try:
        while stack and res.paths < npaths and time.time() - t0 < seconds:
            prefix = stack.pop()
            cx = K.run_one(c, prefix, subst, res, PROP['thorough'])
            for i in range(len(cx.trace) - 1, len(prefix) - 1, -1):
                alts = cx.trace[i][1]
                if alts:
                    base = [(t[0], t[2]) for t in cx.trace[:i]]
                    for a in alts:
                        stack.append(base + [(a, cx.trace[i][2])])
            if res.failed:
                break
    except K.ShapeMismatch as e:
        res.undecided.append(f'shape: {e}')
        stack = []
    except Exception:
        res.undecided.append('engine: ' + traceback.format_exc()[-1500:])
        stack = []
    res.trusted = set(ext.TRUSTED)
    res.seconds = time.time() - t0
    res.checks = values.STATS.checks - st0[0]
    res.solver_s = values.STATS.time - st0[1]
    res.solver_max = values.STATS.max
    for f in res.failed:
        f['replay'] = replay_failed(c, f, seed)
        f['packed'] = native.pack(f['replay'][0] if f['replay'] else f['values'])
        f['shown'] = native.describe(f['replay'][0] if f['replay'] else f['values'])
        f['values'] = None
    return ci, res, stack


def replay_failed(c, f, seed):
    """Runs the counterexample, and variations of it, on the real code: (values, difference) or None."""
    vals = f['values']
    if not c.native or '__error__' in vals:
        return None
    t0 = time.time()
    n = 0
    while n < 150 and time.time() - t0 < 6:
        try:
            v = vals if n == 0 else native.perturb(vals, f'{seed}/{n}')
            cx = native.ConcCtx(v, seed=n)
            d = native.run_native(c, cx)
            if d:
                return cx.values(), d
        except Exception:
            pass
        n += 1
    return None


def w_native(args):
    ci, seed, seconds, tries = args
    c = PROP['contracts'][ci]
    try:
        n, skipped, f = native.search(c, seed, seconds, tries)
    except (AttributeError, K.ShapeMismatch, ImportError) as e:
        return ci, 0, 0, None, f'shape: {e}'
    except Exception:
        return ci, 0, 0, None, traceback.format_exc()[-800:]
    if f:
        return ci, n, skipped, (native.pack(f[0]), native.describe(f[0]), f[1]), None
    return ci, n, skipped, None, None


def run_history(h, seed):
    import random
    rng = random.Random(seed)
    with native.patched(seed):
        return h.fn(rng)


def w_history(args):
    hi, seed, start, step, tries, seconds = args
    h = PROP['histories'][hi]
    t0 = time.time()
    n = 0
    err = None
    i = start
    while i < tries and time.time() - t0 < seconds:
        s = f'{h.name}/{seed}/{i}'
        i += step
        n += 1
        try:
            run_history(h, s)
        except Violation as e:
            return hi, n, (s, str(e)), err
        except native.Skip:
            n -= 1
        except Exception:
            return hi, n, (s, 'unexpected exception: ' + traceback.format_exc()[-900:]), err
    return hi, n, None, err


# ---- main ------------------------------------------------------------------------------------------------

def proved(c, r):
    return not r.failed and not r.undecided and r.returns > 0 and r.discharged == r.obligations


def main(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    thorough = tier == 'thorough'
    mod = load(pid)
    contracts = list(mod.CONTRACTS)
    if thorough:
        contracts += list(getattr(mod, 'THOROUGH', []))
    histories = list(getattr(mod, 'HISTORIES', []))
    deadline = float(os.environ.get('VERIF_PROOF_S', 0)) or (1500 if thorough else 420)
    PROP.update(assumed=list(getattr(mod, 'ASSUMED', [])), contracts=contracts, histories=histories, thorough=thorough)
    nproc = min(8, os.cpu_count() or 4)
    ctx = mp.get_context('fork')
    results = {i: K.Result(c.name) for i, c in enumerate(contracts)}
    natives, hists = {}, {}
    viol = []
    with ctx.Pool(nproc, maxtasksperchild=60) as pool:
        nat_s = 60 if thorough else 8
        nat = [pool.apply_async(w_native, ((i, seed, nat_s, (20 if thorough else 1) * c.tries),))
               for i, c in enumerate(contracts) if c.native]
        lemmas = []

        def submit(ci, prefixes, npaths=25):
            return (ci, pool.apply_async(w_prove, ((ci, prefixes, npaths, 12, list(lemmas), seed),)))
        waves = [[i for i, c in enumerate(contracts) if not c.native_only and c.lemma],
                 [i for i, c in enumerate(contracts) if not c.native_only and not c.lemma]]
        pend = []
        hs = []
        for i, h in enumerate(histories):
            ways = 4
            tries = h.tries * (20 if thorough else 1)
            secs = (h.seconds or 12) * (8 if thorough else 1)
            hs += [pool.apply_async(w_history, ((i, seed, k, ways, tries, secs),)) for k in range(ways)]
        stopped = set()
        while pend or waves:
            if not pend:
                wave = waves.pop(0)
                lemmas = [i for i, c in enumerate(contracts) if c.lemma and results[i].paths and not results[i].failed]
                pend = [submit(i, [()], 4) for i in wave]
                continue
            nxt = []
            moved = False
            for ci, r in pend:
                if not r.ready():
                    nxt.append((ci, r))
                    continue
                moved = True
                _, res, stack = r.get()
                merge(results[ci], res)
                if len(results[ci].failed) >= 4 or ci in stopped:
                    stopped.add(ci)
                    continue
                if any(u.startswith(('engine', 'shape')) for u in res.undecided):
                    stopped.add(ci)
                    continue
                if sum(u.startswith('unsupported') for u in results[ci].undecided) > 40:
                    stopped.add(ci)
                    continue
                if stack:
                    if time.time() - t0 > deadline or results[ci].paths > contracts[ci].paths * (4 if thorough else 1):
                        if ci not in stopped:
                            results[ci].undecided.append(f'limit reached after {results[ci].paths} paths')
                            stopped.add(ci)
                        continue
                    k = max(1, min(nproc, len(stack)))
                    for j in range(k):
                        part = stack[j::k]
                        if part:
                            nxt.append(submit(ci, part))
            pend = nxt
            if not moved:
                time.sleep(0.02)
        for r in nat:
            ci, n, skipped, f, err = r.get()
            natives[ci] = (n, skipped, err)
            if f and not contracts[ci].soft:
                viol.append({'kind': 'contract', 'contract': contracts[ci].name, 'packed': f[0], 'input': f[1],
                             'difference': f[2], 'found_by': 'random differential run'})
        for r in hs:
            hi, n, f, err = r.get()
            a = hists.get(hi, 0)
            hists[hi] = a + n
            if f and not any(v.get('history') == histories[hi].name for v in viol):
                viol.append({'kind': 'history', 'history': histories[hi].name, 'seed': f[0], 'difference': f[1],
                             'found_by': 'native history'})
    # verdict
    noinput = []
    # a helper that does not meet the contract assumed for it: only differences that show natively count
    broken = any(c.lemma and (c.soft and results[i].failed or not results[i].paths) for i, c in enumerate(contracts))
    for i, c in enumerate(contracts):
        r = results[i]
        if not r.failed and not r.undecided and not c.native_only and not r.returns:
            r.undecided.append('vacuous: no path returns')
        for j, l in enumerate(contracts):
            if l.lemma and j != i and l.name in r.used and not proved(l, results[j]):
                r.undecided.append(f'rests on the contract of {l.name}, which is not proved')
        for f in [] if c.soft else r.failed:
            v = {'kind': 'contract', 'contract': c.name, 'obligation': f['label'], 'goal': f['goal'],
                 'path_condition': f['path'], 'packed': f['packed'], 'input': f['shown'],
                 'functions': list(c.funcs), 'verifier': 'z3: sat (obligation refuted)'}
            if f['replay']:
                v['difference'] = f['replay'][1]
                v['found_by'] = 'counterexample of the verifier, replayed on the real code'
                viol.append(v)
            elif not f['taint'] and not broken:
                noinput.append(v)
    write_evidence(pid, tier, seed, mod, contracts, histories, results, natives, hists, viol, noinput, t0)
    out = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(out, exist_ok=True)
    code = 0
    if viol or noinput:
        code = 1
        v = (viol or noinput)[0]
        v['property'] = pid
        v['others'] = len(viol) + len(noinput) - 1
        path = os.path.join(out, f'{pid}.json')
        json.dump(v, open(path, 'w'), indent=1, default=str)
        print(f'{v.get("contract") or v.get("history")}: {v.get("difference") or v.get("obligation")}')
        print(f'VIOLATION property={pid} replay={path}' + ('' if viol else ' no-failing-input-found'))
    for i, c in enumerate(contracts):
        r = results[i]
        und = sorted(set(r.undecided))
        if c.native_only:
            print(f'  bounded  {c.name}: {natives.get(i, (0,))[0]} native cases')
        else:
            print(f'  {"proved  " if r.discharged == r.obligations and not und and not r.failed else "UNDECIDED" if not r.failed else "FAILED  "} '
                  f'{c.name}: {r.discharged}/{r.obligations} obligations, {r.paths} paths, {r.seconds:.1f} s'
                  + (f' [bounded: {c.bounded}]' if c.bounded else '') + ('  ' + '; '.join(und[:3])[:1600] if und else ''))
        if natives.get(i) and natives[i][2]:
            print(f'     native: {natives[i][2]}')
    for i, h in enumerate(histories):
        print(f'  history  {h.name}: {hists.get(i, 0)} cases')
    print(f'{pid}: {time.time() - t0:.1f} s')
    return code


TRUSTED = [
    'pyvc, the symbolic executor of /verif/pyvc (semantics of the Python subset; cross-checked on every run by native '
    'differential runs of the same harnesses and specifications)',
    'z3 (and cvc5 where z3 gave no answer)',
    'the models in pyvc/ext.py and pyvc/extlib.py of built-ins and of the libraries outside the repository: a '
    'cryptographic operation is an uninterpreted function of its canonical arguments, cbor2.dumps an injective function '
    'with inverse cbor2.loads; failures of these libraries are uninterpreted predicates of the same arguments',
    'the specification functions in /verif/specs as a reading of RFC 8152 and of the property text',
]


def write_evidence(pid, tier, seed, mod, contracts, histories, results, natives, hists, viol, noinput, t0):
    level = 'proof'
    obl = sum(r.obligations for r in results.values())
    dis = sum(r.discharged for r in results.values())
    und = {c.name: sorted(set(results[i].undecided))[:10] for i, c in enumerate(contracts) if results[i].undecided}
    funcs = sorted({f for c in contracts for f in c.funcs})
    inl = sorted({f for r in results.values() for f in r.inlined})
    lib = sorted({f for r in results.values() for f in r.trusted})
    cov = {
        'obligations': obl,
        'discharged': dis,
        'checker_cmd': f'./check.sh {pid} {tier}',
        'trusted_base': TRUSTED + ['library operations assumed: ' + ', '.join(lib)] + list(getattr(mod, 'TRUSTED', [])),
        'contracts': [{
            'name': c.name, 'functions': list(c.funcs), 'obligations': results[i].obligations,
            'discharged': results[i].discharged, 'paths': results[i].paths, 'returning_paths': results[i].returns,
            'raising_paths': results[i].raises, 'by': results[i].by, 'solver_checks': results[i].checks,
            'solver_s': round(results[i].solver_s, 2), 'solver_max_s': round(results[i].solver_max, 3),
            'engine_s': round(results[i].seconds, 2), 'refuted': len(results[i].failed),
            'undecided': sorted(set(results[i].undecided))[:10], 'bounded': c.bounded,
            'native_cases': natives.get(i, (0,))[0], 'mode': 'bounded (native)' if c.native_only else 'proved'
        } for i, c in enumerate(contracts)],
        'functions_under_contract': funcs,
        'functions_inlined_in_the_proofs': inl,
        'undecided': und,
        'histories': {h.name: hists.get(i, 0) for i, h in enumerate(histories)},
        'evaluations': sum(n[0] for n in natives.values()) + sum(hists.values()),
        'violations_with_input': len(viol), 'violations_without_input': len(noinput),
    }
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])) + [f'{c.name}: bounded: {c.bounded}' for c in contracts if c.bounded]
          + [f'contract of {a[0]} assumed: {a[2]}' for a in getattr(mod, 'ASSUMED', [])],
          'wall_s': round(time.time() - t0, 2), 'violations': len(viol) + len(noinput)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', f'{pid}.json'), 'w'), indent=1, default=str)


def replay(path):
    v = json.load(open(path))
    mod = load(v['property'])
    if v['kind'] == 'history':
        h = [h for h in mod.HISTORIES if h.name == v['history']][0]
        try:
            run_history(h, v['seed'])
        except Exception as e:
            print('reproduced:', e)
            return 1
        print('does not fail')
        return 0
    c = [c for c in list(mod.CONTRACTS) + list(getattr(mod, 'THOROUGH', [])) if c.name == v['contract']][0]
    print(json.dumps(v.get('input'), indent=1))
    d = native.run_native(c, native.ConcCtx(native.unpack(v['packed']))) if v.get('packed') else None
    print('reproduced: ' + d if d else 'no difference on this input; obligation: ' + str(v.get('obligation')))
    return 1 if d else 0


if __name__ == '__main__':
    if sys.argv[1] == '--replay':
        sys.exit(replay(sys.argv[2]))
    sys.exit(main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')))
