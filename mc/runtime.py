"""Explorer front end: enumerates the units of a check over worker processes,
judges every case, merges the counters, writes evidence and replay files.

A check module (mc/checks/cXX.py) provides
    LEVEL, RULE, ASSUMPTIONS
    plan(tier)      -> list of units; together the units are the whole bounded
                       space (an exhaustive enumeration, nothing is sampled)
    run(unit, ctx)  -> visits every case of the unit
"""
import concurrent.futures as cf
import ctypes
import hashlib
import importlib
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIMIT_CASE_S = 60          # one case normally takes milliseconds
LIMIT_RUN_S = {'quick': 780, 'thorough': 840}


class CaseTimeout(BaseException):
    pass


class Stop(BaseException):
    pass


class Violation(Exception):
    pass


def _alarm(signum, frame):
    raise CaseTimeout('no answer within %d s' % LIMIT_CASE_S)


class Ctx(object):
    """Counters and verdicts of one unit."""

    MAXV = 5

    def __init__(self, prop, unit, known, only=None):
        self.prop, self.unit, self.known_ids, self.only = prop, unit, known, only
        self.n = {}
        self.violations = []
        self.known = {}
        self.samples = []
        self.outcomes = set()
        self.cur = None

    # -- exploration bookkeeping
    def count(self, key, n=1):
        self.n[key] = self.n.get(key, 0) + n

    def state(self, n=1):
        self.count('states', n)

    def trans(self, n=1):
        self.count('transitions', n)

    def trace(self, n=1):
        self.count('traces', n)

    def outcome(self, obj):
        if len(self.outcomes) < 20000:
            self.outcomes.add(hashlib.blake2b(repr(obj).encode(), digest_size=8).digest())

    def case(self, desc, sample=False):
        """Start a case; False if it is to be skipped (replay of another)."""
        signal.setitimer(signal.ITIMER_REAL, LIMIT_CASE_S)
        if self.only is not None and json.loads(json.dumps(desc)) != self.only:
            return False
        self.cur = desc
        self.count('cases')
        if len(self.samples) < 2 or sample:
            self.samples.append(desc)
        return True

    # -- verdicts
    def fail(self, what, **data):
        self.count('violations')
        if len(self.violations) < self.MAXV:
            self.violations.append(dict(what=what, case=self.cur, unit=self.unit, data=data))
        if self.n['violations'] >= self.MAXV:
            raise Stop()

    def check(self, cond, what, **data):
        self.count('checks')
        if not cond:
            self.fail(what, **data)
        return bool(cond)

    def known_or_fail(self, kid, what, **data):
        if kid in self.known_ids:
            k = self.known.setdefault(kid, [0, what, self.cur])
            k[0] += 1
        else:
            self.fail(what, **data)

    def crash(self, exc, what='unexpected exception'):
        tb = traceback.format_exception(type(exc), exc, exc.__traceback__)
        self.count('violations')
        self.violations.append(dict(what='%s: %s: %s' % (what, type(exc).__name__, exc),
                                    case=self.cur, unit=self.unit, data={'traceback': ''.join(tb)[-3000:]}))


def known_findings(prop):
    ids = {}
    path = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line:
                    k = json.loads(line)
                    if k.get('kind') == 'known' and k.get('property') == prop:
                        ids[k['id']] = k
    return ids


_mod = None


def _init(prop):
    global _mod
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)      # PR_SET_PDEATHSIG
    dn = os.open(os.devnull, os.O_WRONLY)
    sys.stdout.flush()
    os.dup2(dn, 1)
    _mod = importlib.import_module('mc.checks.' + prop.lower())


def _guarded(mod, unit, ctx):
    try:
        mod.run(unit, ctx)
    except Stop:
        pass
    except CaseTimeout as e:
        ctx.crash(e, 'hang')
    except KeyboardInterrupt:
        raise
    except MemoryError as e:
        ctx.crash(e)
    except BaseException as e:
        ctx.crash(e)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def _work(args):
    prop, unit, known, idx = args
    t = time.time()
    ctx = Ctx(prop, unit, known)
    _guarded(_mod, unit, ctx)
    return idx, dict(n=ctx.n, violations=ctx.violations, known=ctx.known, samples=ctx.samples,
                     outcomes=ctx.outcomes, dt=time.time() - t)


def _jsonable(o):
    try:
        import numpy as np
        if isinstance(o, np.ndarray):
            return o.tolist()
        if isinstance(o, np.generic):
            return o.item()
    except ImportError:
        pass
    return repr(o)


def run_check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    known = known_findings(prop)
    total, viol, kfound, samples, outcomes = {}, [], {}, [], set()
    capped = None
    units = []
    mod = None
    try:
        mod = importlib.import_module('mc.checks.' + prop.lower())
        from . import impl
        try:
            impl.I.calc_k0
        except Exception as e:       # the code under test cannot even be loaded
            viol.append(dict(what='import failed: %r' % e, case=None, unit=None,
                             data={'traceback': traceback.format_exc()[-3000:]}))
        if not viol:
            units = list(mod.plan(tier))
    except Exception:
        traceback.print_exc()
        return 2
    nproc = min(int(os.environ.get('MC_JOBS', os.cpu_count() or 1)), max(1, len(units)))
    done = 0
    slow = []
    if units and not viol:
        # the seed only rotates the order in which the (complete) space is visited
        order = list(range(len(units)))
        mpc = multiprocessing.get_context('fork')
        ex = cf.ProcessPoolExecutor(nproc, mp_context=mpc, initializer=_init, initargs=(prop,))
        futs = {}
        results = {}
        try:
            for i in order:
                futs[ex.submit(_work, (prop, units[i], set(known), i))] = i
            deadline = t0 + LIMIT_RUN_S[tier]
            pending = set(futs)
            nviol = 0
            while pending:
                d, pending = cf.wait(pending, timeout=max(0.1, deadline - time.time()),
                                     return_when=cf.FIRST_COMPLETED)
                for f in d:
                    idx, r = f.result()
                    results[idx] = r
                    nviol += len(r['violations'])
                if nviol >= 40:
                    capped = 'stopped early after %d violations' % nviol
                    break
                if not d and time.time() >= deadline:
                    capped = 'time cap: %d of %d units explored' % (len(results), len(units))
                    break
        except cf.process.BrokenProcessPool:
            idxs = sorted(set(range(len(units))) - set(results))
            viol.append(dict(what='the process running the code under test died', case=None,
                             unit=units[idxs[0]] if idxs else None, data={'unfinished_units': len(idxs)}))
        finally:
            # every result wanted is here: no worker may outlive the run, since it
            # would keep the pipes of whoever started the check open
            procs = list((ex._processes or {}).values())
            ex.shutdown(wait=False, cancel_futures=True)
            for p in procs:
                p.kill()
            for p in procs:
                p.join(5)
        for idx in sorted(results):
            r = results[idx]
            done += 1
            for k, v in r['n'].items():
                total[k] = total.get(k, 0) + v
            viol.extend(r['violations'])
            for k, v in r['known'].items():
                e = kfound.setdefault(k, [0, v[1], v[2]])
                e[0] += v[0]
            outcomes |= r['outcomes']
            slow.append((r['dt'], idx))
            if len(samples) < 8 and r['samples']:
                samples.append(r['samples'][0 if idx % 2 == 0 else -1])
    cov = dict(states=total.get('states', 0), transitions=total.get('transitions', 0),
               traces_validated_against_impl=total.get('traces', 0),
               distinct_outcomes=len(outcomes),
               rule=getattr(mod, 'RULE', ''), comparisons=total.get('checks', 0),
               units=len(units), units_completed=done, samples=samples or ['(none)'],
               exhaustive=(capped is None and not viol), bounds=getattr(mod, 'BOUNDS', {}).get(tier, ''))
    for k, v in total.items():
        if k not in ('states', 'transitions', 'traces', 'cases', 'checks', 'violations'):
            cov[k] = v
    if total.get('cases', 0) != cov['states']:
        cov['cases'] = total.get('cases', 0)
    if capped:
        cov['cap'] = capped
    cov['known_findings_seen'] = {k: v[0] for k, v in kfound.items()}
    ev = dict(property=prop, tier=tier, seed=seed, level=getattr(mod, 'LEVEL', 'model_checking'),
              coverage=cov, assumptions=getattr(mod, 'ASSUMPTIONS', []),
              wall_s=round(time.time() - t0, 3), violations=len(viol))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    path = os.path.join(VERIF, 'evidence', prop + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1, default=_jsonable)
        f.write('\n')
    os.replace(path + '.tmp', path)
    for k in sorted(kfound):
        print('KNOWN-FINDING: property=%s %s: %s [seen in %d cases]' % (
            prop, k, known[k]['what'], kfound[k][0]))
    print('%s %s: cases=%d states=%d transitions=%d traces=%d comparisons=%d outcomes=%d units=%d/%d '
          'wall=%.1fs%s' % (prop, tier, total.get('cases', 0), cov['states'], cov['transitions'],
                            cov['traces_validated_against_impl'], cov['comparisons'], len(outcomes),
                            done, len(units), ev['wall_s'], ' CAP ' + capped if capped else ''))
    if os.environ.get('MC_VERBOSE'):
        for dt, idx in sorted(slow)[::-1][:6]:
            print('  slow unit %.1fs %s' % (dt, json.dumps(units[idx], default=_jsonable)[:200]))
    if viol:
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        seen = set()
        for n, v in enumerate(viol[:5]):
            rp = os.path.join(VERIF, 'replays', '%s_%s_%d.json' % (prop, tier, n))
            with open(rp, 'w') as f:
                json.dump(dict(property=prop, tier=tier, **v), f, indent=1, default=_jsonable)
            print('  %s | case %s' % (v['what'], json.dumps(v['case'], default=_jsonable)[:400]))
            if n == 0:
                print('VIOLATION property=%s replay=%s' % (prop, rp))
        sys.stdout.flush()
        return 1
    if done != len(units) and not capped:
        print('internal error: %d of %d units' % (done, len(units)))
        return 2
    if total.get('cases', 0) == 0 or total.get('checks', 0) == 0:
        print('internal error: nothing was explored')
        return 2
    return 0


def replay(path):
    with open(path) as f:
        r = json.load(f)
    prop = r['property']
    mod = importlib.import_module('mc.checks.' + prop.lower())
    signal.signal(signal.SIGALRM, _alarm)
    unit = r['unit']
    # JSON turns tuples into lists: use the planned unit itself
    for u in mod.plan(r['tier']):
        if json.loads(json.dumps(u, default=_jsonable)) == unit:
            unit = u
            break
    ctx = Ctx(prop, unit, set(known_findings(prop)), only=r['case'])
    out = os.dup(1)
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    _guarded(mod, unit, ctx)
    sys.stdout.flush()
    os.dup2(out, 1)
    for v in ctx.violations:
        print('REPRODUCED property=%s %s' % (prop, v['what']))
        print(json.dumps(v, indent=1, default=_jsonable)[:4000])
    if not ctx.violations:
        print('not reproduced')
    return 1 if ctx.violations else 0


def main(argv):
    if len(argv) >= 2 and argv[0] == 'replay':
        return replay(argv[1])
    if argv[:1] == ['setup']:
        from . import impl
        impl.I.calc_k0
        print('setup: meshless loads from', impl.REPO)
        return 0
    prop = argv[0].upper()
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in LIMIT_RUN_S:
        tier = 'quick'
    return run_check(prop, tier)


if __name__ == '__main__':
    code = main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(code)
