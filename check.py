#!/opt/venv/bin/python
"""check.py <property> [--tier quick|thorough] [--case substring] [-v]
   check.py --replay FILE

Decides one property by symbolic execution of /repo/src/pyRFtk (see DESIGN.md).
exit 0: held on everything explored; exit 1: VIOLATION line; exit 2: nothing
could be decided (machinery error)."""
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')
sys.dont_write_bytecode = True
os.environ['MPLBACKEND'] = 'Agg'
for _v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[_v] = '1'
import tempfile
import shutil
import atexit
import io
import json
import time
import pickle
import signal
import importlib.util
import contextlib

SCRATCH = tempfile.mkdtemp(prefix='sxcheck_')
os.environ['MPLCONFIGDIR'] = SCRATCH
_main_pid = os.getpid()


def _clean():
    if os.getpid() == _main_pid:
        os.chdir('/')
        shutil.rmtree(SCRATCH, ignore_errors=True)


atexit.register(_clean)
ARGDIR = os.getcwd()
os.chdir(SCRATCH)
SRC = os.environ.get('PYRFTK_SRC', '/repo/src')
sys.path.insert(0, SRC)
sys.path.insert(0, HERE)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')


def load_real():
    with contextlib.redirect_stdout(io.StringIO()):
        import pyRFtk
    f = os.path.realpath(pyRFtk.__file__)
    if not f.startswith(os.path.realpath(SRC)):
        raise SystemExit('wrong pyRFtk imported: ' + f)
    return pyRFtk


class CaseSpec:
    def __init__(self, name, fn, kw=None, tier='quick', **opts):
        self.name, self.fn, self.kw, self.tier, self.opts = name, fn, kw or {}, \
            tier, opts


def load_harness(pid):
    from engine.loader import Loader
    path = os.path.join(HERE, 'harness', pid + '.py')
    real = load_real()
    sys.path.insert(0, os.path.join(HERE, 'harness'))
    spec = importlib.util.spec_from_file_location('harness_real_' + pid, path)
    hr = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(hr)
    ld = Loader()
    # helpers of the harnesses are loaded through the same transformation
    orig = ld.imp

    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        if level == 0 and name.startswith('hx'):
            if name not in ld.mods:
                ld.mods[name] = ld.load_harness(
                    os.path.join(HERE, 'harness', name + '.py'), name)
            return ld.mods[name]
        return orig(name, globals, locals, fromlist, level)
    ld.bi['__import__'] = imp

    def hs():
        ld.fresh()
        return ld.load_harness(path, 'harness_sym_' + pid)
    # compile once, before forking
    from engine import poly, sym
    poly.set_table(sym.Table())
    hs()
    return ld, hs, hr


# ------------------------------------------------------------ functions executed
class Coverage:
    TOOL = 3

    def __init__(self):
        self.seen = set()

    def start(self):
        m = sys.monitoring
        try:
            m.use_tool_id(self.TOOL, 'sx')
        except ValueError:
            return

        def cb(code, off):
            fn = code.co_filename
            if fn.startswith(SRC):
                self.seen.add(os.path.basename(fn)[:-3] + ':' + code.co_qualname)
            return m.DISABLE
        m.register_callback(self.TOOL, m.events.PY_START, cb)
        m.set_events(self.TOOL, m.events.PY_START)


def run_case(pid, spec, hs, hr, seed, tier):
    from engine.core import Opts, Stats
    from engine.decide import Decider
    sys.setrecursionlimit(20000)
    o = Opts()
    o.seed = seed
    o.max_validate = 8 if tier == 'quick' else 25
    if tier == 'thorough':
        o.max_seconds = 600
        o.max_paths = 4000
        o.timeout_goal = 20000
        o.timeout_branch = 2000
        o.direct_terms = 400
    for k, v in spec.opts.items():
        setattr(o, k, v)
    st = Stats()
    cov = Coverage()
    cov.start()
    fr = getattr(hr, spec.fn)
    t = time.time()
    from engine import text
    text.reset()
    d = Decider(spec.name, lambda c: getattr(hs(), spec.fn)(c, **spec.kw), lambda c: fr(c, **spec.kw),
                o, st)
    with contextlib.redirect_stdout(io.StringIO()):
        res = d.run()
    return dict(case=spec.name, st=st, violations=res.violations,
                inconclusive=res.inconclusive, labels=res.labels, notes=res.notes,
                samples=res.samples, witness=res.witness, exhausted=res.exhausted,
                funcs=sorted(cov.seen), wall=time.time() - t)


def run_all(pid, specs, hs, hr, seed, tier, jobs, verbose):
    """one forked process per case, at most `jobs` at a time"""
    queue = list(specs)
    running = {}
    results = []
    hard = 150 if tier == 'quick' else 760
    tmp = os.path.join(SCRATCH, 'res')
    os.makedirs(tmp, exist_ok=True)
    n = 0
    start = time.time()
    kn = [k['case'] for k in known() if k['property'] == pid]
    while queue or running:
        # a check is to answer within its time: a violation found is reported, the cases not
        # run are reported as undecided
        spent = time.time() - start
        if tier == 'quick' and (spent > 780 or spent > 400 and any(
                v['case'] not in kn for r in results
                for v in r.get('violations', ()))):
            for p, (sp, _, _) in running.items():
                os.kill(p, signal.SIGKILL)
                os.waitpid(p, 0)
            results += [dict(case=sp.name, error='not run: time limit')
                        for sp in [v[0] for v in running.values()] + queue]
            return results
        while queue and len(running) < jobs:
            sp = queue.pop(0)
            out = os.path.join(tmp, '%d.pkl' % n)
            n += 1
            sys.stdout.flush()
            p = os.fork()
            if p == 0:
                code = 0
                try:
                    import resource
                    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
                    wd = os.path.join(SCRATCH, 'w%d' % os.getpid())
                    os.makedirs(wd)
                    os.chdir(wd)
                    r = run_case(pid, sp, hs, hr, seed, tier)
                    with open(out, 'wb') as f:
                        pickle.dump(r, f)
                except BaseException as e:
                    import traceback
                    with open(out + '.err', 'w') as f:
                        f.write(traceback.format_exc())
                    code = 3
                os._exit(code)
            running[p] = (sp, out, time.time())
        time.sleep(0.02)
        for p in list(running):
            sp, out, t0 = running[p]
            q, status = os.waitpid(p, os.WNOHANG)
            if q == 0:
                if time.time() - t0 > sp.opts.get('hard', hard):
                    os.kill(p, signal.SIGKILL)
                    os.waitpid(p, 0)
                    err = 'time limit'
                else:
                    continue
            else:
                err = None
            del running[p]
            if err is None and os.path.exists(out):
                r = pickle.load(open(out, 'rb'))
                results.append(r)
            else:
                if err is None:
                    err = 'crashed (status %d)' % status
                    if os.path.exists(out + '.err'):
                        err = open(out + '.err').read()
                results.append(dict(case=sp.name, error=err))
            if verbose:
                r = results[-1]
                if 'error' in r:
                    print('  %-40s ERROR %s' % (r['case'], r['error'][-1500:]))
                else:
                    s = r['st']
                    print('  %-44s %6.1fs paths %3d asserts %4d viol %d inconcl %d '
                          'val %d%s terms %d' %
                          (r['case'], r['wall'], s.paths, s.asserts,
                           len(r['violations']), len(r['inconclusive']),
                           s.validated, '' if not s.diverged else
                           ' div %d' % s.diverged, s.maxterms))
                    for l, w in r['inconclusive'][:4]:
                        print('      ? %s: %s' % (l, str(w)[:600]))
                    for v in r['violations'][:2]:
                        print('      ! %s: %s\n        %s\n        %s %s' %
                              (v['label'], v['detail'][:600], v['goal'][:500],
                               v['inputs'], v['choices']))
                    for w in r['notes'][:2]:
                        print('      note %s' % w)
                sys.stdout.flush()
    return results


def known():
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get('findings', [])


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('pid', nargs='?')
    ap.add_argument('--tier', default=None)
    ap.add_argument('--case', default=None)
    ap.add_argument('--replay', default=None)
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--noev', action='store_true', help='write no evidence (development)')
    a = ap.parse_args()
    tier = a.tier or os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if a.replay:
        rp = a.replay if os.path.isabs(a.replay) else os.path.join(ARGDIR, a.replay)
        return do_replay(json.load(open(rp)))
    pid = a.pid
    t0 = time.time()
    try:
        ld, hs, hr = load_harness(pid)
    except Exception:
        import traceback
        traceback.print_exc()
        print('ERROR property=%s cannot load the code or the harness' % pid)
        return 2
    specs = [CaseSpec(*c[:2], **c[2]) for c in hr.cases(tier)]
    if a.case:
        specs = [s for s in specs if a.case in s.name]
    results = run_all(pid, specs, hs, hr, seed, tier, a.jobs, a.v)
    return report(pid, tier, seed, results, specs, hr, time.time() - t0, a.noev)


def report(pid, tier, seed, results, specs, hr, wall, noev=False):
    from engine.core import Stats
    st = Stats()
    viol, inc, funcs, samples, labels = [], [], set(), [], {}
    errs = []
    kn = [k for k in known() if k['property'] == pid]
    knhit = {}
    decided = 0
    for r in results:
        if 'error' in r:
            errs.append((r['case'], r['error']))
            continue
        st.add(r['st'])
        decided += sum(r['labels'].values())
        funcs |= set(r['funcs'])
        samples += r['samples']
        for l, n in r['labels'].items():
            labels[l] = labels.get(l, 0) + n
        for v in r['violations']:
            hit = None
            for k in kn:
                if k['case'] == v['case'] and (k.get('label') in (None, v['label'])
                                               or v['detail'].startswith(
                                                   k['label'])) and \
                        k.get('detail', '') in v['detail']:
                    hit = k
                    break
            if hit:
                knhit[hit['what']] = hit
            else:
                viol.append(v)
        inc += [(r['case'], l, str(w)[:400]) for l, w in r['inconclusive']
                if not any(k['case'] == r['case'] for k in kn)]
    rc = 0
    vlist = []
    rdir = os.path.join(SCRATCH if noev else HERE, 'evidence', 'replays')
    for k in kn:
        if k['what'] in knhit:
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    if viol:
        os.makedirs(rdir, exist_ok=True)
        done = set()
        for v in viol:
            if v['case'] in done:
                continue
            done.add(v['case'])
            path = os.path.join(rdir, '%s_%s.json' % (
                pid, ''.join(c if c.isalnum() else '_' for c in v['case'])))
            v = dict(v, property=pid)
            json.dump(v, open(path, 'w'), indent=1)
            print('VIOLATION property=%s replay=%s' % (pid, path))
            print('   case %s, %s: %s' % (v['case'], v['label'], v['detail'][:500]))
            vlist.append(dict(replay=path, what='%s: %s' % (v['case'],
                                                           v['detail'][:500])))
        rc = 1
    for c, e in errs:
        inc.append((c, 'error', e[-400:]))
    if inc:
        shown = set()
        for c, l, w in inc:
            if (c, l) not in shown and len(shown) < 10:
                print('INCONCLUSIVE property=%s case %s, %s: %s' %
                      (pid, c, l, w[:200]))
            shown.add((c, l))
    if rc == 0 and decided == 0:
        print('ERROR property=%s no assertion could be decided' % pid)
        rc = 2
    meta = getattr(hr, 'META', {})
    ev = dict(
        property=pid, tier='thorough' if tier == 'thorough' else 'quick',
        seed=seed, level='model_checking', wall_s=round(wall, 2),
        coverage=dict(
            states=st.paths, transitions=st.branches,
            traces_validated_against_impl=st.validated,
            samples=samples[:12],
            cases=len(specs), assertions_discharged=decided,
            assertion_labels=labels,
            functions_encoded=sorted(funcs),
            queries=st.queries, queries_unsat=st.unsat, queries_sat=st.sat,
            queries_unknown=st.unknown, solver_s=round(st.solver_s, 3),
            claims_decided_on_normal_form=st.norm_only,
            infeasible_branches=st.infeasible, replays_on_real_code=st.replays,
            largest_polynomial_terms=st.maxterms,
            bounds=meta.get('bounds', ''), inconclusive=[list(x) for x in inc[:40]],
            known_findings=[k['what'] for k in knhit.values()],
        ),
        assumptions=meta.get('assumptions', []) + [
            'floating point numbers are modelled by exact real/complex numbers; '
            'agreement with the floating point code is checked by replaying path '
            'witnesses (relative tolerance 1e-6)',
            'matrices the code inverts are assumed non singular for generic values '
            'of the inputs; divisors are assumed non zero',
        ],
        violations=vlist)
    ev['coverage'] = {k: v for k, v in ev['coverage'].items()}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    if not noev:
        json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1,
                  default=str)
    print('%s %s: %d cases, %d paths, %d assertions discharged, %d queries '
          '(%.1f s solver), %d replays, %d inconclusive, %.1f s' %
          (pid, {0: 'held', 1: 'VIOLATED', 2: 'undecided'}[rc], len(specs), st.paths,
           decided, st.queries, st.solver_s, st.replays, len(inc), wall))
    return rc


def do_replay(v):
    from engine.decide import replay, unser
    pid = v['property']
    ld, hs, hr = load_harness(pid)
    spec = None
    for tier in ('quick', 'thorough'):
        for c in hr.cases(tier):
            if c[0] == v['case']:
                spec = CaseSpec(*c[:2], **c[2])
    fr = getattr(hr, spec.fn)
    out = replay(lambda c: fr(c, **spec.kw), unser(v['inputs']), v['choices'])
    print(out)
    if out[0] in ('violated', 'exception'):
        print('VIOLATION property=%s replay=%s' % (pid, sys.argv[-1]))
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
