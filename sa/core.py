"""Shared driver for the per-property checks: export, run, compare, report, evidence."""
import os, re, sys, time, json, tempfile, subprocess, itertools
from ai import AI, Budget
import dom as D
from term import *
from mir import Mir, Agg, Ref, SRef, Fn, Vec, UNIT
from state import St

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)


def dump():
    p = os.environ.get('WEBPARSE_DUMP')
    if p:
        return Mir(p)
    fd, out = tempfile.mkstemp(suffix='.json', prefix='webparse-mir.')
    os.close(fd)
    try:
        r = subprocess.run([os.path.join(ROOT, 'dump.sh'), out], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
        if r.returncode:
            sys.stderr.write(r.stderr[-4000:])
            raise SystemExit(3)
        return Mir(out)
    finally:
        os.path.exists(out) and os.unlink(out)


class Missing(Exception):
    """an anchor (public function, type, table) is not in the analysed program"""


class Rep:
    """obligations of one property"""

    def __init__(self, pid):
        self.pid = pid
        self.obs = {}            # key -> [n, ok, msg]
        self.counts = {}
        self.unknown = set()
        self.fns = set()
        self.samples = []
        self.notes = []

    def ob(self, key, ok, msg=''):
        o = self.obs.setdefault(key, [0, True, ''])
        o[0] += 1
        if not ok and o[1]:
            o[1], o[2] = False, str(msg)[:600]
        return ok

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def floor(self, k, n):
        c = self.counts.get(k, 0)
        self.ob(f'floor:{k}', c >= n, f'only {c} {k} analysed, at least {n} expected')

    def took(self, ai):
        self.count('abstract_steps', ai.steps)
        self.unknown |= set(ai.unknown)
        self.fns |= {ai.mir.I[i]['name'] for i in ai.analysed}

    def merge(self, o):
        for k, (n, ok, msg) in o.obs.items():
            x = self.obs.setdefault(k, [0, True, ''])
            x[0] += n
            if not ok and x[1]:
                x[1], x[2] = False, msg
        for k, n in o.counts.items():
            self.count(k, n)
        self.unknown |= o.unknown
        self.fns |= o.fns
        self.samples += o.samples


def known_findings(pid):
    out = {}
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith('known: property=' + pid + ' '):
                rest = ln.split(' ', 2)[2]
                k, _, d = rest.partition(' :: ')
                out[k.strip()] = d.strip()
    return out


def finish(rep, rule, tier, t0, assumptions=()):
    kn = known_findings(rep.pid)
    bad = [(k, o) for k, o in rep.obs.items() if not o[1]]
    new = [(k, o) for k, o in bad if k not in kn]
    for k, o in bad:
        if k in kn:
            print(f'KNOWN-FINDING: property={rep.pid} {k} {kn[k]}')
    ev = {
        'property': rep.pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
        'coverage': {
            'explanation': rule,
            'obligations': sum(o[0] for o in rep.obs.values()),
            'distinct_obligations': len(rep.obs),
            'discharged': sum(1 for o in rep.obs.values() if o[1]),
            'functions_analysed': len(rep.fns),
            'functions': sorted(rep.fns)[:400],
            'unmodelled_callees': sorted(rep.unknown)[:60],
            'known_findings': [k for k, o in bad if k in kn],
            'samples': rep.samples[:12] or sorted(rep.obs)[:12],
            **rep.counts,
        },
        'assumptions': list(assumptions),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(new),
    }
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, 'evidence', rep.pid + '.json'), 'w'), indent=1)
    if new:
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        rp = os.path.join(ROOT, 'evidence', rep.pid + '.violations.txt')
        with open(rp, 'w') as f:
            for k, o in new:
                f.write(f'{k}\n    {o[2]}\n')
        for k, o in new[:40]:
            print(f'{k}\n    {o[2]}')
        print(f'VIOLATION property={rep.pid} replay={rp}')
        return 1
    print(f'OK property={rep.pid} obligations={ev["coverage"]["obligations"]} functions={len(rep.fns)} wall={ev["wall_s"]}s')
    return 0


# ------------------------------------------------------------------ running
def one(m, rx):
    r = m.find(rx)
    if not r:
        raise Missing(rx)
    if len(r) > 1:
        e = [i for i in r if i['crate'] == 'webparse' and '{closure' not in i['name'][re.search(rx, i['name']).end():]]
        if len(e) > 1:  # further instantiations of a generic: the one over the growable buffer stands for all of them
            b = [i for i in e if 'algorithm::buf::BinaryMut' in i['name']]
            if len(b) == 1:
                e = b
        if len(e) != 1:
            raise Missing(f'{rx}: {len(r)} candidates: ' + ', '.join(i['name'] for i in r[:4]))
        r = e
    return r[0]


def sym_args(ai, inst, given=()):
    b = ai.body(inst)
    out = []
    for i in range(b.args):
        t = b.locals[i + 1]
        if i < len(given) and given[i] is not None:
            out.append(given[i])
        else:
            out.append(ai.sym(var(('arg', i), t), t))
    return out


def arg(m, inst, i):
    return var(('arg', i), inst['body']['locals'][i + 1])


def run(m, rep, inst, given=(), setup=None, **kw):
    opts = {k: kw.pop(k) for k in ('cap', 'retcap', 'unroll', 'merge', 'budget') if k in kw}
    ai = AI(m, **opts)
    for k, v in kw.items():
        setattr(ai, k, v)
    st = St(m)
    if setup:
        setup(ai, st)
    res = ai.run(inst, sym_args(ai, inst, given), st)
    rep.took(ai)
    return ai, res


def vname(m, ty, v):
    """variant name of an enum value, or None"""
    if isinstance(v, Agg) and v.var is not None and m.is_enum(v.ty):
        return m.variants(v.ty)[v.var]['name'] if isinstance(m.variants(v.ty)[v.var], dict) else m.variants(v.ty)[v.var]
    return None


def par(rep, jobs, procs=8):
    """run independent parts [fn(rep)] of a check in forked workers and merge what they report, in order"""
    import multiprocessing as mp
    if len(jobs) < 2 or os.environ.get('WEBPARSE_SERIAL'):
        for j in jobs:
            j(rep)
        return
    global _jobs
    _jobs = (rep.pid, rep.tier, jobs)
    with mp.get_context('fork').Pool(min(procs, len(jobs))) as pool:
        for r in pool.imap(_work, range(len(jobs)), 1):
            rep.merge(r)
            rep.errors = getattr(rep, 'errors', []) + r.errors
    if rep.errors:
        raise LookupError('; '.join(rep.errors)[:600])


def _work(i):
    pid, tier, jobs = _jobs
    r = Rep(pid)
    r.tier, r.errors = tier, []
    try:
        jobs[i](r)
    except Exception as e:
        import traceback
        sys.stderr.write(traceback.format_exc()[-3000:])
        r.errors.append(f'{type(e).__name__}: {e}')
    return r
