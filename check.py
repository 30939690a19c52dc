#!/usr/bin/env python3-vt
"""check.py <property> [--thorough] [-v]: decide one property on /repo's current source.

Exit 0: nothing broken; exit 1 and a VIOLATION line: a rule is broken at a named construct;
exit 2: /repo does not build or the check itself failed."""
import importlib
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'analysis'))
sys.setrecursionlimit(40000)
sys.dont_write_bytecode = True

MODULES = ['checks_card', 'checks_eval', 'checks_sys']


def known(prop):
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding: property=%s ' % prop):
                out.append(line.split(' ', 2)[2])
    return out


def find_check(prop):
    for m in MODULES:
        if os.path.exists(os.path.join(HERE, 'analysis', m + '.py')):
            mod = importlib.import_module(m)
            if hasattr(mod, prop):
                return getattr(mod, prop)
    raise SystemExit('no check for %s' % prop)


def trim(o, n):
    if isinstance(o, str):
        return o if len(o) <= n else o[:n] + '...'
    if isinstance(o, list):
        return [trim(x, n) for x in o]
    if isinstance(o, dict):
        return {k: trim(v, n) for k, v in o.items()}
    return o


def main():
    import threading
    args = [a for a in sys.argv[1:] if not a.startswith('-')]
    prop = args[0]
    thorough = '--thorough' in sys.argv
    verbose = '-v' in sys.argv
    t0 = time.time()
    import build
    from core import Ctx, World
    try:
        x = Ctx(prop, thorough)
    except build.BuildFailed as e:
        print('ERROR: %s' % e)
        return 2
    x.found = lambda o: FOUND.append((time.time(), prop, o)) if not any(k in '%s: %s' % (o['where'], o['what']) for k in known(prop)) else None
    x.only = next((a[7:] for a in sys.argv if a.startswith('--only=')), None)
    f = find_check(prop)
    spec = next((a[7:].split(',') for a in sys.argv if a.startswith('--part=')), None)
    if spec:
        with open(spec[0]) as h:
            part(x, f, json.load(h), spec[1])
        return 0
    import history
    ks, kinds = history.keys(x.w), builds()
    if ks or kinds:
        r = apart(x, ks, kinds, t0)
        fns, x.assumed = r['fns'], r['assumed']
    else:
        guarded(x, f)
        fns, x.assumed = x.functions(), x.assumptions()
    broken = [o for o in x.obs if o['status'] == 'broken']
    undecided = [o for o in x.obs if o['status'] == 'undecided']
    held = [o for o in x.obs if o['status'] == 'held']
    listed = known(prop)
    new, old = [], []
    for o in broken:
        key = '%s: %s' % (o['where'], o['what'])
        (old if any(k in key for k in listed) else new).append(o)
    wall = time.time() - t0
    ev = {
        'property': prop, 'tier': 'thorough' if thorough else 'quick', 'seed': int(os.environ.get('VERIF_SEED', '1')),
        'level': 'other', 'wall_s': round(wall, 2), 'violations': len(new),
        'coverage': {
            'explanation': 'Static analysis of the MIR of the current source; nothing of the crate is executed. %d obligations: %d held, '
                           '%d broken, %d undecided. %d function instances analysed (%d of the crate).' % (
                               len(x.obs), len(held), len(broken), len(undecided), len(fns), len([n for n in fns if 'poker' in n])),
            'obligations': len(x.obs), 'discharged': len(held), 'undecided': len(undecided),
            'functions': sorted(set(n for n in fns if 'poker' in n))[:250],
            'samples': x.obs,
        },
        'assumptions': x.assumed,
    }
    for lim in (2000, 600, 250, 120, 60):
        ev['coverage']['samples'] = trim(x.obs, lim)
        ev['coverage']['functions'] = trim(ev['coverage']['functions'], lim)
        s = json.dumps(ev, indent=1)
        if len(s) < 60000:
            break
    else:
        ev['coverage']['samples'] = trim(x.obs[:100], 60)
        ev['coverage']['functions'] = ev['coverage']['functions'][:60]
        s = json.dumps(ev, indent=1)
    evdir = os.environ.get('VERIF_EVIDENCE', os.path.join(HERE, 'evidence'))
    os.makedirs(evdir, exist_ok=True)
    with open(os.path.join(evdir, prop + '.json'), 'w') as h:
        h.write(s + '\n')
    for o in x.obs:
        if verbose or o['status'] != 'held':
            print('%-9s %6.2fs %s%s' % (o['status'], o['s'], o['name'],
                  '' if o['status'] == 'held' and not verbose else ': ' + str(o.get('why') or o.get('what') or o.get('covered') or '')[:400]))
            if o['status'] == 'broken':
                print('          at %s' % o['where'])
            if verbose and 'trace' in o:
                print(o['trace'])
    print('%s: %d obligations, %d held, %d broken, %d undecided, %.1f s' % (prop, len(x.obs), len(held), len(broken), len(undecided), wall))
    for o in old:
        print('KNOWN-FINDING: property=%s %s: %s' % (prop, o['where'], o['what']))
    if new:
        rp = os.path.join(evdir, prop + '.violation.json')
        with open(rp, 'w') as h:
            json.dump({'property': prop, 'violations': trim(new, 4000)}, h, indent=1)
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    return 0


def builds():
    """Builds that differ from the one tests use, where the source makes a difference."""
    import build
    feats = build.feature_dependent()
    return [k for k, also in (('release', build.profile_dependent()), ('bare', 'rand' in feats), ('static', 'static_lookup' in feats)) if also]


class Parts:
    """A check in several processes: one for each build, or thing that state between calls may hold."""

    def __init__(self, prop, t0):
        import tempfile
        self.prop, self.t0 = prop, t0
        self.tmp = tempfile.mkdtemp(prefix='vpart')
        self.took = [0]

    def run(self, spec, share=None):
        import subprocess
        left = SECONDS - 30 - (time.time() - self.t0)
        if left < 20 + 1.2 * self.took[-1]:
            return None
        src, dst = os.path.join(self.tmp, 'in.json'), os.path.join(self.tmp, 'out.json')
        with open(src, 'w') as h:
            json.dump(spec, h)
        if os.path.exists(dst):
            os.unlink(dst)
        t = time.time()
        flags = [a for a in sys.argv[1:] if a.startswith('--') and not a.startswith('--part')]
        env = dict(os.environ, VERIF_SECONDS=str(int(left if share is None else min(left, share))))
        p = subprocess.run([sys.executable, os.path.join(HERE, 'check.py'), self.prop] + flags + ['--part=%s,%s' % (src, dst)],
                           env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        self.took.append(time.time() - t)
        if not os.path.exists(dst):
            return {'obs': [{'name': 'the analysis', 'rule': '', 'status': 'undecided', 'why': 'it ended without a result: ' + p.stdout[-300:], 's': 0}],
                    'left': {}, 'fns': [], 'assumed': []}
        with open(dst) as h:
            return json.load(h)

    def done(self):
        import shutil
        shutil.rmtree(self.tmp, ignore_errors=True)


def part(x, f, spec, out):
    """One of them: the check with the state as given."""
    import history
    sc = spec.get('scenario')
    if sc is not None:
        ks = {k.key: k for k in history.keys(x.w)}
        x.build = ''
        x.todo = set(spec['todo'])
        x.start = {k: ks[k].term(ks[k].init) for k in sc}
        x.w.scenario = {k: ks[k].term(v) for k, v in sc.items()}
        guarded(x, f)
    else:
        if spec['build']:
            import build
            from core import Ctx
            y = x
            try:
                x = Ctx(x.prop, x.thorough, **{spec['build']: True})
                x.only, x.found = y.only, y.found
            except build.BuildFailed as e:
                f = None
                x.obs.append({'name': 'the %s build' % spec['build'], 'rule': '', 'status': 'undecided', 'why': str(e)[:300], 's': 0})
        if f:
            guarded(x, f)
    res = {'obs': x.obs, 'fns': x.functions() if x._w is not None else [], 'assumed': x.assumptions(), 'left': {}}
    if sc is not None:
        res['left'] = {k: history.after(x.w.left.get(k, [])) for k in sc}
    with open(out, 'w') as h:
        json.dump(res, h)


def apart(x, ks, kinds, t0):
    """The check on the crate as tests build it and on other builds that may differ; and when the crate keeps state
    between calls, a look for a violation after earlier calls.  Returns what evidence says was analysed."""
    import history
    parts = Parts(x.prop, t0)
    broken = lambda obs: any(o['status'] == 'broken' for o in obs)
    try:
        first = parts.run({'build': ''}, 420)
        x.obs = list(first['obs'])
        todo = [o['name'] for o in x.obs if o['status'] == 'undecided']
        for kind in kinds:
            if not broken(x.obs):
                r = parts.run({'build': kind})
                x.obs += r['obs'] if r else [{'name': 'the %s build' % kind, 'rule': '', 'status': 'undecided', 'why': 'out of time', 's': 0}]
        if not ks or not todo or broken(x.obs):
            return first
        names = {k.key: k for k in ks}
        plan = [({k.key: k.init for k in ks}, 'at the first call')]
        x._w.left = {}
        tried = 0
        while plan:
            values, what = plan.pop(0)
            r = parts.run({'scenario': values, 'todo': todo})
            if r is None:
                break
            tried += 1
            if '-v' in sys.argv:
                print('%s: %s' % (what, [(o['status'], o['name'], o.get('why')) for o in r['obs'] if o['status'] != 'held']))
            for o in r['obs']:
                if o['status'] == 'broken':
                    o['name'] = '%s (%s)' % (o['name'], what)
                    o['what'] = '%s: %s' % (what, o['what'])
                    x.obs.append(o)
            if broken(x.obs):
                break
            if tried == 1 and len(ks) == 1:
                k = ks[0]
                for v in history.reached(x.w, k, r['left'][k.key]):
                    plan.append(({k.key: v}, 'after earlier calls that leave %s at %d' % (k.name, v)))
        return first
    finally:
        parts.done()


FOUND = []          # when the first violation was found


def guarded(x, f):
    from core import OutOfTime, EXPIRED
    try:
        x.guarded(f)
    except OutOfTime:
        EXPIRED.append('set up')
        x.obs.append({'name': 'the rest', 'rule': '', 'status': 'undecided', 'why': 'out of time', 's': 0})


SECONDS = 780       # of a whole run
MORE = 45           # after a violation

if __name__ == '__main__':
    import ctypes
    import resource
    import threading
    # running out of memory leaves an obligation undecided instead of ending the run
    total = os.sysconf('SC_PAGE_SIZE') * os.sysconf('SC_PHYS_PAGES')
    resource.setrlimit(resource.RLIMIT_AS, (max(total * 17 // 20, 8 << 30),) * 2)
    threading.stack_size(1 << 29)
    box = {}

    def go():
        try:
            box['rc'] = main()
        except SystemExit as e:
            print(e)
            box['rc'] = 2
        except BaseException:
            import traceback
            traceback.print_exc()
            box['rc'] = 2
    t = threading.Thread(target=go)
    t.start()
    end = time.time() + float(os.environ.get('VERIF_SECONDS', SECONDS))
    while t.is_alive() and time.time() < end:
        t.join(1)
        if FOUND:           # the answer is known; the rest only adds to the report
            end = min(end, FOUND[0][0] + MORE)
    if t.is_alive():
        sys.path.insert(0, os.path.join(HERE, 'analysis'))
        from core import OutOfTime
        ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(t.ident), ctypes.py_object(OutOfTime))
        t.join(60)
        if 'rc' not in box and FOUND:
            _, prop, o = FOUND[0]
            evdir = os.environ.get('VERIF_EVIDENCE', os.path.join(HERE, 'evidence'))
            os.makedirs(evdir, exist_ok=True)
            rp = os.path.join(evdir, prop + '.violation.json')
            with open(rp, 'w') as h:
                json.dump({'property': prop, 'violations': trim([o], 4000)}, h, indent=1)
            print('broken    %s: %s\n          at %s' % (o['name'], o['what'], o['where']))
            print('VIOLATION property=%s replay=%s' % (prop, rp))
            box['rc'] = 1
            spec = next((a[7:].split(',') for a in sys.argv if a.startswith('--part=')), None)
            if spec:
                with open(spec[1], 'w') as h:
                    json.dump({'obs': [o], 'left': {}, 'fns': [], 'assumed': []}, h)
        box.setdefault('rc', 0)
    sys.stdout.flush()
    os._exit(box.get('rc', 2))
