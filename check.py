#!/usr/bin/env python3
"""Driver of the deterministic simulation.

  check.py <ID> [--tier quick|thorough]   decide one property
  check.py --replay FILE                  replay one recorded run (exit 1 if it still fails)
  check.py --setup                        compile everything once
"""
import sys, os, re, json, time, hashlib, subprocess, struct, threading
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
T0 = time.time()
NW = min(8, os.cpu_count() or 4)

CXX = ['clang++', '-std=c++17', '-O1', '-g1', '-fno-pie', '-fno-omit-frame-pointer', '-mno-omit-leaf-frame-pointer',
       '-D_GLIBCXX_ASSERTIONS', '-fsanitize-coverage=trace-pc-guard',
       '-fsanitize-coverage-allowlist=' + HERE + '/worlds/allow.txt', '-w']
GXX = ['g++', '-std=c++17', '-O2', '-w', '-fno-pie', '-fno-omit-frame-pointer']

# property -> (jobs [(world, mode, weight)], leaks judged?)
CHECKS = {
    'C01': dict(jobs=[('w90', 'hist', 1)]),
    'C02': dict(jobs=[('w45', 'hist', 1)]),
    'C03': dict(jobs=[('wgen', 'hist', 1)]),
    'C04': dict(jobs=[('w90', 'rfault', 1), ('w45', 'rfault', 1), ('wgen', 'rfault', 1)], leaks=True),
    'C05': dict(jobs=[('w90', 'mfault', 1), ('w45', 'mfault', 1), ('wgen', 'mfault', 1)], leaks=True),
    'C06': dict(jobs=[(w, m, 1) for w in ('wm90', 'wm45', 'wmgen') for m in ('mhist', 'mfault')], leaks=True),
    'C07': dict(jobs=[(w, m, 1) for w in ('wm90', 'wm45', 'wmgen') for m in ('ehist', 'efault')], leaks=True),
    'C08': dict(jobs=[('wvor', 'hist', 1)]),
    'C09': dict(jobs=[('wvor', 'fault', 1)], leaks=True),
    'C10': dict(jobs=[('w90', 'iso', 1), ('w45', 'iso', 1), ('wgen', 'iso', 1), ('wvor', 'iso', 1), ('walg', 'iso', 1), ('wm90', 'iso', 1), ('wm45', 'iso', 1), ('wmgen', 'iso', 1)]),
    'C16': dict(jobs=[('walg', 'shist', 1), ('walg', 'sfault', 1)], leaks=True),
    'C17': dict(jobs=[('walg', 'rhist', 1), ('walg', 'rfault', 1)], leaks=True),
    'C11': dict(jobs=[('w90', 'readers', 1), ('w45', 'readers', 1), ('wgen', 'readers', 1)]),
}
WORLDS = sorted({j[0] for c in CHECKS.values() for j in c['jobs']})
BUDGET = {'quick': 75.0, 'thorough': 700.0}      # seconds of search per check
COUNT = {'quick': 1000000, 'thorough': 4000000}    # seeds per job, whichever comes first
LEVEL = 'exploration'


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def tree_key():
    h = hashlib.sha256()
    for root, dirs, files in sorted(os.walk(os.path.join(REPO, 'include'))):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(root, f)
            h.update(os.path.relpath(p, REPO).encode()); h.update(open(p, 'rb').read())
    for d in ('sim', 'worlds'):
        for f in sorted(os.listdir(os.path.join(HERE, d))):
            h.update(f.encode()); h.update(open(os.path.join(HERE, d, f), 'rb').read())
    h.update(repr((CXX, GXX)).encode())
    return h.hexdigest()[:16]


def build(worlds):
    out = os.path.join(HERE, 'build', tree_key())
    os.makedirs(out, exist_ok=True)
    todo = [w for w in sorted(set(worlds)) if not os.path.exists(os.path.join(out, w))]

    def one(cmd):
        r = sh(cmd)
        return r.returncode, r.stderr
    if todo:
        cmds = [GXX + ['-c', HERE + '/sim/sim.cpp', '-o', out + '/sim.o.%d' % os.getpid()]]
        cmds += [CXX + ['-I' + REPO + '/include', '-I' + HERE + '/sim', '-c', HERE + '/worlds/' + w + '.cpp', '-o', out + '/%s.o.%d' % (w, os.getpid())] for w in todo]
        with ThreadPoolExecutor(NW) as ex:
            for (rc, err), c in zip(ex.map(one, cmds), cmds):
                if rc:
                    print('BUILD FAILED: ' + ' '.join(c)); print(err[-4000:]); sys.exit(2)
        for w in todo:
            t = out + '/%s.%d' % (w, os.getpid())
            r = sh(['g++', '-no-pie', out + '/%s.o.%d' % (w, os.getpid()), out + '/sim.o.%d' % os.getpid(), '-o', t])
            if r.returncode:
                print('LINK FAILED'); print(r.stderr[-4000:]); sys.exit(2)
            os.rename(t, os.path.join(out, w))
            os.unlink(out + '/%s.o.%d' % (w, os.getpid()))
        os.unlink(out + '/sim.o.%d' % os.getpid())
    # keep few old builds
    ds = sorted((os.path.getmtime(os.path.join(HERE, 'build', d)), d) for d in os.listdir(os.path.join(HERE, 'build')))
    for _, d in ds[:-4]:
        p = os.path.join(HERE, 'build', d)
        for f in os.listdir(p):
            os.unlink(os.path.join(p, f))
        os.rmdir(p)
    return out


# ------------------------------------------------------------------ known findings
def known_findings():
    """lines: 'finding: property=C01 kind=replay file=... :: text'
              'finding: property=C04 kind=leak files=a.hpp,b.hpp :: text'
              'fixed: property=... <commit> text'   (suppresses nothing)"""
    res = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('finding:'):
                head, _, text = l[8:].partition('::')
                d = dict(kv.split('=', 1) for kv in head.split())
                d['text'] = text.strip(); res.append(d)
    return res


class Sites:
    """allocation stack -> (file, function) of the innermost library frame"""
    def __init__(self, exe):
        self.exe = exe; self.cache = {}

    def frames(self, addrs):
        new = [a for a in addrs if a not in self.cache]
        if new:
            out = sh(['addr2line', '-e', self.exe, '-f', '-C', '-i', '-a'] + ['%x' % (int(a, 16) - 1) for a in new]).stdout.split('\n')
            cur = None; i = 0
            for line_i in range(len(out)):
                l = out[line_i]
                if re.match(r'^0x[0-9a-f]+$', l):
                    cur = new[i]; i += 1; self.cache[cur] = []; pend = None; k = 0
                elif cur is not None and l:
                    if k % 2 == 0: pend = l
                    else: self.cache[cur].append((pend, l))
                    k += 1
        return [f for a in addrs for f in self.cache.get(a, [])]

    def site(self, fr):
        for fn, loc in self.frames(fr):
            if '/boost/polygon/' in loc:
                return os.path.basename(loc.split(':')[0]), re.sub(r'<.*', '', fn)
        return ('?', '?')


def leak_known(site, prop, kf):
    return any(k['property'] == prop and k.get('kind') == 'leak' and site[0] in k['files'].split(',') for k in kf)


# ------------------------------------------------------------------ replay
def replay(out, text, twice=False, tag=''):
    w = re.search(r'^world (\S+)', text, re.M).group(1)
    d = os.path.join(out, 'tmp.%d.%d%s' % (os.getpid(), threading.get_ident(), tag))
    open(d, 'w').write(text)
    try:
        o = sh([os.path.join(out, w), '--replay', d] + (['--twice'] if twice else []), timeout=400).stdout
    finally:
        os.unlink(d)
    m = re.search(r'^RESULT (\S+) class=(.*?) hash=(\S+) sched=(\S+) same=(\d) msg=(.*)$', o, re.M)
    if not m:
        return dict(status='broken', cls='broken', hash='', sched='', same=0, msg=o[-300:], leaks=[])
    return dict(status=m.group(1), cls=m.group(2), hash=m.group(3), sched=m.group(4), same=int(m.group(5)), msg=m.group(6),
                leaks=[l.split()[1:] for l in o.split('\n') if l.startswith('LEAK')])


def judge(out, text, prop, kf, twice=False):
    """violation of this run as (class, message) or None; known leaks are not violations"""
    r = replay(out, text, twice)
    if r['status'] == 'violation':
        return r, (r['cls'], r['msg'])
    if r['status'] == 'ok' and CHECKS.get(prop, {}).get('leaks') and r['leaks']:
        w = re.search(r'^world (\S+)', text, re.M).group(1)
        st = Sites(os.path.join(out, w))
        for fr in r['leaks']:
            s = st.site(fr)
            if not leak_known(s, prop, kf):
                return r, ('leak', 'memory allocated in %s (%s) is never released after a failed operation' % (s[1], s[0]))
    return r, None


def minimise(out, text, prop, kf, cls, budget):
    end = time.time() + budget
    kind = cls.split(':')[0]

    def bad(t):
        if time.time() > end: return False
        try:
            _, v = judge(out, t, prop, kf)
        except subprocess.TimeoutExpired:
            return False
        return v is not None and v[0].split(':')[0] == kind
    L = text.strip().split('\n')
    hdr = [l for l in L if not l.startswith('op ')]; ops = [l for l in L if l.startswith('op ')]
    J = lambda h, o: '\n'.join(h + o) + '\n'
    ch = True
    while ch and time.time() < end:
        ch = False
        n = max(1, len(ops) // 2)
        while n >= 1:
            i = 0
            while i < len(ops):
                t = ops[:i] + ops[i + n:]
                if bad(J(hdr, t)): ops = t; ch = True
                else: i += n
            n //= 2
        for i in range(len(ops)):
            for pat in (r' @\S+', r' !\S+'):
                t = re.sub(pat, '', ops[i])
                if t != ops[i] and bad(J(hdr, ops[:i] + [t] + ops[i + 1:])): ops[i] = t; ch = True
            m = re.search(r' @(\S+)', ops[i])
            if m and ',' in m.group(1):
                for p in m.group(1).split(','):
                    t = ops[i].replace(m.group(0), ' @' + p)
                    if bad(J(hdr, ops[:i] + [t] + ops[i + 1:])): ops[i] = t; ch = True; break
            f = re.search(r' [!@].*$', ops[i]); tail = f.group(0) if f else ''; body = ops[i][:len(ops[i]) - len(tail)].split()
            while len(body) > 15:      # trailing shapes come in groups of six numbers
                t = ' '.join(body[:-6]) + tail
                if not bad(J(hdr, ops[:i] + [t] + ops[i + 1:])): break
                ops[i] = t; body = body[:-6]; ch = True
    for k, v in (('ox', '0'), ('oy', '0'), ('orients', '0')):
        h = [re.sub(r'^cfg %s .*' % k, 'cfg %s %s' % (k, v), x) for x in hdr]
        if h != hdr and bad(J(h, ops)): hdr = h
    return J(hdr, ops)


# ------------------------------------------------------------------ search
def run_job(out, world, mode, base, count, cap, prop):
    """one (world, mode): NW workers over interleaved seed indices; returns merged result"""
    exe = os.path.join(out, world)
    tag = os.path.join(out, 'w.%d.%s.%s' % (os.getpid(), world, mode))
    procs = []
    for k in range(NW):
        n = (count - k + NW - 1) // NW
        procs.append(subprocess.Popen([exe, '--mode', mode, '--base', str(base), '--start', str(k), '--stride', str(NW), '--count', str(n),
                                       '--cap', '%.1f' % cap, '--out', tag + '.%d' % k], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True))
    res = dict(world=world, mode=mode, runs=0, ops=0, steps=0, preempts=0, preempted_runs=0, faulted_runs=0, fired={}, armed={}, probes={}, leaks=[], viols=[])
    scheds, hashes, edges = set(), set(), None
    stop = False
    for k, p in enumerate(procs):
        o, e = p.communicate()
        last = o.strip().split('\n')[-1] if o.strip() else ''
        try:
            d = json.loads(last)
        except ValueError:
            print('WORKER FAILED %s %s rc=%s: %s %s' % (world, mode, p.returncode, last[-300:], e[-300:])); sys.exit(2)
        for f in ('runs', 'ops', 'steps', 'preempts', 'preempted_runs', 'faulted_runs'): res[f] += d[f]
        for f in ('fired', 'armed', 'probes'):
            for a, b in d[f].items(): res[f][a] = res[f].get(a, 0) + b
        res['leaks'] += d['leaks']
        if d['violation']: res['viols'].append(d['violation'])
        for ext, st in (('.sched', scheds), ('.hash', hashes)):
            b = open(tag + '.%d' % k + ext, 'rb').read()
            st.update(struct.unpack('<%dQ' % (len(b) // 8), b)); os.unlink(tag + '.%d' % k + ext)
        b = open(tag + '.%d.edge' % k, 'rb').read(); os.unlink(tag + '.%d.edge' % k)
        edges = b if edges is None else bytes(x | y for x, y in zip(edges, b))
    res['scheds'] = len(scheds); res['hashes'] = len(hashes); res['edges'] = sum(edges)
    return res


def main():
    args = sys.argv[1:]
    if args and args[0] == '--setup':
        build(WORLDS); print('built', ' '.join(WORLDS)); return 0
    kf = known_findings()
    if args and args[0] == '--replay':
        text = open(args[1]).read()
        m = re.search(r'^# property (\S+)', text, re.M); prop = m.group(1) if m else ''
        out = build([re.search(r'^world (\S+)', text, re.M).group(1)])
        r, v = judge(out, text, prop, kf, twice=True)
        print(r['status'], r['cls'], 'hash=' + r['hash'], 'same=%d' % r['same'], r['msg'])
        if v:
            print('VIOLATION property=%s replay=%s' % (prop, os.path.abspath(args[1]))); return 1
        return 0
    prop = args[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in args: tier = args[args.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    cfg = CHECKS[prop]
    base = (seed * 1000003 + int(prop[1:])) & 0x7fffffffffff
    out = build([j[0] for j in cfg['jobs']])
    t_build = time.time() - T0
    print('%s tier=%s seed=%d build %.0f s' % (prop, tier, seed, t_build)); sys.stdout.flush()
    budget = float(os.environ.get('VERIF_BUDGET', BUDGET[tier] * cfg.get('factor', 1)))
    tot = float(sum(j[2] for j in cfg['jobs']))
    results = []; viol = None; leak_sites = {}
    t_search = time.time()
    for world, mode, wt in cfg['jobs']:
        res = run_job(out, world, mode, base, COUNT[tier], budget * wt / tot, prop)
        results.append(res)
        print('  %s/%s: %d runs, %d operations, %d steps, %d preemptions, %d schedules, %d edges, faults %s' % (
            world, mode, res['runs'], res['ops'], res['steps'], res['preempts'], res['scheds'], res['edges'], {k: v for k, v in res['fired'].items() if v}))
        sys.stdout.flush()
        cand = sorted(res['viols'], key=lambda v: v['idx'])
        if cfg.get('leaks') and not cand:
            st = Sites(os.path.join(out, world))
            allfr = sorted({a for l in res['leaks'] for a in l['fr'].split()})
            for i in range(0, len(allfr), 300): st.frames(allfr[i:i + 300])
            for l in res['leaks']:
                s = st.site(l['fr'].split())
                leak_sites[s] = leak_sites.get(s, 0) + l['n']
                if not leak_known(s, prop, kf):
                    cand.append(dict(idx=l['idx'], **{'class': 'leak', 'msg': 'block allocated in %s (%s) never released' % (s[1], s[0])}))
            cand.sort(key=lambda v: v['idx'])
        for v in cand:
            text = sh([os.path.join(out, world), '--mode', mode, '--base', str(base), '--plan', str(v['idx'])]).stdout
            r1, v1 = judge(out, text, prop, kf, twice=True)
            r2, v2 = judge(out, text, prop, kf)
            if v1 and v2 and r1['same'] and r1['hash'] == r2['hash'] and v1[0] == v2[0]:
                viol = (world, mode, v['idx'], text, v1); break
            if v1 or v2:
                # it fails, but not the same way each time: still a failure of the code, report the plan itself
                viol = (world, mode, v['idx'], text, v1 or v2); break
            print('  note: %s at seed index %s did not recur on replay: %s' % (v['class'], v['idx'], v['msg']))
        if viol: break
    search_s = time.time() - t_search
    # known findings
    shown = 0
    for k in kf:
        if k['property'] != prop: continue
        if k['kind'] == 'leak':
            hit = [s for s in leak_sites if s[0] in k['files'].split(',')]
            if hit: print('KNOWN-FINDING: property=%s %s' % (prop, k['text'])); shown += 1
        elif k['kind'] == 'replay':
            r = replay(out, open(os.path.join(HERE, k['file'])).read())
            if r['status'] == 'violation':
                print('KNOWN-FINDING: property=%s %s' % (prop, k['text'])); shown += 1
    rp = None
    if viol:
        world, mode, idx, text, (cls, msg) = viol
        small = minimise(out, text, prop, kf, cls, 60)
        rs, vs = judge(out, small, prop, kf, twice=True)
        if not vs or not rs['same']: small = text; rs, vs = judge(out, small, prop, kf)
        d = os.path.join(HERE, 'replays'); os.makedirs(d, exist_ok=True)
        rp = os.path.join(d, '%s-%s.plan' % (prop, hashlib.sha256(small.encode()).hexdigest()[:10]))
        open(rp, 'w').write('# property %s\n# %s: %s\n# found at seed index %s (base %d); replay: check.py --replay FILE\n# hash %s\n' % (
            prop, cls, (vs or (cls, msg))[1], idx, base, rs['hash']) + small)
        print('  %s: %s' % (cls, (vs or (cls, msg))[1]))
        print('  minimised plan:'); print(''.join('    ' + l + '\n' for l in small.strip().split('\n')), end='')
        print('VIOLATION property=%s replay=%s' % (prop, rp))
    evidence(prop, tier, seed, base, out, results, search_s, viol, rp, leak_sites, t_build)
    return 1 if viol else 0


def evidence(prop, tier, seed, base, out, results, search_s, viol, rp, leak_sites, t_build):
    runs = sum(r['runs'] for r in results)
    fired = {}; armed = {}; probes = {}
    for r in results:
        for a, b in r['fired'].items(): fired[a] = fired.get(a, 0) + b
        for a, b in r['armed'].items(): armed[a] = armed.get(a, 0) + b
        for a, b in r['probes'].items(): probes[r['world'] + '.' + a] = b
    samples = []
    for r in results[:3]:
        for idx in (0, 1):
            t = sh([os.path.join(out, r['world']), '--mode', r['mode'], '--base', str(base), '--plan', str(idx)]).stdout
            samples.append({'world': r['world'], 'mode': r['mode'], 'index': idx, 'plan': t[:1500]})
    cov = {
        'evaluations': runs,
        'distinct_nontrivial': sum(r['hashes'] for r in results),
        'rule': 'one evaluation = one simulated run of a seeded plan (clients, operations, preemption points, faults, heap); distinct_nontrivial counts distinct hashes over everything the clients observed (full output of every query), per world and mode; runs that observed the same bytes count once',
        'samples': samples,
        'runs_per_hour': int(runs / max(search_s, 0.001) * 3600),
        'seeds_per_hour': int(runs / max(search_s, 0.001) * 3600),
        'search_seconds': round(search_s, 1), 'build_seconds': round(t_build, 1),
        'simulated_time': {'unit': 'library steps (instrumented basic-block edges plus allocations); the library has no clock', 'steps': sum(r['steps'] for r in results), 'operations': sum(r['ops'] for r in results)},
        'faults_armed': armed, 'faults_fired': fired,
        'fault_kinds': {'alloc': 'one allocation fails', 'allocp': 'every allocation from the k-th on fails', 'out': "the caller's output container throws on its k-th element", 'in': "the caller's input iterator throws on its k-th read"},
        'preemptions': sum(r['preempts'] for r in results), 'runs_with_preemption': sum(r['preempted_runs'] for r in results), 'runs_with_fault': sum(r['faulted_runs'] for r in results),
        'distinct_schedules': sum(r['scheds'] for r in results),
        'distinct_schedules_measure': 'hash of the sequence (client started, client preempted at code edge e after n steps)',
        'code_edges_reached': {r['world'] + '/' + r['mode']: r['edges'] for r in results},
        'probes': probes,
        'per_job': [{k: r[k] for k in ('world', 'mode', 'runs', 'ops', 'steps', 'preempts', 'faulted_runs', 'hashes', 'scheds', 'edges')} for r in results],
        'real_code': 'all of boost/polygon, unmodified, compiled from /repo',
        'stubs': 'operator new/delete (simulated heap), scheduler (fibers preempted at instrumented edges), output containers and input iterators of the caller',
        'leak_sites': {'%s in %s' % (s[1], s[0]): n for s, n in sorted(leak_sites.items())},
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': LEVEL, 'coverage': cov,
          'assumptions': ['clients are preempted only at instrumented basic-block edges, allocations and callbacks of library code', 'regions are compared at sample points of every elementary face of the input grid, and by exact area and extents'],
          'wall_s': round(time.time() - T0, 1)}
    if viol: ev['violations'] = [{'class': viol[4][0], 'message': viol[4][1], 'replay': rp}]
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)


if __name__ == '__main__':
    sys.exit(main())
