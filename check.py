#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   decide one property
   check.py replay FILE                 replay a replay file on the current tree
   check.py setup                       build every variant

Builds the simulator from /repo's working tree, searches seeded executions on
all cores, minimises and re-validates whatever fails, writes evidence/<id>.json.
Exit 0: held on everything explored.  Exit 1: VIOLATION line.  Exit 2: error."""
import concurrent.futures as cf
import json, os, queue, re, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'sim'))
import build as B                                     # noqa: E402
from props import PROPS, ABNORMAL                     # noqa: E402

OUT = os.path.join(HERE, 'replays')
WORK = os.path.join(HERE, 'build', 'work')
NPROC = 8


def build_variants(vs):
    with cf.ThreadPoolExecutor(len(vs)) as ex:
        fs = {v: ex.submit(B.build, v, 8) for v in vs}
        return {v: f.result() for v, f in fs.items()}


# ---------------------------------------------------------------- replay files
class Replay:
    def __init__(self, path=None):
        self.head, self.ep, self.ops, self.faults, self.sched = [], [], [], [], []
        if path:
            for l in open(path):
                l = l.rstrip('\n')
                if l.startswith('O '): self.ops.append(l)
                elif l.startswith('F '): self.faults.append(l)
                elif l[:2] in ('S ', 'B ', 'W '): self.sched.append(l)
                elif l.startswith('E '): self.ep.append(l)
                elif l and not l.startswith('#'): self.head.append(l)

    def copy(self, **kw):
        r = Replay()
        r.head, r.ep, r.ops, r.faults, r.sched = self.head, self.ep, self.ops, self.faults, self.sched
        for k, v in kw.items():
            setattr(r, k, v)
        return r

    def write(self, path, comment=''):
        with open(path, 'w') as f:
            f.write('\n'.join(self.head + ['# ' + c for c in comment.split('\n') if c] + self.ep + self.ops + self.faults + self.sched) + '\n')

    @property
    def variant(self):
        for l in self.head:
            if l.startswith('H variant '):
                return l.split()[2]
        return 'small'


class Server:
    """one `sim serve` process"""
    def __init__(self, exe, core, tag):
        env = dict(os.environ, SIM_CORE=str(core))
        self.p = subprocess.Popen([exe, 'serve'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env, errors='replace')
        self.f = os.path.join(WORK, f'min.{os.getpid()}.{tag}.{core}.replay')

    def run(self, r):
        r.write(self.f)
        self.p.stdin.write(self.f + '\n')
        self.p.stdin.flush()
        l = self.p.stdout.readline()
        return json.loads(l) if l.startswith('{') else {}

    def close(self):
        self.p.kill()
        self.p.wait()
        try: os.unlink(self.f)
        except OSError: pass


def oracles_of(res):
    return [v['oracle'] for v in res.get('verdicts', [])]


def fresh_replay(exe, path):
    p = subprocess.run([exe, 'replay', path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors='replace', timeout=300)
    for l in p.stdout.splitlines():
        if l.startswith('{"type":"replay"'):
            return json.loads(l)
    return {}


def minimise(exe, rep, oracle, budget):
    """ddmin over faults, operations and scheduling decisions"""
    end = time.time() + budget
    n = min(NPROC, os.cpu_count() or 1)
    servers = [Server(exe, i, 'm') for i in range(n)]
    pool = queue.Queue()
    for s in servers:
        pool.put(s)

    def fails(r):
        if time.time() > end:
            return False
        s = pool.get()
        try:
            return oracle in oracles_of(s.run(r))
        except Exception:
            return False
        finally:
            pool.put(s)

    ex = cf.ThreadPoolExecutor(n)

    def ddmin(cur, field):
        items = getattr(cur, field)
        k = 2
        if items and fails(cur.copy(**{field: []})):
            return cur.copy(**{field: []})
        while len(items) >= 2 and time.time() < end:
            size = max(1, len(items) // k)
            chunks = [(i, min(i + size, len(items))) for i in range(0, len(items), size)]
            done = False
            for g in range(0, len(chunks), n):
                grp = chunks[g:g + n]
                cands = [cur.copy(**{field: items[:a] + items[b:]}) for a, b in grp]
                res = list(ex.map(fails, cands))
                for c, ok in zip(cands, res):
                    if ok:
                        cur, items, done = c, getattr(c, field), True
                        break
                if done or time.time() > end:
                    break
            if done:
                k = max(2, k - 1)
            elif size == 1:
                break
            else:
                k = min(len(items), k * 2)
        return cur
    cur = rep
    try:
        for rnd in range(3):
            before = (len(cur.ops), len(cur.faults), len(cur.sched))
            for field in ('faults', 'sched', 'ops', 'sched'):
                cur = ddmin(cur, field)
            if before == (len(cur.ops), len(cur.faults), len(cur.sched)) or time.time() > end:
                break
    finally:
        ex.shutdown(wait=True)
        for s in servers:
            s.close()
    return cur


# ---------------------------------------------------------------- search
def search(cells, exes, oracles, base, secs, deadline):
    """cells: one (variant, families) per worker.  Returns summaries, violations, nondets"""
    sums, viol, nondet, errs = [], [], [], []
    procs = []
    n = len(cells)
    for i, (v, fams) in enumerate(cells):
        env = dict(os.environ, SIM_CORE=str(i % (os.cpu_count() or 1)))
        out = os.path.join(WORK, f's.{os.getpid()}.{i}.replay')
        cmd = [exes[v], 'search', '--families', ','.join(fams), '--variant', v, '--oracles', ','.join(oracles), '--base', str(base),
               '--stride', str(n), '--offset', str(i), '--secs', str(secs), '--twice', '60', '--replay-out', out]
        procs.append((subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env, errors='replace'), i, out))
    stop = threading.Event()
    lock = threading.Lock()

    def reader(p, i):
        got = False
        for l in p.stdout:
            if not l.startswith('{'):
                continue
            try:
                d = json.loads(l)
            except ValueError:
                continue
            with lock:
                if d['type'] == 'violation':
                    viol.append(d)
                    stop.set()
                elif d['type'] == 'summary':
                    sums.append(d)
                    got = True
                elif d['type'] == 'nondet':
                    nondet.append(d)
        p.wait()
        if not got and not stop.is_set():
            with lock:
                errs.append(f'worker {i} ({cells[i]}) ended with {p.returncode} without a summary: ' + p.stderr.read()[-500:])
    ths = [threading.Thread(target=reader, args=(p, i)) for p, i, _ in procs]
    for t in ths:
        t.start()
    end = time.time() + deadline
    while any(t.is_alive() for t in ths) and time.time() < end:
        if stop.is_set():
            time.sleep(1.5)            # let a neighbour report as well
            break
        time.sleep(0.05)
    for p, _, _ in procs:
        if p.poll() is None:
            p.kill()
    for t in ths:
        t.join()
    return sums, viol, nondet, errs


def cells_for(spec):
    """spec: {variant: (workers, [families])} -> one cell per worker, each
    worker cycling through its variant's families from a different start"""
    cells = []
    for v, (k, fams) in spec.items():
        for j in range(k):
            sh = (j * len(fams)) // k
            cells.append((v, fams[sh:] + fams[:sh]))
    return cells


def describe(rep):
    kinds = {}
    for o in rep.ops:
        kinds[o.split()[3]] = kinds.get(o.split()[3], 0) + 1
    return {'executions': rep.ep, 'operations': kinds, 'first_operations': rep.ops[:12], 'faults': rep.faults[:12]}


def sample_plan(exe, v, fam, seed):
    p = subprocess.run([exe, 'plan', '--family', fam, '--variant', v, '--seed', str(seed)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors='replace')
    r = Replay()
    for l in p.stdout.splitlines():
        if l.startswith('O '): r.ops.append(l)
        elif l.startswith('F '): r.faults.append(l)
        elif l.startswith('E '): r.ep.append(l)
    d = describe(r)
    d.update(family=fam, variant=v, seed=seed)
    return d


def known_findings(pid):
    out = []
    f = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r'finding: property=(\S+) replay=(\S+) oracle=(\S+) (.*)', l)
            if m and m.group(1) == pid:
                out.append((os.path.join(HERE, m.group(2)), m.group(3), m.group(4).strip()))
    return out


def check(pid, tier):
    t0 = time.time()
    spec = PROPS[pid]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.makedirs(WORK, exist_ok=True)
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    cells = cells_for(spec['cells'])
    oracles = sorted(set(spec['oracles']) | set(ABNORMAL))
    secs = spec.get('quick_secs', 40) if tier == 'quick' else spec.get('thorough_secs', 900)
    secs = float(os.environ.get('SIM_SECS', secs))
    variants = sorted({v for v, _ in cells})
    kf = known_findings(pid)
    variants = sorted(set(variants) | {Replay(f).variant for f, _, _ in kf})
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': {}, 'wall_s': 0, 'violations': 0}

    def finish(code):
        ev['wall_s'] = round(time.time() - t0, 2)
        with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        return code
    try:
        exes = build_variants(variants)
    except B.PreprocessorError as e:
        if 'preprocessor' in spec.get('also', []):
            path = os.path.join(OUT, f'{pid}-preprocessor.txt')
            open(path, 'w').write('# the preprocessor pipeline fails on /verif/sim/gen_sites.py\'s NANO_LOG statements\n# reproduce: python3 /verif/sim/build.py pre\n' + str(e))
            ev['violations'] = 1
            ev['coverage'] = {'evaluations': 1, 'distinct_nontrivial': 1, 'rule': 'the preprocessor has to accept the NANO_LOG statements of the simulated program', 'samples': [str(e)[-1500:]]}
            print(str(e)[-1500:])
            print(f'VIOLATION property={pid} replay={path}')
            return finish(1)
        print('build failed:', e, file=sys.stderr)
        return 2
    except B.BuildError as e:
        print('build failed:', e, file=sys.stderr)
        return 2
    tb = time.time() - t0
    known = []
    for f, orc, text in kf:
        r = fresh_replay(exes[Replay(f).variant], f)
        if orc in oracles_of(r):
            print(f'KNOWN-FINDING: property={pid} {text}')
            known.append(text)
    sums, viol, nondet, errs = search(cells, exes, oracles, seed, secs, secs + 150)
    runs = sum(s['runs'] for s in sums)
    tot = {}
    for k in ('steps', 'switches', 'blocks', 'aio_writes', 'aio_bytes', 'cond_waits', 'messages', 'syncs', 'crashes', 'torn_crashes', 'epochs', 'decodes', 'decoded_messages', 'fair_mode', 'reclaim_checks', 'virtual_ns', 'twice'):
        tot[k] = sum(s[k] for s in sums)
    faults, fams = {}, {}
    for s in sums:
        for k, n in s['faults'].items():
            faults[k] = faults.get(k, 0) + n
        for k, n in s['families'].items():
            fams[s['variant'] + '/' + k] = fams.get(s['variant'] + '/' + k, 0) + n
    wall = max([s['secs'] for s in sums] or [0.001])
    samples = []
    for i, (v, fl) in enumerate(cells[:4]):
        try:
            samples.append(sample_plan(exes[v], v, fl[0], seed * 1000003 + i))
        except Exception:
            pass
    ev['coverage'] = {
        'evaluations': runs,
        'distinct_nontrivial': sum(s['distinct_nontrivial'] for s in sums),
        'rule': 'one evaluation = one simulated run (1-6 executions of a generated multi-threaded logging program, then decoding of every file it left) from one seed; '
                'distinct = different hash of (sequence of scheduling decisions, file contents, call history); non-trivial = at least one message was decoded or traced in it',
        'samples': samples,
        'oracles': oracles, 'runs_per_family': fams,
        'simulated_runs_per_hour': int(runs / wall * 3600), 'seeds': f'{seed}*1000003 + i; worker w of {len(cells)} takes i = w, w+{len(cells)}, ...',
        'simulated_time_s': round(tot['virtual_ns'] / 1e9, 3), 'executions': tot['epochs'],
        'faults_injected': faults, 'process_crashes_injected': tot['crashes'], 'torn_writes_left_by_crashes': tot['torn_crashes'],
        'scheduling_points': tot['steps'], 'context_switches': tot['switches'], 'blocking_operations': tot['blocks'], 'cond_waits': tot['cond_waits'],
        'aio_writes': tot['aio_writes'], 'aio_bytes': tot['aio_bytes'], 'messages_logged': tot['messages'], 'sync_calls': tot['syncs'],
        'decodings': tot['decodes'], 'messages_decoded': tot['decoded_messages'], 'checks_that_buffers_were_released': tot['reclaim_checks'], 'runs_that_reached_the_fair_phase': tot['fair_mode'],
        'runs_executed_twice_for_determinism': tot['twice'], 'nondeterministic_runs': len(nondet), 'nondeterministic_seeds': [(d['variant'], d['family'], d['seed'], d['detail']) for d in nondet[:8]],
        'violations_of_other_properties_seen': sum(s['other_bad'] for s in sums), 'other_example': next((s['other_text'] for s in sums if s['other_bad']), ''),
        'build_s': round(tb, 1), 'known_findings_reproduced': known,
        'real_code': 'NanoLog runtime (RuntimeLogger, NanoLog(Cpp17), Log encoder/decoder, Packer, Cycles, Util, TimeTrace, LogDecompressor), libstdc++ threads/mutexes/condition variables on top of the simulated pthread layer, generated code of the preprocessor',
        'stubbed': 'thread scheduler, pthread mutex/condvar/join/create hand-off, clocks and TSC, POSIX AIO, file system, sleep, allocator failures',
    }
    ev['assumptions'] = ['sequentially consistent memory (weak-memory reorderings are not simulated)',
                         'preemption at instrumented memory accesses, block copies and intercepted calls only',
                         'configuration constants as in the build variants: ' + ', '.join(variants)]
    for e in errs:
        print('error:', e, file=sys.stderr)
    # only violations that replay exactly count
    viol = [v for v in viol if any(x['oracle'] != 'harness' for x in v['verdicts'])] or viol
    for v in viol[:4]:
        names = [x['oracle'] for x in v['verdicts'] if x['oracle'] in oracles and x['oracle'] != 'harness']
        if not names:
            print('harness error:', v['verdicts'][0]['text'], file=sys.stderr)
            continue
        orc = names[0]
        exe = exes[v['variant']]
        src = v['replay']
        if not os.path.exists(src):
            continue
        a, b = fresh_replay(exe, src), fresh_replay(exe, src)
        okh = a.get('schedHash') == b.get('schedHash') and a.get('histHash') == b.get('histHash')
        common = [o for o in oracles_of(a) if o in oracles_of(b) and o in names]
        if not common or not okh:
            print(f'error: seed {v["seed"]} ({v["family"]}/{v["variant"]}) failed with {names} but its replay gives {oracles_of(a)} and {oracles_of(b)}', file=sys.stderr)
            continue
        orc = orc if orc in common else common[0]
        rep = Replay(src)
        mini = minimise(exe, rep, orc, 40 if tier == 'quick' else 240)
        final = os.path.join(OUT, f'{pid}-{orc}-{v["seed"]}.replay')
        text = next(x['text'] for x in a['verdicts'] if x['oracle'] == orc)
        mini.write(final, f'property {pid}, oracle {orc}\n' + text.replace('\n', ' ').encode('ascii', 'replace').decode())
        a, b = fresh_replay(exe, final), fresh_replay(exe, final)
        if orc not in oracles_of(a) or a.get('schedHash') != b.get('schedHash') or a.get('histHash') != b.get('histHash') or orc not in oracles_of(b):
            rep.write(final, f'property {pid}, oracle {orc} (not minimised)')
            mini = rep
            a = fresh_replay(exe, final)
            if orc not in oracles_of(a):
                print('error: the replay does not reproduce', file=sys.stderr)
                continue
        text = next(x['text'] for x in a['verdicts'] if x['oracle'] == orc)
        print(f'seed {v["seed"]}, family {v["family"]}, variant {v["variant"]}: [{orc}] {text}'.encode('ascii', 'replace').decode())
        print(f'minimised from {len(rep.ops)} operations, {len(rep.faults)} faults, {len(rep.sched)} scheduling decisions to {len(mini.ops)}, {len(mini.faults)}, {len(mini.sched)}')
        print(f'replay with: python3 {os.path.join(HERE, "check.py")} replay {final}')
        ev['violations'] = len(viol)
        ev['coverage']['violation'] = {'seed': v['seed'], 'family': v['family'], 'variant': v['variant'], 'oracle': orc, 'text': text, 'replay': final}
        print(f'VIOLATION property={pid} replay={final}')
        return finish(1)
    if viol or (errs and not sums):
        finish(2)
        return 2
    print(f'{pid}: held on {runs} simulated runs ({ev["coverage"]["distinct_nontrivial"]} distinct), {tot["messages"]} messages, faults {faults}, {len(nondet)} nondeterministic')
    if errs:
        finish(2)
        return 2
    return finish(0)


def replay(path):
    r = Replay(path)
    exes = build_variants([r.variant])
    res = fresh_replay(exes[r.variant], path)
    for v in res.get('verdicts', []):
        print(f'[{v["oracle"]}] {v["text"]}'.encode('ascii', 'replace').decode())
    print('schedule hash', res.get('schedHash'), 'history hash', res.get('histHash'))
    return 1 if res.get('verdicts') else 0


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    if a[0] == 'setup':
        build_variants(list(B.VARIANTS))
        return 0
    if a[0] == 'replay':
        return replay(a[1])
    tier = a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')
    try:
        return check(a[0], tier)
    finally:
        for f in os.listdir(WORK) if os.path.isdir(WORK) else []:
            if f'.{os.getpid()}.' in f:
                try: os.unlink(os.path.join(WORK, f))
                except OSError: pass


if __name__ == '__main__':
    sys.exit(main())
