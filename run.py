#!/usr/bin/env python3
"""Solver-based checking of the Reference FMUs: run one property's check.

usage: run.py <property> [--tier quick|thorough] [--job SUBSTR] [-v] [--keep]

Every run compiles the current sources of the repository (default /repo, override with
VP_REPO) together with the property's harnesses into a goto program, lets CBMC turn it into
one formula per job and hands that formula to SAT / SMT solvers.  Verdicts:

  all jobs discharged                   -> exit 0
  counterexample that replays on the
  gcc build of the same sources         -> VIOLATION line, exit 1
  anything else (timeout, compile
  error, counterexample not replayed)   -> exit 2, never counted as success
"""
import argparse, errno, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VP_REPO', '/repo')
EVID = os.path.join(HERE, 'evidence')
NCPU = os.cpu_count() or 4
SLOTS = threading.Semaphore(NCPU)
MEM_KB = 7 * 1024 * 1024
sys.path.insert(0, HERE)

BACKENDS = {
    'sat': [],
    'cadical': ['--sat-solver', 'cadical'],
    'cvc5': ['--cvc5'],
    'z3fpa': ['--z3', '--fpa'],
    'z3': ['--z3'],
}
LIBLOOPS = ['strlen', 'strcmp', 'strcpy', 'strdup', 'strncmp', 'strncpy', 'strcat', 'memcmp', 'vsnprintf', 'snprintf', 'memset', 'vp_strncat', 'vp_strncpy', 'vp_fopen', 'vp_memcpy', 'vp_strnlen', 'vp_strndup', 'vp_stpcpy', 'vp_memchr']
# standard checks: 'func' keeps what a wrong result could hide behind (bad dereferences,
# array bounds); 'mem' is the full memory-safety set; 'none' only the harness assertions
CHECKSETS = {
    'none': ['--no-standard-checks'],
    'func': ['--no-standard-checks', '--bounds-check', '--pointer-check'],
    'mem': ['--no-standard-checks', '--bounds-check', '--pointer-check', '--div-by-zero-check', '--undefined-shift-check'],
    'leak': ['--no-standard-checks', '--bounds-check', '--pointer-check', '--memory-leak-check', '--memory-cleanup-check'],
}

VERBOSE = False


def log(*a):
    if VERBOSE:
        print(*a, file=sys.stderr, flush=True)


class Job:
    """One formula.  model: directory of the FMU under test (None for importer code)."""

    def __init__(self, name, src, model=None, fmi=3, defs=(), sources=None, unwind=10, unwindset=None,
                 lib_unwind=45, backends=('sat',), checks='func', timeout=None, objbits=12, raw=False,
                 tiers=('quick', 'thorough'), wrap=True, malloc_fail=False, max_unwind=64, replay_timeout=10,
                 incs=(), witness=True, replay_defs=(), cuts=(), wbackends=None, slice=False, alt=None, partial=None):
        self.__dict__.update(locals())
        del self.__dict__['self']
        if model == 'Resource' and 'io.h' not in cuts:
            self.cuts = tuple(cuts) + ('io.h',)


CHILDREN = set()
STOP = threading.Event()


def on_term(wd):
    def h(*_):
        STOP.set()
        for _ in range(3):
            for p in list(CHILDREN):
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
            time.sleep(0.2)
        shutil.rmtree(wd, ignore_errors=True)
        os._exit(3)
    return h


def run(cmd, timeout, cwd=None, env=None):
    """returns (rc or None on timeout, stdout, stderr)"""
    if STOP.is_set():
        return None, '', ''
    for k in range(20):
        try:
            p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=env, start_new_session=True)
            break
        except OSError as e:
            # a concurrent fork may still hold the freshly linked executable open
            if e.errno != errno.ETXTBSY or k == 19:
                raise
            time.sleep(0.2)
    CHILDREN.add(p)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode(errors='replace'), e.decode(errors='replace')
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.communicate()
        return None, '', ''
    finally:
        CHILDREN.discard(p)


def repo_sources(job):
    if job.sources is not None:
        return [os.path.join(REPO, s) for s in job.sources]
    return [f'{REPO}/{job.model}/model.c', f'{REPO}/src/fmi{job.fmi}Functions.c', f'{REPO}/src/cosimulation.c']


def compile_flags(job, impl=False):
    fl = [f'-DVP_{d}' if not d.startswith('-') else d for d in job.defs if not impl or d.startswith('-')]
    fl += [f'-I{REPO}/include', f'-I{HERE}/vp', f'-I{HERE}/h']
    if job.model:
        fl += [f'-I{REPO}/{job.model}', f'-DFMI_VERSION={job.fmi}', '-DDISABLE_PREFIX', f'-DVP_MODEL_{job.model}', '-DVP_FMU']
    fl += [f'-I{REPO}/{i}' for i in job.incs]
    return fl


OBJ = {}
OBJ_LOCK = threading.Lock()


def compile_once(cmd, src, wd):
    """goto-cc one implementation file; jobs with the same flags share the object"""
    key = (tuple(cmd), src)
    with OBJ_LOCK:
        if key not in OBJ:
            OBJ[key] = [threading.Lock(), None, f'{wd}/shared{len(OBJ)}.o']
        e = OBJ[key]
    with e[0]:
        if e[1] is None:
            e[1] = run(cmd + ['-c', src, '-o', e[2]], 120)
    rc, so, se = e[1]
    return rc, so + se, e[2]


def goto_cc(job, out, witness, wd):
    """compile harness and repository sources; typed heap model first, raw bytes as a fallback"""
    err = ''
    wrapc = f'{HERE}/vp/wrap.c'
    for raw in ([True] if job.raw else [False, True]):
        rawf = ['-DVP_RAW'] if raw else []
        o = f'{out}.h.o'
        rc, so, se = run(['goto-cc'] + compile_flags(job) + (['-DVP_WITNESS'] if witness else []) + rawf + ['-c', f'{HERE}/h/{job.src}', '-o', o], 120)
        if rc != 0:
            err = so + se
            continue
        objs, ok = [o], True
        # the implementation does not see the VP_ case split of the harness, unless a job asks for it
        impl = ['goto-cc'] + compile_flags(job, impl=True) + rawf
        for s in repo_sources(job) + ([wrapc] if job.wrap else []):
            cmd = list(impl)
            if s != wrapc:
                if job.wrap:
                    cmd += ['-include', f'{HERE}/vp/wrap.h']
                for c in job.cuts:      # force-included environment stubs
                    cmd += ['-include', f'{HERE}/vp/{c}']
            rc, msg, obj = compile_once(cmd, s, wd)
            if rc != 0:
                ok, err = False, msg
                break
            objs.append(obj)
        if ok:
            rc, so, se = run(['goto-cc'] + objs + ['-o', out], 120)
            if rc == 0 and job.partial:
                rc, so, se = cut_loops(out, *job.partial)
            if rc == 0:
                return None
            err = so + se
    return err[-2000:]


def cut_loops(gb, suffix, n):
    """leave the loops of one source file after n iterations (for busy loops of many iterations)"""
    rc, so, se = run(['goto-instrument', '--show-loops', gb], 60)
    ids = [m[0] for m in re.findall(r'Loop (\S+):\s+file (\S+) line', so) if m[1].endswith(suffix)]
    if rc != 0 or not ids:
        return rc, so, se
    return run(['goto-instrument', '--partial-loops', '--unwindset', ','.join(f'{i}:{n}' for i in ids), gb, gb], 60)


def parse_cbmc(text):
    try:
        return json.loads(text)
    except Exception:
        return None


def inputs_of(trace):
    out = []
    for s in trace:
        if s.get('stepType') != 'assignment' or s.get('lhs') != 'vp_in' or s.get('hidden'):
            continue
        fn = s.get('sourceLocation', {}).get('function', '')
        if not fn.startswith('in_'):
            continue
        b = s['value'].get('binary')
        if b is None:
            b = '0'
        out.append((fn[3:], int(b, 2)))
    return out


class Solve:
    """races the back ends of a job on one goto binary"""

    def __init__(self, job, gb, args, backends, timeout, want_all=False):
        self.job, self.gb, self.args, self.backends, self.timeout, self.want_all = job, gb, args, backends, timeout, want_all
        self.lock = threading.Lock()
        self.done = threading.Event()
        self.result = None
        self.notes = []
        self.procs = []

    def one(self, b):
        with SLOTS:
            if self.done.is_set() or STOP.is_set():
                return
            cmd = ['bash', '-c', f'ulimit -v {MEM_KB}; exec "$@"', 'x', 'cbmc', self.gb] + self.args + BACKENDS[b] + ['--json-ui', '--verbosity', '8']
            t0 = time.time()
            p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, start_new_session=True)
            CHILDREN.add(p)
            with self.lock:
                self.procs.append(p)
            try:
                o, _ = p.communicate(timeout=self.timeout)
            except subprocess.TimeoutExpired:
                self.kill(p)
                p.communicate()
                self.notes.append(f'{b}: timeout {self.timeout}s')
                return
            finally:
                CHILDREN.discard(p)
        if self.done.is_set():
            return
        d = parse_cbmc(o.decode(errors='replace'))
        r = interpret(d, self.want_all) if d else None
        if r is None or r['status'] == 'error':
            self.notes.append(f'{b}: rc={p.returncode} {(r or {}).get("msg", "no verdict")}')
            return
        with self.lock:
            if self.done.is_set():
                return
            r['backend'] = b
            r['wall'] = time.time() - t0
            self.result = r
            self.done.set()
            for q in self.procs:
                if q is not p:
                    self.kill(q)

    def abort(self):
        self.done.set()
        with self.lock:
            for p in self.procs:
                self.kill(p)

    @staticmethod
    def kill(p):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass

    def go(self):
        ts = [threading.Thread(target=self.one, args=(b,)) for b in self.backends]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        return self.result


def interpret(d, want_all):
    r = {'status': 'error', 'msg': '', 'vccs': 0, 'vccs_left': 0, 'steps': 0, 'solver_s': 0.0, 'fails': []}
    status = None
    for e in d:
        m = e.get('messageText', '')
        x = re.match(r'Generated (\d+) VCC\(s\), (\d+) remaining', m)
        if x:
            r['vccs'], r['vccs_left'] = int(x[1]), int(x[2])
        x = re.match(r'size of program expression: (\d+)', m)
        if x:
            r['steps'] = int(x[1])
        x = re.match(r'Runtime [Dd]ecision procedure: ([\d.e+-]+)s', m) or re.match(r'Runtime Solver: ([\d.e+-]+)s', m)
        if x:
            r['solver_s'] = max(r['solver_s'], float(x[1]))
        if e.get('messageType') == 'ERROR':
            r['msg'] += m + '; '
        if 'cProverStatus' in e:
            status = e['cProverStatus']
        if 'trace' in e and e.get('status') == 'failed':
            r['fails'].append((e.get('property'), e.get('description', ''), e['trace']))
        for q in e.get('result', []):
            if q.get('status') == 'FAILURE':
                r['fails'].append((q['property'], q.get('description', ''), q.get('trace', [])))
            r.setdefault('props', {})[q['property']] = (q.get('status'), q.get('description', ''))
    if status == 'success' and not r['fails']:
        r['status'] = 'holds'
    elif status == 'failure' and r['fails']:
        r['status'] = 'fails'
    return r


class Outcome:
    def __init__(self, job):
        self.job = job
        self.status = 'error'   # holds | violated | error
        self.msg = ''
        self.queries = []       # one dict per solver verdict
        self.replays = 0
        self.functions = set()
        self.replay_path = None
        self.violation = None
        self.witnesses = 0
        self.unwound = {}
        self.sample = None
        self.main = 0
        self.reduced = False


def cbmc_args(job, unwind, uset, tier, lib):
    a = list(CHECKSETS[job.checks]) + ['--drop-unused-functions', '--unwinding-assertions', '--unwind', str(unwind)]
    if not job.malloc_fail:
        a.append('--no-malloc-may-fail')
    if job.objbits:
        a += ['--object-bits', str(job.objbits)]
    if job.slice:
        a.append('--slice-formula')
    us = {f'{f}.{i}': (max(lib, 140) if f in ('strncpy', 'vp_memcpy') else lib) for f in LIBLOOPS for i in (0, 1)}
    us.update(uset)
    for k, v in us.items():
        a += ['--unwindset', f'{k}:{v}']
    return a


def build_replay(job, wd, tag, variant):
    exe = f'{wd}/{job.name}.{tag}.exe'
    cmd = ['gcc', '-w', '-g', '-O0', '-DVP_REPLAY'] + compile_flags(job) + list(job.replay_defs) + variant
    for c in job.cuts:
        pass
    objs = []
    for i, s in enumerate([f'{HERE}/h/{job.src}'] + repo_sources(job)):
        o = f'{exe}.{i}.o'
        c2 = list(cmd)
        if i > 0:
            for c in job.cuts:
                c2 += ['-include', f'{HERE}/vp/{c}']
        rc, so, se = run(c2 + ['-c', s, '-o', o], 120)
        if rc != 0:
            return None, se[-1500:], cmd
        objs.append(o)
    rc, so, se = run(cmd + objs + ['-o', exe, '-lm', '-ldl'], 120)
    return (exe if rc == 0 else None), se[-1500:], cmd


VARIANTS = [
    ('asan', ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=pointer-overflow,signed-integer-overflow,nonnull-attribute,float-cast-overflow']),
    ('plain', []),
    ('pattern', ['-ftrivial-auto-var-init=pattern']),
]


def write_inputs(path, ins):
    with open(path, 'w') as f:
        for t, v in ins:
            f.write(f'{t} {v:x}\n')


def run_replay(exe, inp, timeout):
    env = dict(os.environ, VP_INPUTS=inp, ASAN_OPTIONS='exitcode=43:detect_leaks=%d:allocator_may_return_null=1' % (1 if 'leak' in exe else 0),
               UBSAN_OPTIONS='print_stacktrace=0', MALLOC_PERTURB_='165')
    return run([exe], timeout, env=env)


def replay(job, wd, ins, prop, desc):
    """-> (reproduced, text, directory).  The same inputs drive a gcc build of /repo's sources."""
    d = os.path.join(EVID, 'replay', job.prop, re.sub(r'[^\w.-]', '_', job.name))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d, exist_ok=True)
    inp = f'{d}/inputs.txt'
    write_inputs(inp, ins)
    hang_expected = '.unwind.' in prop or '.recursion' in prop
    texts = []
    for tag, fl in VARIANTS:
        exe, err, cmd = build_replay(job, wd, tag + ('-leak' if job.checks == 'leak' else ''), fl)
        if not exe:
            texts.append(f'{tag}: build failed: {err}')
            continue
        rc, so, se = run_replay(exe, inp, job.replay_timeout)
        if rc is None:
            texts.append(f'{tag}: still running after {job.replay_timeout}s')
            ok = hang_expected
        else:
            texts.append(f'{tag}: exit {rc}: ' + se.strip()[-800:])
            ok = rc in (42, 43) or rc < 0 or 'runtime error' in se
        if ok:
            with open(f'{d}/README', 'w') as f:
                f.write(f'property {job.prop}, job {job.name}\nsolver verdict: {prop}: {desc}\n'
                        f'build: {" ".join(cmd)} {HERE}/h/{job.src} {" ".join(repo_sources(job))} -lm -ldl\n'
                        f'run: VP_INPUTS={inp} <exe>\nobserved: {texts[-1]}\n')
            return True, texts[-1], d
    with open(f'{d}/README', 'w') as f:
        f.write('NOT REPRODUCED\n' + f'{prop}: {desc}\n' + '\n'.join(texts))
    return False, ' | '.join(texts), d


def encoded_functions(job, gb):
    rc, so, se = run(['goto-instrument', '--reachable-call-graph', gb], 60)
    names = set()
    for l in so.splitlines():
        if ' -> ' in l:
            names.update(x.strip() for x in l.split(' -> '))
    text = ''
    for s in repo_sources(job):
        try:
            text += open(s, errors='replace').read()
        except OSError:
            pass
    return {n for n in names if re.search(r'\b' + re.escape(n) + r'\s*\(', text)}


def do_job(job, wd, tier, deadline):
    o = Outcome(job)
    tag = re.sub(r'[^\w.-]', '_', job.name)
    gb = f'{wd}/{tag}.gb'
    err = goto_cc(job, gb, False, wd)
    if err:
        o.msg = f'goto-cc failed: {err}'
        return o
    o.functions = encoded_functions(job, gb)
    unwind, uset, lib = job.unwind, dict(job.unwindset or {}), job.lib_unwind
    budget = job.timeout or (600 if tier == 'quick' else 1500)
    wit = Witness(job, wd, tag, tier, unwind, dict(uset), lib, deadline, budget) if job.witness else None
    if wit:
        wit.start()
    try:
        main_query(o, job, gb, wd, tier, deadline, budget, unwind, uset, lib)
        if o.status != 'holds' or not wit:
            return o
        wit.join()
        if wit.msg and o.unwound:      # the twin ran with bounds that turned out too small
            wit = Witness(job, wd, tag, tier, unwind, uset, lib, deadline, budget)
            wit.run()
        o.queries += wit.queries
        o.witnesses, o.sample = wit.witnesses, wit.sample
        if wit.msg:
            o.status, o.msg = 'error', wit.msg
        elif not job.slice:
            o.replays += 1
    finally:
        if wit:
            wit.cancel()
    return o


def main_query(o, job, gb, wd, tier, deadline, budget, unwind, uset, lib):
    nosl = False
    while True:
        left = min(budget, deadline - time.time())
        if left < 2:
            o.msg = 'time budget exhausted'
            return
        args = cbmc_args(job, unwind, uset, tier, lib)
        if nosl:
            args.remove('--slice-formula')
        s = Solve(job, gb, args + ['--stop-on-fail', '--trace'], job.backends, left)
        r = s.go()
        if r is None:
            o.msg = 'no solver verdict: ' + ', '.join(s.notes)
            return
        o.queries.append({k: r[k] for k in ('status', 'backend', 'vccs', 'vccs_left', 'steps', 'solver_s', 'wall')})
        log(f'  {job.name}: {r["status"]} {r["backend"]} {r["wall"]:.1f}s steps={r["steps"]} vccs={r["vccs_left"]}/{r["vccs"]}')
        if r['status'] == 'holds':
            o.main = len(o.queries) - 1
            o.status = 'holds'
            return
        prop, desc, trace = r['fails'][0]
        if '.unwind.' in prop:
            # the loop can run further than the bound: raise the bound of this loop
            fn, k = prop.rsplit('.unwind.', 1)
            key = f'{fn}.{k}'
            cur = uset.get(key, lib if fn in LIBLOOPS else unwind)
            if cur < (300 if fn in LIBLOOPS else job.max_unwind):
                uset[key] = max(cur * 2, cur + 8)
                o.unwound[key] = uset[key]
                log(f'  {job.name}: raising {key} to {uset[key]}')
                continue
        if job.slice and not nosl:      # a sliced trace lacks inputs
            nosl = True
            continue
        ok, text, d = replay(job, wd, inputs_of(trace), prop, desc)
        o.replays += 1
        if ok:
            o.status, o.violation, o.replay_path, o.msg = 'violated', f'{prop}: {desc}', d, text
        else:
            o.msg = f'counterexample not reproduced ({prop}: {desc}): {text}'
        return


class Witness(threading.Thread):
    """vacuity twin: every REACH point must be reachable, and a solver-chosen run must pass on the gcc build"""

    def __init__(self, job, wd, tag, tier, unwind, uset, lib, deadline, budget):
        super().__init__()
        self.job, self.wd, self.tag, self.tier, self.deadline, self.budget = job, wd, tag, tier, deadline, budget
        self.bounds = (unwind, uset, lib)
        self.msg, self.queries, self.witnesses, self.solve, self.cancelled, self.sample = 'witness not run', [], 0, None, False, None

    def cancel(self):
        self.cancelled = True
        if self.solve and self.is_alive():
            self.solve.abort()

    def run(self):
        try:
            self.msg = self.go()
        except Exception as ex:
            self.msg = f'internal error in witness: {ex!r}'

    def go(self):
        job, wd, tag = self.job, self.wd, self.tag
        unwind, uset, lib = self.bounds
        wgb = f'{wd}/{tag}.w.gb'
        err = goto_cc(job, wgb, True, wd)
        if err:
            return f'goto-cc (witness) failed: {err}'
        args = [a for a in cbmc_args(job, unwind, uset, self.tier, lib) if a not in ('--unwinding-assertions', '--bounds-check', '--pointer-check', '--memory-leak-check', '--memory-cleanup-check', '--div-by-zero-check', '--undefined-shift-check')]
        args += ['--no-unwinding-assertions', '--trace']
        left = max(5, min(self.budget, self.deadline - time.time()))
        if self.cancelled:
            return 'cancelled'
        self.solve = s = Solve(job, wgb, args, job.wbackends or job.backends, left, want_all=True)
        r = s.go()
        if r is None:
            return 'witness query without verdict: ' + ', '.join(s.notes)
        self.queries.append({k: r[k] for k in ('status', 'backend', 'vccs', 'vccs_left', 'steps', 'solver_s', 'wall')})
        log(f'  {job.name}: witness {r["status"]} {r["backend"]} {r["wall"]:.1f}s')
        missing = [f'{k}: {v[1]}' for k, v in r.get('props', {}).items() if 'VPREACH' in v[1] and v[0] != 'FAILURE']
        hit = [f for f in r['fails'] if 'VPREACH' in f[1]]
        if missing or not hit:
            return 'vacuous: not reachable: ' + '; '.join(missing or ['no REACH point'])
        self.witnesses = len(hit)
        if job.slice:       # a sliced trace lacks inputs, so it cannot drive the gcc build
            return ''
        # translation check: one witness drives the gcc build, all CHECKs evaluated concretely
        ins = inputs_of(hit[-1][2])
        self.sample = {'job': job.name, 'point': hit[-1][1], 'inputs': [f'{t} {v:x}' for t, v in ins[:24]]}
        inp = f'{wd}/{tag}.w.txt'
        write_inputs(inp, ins)
        exe, err, cmd = build_replay(job, wd, 'asan' + ('-leak' if job.checks == 'leak' else ''), VARIANTS[0][1])
        if not exe:
            return f'replay build failed: {err}'
        rc, so, se = run_replay(exe, inp, job.replay_timeout)
        if rc != 0:
            return f'witness run on the gcc build ended with {rc}: {se[-600:]}'
        return ''


def load_known(prop):
    known = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) match=/(.*?)/ (.*)', l.strip())
            if m and m[1] == prop:
                known.append((re.compile(m[2]), m[3]))
    return known


def is_known(known, o):
    for rx, what in known:
        if rx.search(f'{o.job.name} {o.violation}'):
            return what
    return None


def main():
    global VERBOSE
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--job', default='')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--keep', action='store_true')
    ap.add_argument('--nostop', action='store_true')
    ap.add_argument('--list', action='store_true')
    a = ap.parse_args()
    VERBOSE = a.v
    import specs
    spec = specs.SPECS[a.prop]
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    jobs = [j for j in spec['jobs']() if tier in j.tiers and a.job in j.name]
    if a.list:
        print('\n'.join(j.name for j in jobs))
        return 0
    for j in jobs:
        j.prop = a.prop
    os.makedirs(EVID, exist_ok=True)
    t0 = time.time()
    deadline = t0 + (840 if tier == 'quick' else 7000)
    wd = tempfile.mkdtemp(prefix=f'vp-{a.prop}-')
    signal.signal(signal.SIGTERM, on_term(wd))
    stop = threading.Event()
    known = load_known(a.prop)
    outs = []

    def guarded(j):
        if stop.is_set():
            return None
        try:
            r = do_job(j, wd, tier, deadline)
        except Exception as ex:  # an error of the check, never a verdict
            r = Outcome(j)
            r.msg = f'internal error: {ex!r}'
        if r.status == 'error' and j.alt and r.msg.startswith('no solver verdict'):
            # the full range is too hard for rewritten code: decide a smaller range, and say so in the evidence
            log(f'{j.name}: {r.msg}; deciding the smaller range')
            j.alt.prop = j.prop
            full, r = r, do_job(j.alt, wd, tier, deadline)
            r.reduced = True
        log(f'{j.name}: {r.status} {r.msg[:300]}')
        if r.status == 'violated' and not is_known(known, r) and not a.nostop:
            stop.set()
        return r

    try:
        with ThreadPoolExecutor(max_workers=NCPU) as ex:
            outs = [r for r in ex.map(guarded, jobs) if r]
    finally:
        if not a.keep:
            shutil.rmtree(wd, ignore_errors=True)
    viol = [o for o in outs if o.status == 'violated']
    errs = [o for o in outs if o.status == 'error']
    new = []
    for o in viol:
        what = is_known(known, o)
        if what:
            print(f'KNOWN-FINDING: property={a.prop} {what}')
        else:
            new.append(o)
    q = [x for o in outs for x in o.queries]
    funcs = sorted(set().union(*[o.functions for o in outs])) if outs else []
    ev = {
        'property': a.prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': spec.get('level', 'proof'),
        'coverage': {
            'obligations': sum(o.queries[o.main]['vccs'] for o in outs if o.queries),
            'discharged': sum(o.queries[o.main]['vccs'] for o in outs if o.status == 'holds' and o.queries),
            'left_to_solver_after_simplification': sum(x['vccs_left'] for x in q),
            'queries_discharged': len(q),
            'jobs_decided_on_reduced_range': [o.job.name for o in outs if o.reduced],
            'jobs': len(outs), 'jobs_held': sum(o.status == 'holds' for o in outs),
            'solver_seconds': round(sum(x['solver_s'] for x in q), 3),
            'ssa_steps': sum(x['steps'] for x in q),
            'backends': {b: sum(x['backend'] == b for x in q) for b in sorted({x['backend'] for x in q})},
            'vacuity_witnesses': sum(o.witnesses for o in outs),
            'samples': [o.sample for o in outs if o.sample][:5],
            'traces_validated_against_impl': sum(o.replays for o in outs),
            'functions_encoded': funcs, 'n_functions_encoded': len(funcs),
            'bounds': spec['bounds'],
            'raised_unwindings': {o.job.name: o.unwound for o in outs if o.unwound},
            'checker_cmd': 'goto-cc (harness + /repo sources) ; cbmc --unwinding-assertions --stop-on-fail [SAT | --cvc5 | --z3 --fpa]',
            'trusted_base': ['goto-cc/CBMC 6.11 encoding and C library models', 'MiniSat/CaDiCaL, cvc5, z3 verdicts',
                             'harness environment model in /verif/vp and /verif/h', 'x86-64 Linux data model, IEEE-754 round-to-nearest'],
            'job_results': [{'job': o.job.name, 'status': o.status, 'queries': len(o.queries),
                             'solver_s': round(sum(x['solver_s'] for x in o.queries), 3), 'msg': o.msg[:300]} for o in outs],
        },
        'assumptions': spec.get('assumptions', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(new),
    }
    if not a.job:
        with open(os.path.join(EVID, f'{a.prop}.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    for o in new:
        print(f'{a.prop}: job {o.job.name}: {o.violation}')
        print(f'  replay on the real code: {o.msg[:500]}')
        print(f'VIOLATION property={a.prop} replay={o.replay_path}')
    if new:
        return 1
    for o in errs:
        print(f'{a.prop}: ERROR in job {o.job.name}: {o.msg[:800]}')
    if errs or not outs:
        return 2
    print(f'{a.prop}: held; {len(outs)} jobs, {len(q)} queries, {ev["coverage"]["obligations"]} obligations, '
          f'{ev["coverage"]["solver_seconds"]} s solver, {ev["wall_s"]} s wall')
    return 0


if __name__ == '__main__':
    sys.exit(main())
