"""Solver-based checking of /repo's C code: encode with goto-cc, decide with CBMC
(+ SAT solver), replay every counterexample and witness natively."""
import concurrent.futures as cf
import glob, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
LIB = os.path.join(VERIF, 'lib')
HARNESS = os.path.join(VERIF, 'harness')
BASE_FLAGS = ['-std=gnu99', '-D_POSIX_C_SOURCE=200809L', '-D__NO_CTYPE']
WARN_OFF = ['-w']
NPROC = int(os.environ.get('VP_JOBS', '8'))
MEM_LIMIT = 10 << 30
SECOND_AFTER = float(os.environ.get('VP_SECOND_AFTER', '45'))

CHECKS = ['--no-standard-checks', '--bounds-check', '--pointer-check', '--div-by-zero-check',
          '--unwinding-assertions', '--no-malloc-may-fail']
OBJECT_BITS = ['--object-bits', '12']

HAVE_KISSAT = shutil.which('kissat') is not None


class Query:
    """One solver query (plus its witness twin).

    name     unique within the property
    harness  file under harness/
    defs     -D definitions (the concrete sizes of this query)
    unwind   bound of the library's loops, guarded by unwinding assertions (a bound that proves too small is doubled)
    solver   list of back ends raced against each other: minisat, cadical, kissat, z3, cvc5
    tier     'quick' (run always) or 'thorough'
    core     an undecided core query makes the check inconclusive; an undecided
             extension query is reported as undecided and excluded from the claim
    bound    text describing the bound for the evidence
    """

    def __init__(self, name, harness, defs=None, unwind=70, solver=('minisat',), timeout=240, tier='quick',
                 core=True, bound='', shift=False, opts=(), witness=True, fs=None, unwindset=(), mem=MEM_LIMIT, prio=0, alts=({},)):
        self.name, self.harness, self.defs = name, harness, dict(defs or {})
        self.unwind, self.solver, self.timeout = unwind, list(solver), timeout
        self.tier, self.core, self.bound, self.shift = tier, core, bound, shift
        self.opts, self.witness, self.fs, self.unwindset = list(opts), witness, fs, list(unwindset)
        self.mem = mem
        self.prio = prio
        self.alts = [dict(a) for a in alts]  # equivalent statements of the property, raced


class Failure(Exception):
    pass


def sh(cmd, timeout=None, cwd=None, env=None, mem=None, proc_box=None, stdout_path=None):
    """run cmd in its own process group; kills the group on timeout; returns (rc, out, err, timed_out)"""
    def pre():
        os.setsid()
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=env, preexec_fn=pre)
    if proc_box is not None:
        proc_box.append(p)
    try:
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out.decode('utf8', 'replace'), err.decode('utf8', 'replace'), False
    except subprocess.TimeoutExpired:
        kill(p)
        try:
            out, err = p.communicate(timeout=10)
        except Exception:
            out, err = b'', b''
        return -9, out.decode('utf8', 'replace'), err.decode('utf8', 'replace'), True


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except Exception:
        pass


class Engine:
    def __init__(self, prop, tier, seed, only=None, verbose=False):
        self.prop, self.tier, self.seed, self.only, self.verbose = prop, tier, seed, only, verbose
        self.work = tempfile.mkdtemp(prefix='vp-%s-' % prop)
        self.includes = []
        self.sources = []
        self.syms = {}
        self.lock = threading.Lock()
        self.procs = []
        self.stop = False
        self.byir, self.wbox = set(), {}
        self.native_cache = {}
        self.native_locks = {}
        self.goto_cache = {}
        self.goto_locks = {}
        # a query not decided by then is reported as undecided and is not part of what the run claims
        self.deadline = time.time() + float(os.environ.get('VP_DEADLINE', '720' if tier == 'quick' else '10800'))

    # ------------------------------------------------------------ building
    def scan(self):
        inc = os.path.join(REPO, 'Inc')
        self.includes = ['-I' + d for d, _, _ in sorted(os.walk(inc))]
        # library sources may include private headers beside them
        self.includes += ['-I' + d for d, _, fs in sorted(os.walk(os.path.join(REPO, 'Src')))
                          if any(f.endswith('.h') for f in fs)]
        self.sources = sorted(glob.glob(os.path.join(REPO, 'Src', '**', '*.c'), recursive=True))
        if not self.sources:
            raise Failure('no sources under %s/Src' % REPO)
        nm_dir = os.path.join(self.work, 'nm')
        os.makedirs(nm_dir)

        def one(i_src):
            i, src = i_src
            obj = os.path.join(nm_dir, '%03d.o' % i)
            rc, out, err, _ = sh(['gcc', *BASE_FLAGS, *WARN_OFF, '-O0', *self.includes, '-c', src, '-o', obj], timeout=60)
            if rc != 0:
                raise Failure('cannot compile %s: %s' % (src, err[-800:]))
            return src, self.nm(obj)
        with cf.ThreadPoolExecutor(NPROC) as ex:
            for src, (defd, undef) in ex.map(one, enumerate(self.sources)):
                self.syms[src] = (defd, undef)
        self.defs_of = {}
        for src, (defd, _) in self.syms.items():
            for s in defd:
                self.defs_of.setdefault(s, src)

    @staticmethod
    def nm(obj):
        rc, out, err, _ = sh(['nm', obj], timeout=60)
        defd, undef = set(), set()
        for line in out.splitlines():
            parts = line.split()
            if len(parts) >= 2:
                if parts[-2] in 'TDBRCVW':
                    defd.add(parts[-1])
                elif parts[-2] == 'U':
                    undef.add(parts[-1])
        return defd, undef

    def closure(self, undef):
        todo, files = list(undef), []
        seen = set()
        while todo:
            s = todo.pop()
            if s in seen:
                continue
            seen.add(s)
            src = self.defs_of.get(s)
            if src and src not in files:
                files.append(src)
                todo += list(self.syms[src][1])
        return sorted(files)

    def goto_obj(self, src):
        with self.lock:
            lk = self.goto_locks.setdefault(src, threading.Lock())
        with lk:
            if src not in self.goto_cache:
                out = os.path.join(self.work, 'g%03d.gb' % self.sources.index(src))
                rc, o, err, _ = sh(['goto-cc', *BASE_FLAGS, *self.includes, '-c', src, '-o', out], timeout=120)
                if rc != 0:
                    raise Failure('goto-cc failed on %s: %s' % (src, (err + o)[-800:]))
                self.goto_cache[src] = out
        return self.goto_cache[src]

    MODELS = set(re.findall(r'^(?!static)[a-z][a-z_ ]*[ *]+(\w+)\(.*\{', open(os.path.join(LIB, 'libc.c')).read(), re.M))

    def models(self, q):
        """does the code call library functions that the tools have no body for?"""
        return any(self.syms[s][1] & self.MODELS for s in q.link)

    def libc(self, kind):
        with self.lock:
            lk = self.goto_locks.setdefault('#libc' + kind, threading.Lock())
        with lk:
            if '#libc' + kind not in self.goto_cache:
                out = os.path.join(self.work, 'libc.' + kind)
                src = os.path.join(LIB, 'libc.c')
                if kind == 'gb':
                    rc, o, err, _ = sh(['goto-cc', *BASE_FLAGS, '-DVP_GOTO', '-fno-builtin', '-c', src, '-o', out], timeout=120)
                    if rc != 0:
                        raise Failure('goto-cc failed on %s: %s' % (src, (err + o)[-800:]))
                else:
                    self.ir(['-fno-builtin'], src, out)
                self.goto_cache['#libc' + kind] = out
        return self.goto_cache['#libc' + kind]

    def deflist(self, q, alt={}):
        return ['-D%s=%s' % (k, v) for k, v in sorted({**q.defs, **alt}.items())]

    def link_set(self, q):
        """library sources needed by a harness, found with the native tool chain"""
        obj = os.path.join(self.work, q.name + '.nm.o')
        rc, o, err, _ = sh(['gcc', *BASE_FLAGS, '-Werror=implicit-function-declaration', '-O0', '-DVP_REPLAY', *self.deflist(q), '-I' + LIB, *self.includes, '-c',
                            os.path.join(HARNESS, q.harness), '-o', obj], timeout=60)
        if rc != 0:
            raise Failure('harness %s does not compile: %s' % (q.harness, err[-1500:]))
        return self.closure(self.nm(obj)[1])

    IRFLAGS = ['-O1', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-mllvm', '-two-entry-phi-node-folding-threshold=200', '-S', '-emit-llvm']

    def ir(self, flags, src, out):
        rc, o, err, _ = sh(['clang', *BASE_FLAGS, *WARN_OFF, *self.IRFLAGS, *flags, *self.includes, src, '-o', out], timeout=120)
        if rc != 0:
            raise Failure('clang failed on %s: %s' % (src, err[-1500:]))
        return out

    def ir_obj(self, src):
        with self.lock:
            lk = self.goto_locks.setdefault(src + '#ir', threading.Lock())
        with lk:
            if src + '#ir' not in self.goto_cache:
                self.goto_cache[src + '#ir'] = self.ir([], src, os.path.join(self.work, 'i%03d.ll' % self.sources.index(src)))
        return self.goto_cache[src + '#ir']

    def encode_ir(self, q, alt=0):
        """one LLVM module of the harness and the library sources it uses"""
        base = os.path.join(self.work, '%s.%d' % (q.name, alt))
        h = self.ir(['-DVP_REPLAY', *self.deflist(q, q.alts[alt]), '-I' + LIB], os.path.join(HARNESS, q.harness), base + '.h.ll')
        rc, o, err, _ = sh(['llvm-link', '-S', h, *[self.ir_obj(s) for s in q.link], *([self.libc('ll')] if self.models(q) else []), '-o', base + '.ll'], timeout=120)
        if rc != 0:
            raise Failure('llvm-link failed: ' + err[-800:])
        return base + '.ll'

    def irx(self, q, ll, box=None):
        """decide the query with the symbolic executor of LLVM IR (lib/irx.py)"""
        t0 = time.time()
        timeout = min(q.timeout, self.deadline - t0)
        r = dict(self.parse('[]'), backend='irx', wall=0.0, rc=0)
        if timeout <= 3:
            return dict(r, status='timeout')
        out = tempfile.mktemp(dir=self.work, suffix='.json')
        rc, o, err, to = sh(['python3-vt', os.path.join(LIB, 'irx.py'), ll, out, '--timeout', str(timeout - 2)], timeout=timeout + 5, mem=q.mem, proc_box=box)
        r['wall'] = round(time.time() - t0, 2)
        try:
            with open(out) as h:
                x = json.load(h)
        except (OSError, ValueError):
            return dict(r, status='timeout' if to else 'killed', err=err[-300:])
        r.update(status=x['status'], solver_s=x.get('solver_s', 0.0), paths=x.get('paths', 0), vccs=x.get('queries', 0), remaining=x.get('queries', 0),
                 steps=x.get('steps', 0), witness=x.get('witness'))
        if x['status'] == 'sat':
            r['inputs'] = x['inputs']
            r['fails'] = [{'property': '', 'description': x['what'], 'where': ''}]
        if x.get('err'):
            r['err'] = x['err']
            if x['status'] == 'error' and x['err'].startswith('unsupported'):
                r['status'] = 'unsupported'
        return r

    def encode(self, q, witness, alt=0):
        srcs = q.link
        out = os.path.join(self.work, q.name + ('.w' if witness else '.%d' % alt) + '.gb')
        rc, o, err, _ = sh(['goto-cc', *BASE_FLAGS, *self.deflist(q, q.alts[alt]), *(['-DVP_WITNESS'] if witness else []), '-I' + LIB,
                            *self.includes, os.path.join(HARNESS, q.harness), *[self.goto_obj(s) for s in srcs], *([self.libc('gb')] if self.models(q) else []), '-o', out],
                           timeout=120)
        if rc != 0:
            raise Failure('goto-cc failed on %s: %s' % (q.harness, (err + o)[-1500:]))
        return out

    NATIVE = {
        'asan': ['gcc', '-g', '-O1', '-fsanitize=address,shift-exponent,bounds,integer-divide-by-zero,null',
                 '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'],
        'gccO2': ['gcc', '-O2'],
        'clangO2p': ['clang', '-O2', '-ftrivial-auto-var-init=pattern'],
        'gccO0z': ['gcc', '-O0', '-ftrivial-auto-var-init=zero'],
        'msan': ['clang', '-g', '-O1', '-fsanitize=memory', '-fno-sanitize-recover=all'],
    }

    def native(self, q, kind):
        key = (q.name, kind)
        with self.lock:
            lk = self.native_locks.setdefault(key, threading.Lock())
        with lk:
            if key not in self.native_cache:
                out = os.path.join(self.work, q.name + '.' + kind)
                rc, o, err, _ = sh([*self.NATIVE[kind], *BASE_FLAGS, *WARN_OFF, '-DVP_REPLAY', *self.deflist(q), '-I' + LIB, *self.includes,
                                    os.path.join(LIB, 'replay_main.c'), os.path.join(HARNESS, q.harness), *q.link, '-o', out],
                                   timeout=120)
                if rc != 0:
                    raise Failure('native build failed: ' + err[-1500:])
                self.native_cache[key] = out
        return self.native_cache[key]

    def run_native(self, q, kind, values, timeout=30):
        exe = self.native(q, kind)
        fd, f = tempfile.mkstemp(dir=self.work)
        with os.fdopen(fd, 'w') as h:
            h.write('\n'.join(str(v) for v in values) + '\n')
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=99:abort_on_error=0:detect_stack_use_after_return=1',
                   UBSAN_OPTIONS='exitcode=98:print_stacktrace=0', MSAN_OPTIONS='exitcode=97')
        rc, out, err, to = sh([exe, f], timeout=timeout, env=env, cwd=self.work)
        os.unlink(f)
        if to:
            st = 'timeout'
        elif rc == 0 and 'VP-DONE' in out:
            st = 'ok'
        elif rc == 42:
            st = 'assert'
        elif rc == 43:
            st = 'exhausted'
        elif rc == 44:
            st = 'infeasible'
        elif rc in (99, 98, 97, 1) and ('Sanitizer' in err or 'runtime error' in err):
            st = 'sanitizer'
        elif rc < 0:
            st = 'crash'
        else:
            st = 'other%d' % rc
        return st, out, err

    # ------------------------------------------------------------ solving
    def cbmc(self, q, gb, backend, timeout, witness=False, unwind=None, exclude=(), box=None, extra=()):
        cmd = ['cbmc', gb, '--json-ui', '--trace', '--stop-on-fail', '--verbosity', '8']
        if witness:
            cmd += ['--no-standard-checks', '--no-malloc-may-fail']
        else:
            cmd += CHECKS + (['--undefined-shift-check'] if q.shift else [])
        uw = unwind if unwind is not None else q.unwind
        if uw is not None:
            cmd += ['--unwind', str(uw)]
            if witness:
                cmd += ['--no-unwinding-assertions']
        for u in q.unwindset:
            cmd += ['--unwindset', u]
        for u in self.harness_loops(gb):
            cmd += ['--unwindset', u + ':1000000']
        cmd += OBJECT_BITS
        if q.fs:
            cmd += ['--max-field-sensitivity-array-size', str(q.fs)]
        cmd += q.opts
        if exclude:
            keep = [p for p in self.properties(gb, cmd[2:]) if p not in exclude]
            for p in keep:
                cmd += ['--property', p]
        if backend.endswith('-uf'):
            backend = backend[:-3]
            cmd += ['--arrays-uf-always']
        if backend == 'kissat' and not HAVE_KISSAT:
            backend = 'cadical'
        cmd += {'minisat': [], 'cadical': ['--sat-solver', 'cadical'],
                'kissat': ['--external-sat-solver', os.path.join(LIB, 'kissat-stat')],
                'z3': ['--z3'], 'cvc5': ['--cvc5'], 'bitwuzla': ['--bitwuzla']}[backend]
        t0 = time.time()
        timeout = min(timeout, self.deadline - t0)
        if timeout <= 1:
            return dict(self.parse('[]'), status='timeout', backend=backend, wall=0.0, rc=0)
        tmp = tempfile.mkdtemp(dir=self.work)
        rc, out, err, to = sh(cmd, timeout=timeout, mem=q.mem, proc_box=box, cwd=tmp, env=dict(os.environ, TMPDIR=tmp))
        r = {'backend': backend, 'wall': round(time.time() - t0, 2), 'rc': rc}
        if to or rc in (-9, -6, -15):
            r['status'] = 'timeout' if to else 'killed'
        r.update(self.parse(out))
        try:
            r['vars'], r['clauses'] = [int(x) for x in open(os.path.join(tmp, 'cnf.stat')).read().split()[2:4]]
        except (OSError, ValueError):
            pass
        shutil.rmtree(tmp, ignore_errors=True)
        if to:
            r['status'] = 'timeout'
        if r['status'] == 'error':
            r['err'] = '; '.join(re.findall(r'"messageText": "([^"]*)",\s*"messageType": "ERROR"', out))[:400] or (err + out)[-400:]
        return r

    def harness_loops(self, gb):
        """loops of the harness itself have constant bounds; q.unwind is for the library's loops"""
        rc, out, err, _ = sh(['goto-instrument', '--show-loops', '--json-ui', gb], timeout=60)
        names = []
        try:
            for m in json.loads(out):
                for l in m.get('loops', []) if isinstance(m, dict) else []:
                    f = l.get('sourceLocation', {}).get('file', '')
                    if f.startswith(VERIF + '/') and not f.endswith('/libc.c'):
                        names.append(l['name'])
        except ValueError:
            pass
        return names

    def properties(self, gb, flags):
        flags = [f for f in flags if f not in ('--trace', '--stop-on-fail')]
        rc, out, err, _ = sh(['cbmc', gb, '--show-properties', *flags], timeout=60)
        names = []
        try:
            for m in json.loads(out):
                for p in m.get('properties', []) if isinstance(m, dict) else []:
                    names.append(p['name'])
        except ValueError:
            pass
        return names

    @staticmethod
    def parse(out):
        r = {'status': 'error', 'steps': 0, 'vccs': 0, 'remaining': 0, 'vars': 0, 'clauses': 0, 'solver_s': 0.0, 'inputs': [],
             'outs': [], 'fails': []}
        try:
            msgs = json.loads(out)
        except ValueError:
            return r
        for m in msgs:
            if not isinstance(m, dict):
                continue
            t = m.get('messageText', '')
            for pat, keys in ((r'size of program expression: (\d+) steps', ('steps',)),
                              (r'Generated (\d+) VCC\(s\), (\d+) remaining', ('vccs', 'remaining')),
                              (r'(\d+) variables, (\d+) clauses', ('vars', 'clauses'))):
                g = re.search(pat, t)
                if g:
                    for k, v in zip(keys, g.groups()):
                        r[k] = max(r[k], int(v))
            g = re.search(r'Runtime (?:Solver|decision procedure): ([\d.e-]+)s', t)
            if g:
                r['solver_s'] = max(r['solver_s'], float(g.group(1)))
            if 'cProverStatus' in m:
                r['status'] = {'success': 'unsat', 'failure': 'sat'}.get(m['cProverStatus'], 'error')
            trace = m.get('trace')
            if trace is None and 'result' in m:
                for res in m['result']:
                    if res.get('status') == 'FAILURE':
                        trace = res.get('trace')
                        r['fails'].append({'property': res.get('property', ''), 'description': res.get('description', '')})
            if trace:
                for s in trace:
                    if s.get('stepType') == 'input' and s.get('inputID') == 'vp':
                        r['inputs'].append(Engine.val(s['values'][0]))
                    elif s.get('stepType') == 'output' and s.get('outputID') == 'vpo':
                        r['outs'].append(Engine.val(s['values'][0]))
                    elif s.get('stepType') == 'failure':
                        r['fails'].append({'property': s.get('property', ''), 'description': s.get('reason', ''),
                                           'where': '%s:%s' % (s.get('sourceLocation', {}).get('file', ''),
                                                               s.get('sourceLocation', {}).get('line', ''))})
        return r

    @staticmethod
    def val(v):
        if 'binary' in v:
            return int(v['binary'], 2)
        d = v.get('data', '0')
        return int(re.sub(r'[a-zA-Z]+$', '', str(d)), 0)

    def race(self, q, gbs, mine=None, **kw):
        """all back ends (and equivalent statements) of the query, first decisive answer wins"""
        if q.solver == ['irx'] and len(gbs) == 1:
            box = []
            with self.lock:
                self.procs.append(box)
            return self.irx(q, gbs[0], box)
        jobs = [(gb, b) for gb in gbs for b in q.solver]
        boxes = [[] for _ in jobs]
        with self.lock:
            self.procs += boxes
        if mine is not None:
            mine += boxes
        if len(jobs) == 1:
            return self.cbmc(q, gbs[0], q.solver[0], q.timeout, box=boxes[0], **kw)
        best = None
        with cf.ThreadPoolExecutor(len(jobs)) as ex:
            futs = [ex.submit(self.cbmc, q, gb, s, q.timeout, box=b, **kw) for (gb, s), b in zip(jobs, boxes)]
            for f in cf.as_completed(futs):
                r = f.result()
                if r['status'] in ('sat', 'unsat') and (best is None or best['status'] not in ('sat', 'unsat')):
                    best = r
                    for b in boxes:
                        for p in b:
                            kill(p)
                elif best is None:
                    best = r
        return best

    def confirm(self, q, r):
        """replay a counterexample natively; returns (confirmed, how)"""
        tried = []
        for kind in ('asan', 'gccO2', 'clangO2p', 'gccO0z', 'msan'):
            try:
                st, out, err = self.run_native(q, kind, r['inputs'])
            except Failure as e:
                tried.append('%s:build(%s)' % (kind, str(e)[-100:]))
                continue
            line = ''
            if st == 'assert':
                line = next((l for l in out.splitlines() if l.startswith('VP-FAIL')), '')
            elif st == 'sanitizer':
                line = next((l for l in err.splitlines() if 'ERROR' in l or 'runtime error' in l or 'WARNING: Mem' in l), '')
            if st == 'sanitizer' and kind == 'msan' and 'use-of-uninitialized' not in err:
                tried.append('%s:%s' % (kind, st))
                continue
            if st in ('assert', 'sanitizer', 'crash', 'timeout'):
                return True, '%s: %s %s' % (kind, st, line.strip())
            tried.append('%s:%s' % (kind, st))
        return False, ', '.join(tried)

    def run_query(self, q):
        res = {'query': q.name, 'bound': q.bound, 'core': q.core, 'notes': []}
        t0 = time.time()
        try:
            res['linked'] = [os.path.relpath(s, REPO) for s in q.link]
            isir = q.solver == ['irx']
            gbs = [self.encode_ir(q, i) if isir else self.encode(q, False, i) for i in range(len(q.alts))]
            exclude, unwind, mine, other = [], None, [], {}
            timer = None
            if not isir:
                timer = threading.Timer(SECOND_AFTER, self.second, (q, other, mine))
                timer.daemon = True
                timer.start()
            for attempt in range(6):
                if self.stop:
                    res['status'] = 'cancelled'
                    return res
                r = self.race(q, gbs, mine=mine, exclude=exclude, unwind=unwind)
                if self.stop:
                    res['status'] = 'cancelled'
                    return res
                if other.get('status'):
                    break
                res.update({k: r[k] for k in ('status', 'steps', 'vccs', 'remaining', 'vars', 'clauses', 'solver_s', 'backend')})
                if r['status'] != 'sat':
                    if r['status'] in ('error', 'unsupported'):
                        res['err'] = r.get('err', '')
                    if isir:
                        res['paths'] = r.get('paths', 0)
                        res['witness'] = self.compare(q, r.get('witness')) if r['status'] == 'unsat' else None
                        if res['witness'] and res['witness']['status'] == 'violation':
                            res.update(status='violation', violation=res['witness']['violation'])
                    break
                desc = '; '.join(sorted({f['description'] for f in r['fails']})) or '?'
                ok, how = self.confirm(q, r)
                if ok:
                    res['status'] = 'violation'
                    res['violation'] = {'assertion': desc, 'confirmed': how, 'inputs': r['inputs'],
                                        'where': r['fails'][-1].get('where', '') if r['fails'] else ''}
                    break
                names = {f['property'] for f in r['fails'] if f['property']}
                if any('.no-body.' in n for n in names):
                    res['status'] = 'unsupported'
                    res['err'] = desc
                    break
                unw = [n for n in names if '.unwind.' in n] or ('unwinding assertion' in desc)
                if unw:
                    new = (unwind or q.unwind or 8) * (2 if unwind is None else 4)
                    res['notes'].append('unwinding bound %s too small, retried with %d' % (unwind or q.unwind, new))
                    unwind = new
                    res['status'] = 'undecided'
                    if attempt >= 3:
                        break
                    continue
                if isir or 'VP: ' in desc or not names:
                    res['status'] = 'unconfirmed'
                    res['err'] = 'counterexample (%s) did not reproduce natively: %s; inputs %s' % (desc, how, r['inputs'][:64])
                    break
                # a memory-safety assertion of the encoding that no native run confirms: excluded and reported
                res['notes'].append('unconfirmed encoding-level check excluded: %s (%s)' % (desc, how))
                exclude += list(names)
                res['status'] = 'undecided'
            if timer:
                timer.cancel()
                if res.get('status') in ('unsat', 'violation'):
                    with self.lock:
                        late = other.get('status')
                        other['closed'] = True
                    for p in other.get('box', []):
                        kill(p)
                    if late == 'unsat':
                        res['second'] = other['second']
                elif not self.stop:
                    if 'box' in other:
                        timer.join()
                    else:
                        self.second(q, other, mine)
                if other.get('status') and res.get('status') not in ('unsat', 'violation'):
                    res['notes'].append('CBMC gave no answer so far (%s), decided by the executor of LLVM IR' % res.get('status', 'running'))
                    res.pop('err', None)
                    res.update({k: v for k, v in other.items() if k not in ('box', 'closed')})
        except Failure as e:
            res['status'] = 'error'
            res['err'] = str(e)
        res['wall'] = round(time.time() - t0, 2)
        return res

    def second(self, q, other, mine):
        """a query that CBMC gives no answer to, or takes long for, goes to the executor of LLVM IR"""
        try:
            if self.stop:
                return
            box = other['box'] = []
            with self.lock:
                self.procs.append(box)
            r = self.irx(q, self.encode_ir(q), box)
            if self.stop:
                return
            if r['status'] == 'unsat':
                w = self.compare(q, r.get('witness'))
                if w['status'] == 'violation':
                    other.update(violation=w['violation'], status='violation')
                else:
                    with self.lock:
                        if other.get('closed'):
                            return
                        other.update({k: r[k] for k in ('steps', 'vccs', 'remaining', 'solver_s', 'backend')}, paths=r.get('paths', 0), second=w, status='unsat')
            elif r['status'] == 'sat':
                desc = '; '.join(sorted({f['description'] for f in r['fails']})) or '?'
                ok, how = self.confirm(q, r)
                if ok:
                    other.update(violation={'assertion': desc, 'confirmed': how, 'inputs': r['inputs'], 'where': ''}, status='violation')
            if other.get('status'):
                with self.lock:
                    self.byir.add(q.name)
                for b in mine + [self.wbox.get(q.name, [])]:
                    for p in b:
                        kill(p)
        except Failure:
            pass

    def compare(self, q, w):
        """run a path of the IR executor natively: same inputs, same outputs?"""
        res = {'query': q.name, 'status': 'vacuous'}
        if w:
            r = {'inputs': w['inputs'], 'outs': w['outs']}
            try:
                self.judge(q, r, res)
            except Failure as e:
                res.update(status='error', err=str(e))
        return res

    def judge(self, q, r, res):
        st, out, err = self.run_native(q, 'asan', r['inputs'], timeout=60)
        outs = [int(l.split()[1]) for l in out.splitlines() if l.startswith('VP-OUT')]
        if st == 'ok' and outs == r['outs']:
            res['status'] = 'validated'
            res['inputs'] = r['inputs']
            res['outs'] = r['outs']
        elif st in ('assert', 'sanitizer', 'crash', 'timeout'):
            # the witness input itself breaks the property in the real code
            res['status'] = 'violation'
            line = [l for l in (out + err).splitlines() if 'VP-FAIL' in l or 'ERROR' in l or 'runtime error' in l]
            res['violation'] = {'assertion': 'witness input breaks the property', 'inputs': r['inputs'],
                                'confirmed': 'asan: %s %s' % (st, line[0] if line else ''), 'where': ''}
        else:
            res['status'] = 'mismatch'
            res['err'] = 'model outputs %s native %s %s' % (r['outs'][:16], outs[:16], st)

    def run_witness(self, q):
        res = {'query': q.name, 'status': 'error'}
        try:
            q2 = q
            gb = self.encode(q2, True)
            box = []
            with self.lock:
                self.procs.append(box)
                self.wbox[q.name] = box
            for scale in (1, 2, 4, 8):
                if q.name in self.byir:
                    res['status'] = 'killed'
                    return res
                # a run that needs more iterations than the bound is cut off: the goal may lie behind the cut
                uw = None if q.unwind is None else q.unwind * scale
                r = self.cbmc(q2, gb, 'minisat', q.timeout, witness=True, unwind=uw, box=box)
                if self.stop:
                    res['status'] = 'cancelled'
                    return res
                if r['status'] != 'unsat' or uw is None:
                    break
            res['wall'] = r['wall']
            if r['status'] == 'unsat':
                res['status'] = 'vacuous'
            elif r['status'] == 'sat':
                self.judge(q2, r, res)
            else:
                res['status'] = r['status']
                res['err'] = r.get('err', '')
        except Failure as e:
            res['err'] = str(e)
        return res

    def cancel(self):
        self.stop = True
        with self.lock:
            for b in self.procs:
                for p in b:
                    kill(p)

    def cleanup(self):
        shutil.rmtree(self.work, ignore_errors=True)


def write_replay(eng, q, v):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s.json' % (eng.prop, q.name))
    with open(path, 'w') as h:
        json.dump({'property': eng.prop, 'query': q.name, 'harness': q.harness, 'defs': q.defs, 'assertion': v['assertion'],
                   'confirmed': v['confirmed'], 'inputs': v['inputs'],
                   'how': 'bin/replay %s rebuilds the harness with /repo\'s sources and runs it on these inputs' % path}, h, indent=1)
    return path


def check(prop, queries, meta, tier, seed, only=None, verbose=False):
    """decide one property; returns the exit code"""
    t0 = time.time()
    eng = Engine(prop, tier, seed, only, verbose)
    qs = [q for q in queries if (tier == 'thorough' or q.tier == 'quick') and (not only or re.search(only, q.name))]
    assert len({q.name for q in qs}) == len(qs), 'duplicate query names'
    results, witnesses, violation, fallback = [], [], None, None
    code = 2
    try:
        eng.scan()
        byname = {q.name: q for q in qs}
        with cf.ThreadPoolExecutor(NPROC) as ex:
            for q, link in zip(qs, ex.map(eng.link_set, qs)):
                q.link = link
        with cf.ThreadPoolExecutor(NPROC) as ex:
            futs = {}
            for q in sorted(qs, key=lambda q: -q.prio):
                futs[ex.submit(eng.run_query, q)] = ('q', q)
            for q in qs:
                if q.witness and q.solver != ['irx']:
                    futs[ex.submit(eng.run_witness, q)] = ('w', q)
            for f in cf.as_completed(futs):
                kind, q = futs[f]
                try:
                    r = f.result()
                except Exception as e:
                    if eng.stop:
                        continue
                    r = {'query': q.name, 'status': 'error', 'err': 'internal: %r' % e, 'core': q.core, 'notes': []}
                (results if kind == 'q' else witnesses).append(r)
                if r.get('witness') and r['witness']['status'] != 'violation':
                    witnesses.append(r['witness'])
                if verbose:
                    print(kind, {k: v for k, v in r.items() if k not in ('inputs', 'linked', 'outs')}, flush=True)
                if r['status'] == 'violation' and kind == 'w':
                    # the query decides; the witness run stands in for a query that finds no answer in time
                    fallback = fallback or (q, r['violation'])
                elif r['status'] == 'violation' and violation is None:
                    violation = (q, r['violation'])
                    eng.cancel()
        violation = violation or fallback
        wall = time.time() - t0
        problems = []
        undecided = []
        if violation:
            q, v = violation
            path = write_replay(eng, q, v)
            print('counterexample in query %s: %s' % (q.name, v['assertion']))
            print('replayed against the real code: %s' % v['confirmed'])
            print('VIOLATION property=%s replay=%s' % (prop, path))
            code = 1
        else:
            # running out of time or memory narrows what the run covered; anything else that leaves a core query
            # without an answer, or too many of them, means that the check could not do its work
            spent = ('timeout', 'killed', 'unsupported')
            core = [r for r in results if r.get('core', True)]
            enough = sum(r['status'] == 'unsat' for r in core) * 2 > len(core)
            for r in results:
                if r['status'] != 'unsat':
                    soft = not r.get('core', True) or (enough and r['status'] in spent)
                    (undecided if soft else problems).append((r['query'], r['status'], r.get('err', '')))
                for n in r.get('notes', []):
                    print('NOTE query=%s %s' % (r['query'], n))
            byir = {r['query']: r for r in results if r.get('second')}
            witnesses = [byir[w['query']]['second'] if w['query'] in byir else w for w in witnesses]
            seen = sum(w['status'] == 'validated' for w in witnesses) * 2 > len(witnesses)
            for w in witnesses:
                if w['status'] == 'mismatch' or (w['status'] == 'vacuous' and not seen):
                    problems.append((w['query'], 'witness ' + w['status'], w.get('err', '')))
                elif w['status'] != 'validated':
                    q = byname[w['query']]
                    (undecided if not q.core or w['status'] == 'vacuous' or (enough and w['status'] in spent) else problems).append((w['query'], 'witness ' + w['status'], w.get('err', '')))
            for u in undecided:
                print('UNDECIDED (outside the claim of this run) query=%s %s %s' % u)
            for u in problems:
                print('INCONCLUSIVE query=%s %s %s' % u)
            code = 2 if problems else 0
            if code == 0:
                print('OK property=%s queries=%d decided=%d wall=%.1fs' % (prop, len(results), len(results) - len(
                    {u[0] for u in undecided}), wall))
        decided = [r for r in results if r['status'] in ('unsat', 'violation')]
        val = [w for w in witnesses if w['status'] == 'validated']
        linked = sorted({s for r in results for s in r.get('linked', [])})
        samples = [{'query': w['query'], 'defs': byname[w['query']].defs, 'inputs': w['inputs'][:48], 'outputs': w['outs'][:48]} for w in sorted(val, key=lambda w: w['query'])[:4]]
        if violation:
            samples.insert(0, {'violation': violation[1]['assertion'], 'inputs': violation[1]['inputs'][:200]})
        ev = {
            'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
            'coverage': {
                'states': sum(r.get('steps', 0) for r in decided),
                'transitions': sum(r.get('clauses', 0) for r in decided),
                'traces_validated_against_impl': len(val),
                'samples': samples or [{'note': 'no witness finished before the run ended'}],
                'counts': 'states = symbolic-execution steps of the encoded program over all decided queries; transitions = clauses handed to '
                          'the SAT solver; traces_validated_against_impl = solver-produced witness runs re-executed natively with equal outputs',
                'exhaustive': bool(meta.get('exhaustive', False)) and not violation and not undecided,
                'queries': len(results), 'queries_discharged': len([r for r in results if r['status'] == 'unsat']),
                'verification_conditions': sum(r.get('vccs', 0) for r in decided),
                'verification_conditions_left_for_solver': sum(r.get('remaining', 0) for r in decided),
                'ir_paths': sum(r.get('paths', 0) for r in decided),
                'variables': sum(r.get('vars', 0) for r in decided),
                'solver_seconds': round(sum(r.get('solver_s', 0) for r in decided), 2),
                'functions_encoded': meta.get('functions', []), 'sources_linked': linked,
                'bounds': [{'query': r['query'], 'bound': byname[r['query']].bound, 'defs': byname[r['query']].defs, 'status': r['status'],
                            'backend': r.get('backend', ''), 'wall_s': r.get('wall', 0)} for r in sorted(results, key=lambda r: r['query'])],
                'undecided': [list(u[:2]) for u in undecided], 'notes': [n for r in results for n in r.get('notes', [])],
                'outside': meta.get('outside', ''),
            },
            'assumptions': meta.get('assumptions', []),
            'wall_s': round(time.time() - t0, 2), 'violations': 1 if violation else 0,
        }
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as h:
            json.dump(ev, h, indent=1)
    except Failure as e:
        print('ERROR %s' % e)
        code = 2
    finally:
        eng.cancel()
        eng.cleanup()
    return code
