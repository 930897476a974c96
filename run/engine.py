"""Builds harnesses from /repo's working tree, records their executions and lets
TLC decide: design models exhaustively, recorded executions against the trace
specifications.  Standard library only."""
import concurrent.futures as cf, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, threading, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
CXXFLAGS = ['-O2', '-g1', '-march=native', '-std=gnu++17', '-include', 'cstdint', '-w']


class Broken(Exception):
    """The check itself could not do its work (exit 2, never a verdict)."""


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == 'thorough'
        self.t0 = time.time()
        self.deadline = self.t0 + (3300 if self.thorough else 800)
        self.work = os.path.join(V, '.work', '%s-%d' % (pid, os.getpid()))
        os.makedirs(self.work, exist_ok=True)
        self.pool = cf.ThreadPoolExecutor(max_workers=8)
        self.lock = threading.Lock()
        self.live = set()
        self.mcs, self.traces, self.samples, self.rejections = [], [], [], []
        self.assumptions = []
        self.extra = {}
        self.cls = None
        self.objs = {}
        self.seq = 0

    # ---- processes ----------------------------------------------------------
    def left(self, cap):
        return max(5, min(cap, self.deadline - time.time()))

    def run(self, argv, timeout, env=None, cwd=None):
        """(returncode or 'timeout', stdout+stderr)"""
        if self.rejections:
            return 'abandoned', ''
        e = dict(os.environ)
        e.update({'LANG': 'C.UTF-8'})
        if env:
            e.update(env)
        p = subprocess.Popen(argv, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=cwd,
                             stdin=subprocess.DEVNULL, start_new_session=True)
        with self.lock:
            self.live.add(p)
        try:
            out, _ = p.communicate(timeout=timeout)
            return p.returncode, out.decode('utf-8', 'replace')
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            try:
                out, _ = p.communicate(timeout=10)
            except subprocess.TimeoutExpired:
                out = b''
            return 'timeout', (out or b'').decode('utf-8', 'replace')
        finally:
            with self.lock:
                self.live.discard(p)

    def abandon(self):
        """A violation is found: what still runs is of no use."""
        with self.lock:
            for p in self.live:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass

    def say(self, *a):
        with self.lock:
            print('[%6.1fs]' % (time.time() - self.t0), *a, flush=True)

    # ---- building -------------------------------------------------------------
    def lib_sources(self):
        src = os.path.join(REPO, 'src')
        fs = sorted(glob.glob(src + '/frn/**/*.cc', recursive=True))
        return [f for f in fs if not os.path.basename(f).startswith('exp_')]

    def _compile(self, src, obj, flags):
        rc, out = self.run(['g++'] + CXXFLAGS + flags + ['-I', REPO + '/src', '-I', V + '/harness', '-c', src, '-o', obj],
                           self.left(400))
        if rc != 0:
            raise Broken('cannot compile %s:\n%s' % (src, out[-3000:]))
        return obj

    def build(self, name, flags=(), libs=True, link=(), src=None, only=None):
        flags = list(flags)
        tag = hashlib.sha256(' '.join(flags).encode()).hexdigest()[:8]
        d = os.path.join(self.work, 'obj-' + tag)
        os.makedirs(d, exist_ok=True)
        futs = []
        if libs:
            with self.lock:
                if tag not in self.objs:
                    self.objs[tag] = [self.pool.submit(self._compile, s, os.path.join(d, os.path.relpath(s, REPO).replace('/', '_') + '.o'), flags)
                                      for s in self.lib_sources()]
            futs = self.objs[tag]
        main = os.path.join(d, name + '.main.o')
        mf = self.pool.submit(self._compile, src or os.path.join(V, 'harness', name + '.cc'), main, flags)
        objs = [f.result() for f in futs] + [mf.result()]
        exe = os.path.join(d, name)
        rc, out = self.run(['g++'] + [f for f in flags if f.startswith('-fsanitize')] + objs + ['-o', exe, '-lpthread', '-ldl'] + list(link), self.left(200))
        if rc != 0:
            raise Broken('cannot link %s:\n%s' % (name, out[-3000:]))
        return exe

    def classes(self):
        with self.lock:
            if self.cls is None:
                self.cls = self.pool.submit(self._classes)
        return self.cls.result()

    def _classes(self):
        d = os.path.join(self.work, 'cls')
        os.makedirs(d, exist_ok=True)
        rc, out = self.run(['javac', '-d', d, '-cp', JARS] + sorted(glob.glob(V + '/java/*.java')), self.left(200))
        if rc != 0:
            raise Broken('javac: ' + out[-2000:])
        return d

    # ---- TLC -------------------------------------------------------------------
    def tlc(self, spec, cfg, env=None, workers=1, timeout=600, extra=(), mem='3g'):
        with self.lock:
            self.seq += 1
            md = os.path.join(self.work, 'md%d' % self.seq)
        cp = JARS + ':' + self.classes()
        gc = '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC'
        cmd = ['java', gc, '-Xss64m', '-Xmx' + mem, '-cp', cp, 'tlc2.TLC', '-metadir', md,
               '-workers', str(workers), '-noGenerateSpecTE', '-config', cfg] + list(extra) + [spec]
        rc, out = self.run(cmd, self.left(timeout), env=env, cwd=V + '/spec')
        shutil.rmtree(md, ignore_errors=True)
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
        gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        return dict(rc=rc, out=out, generated=gen, distinct=dist)

    def refuted(self, spec, cfg, extra=(), timeout=300):
        """A variant of a design model with a fault in it, which the invariants
        have to find (so that they are known to say something)."""
        r = self.tlc(spec + '.tla', cfg + '.cfg', timeout=timeout, extra=extra)
        if not re.search(r'Invariant \S+ is violated|Deadlock reached|Temporal propert(y|ies) (\S+ )?(was|were) violated|Action property \S+ is violated', r['out']):
            raise Broken('model %s/%s: no violation found, rc=%s\n%s' % (spec, cfg, r['rc'], r['out'][-2000:]))
        with self.lock:
            self.extra.setdefault('faulty_variants_refuted', []).append(cfg)
        self.say('model %s %s: faulty variant is refuted' % (spec, cfg))

    def mc(self, spec, cfg=None, text=None, workers=2, timeout=700, depth=None, extra=()):
        """Exhaustive check of a design model.  A failure here says nothing about
        the code: it is an error of the check."""
        name = cfg or spec
        if text is not None:
            path = os.path.join(self.work, '%s.cfg' % name)
            open(path, 'w').write(text)
        else:
            path = '%s.cfg' % (cfg or spec)
        t = time.time()
        r = self.tlc(spec + '.tla', path, workers=workers, timeout=timeout, extra=extra)
        if r['rc'] != 0 or 'No error has been found' not in r['out']:
            raise Broken('model %s/%s: rc=%s\n%s' % (spec, name, r['rc'], r['out'][-3000:]))
        with self.lock:
            self.mcs.append(dict(model=spec, config=name, states=r['distinct'], transitions=r['generated'], wall_s=round(time.time() - t, 1)))
        self.say('model %s %s: %d states, %d transitions, no error' % (spec, name, r['distinct'], r['generated']))
        return r

    def schedules(self, spec, cfg, prefix, limit, timeout=300):
        """Executions of a design model that together take every transition of
        its state graph (or as many of them as `limit` executions reach): lines
        `prefix` followed by the party that moves at every step."""
        dump = os.path.join(self.work, 'graph-%s' % cfg)
        r = self.tlc(spec + '.tla', cfg + '.cfg', timeout=timeout, workers=1, extra=['-dump', 'dot', dump])
        if r['rc'] != 0:
            raise Broken('model %s/%s: rc=%s\n%s' % (spec, cfg, r['rc'], r['out'][-2000:]))
        pc, succ, inits = {}, {}, []
        for ln in open(dump + '.dot'):
            m = re.match(r'(-?\d+) -> (-?\d+)', ln)
            if m:
                if m.group(1) != m.group(2):
                    succ.setdefault(m.group(1), set()).add(m.group(2))
                continue
            m = re.match(r'(-?\d+) \[label="(.*)"(,style = filled)?\]', ln)
            if m:
                q = re.search(r'pc = (\([^)]*\)|<<[^>]*>>)', m.group(2))
                pc[m.group(1)] = [int(x) for x in re.findall(r'(?::>|,|<<) *(\d+)', q.group(1))]
                if m.group(3):
                    inits.append(m.group(1))
        os.unlink(dump + '.dot')

        def mover(a, b):
            return next(i for i, (x, y) in enumerate(zip(pc[a], pc[b])) if x != y)
        import random
        rnd = random.Random(self.seed)
        todo = {a: set(b) for a, b in succ.items()}
        left = sum(len(b) for b in todo.values())
        total, lines = left, []
        while left and len(lines) < limit:
            at, seq = rnd.choice(inits), []
            while succ.get(at):
                # the nearest transition not yet taken (breadth first), else any
                if todo[at]:
                    path = [rnd.choice(sorted(todo[at]))]
                else:
                    path, back, queue = None, {at: None}, [at]
                    for x in queue:
                        if todo.get(x) and x != at:
                            path = []
                            while x != at:
                                path.append(x)
                                x = back[x]
                            path.reverse()
                            break
                        for y in sorted(succ.get(x, ())):
                            if y not in back:
                                back[y] = x
                                queue.append(y)
                        if len(back) > 400:
                            break
                    if path is None:
                        path = [rnd.choice(sorted(succ[at]))]
                for y in path:
                    seq.append(mover(at, y))
                    if y in todo[at]:
                        todo[at].discard(y)
                        left -= 1
                    at = y
            lines.append(prefix + ' ' + ' '.join(map(str, seq)))
        out = os.path.join(self.work, 'schedules-%s.txt' % cfg)
        open(out, 'w').write('\n'.join(lines) + '\n')
        self.say('model %s %s: %d executions take %d of %d transitions' % (spec, cfg, len(lines), total - left, total))
        with self.lock:
            self.extra.setdefault('generated_executions', []).append(
                dict(model=spec, config=cfg, executions=len(lines), transitions_covered=total - left, transitions=total))
        return out

    # ---- conformance -------------------------------------------------------------
    def record(self, argv, path, env, timeout):
        e = {'VERIF_SEED': str(self.seed), 'VERIF_TIER': self.tier}
        e.update(env or {})
        try:
            os.unlink(path)
        except OSError:
            pass
        rc, out = self.run(argv, self.left(timeout), env=e, cwd=self.work)
        if rc == 3:
            raise Broken('harness misuse: %s\n%s' % (argv, out[-1000:]))
        data = open(path, 'rb').read() if os.path.exists(path) else b''
        if data and not data.endswith(b'\n'):       # killed in the middle of a line
            data = data[:data.rfind(b'\n') + 1]
            open(path, 'wb').write(data)
        lines = data.count(b'\n')
        if rc != 0 and (rc != 70 or b'"e":"crash"' not in data[-300:]):
            what = 'hang' if rc == 'timeout' else 'crash'
            with open(path, 'ab') as f:
                f.write(('{"e":"%s","rc":"%s"}\n' % (what, rc)).encode())
            lines += 1
        return rc, lines, out

    def validate(self, spec, path, env, timeout):
        e = {'TRACE': path, 'PROP': self.pid}
        e.update(env or {})
        r = self.tlc(spec + '.tla', spec + '.cfg', env=e, timeout=timeout, mem='6g')
        out = r['out']
        if r['rc'] == 0 and 'No error has been found' in out:
            return 'ok', None, r
        m = re.search(r'<<"REJECTED", (\d+), (\d+)>>', out)
        if m:
            return 'rejected', int(m.group(1)), r
        if r['rc'] == 'timeout' or 'OutOfMemory' in out or 'StackOverflow' in out or 'Parsing or semantic analysis failed' in out \
                or 'Java heap space' in out or r['rc'] in (150, 151, 152, 153, 154, 155, -9, 137):
            return 'broken', None, r
        # the specification has no value for this line: not a behaviour of it
        ls = re.findall(r'^(?:/\\ )?l = (\d+)', out, re.M)
        if ls:
            return 'rejected', int(ls[-1]), r
        return 'broken', None, r

    def conform(self, label, argv, spec, env=None, tenv=None, timeout=300, ttimeout=700, history=None):
        """Record one execution of the code and validate it.  `history` names the
        event that starts one independent history in the trace."""
        if self.rejections:
            return False
        path = os.path.join(self.work, label + '.ndjson')
        for attempt in (1, 2, 3):
            rc, lines, hout = self.record([a.replace('@OUT', path) for a in argv], path, env, timeout)
            if self.rejections:
                return False
            verdict, at, r = self.validate(spec, path, tenv, ttimeout)
            if self.rejections:
                return False
            if verdict == 'broken':
                raise Broken('trace %s against %s: rc=%s\n%s' % (label, spec, r['rc'], r['out'][-3000:]))
            if verdict == 'ok':
                if attempt > 1:
                    self.say('trace %s: a rejection was not repeated' % label)
                    if attempt == 2:
                        continue
                break
            text = self.line(path, at)
            if attempt == 1:
                self.say('trace %s: line %d of %d is not allowed, repeating: %s' % (label, at, lines, text[:400]))
                keep = path + '.first'
                shutil.copyfile(path, keep)
                continue
            self.reject(label, argv, spec, path, at, lines, text, r['out'], env)
            return False
        n = 1
        with open(path, errors='replace') as f:
            if history:
                keys = [history] if isinstance(history, str) else history
                pats = ['{"e":"%s"' % k for k in keys]
                n = 0
                for ln in f:
                    if any(ln.startswith(p) for p in pats):
                        n += 1
        with self.lock:
            self.traces.append(dict(trace=label, spec=spec, events=lines, histories=n, states=r['distinct'], transitions=r['generated']))
            if len(self.samples) < 6:
                with open(path, errors='replace') as f:
                    ls = [x.strip() for _, x in zip(range(4000), f)]
                if ls:
                    for i in (len(ls) // 3, 2 * len(ls) // 3):
                        self.samples.append('%s:%d %s' % (label, i + 1, ls[i][:400]))
        self.say('trace %s: %d events (%d histories) accepted by %s' % (label, lines, n, spec))
        if os.environ.get('VERIF_KEEP') is None:
            os.unlink(path)
        return True

    def line(self, path, at):
        with open(path, errors='replace') as f:
            for i, ln in enumerate(f, 1):
                if i == at:
                    return ln.strip()
        return '(end of trace)'

    def reject(self, label, argv, spec, path, at, lines, text, out, env):
        d = os.path.join(V, 'evidence', 'replay', self.pid)
        os.makedirs(d, exist_ok=True)
        t = os.path.join(d, label + '.ndjson')
        with open(path, errors='replace') as f, open(t, 'w') as g:
            for i, ln in enumerate(f, 1):
                if i > at + 20:
                    break
                g.write(ln)
        info = os.path.join(d, label + '.txt')
        with open(info, 'w') as g:
            g.write('property %s: the execution recorded in %s is not a behaviour of %s\n' % (self.pid, os.path.basename(t), spec))
            g.write('rejected line %d of %d:\n%s\n\n' % (at, lines, text))
            g.write('recorded by: %s (VERIF_SEED=%s VERIF_TIER=%s %s)\n' % (' '.join(argv), self.seed, self.tier, env or ''))
            g.write('replay: TRACE=%s PROP=%s tlc -config %s/spec/%s.cfg %s/spec/%s.tla (with java/*.java on the classpath)\n\n%s\n' % (
                t, self.pid, V, spec, V, spec, out[-6000:]))
        with self.lock:
            self.rejections.append((label, info))
        self.abandon()
        self.say('trace %s: line %d of %d is not allowed by %s: %s' % (label, at, lines, spec, text[:600]))

    # ---- the whole check ---------------------------------------------------------
    def parallel(self, jobs, width=6):
        """Run (fn, args, kwargs) jobs; the first error is raised at the end."""
        errs = []
        with cf.ThreadPoolExecutor(max_workers=width) as ex:
            fs = [ex.submit(fn, *a, **k) for fn, a, k in jobs]
            for f in fs:
                try:
                    f.result()
                except Exception as x:      # noqa
                    errs.append(x)
        if errs and not self.rejections:
            raise errs[0]

    def finish(self, known):
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level='model_checking',
                  coverage=dict(
                      states=sum(x['states'] for x in self.mcs) + sum(x['states'] for x in self.traces),
                      transitions=sum(x['transitions'] for x in self.mcs) + sum(x['transitions'] for x in self.traces),
                      traces_validated_against_impl=sum(x['histories'] for x in self.traces),
                      trace_events=sum(x['events'] for x in self.traces),
                      design_models=self.mcs, traces=self.traces,
                      samples=self.samples or ['(none)'], **self.extra),
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 1), violations=len(self.rejections))
        os.makedirs(V + '/evidence', exist_ok=True)
        with open(V + '/evidence/%s.json' % self.pid, 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
        for k in known:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k))
        if self.rejections:
            label, info = self.rejections[0]
            print('VIOLATION property=%s replay=%s' % (self.pid, info), flush=True)
            return 1
        print('OK property=%s (%s)' % (self.pid, self.tier), flush=True)
        return 0

    def cleanup(self):
        self.pool.shutdown(wait=False, cancel_futures=True)
        if os.environ.get('VERIF_KEEP') is None:
            shutil.rmtree(self.work, ignore_errors=True)
