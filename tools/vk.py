"""Machinery shared by all checks: build the harness from /repo, run TLC, run scripts on the real
code, validate the recorded traces against the specification, report."""
import json, os, random, re, shutil, subprocess, sys, time, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick') or 'quick'
THOROUGH = TIER == 'thorough'
CPUS = min(8, os.cpu_count() or 4)
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
TARGET = os.path.join(VERIF, 'target')
MH = os.path.join(TARGET, 'debug', 'mh')

class ToolError(Exception): pass

def log(*a): print(*a, flush=True)

def terminfo():
    """Compile the made-up terminal types; the harness and the generators find them by TERMINFO_DIRS."""
    d = os.path.join(TARGET, 'terminfo')
    os.makedirs(d, exist_ok=True)
    os.environ.pop('TERMINFO', None)
    os.environ['TERMINFO_DIRS'] = d
    subprocess.run(['tic', '-x', '-o', d, os.path.join(VERIF, 'harness', 'terminfo.src')], check=True, stderr=subprocess.DEVNULL)
terminfo()

class Check:
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.work = os.path.join(VERIF, '.work', '%s-%d' % (pid, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.rnd = random.Random('%s/%s/%d' % (pid, TIER, SEED))
        self.states = self.transitions = 0
        self.specs = []          # TLC runs
        self.traces = 0          # scenarios validated
        self.events = 0
        self.samples = []
        self.ops = {}
        self.outcomes = {}
        self.rejects = []        # dict(why, scenario, trace)
        self.known = []
        self.notes = []
        self.assumptions = []
        self.distinct = set()

    # ---- building -----------------------------------------------------------------------
    def build(self):
        env = dict(os.environ, RUSTFLAGS='--cfg mortal_verif --cap-lints allow', CARGO_TERM_COLOR='never')
        t = time.time()
        p = subprocess.run(['cargo', 'build', '--offline', '--target-dir', TARGET], cwd=os.path.join(VERIF, 'harness'),
                           env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            log(p.stdout[-6000:])
            raise ToolError('harness does not build')
        log('built the harness in %.1f s' % (time.time() - t))

    # ---- TLC ------------------------------------------------------------------------------
    def tlc(self, module, cfg=None, workers=None, env=None, timeout=None, consts=None, extra=(), mem='3g', tag=None):
        tag = tag or module
        d = os.path.join(self.work, 'tlc-%s-%d' % (tag, random.randrange(1 << 40)))
        os.makedirs(d)
        cfg = os.path.join(SPEC, cfg or module + '.cfg')
        if consts:   # override constants of the configuration file
            txt = open(cfg).read()
            for k, v in consts.items():
                txt, n = re.subn(r'(?m)^(\s*%s\s*=\s*).*$' % k, lambda m: m.group(1) + str(v), txt)
                if n != 1: raise ToolError('constant %s in %s' % (k, cfg))
            cfg = os.path.join(d, 'm.cfg')
            open(cfg, 'w').write(txt)
        out = os.path.join(d, 'out')
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + mem, '-Xss64m', '-Djava.io.tmpdir=' + d, '-cp', JARS,
               'tlc2.TLC', '-metadir', os.path.join(d, 'meta'), '-noGenerateSpecTE', '-workers', str(workers or (CPUS if THOROUGH else 1)),
               '-config', cfg] + list(extra) + [os.path.join(SPEC, module + '.tla')]
        with open(out, 'w') as f:
            p = subprocess.run(cmd, cwd=d, env=dict(os.environ, **(env or {})), stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
        shutil.rmtree(os.path.join(d, 'meta'), ignore_errors=True)
        return p.returncode, out

    @staticmethod
    def lines(out, tag):
        """Values printed by PrintT(tag \\o ...)."""
        pre = '"' + tag + ' '
        with open(out) as f:
            for ln in f:
                if ln.startswith(pre):
                    yield ln[len(pre):].rstrip()[:-1].replace('\\"', '"').replace('\\\\', '\\')

    def model(self, module, consts=None, cfg=None, timeout=None, tag=None, workers=None, extra=()):
        """Exhaustive model checking. A violation of the design is an error of the machinery."""
        t = time.time()
        # one worker in the quick tier: the behaviours found do not depend on scheduling
        rc, out = self.tlc(module, cfg=cfg, consts=consts, timeout=timeout, tag=tag, workers=workers, extra=extra)
        txt = ''.join(l for l in open(out) if not l.startswith('"'))
        m = re.findall(r'(\d+) states generated.*?(\d+) distinct states found', txt)
        if rc != 0 or not m or 'No error has been found' not in txt and 'finished' not in txt.lower():
            log(txt[-5000:])
            raise ToolError('TLC on %s: exit %d' % (module, rc))
        g, s = map(int, m[-1])
        self.states += s; self.transitions += g
        self.specs.append({'module': module, 'config': tag or cfg or module, 'states': s, 'transitions': g, 's': round(time.time() - t, 1)})
        log('TLC %s: %d states, %d transitions, %.1f s' % (tag or module, s, g, time.time() - t))
        return out

    def refuted(self, module, mistakes, consts=None, cfg=None):
        """The specification finds these mistakes in the design."""
        for b in mistakes:
            rc, out = self.tlc(module, cfg=cfg, consts=dict(consts or {}, Broken='"%s"' % b), tag='%s-%s' % (module, b))
            if not re.search(r'(Invariant|property) \S+ (is|was) violated', open(out).read()): raise ToolError('%s does not find the mistake "%s"' % (module, b))
            log('TLC %s: finds the mistake "%s"' % (module, b))

    def tests(self, out):
        return [json.loads(x) for x in self.lines(out, 'TEST')]

    def sample(self, xs, n):
        xs = sorted(xs, key=lambda x: json.dumps(x, sort_keys=True)) if not isinstance(xs, list) or xs and isinstance(xs[0], (list, dict)) else xs
        if len(xs) <= n: return xs
        return self.rnd.sample(xs, n)

    # ---- running the real code --------------------------------------------------------------
    def execute(self, scns, name):
        """Run scenarios; returns list of (trace file, scenarios of the shard)."""
        shards = [[] for _ in range(CPUS)]
        for i, s in enumerate(scns): shards[i % CPUS].append(s)
        shards = [s for s in shards if s]
        jobs = []
        for k, sh in enumerate(shards):
            base = os.path.join(self.work, '%s-%d' % (name, k))
            jobs.append((sh, base + '.script', base + '.trace'))
        with ThreadPoolExecutor(CPUS) as ex: list(ex.map(lambda j: self.run_shard(*j), jobs))
        return [(t, sh) for sh, s, t in jobs]

    def run_shard(self, scns, script, trace):
        with open(script, 'w') as f:
            for n, s in enumerate(scns):
                for k, o in enumerate(s['ops']):
                    f.write(json.dumps(dict(o, n=n + 1) if k == 0 else o, separators=(',', ':')) + '\n')
        if os.path.exists(trace): os.remove(trace)
        skip = 0
        for attempt in range(60):
            try:
                p = subprocess.run([MH, script, trace, str(skip)], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=800,
                                   stdin=subprocess.DEVNULL)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                raise ToolError('harness takes too long on ' + script)
            if rc == 0: break
            last = self.last_scn(trace)
            if rc in (7, 8):  # hang or deadlock: recorded in the trace
                skip = last; continue
            # The process died: cut the trace after the last complete line and record it.
            data = open(trace, 'rb').read() if os.path.exists(trace) else b''
            data = data[:data.rfind(b'\n') + 1]
            if last <= skip and not data.strip():
                last = skip + 1
            err = p.stderr.decode('utf8', 'replace')[-400:]
            if 'bad script line' in err: raise ToolError(err)
            with open(trace, 'wb') as f:
                f.write(data)
                f.write((json.dumps({'op': 'abort', 'n': last, 'rc': rc, 'msg': err}) + '\n').encode())
            skip = last
        else:
            log('NOTE: too many hangs or deaths of the harness; the rest of %s was not run' % script)
            self.notes.append({'cut': script})

    @staticmethod
    def last_scn(trace):
        n = 0
        if os.path.exists(trace):
            for ln in open(trace, errors='replace'):
                m = re.search(r'"n":(\d+)', ln)
                if '"op":"scn"' in ln or '"op":"hang"' in ln:
                    try: n = max(n, json.loads(ln)['n'])
                    except Exception: pass
        return n

    # ---- validation -------------------------------------------------------------------------
    def validate_file(self, module, trace, cfg=None):
        if os.path.getsize(trace) == 0: return []
        rc, out = self.tlc(module, cfg=cfg, workers=1, env={'TRACE': trace}, mem='2g', timeout=3000)
        rej = [json.loads(x) for x in self.lines(out, 'REJECT')]
        end = list(self.lines(out, 'END'))
        n = sum(1 for _ in open(trace))
        if rc != 0 or not end or int(end[-1]) != n:
            log(''.join(l for l in open(out) if not l.startswith('"REJECT'))[-4000:])
            raise ToolError('validation of %s with %s stopped (exit %d)' % (trace, module, rc))
        return rej

    def conform(self, module, scns, name=None, cfg=None, confirm=True):
        """Run the scenarios on the real code and validate the recording against the module."""
        name = name or module
        if not scns: raise ToolError('no scenarios for ' + name)
        t = time.time()
        files = self.execute(scns, name)
        t1 = time.time()
        with ThreadPoolExecutor(CPUS) as ex:
            res = list(ex.map(lambda f: self.validate_file(module, f[0], cfg), files))
        nev = 0
        for (tr, sh), rej in zip(files, res):
            byn = {}
            for k, ln in enumerate(open(tr)):
                nev += 1
                try: e = json.loads(ln)
                except Exception: raise ToolError('unreadable trace line in ' + tr)
                key = '%s%s' % (e['op'], '.' + str(e['on']) if 'on' in e else '')
                self.ops[key] = self.ops.get(key, 0) + 1
                if 'r' in e: self.outcomes[e['r']] = self.outcomes.get(e['r'], 0) + 1
            for r in rej:
                s = sh[r['n'] - 1]
                self.found(module, cfg, s, r, confirm, (sh, r['n']))
        self.events += nev
        self.traces += len(scns)
        for s in scns: self.distinct.add(hashlib.md5(json.dumps(s['ops'][1:] or s['ops'], sort_keys=True).encode()).digest())
        for s in (scns[:1] + scns[len(scns) // 2:len(scns) // 2 + 1])[:2]:
            if len(self.samples) < 8: self.samples.append({'family': name, 'script': s['ops'][:14]})
        log('%s: %d scenarios, %d events; ran %.1f s, validated %.1f s; %d rejected' %
            (name, len(scns), nev, t1 - t, time.time() - t1, sum(map(len, res))))

    def found(self, module, cfg, scn, rej, confirm, ctx):
        kf = scn.get('kf')
        if len(self.rejects) >= 25 and not kf: return
        if confirm and not kf and len(self.rejects) < 6:
            again = self.replay(module, cfg, [scn])
            if not again:
                sh, n = ctx
                again = self.replay(module, cfg, sh[:n], 'ctx')
                again = [r for r in again if r['n'] == n]
                if not again:
                    self.notes.append({'unreproduced': rej, 'script': scn['ops']})
                    log('NOTE: not reproduced: %s' % rej)
                    return
                scn = {'ops': [o for k, s in enumerate(sh[:n]) for o in
                               ([dict(s['ops'][0], n=k + 1)] + s['ops'][1:])], 'ctx': True}
            else: rej = again[0]
        if kf:
            self.known.append((kf, rej, scn)); return
        self.rejects.append({'why': rej['why'], 'line': rej['line'], 'module': module, 'scenario': scn['ops']})

    def replay(self, module, cfg, scns, tag='again'):
        base = os.path.join(self.work, '%s-%d' % (tag, random.randrange(1 << 40)))
        self.run_shard(scns, base + '.script', base + '.trace')
        return self.validate_file(module, base + '.trace', cfg)

    # ---- report -----------------------------------------------------------------------------
    def finish(self, level='model_checking', rule='', extra=None):
        kfs = load_known()
        status = 0
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        seen = {}
        for kf, rej, scn in self.known:
            ent = kfs.get(kf)
            if ent and ent['property'] == self.pid and re.search(ent['why'], rej['why']):
                seen[kf] = ent
            else:
                self.rejects.append({'why': rej['why'], 'line': rej['line'], 'module': '?', 'scenario': scn['ops']})
        for kf, ent in sorted(seen.items()):
            log('KNOWN-FINDING: property=%s %s: %s' % (self.pid, kf, ent['what']))
        done = set()
        for r in self.rejects:
            status = 1
            key = re.sub(r'\d+', '#', r['why'])
            if key in done: continue
            done.add(key)
            h = hashlib.md5(json.dumps(r, sort_keys=True).encode()).hexdigest()[:10]
            path = os.path.join(VERIF, 'replays', '%s-%s.json' % (self.pid, h))
            json.dump(r, open(path, 'w'), indent=1)
            log('rejected by %s: %s' % (r['module'], r['why']))
            for o in r['scenario'][-40:]: log('   ', json.dumps(o))
            log('VIOLATION property=%s replay=%s' % (self.pid, path))
        cov = {'states': self.states, 'transitions': self.transitions, 'traces_validated_against_impl': self.traces,
               'events_validated': self.events, 'distinct_scripts': len(self.distinct), 'rule': rule,
               'samples': self.samples or ['none'], 'specifications': self.specs, 'operations': self.ops, 'outcomes': self.outcomes}
        if self.notes: cov['notes'] = self.notes[:20]
        if extra: cov.update(extra)
        ev = {'property': self.pid, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED, 'level': level, 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.rejects)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w'), indent=1)
        log('%s: %s in %.1f s (%d traces, %d events)' % (self.pid, 'VIOLATED' if status else 'held', time.time() - self.t0, self.traces, self.events))
        shutil.rmtree(self.work, ignore_errors=True)
        return status

def load_known():
    p = os.path.join(VERIF, 'known-findings.json')
    if not os.path.exists(p): return {}
    return {e['id']: e for e in json.load(open(p))['findings']}
