"""Shared machinery of the checks: building harnesses, running TLC, collecting results."""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(V, 'build')
SPEC = os.path.join(V, 'spec')
NPROC = min(8, os.cpu_count() or 1)


class NoAnswer(Exception):
    pass


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        os.makedirs(BUILD, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix='work-%s-' % prop, dir=BUILD)
        self.t0 = time.time()
        self.violations = []          # (what, replay path)
        self.known = []
        self.other = {}               # mismatches that concern other properties
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], tags={}, profiles={}, models=[])
        self.assumptions = []
        self._bins = {}
        self._lock = threading.Lock()
        self._nbins = 0
        self._gen = None
        self.sanitize = tier == 'thorough'

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def sub(self, name):
        d = os.path.join(self.dir, name)
        os.makedirs(d, exist_ok=True)
        return d

    # ------------------------------------------------------------- building
    def gen(self):
        if not self._gen:
            g = self.sub('gen')
            p = subprocess.run([sys.executable, V + '/tools/gen_cfg.py', REPO, g], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode:
                raise NoAnswer('generating the configuration headers failed:\n' + p.stdout[-2000:])
            self._gen = g
        return self._gen

    def build(self, name, flags=(), opt=None):
        """harness/<name>.cc compiled against the working tree"""
        key = (name,) + tuple(flags)
        if key in self._bins:
            return self._bins[key]
        with self._lock:
            self._nbins += 1
            out = os.path.join(self.dir, 'bin-%s%d' % (name, self._nbins))
            self.gen()
        if opt is None:
            opt = '-O1 -D_GLIBCXX_DEBUG'
            if self.sanitize:
                opt = '-O1 -D_GLIBCXX_DEBUG -fsanitize=address'
        env = dict(os.environ, GEN=self.gen(), OPT=opt)
        log = out + '.log'
        with open(log, 'w') as f:
            p = subprocess.run([V + '/tools/cxx.sh', REPO, out, '%s/harness/%s.cc' % (V, name)] + list(flags), env=env, stdout=f, stderr=f)
        if p.returncode:
            errs = [l[:300] for l in open(log, errors='replace') if 'error' in l][:8]
            raise NoAnswer('harness %s does not compile against %s:\n%s' % (name, REPO, '\n'.join(errs)))
        self._bins[key] = out
        return out

    def build_all(self, names):
        with ThreadPoolExecutor(4) as ex:
            self.gen()
            list(ex.map(self.build, names))

    def run_harness(self, binary, texts, timeout=10, env=None):
        """texts: list of behaviour texts. Returns the result objects in order (crash: code)."""
        d = tempfile.mkdtemp(dir=self.dir)
        n = min(NPROC, max(1, len(texts)))
        e = dict(os.environ, HARNESS_TIMEOUT=str(timeout), ASAN_OPTIONS='detect_leaks=0:detect_odr_violation=0')
        e.update(env or {})
        procs = []
        for i in range(n):
            with open('%s/in%d' % (d, i), 'w') as f:
                f.write(''.join(texts[i::n]))
            procs.append(subprocess.Popen([binary, '%s/in%d' % (d, i), '%s/out%d' % (d, i)], env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL))
        res = [None] * len(texts)
        for i, p in enumerate(procs):
            p.wait()
            try:
                lines = open('%s/out%d' % (d, i)).read().splitlines()
            except OSError:
                lines = []
            for k, l in enumerate(lines):
                if i + k * n < len(texts):
                    res[i + k * n] = json.loads(l)
        shutil.rmtree(d, ignore_errors=True)
        return res

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg=None, env=None, workers=NPROC, timeout=600, extra=()):
        md = tempfile.mkdtemp(dir=self.dir)
        cmd = ['tlc', '-workers', str(workers), '-cleanup', '-noGenerateSpecTE', '-metadir', md, '-config', (cfg or module) + '.cfg'] + list(extra) + [module + '.tla']
        e = dict(os.environ, JAVA_TOOL_OPTIONS='-Djava.io.tmpdir=' + self.sub('jtmp'))
        e.update(env or {})
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
            out, rc = p.stdout, p.returncode
        except subprocess.TimeoutExpired as x:
            out, rc = (x.stdout or b'').decode(errors='replace') if isinstance(x.stdout, bytes) else (x.stdout or ''), 'timeout'
        shutil.rmtree(md, ignore_errors=True)
        m = re.findall(r'(\d[\d,]*) states generated.*?(\d[\d,]*) distinct states found', out)
        gen, dist = (int(m[-1][0].replace(',', '')), int(m[-1][1].replace(',', ''))) if m else (0, 0)
        return dict(out=out, rc=rc, ok=rc == 0 and 'No error has been found' in out, generated=gen, distinct=dist)

    def tlc_trace(self, module, objs, env=None, timeout=700):
        """checks recorded behaviours (list of objects with id, ops) against a trace module"""
        f = tempfile.NamedTemporaryFile('w', suffix='.ndjson', dir=self.dir, delete=False)
        for o in objs:
            f.write(json.dumps(o) + '\n')
        f.close()
        e = dict(env or {}, TRACE_FILE=f.name)
        r = self.tlc(module, env=e, timeout=timeout)
        r['mis'], r['ends'] = [], []
        for line in r['out'].splitlines():
            m = re.match(r'^"@@(\w+) (.*)"$', line)
            if m:
                j = json.loads(m.group(2).replace('\\"', '"').replace('\\\\', '\\'))
                (r['mis'] if m.group(1) == 'MIS' else r['ends']).append(j)
        if not r['ok']:
            raise NoAnswer('TLC did not finish on %s:\n%s' % (module, r['out'][-3000:]))
        done = {x['id'] for x in r['mis']} | {x['id'] for x in r['ends']}
        missing = [o['id'] for o in objs if o['id'] not in done]
        if missing:
            raise NoAnswer('TLC left behaviours %s of %s unjudged' % (missing[:5], module))
        os.unlink(f.name)
        return r

    # -------------------------------------------------------------- results
    def replay_path(self, name):
        d = os.path.join(BUILD, 'replay')
        os.makedirs(d, exist_ok=True)
        return os.path.join(d, '%s_%s' % (self.prop, name))

    def violation(self, what, name, content):
        p = self.replay_path(name)
        with open(p, 'w') as f:
            f.write(content)
        self.violations.append((what, p))
        if len(self.violations) <= 5:
            print('%s: %s' % (self.prop, what))
            print('VIOLATION property=%s replay=%s' % (self.prop, p))
            sys.stdout.flush()

    def count(self, r, traces=0):
        self.cov['states'] += r['distinct']
        self.cov['transitions'] += r['generated']
        self.cov['traces_validated_against_impl'] += traces

    def addtags(self, tags):
        for x in tags:
            self.cov['tags'][x] = self.cov['tags'].get(x, 0) + 1

    def sample(self, x):
        if len(self.cov['samples']) < 3:
            self.cov['samples'].append(x)

    def model(self, module, cfg=None, what='', timeout=800, env=None):
        """exhaustive model checking of a specification module; a failure there is a broken check, not a violation"""
        r = self.tlc(module, cfg, timeout=timeout, env=env)
        if not r['ok']:
            raise NoAnswer('model checking %s/%s failed:\n%s' % (module, cfg, r['out'][-3000:]))
        self.count(r)
        self.cov['models'].append(dict(module=module, cfg=cfg or module, states=r['distinct'], transitions=r['generated'], what=what))
        return r

    def evidence(self, level):
        e = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=self.cov,
                 assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 1), violations=len(self.violations))
        os.makedirs(V + '/evidence', exist_ok=True)
        with open('%s/evidence/%s.json' % (V, self.prop), 'w') as f:
            json.dump(e, f, indent=1)
