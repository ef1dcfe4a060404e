"""Build harnesses from the current source tree, run them under sanitizers, judge, write evidence."""
import os, sys, json, re, time, hashlib, subprocess, threading, signal, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
EVID = os.path.join(VERIF, 'evidence')
NCPU = os.cpu_count() or 4

class HarnessError(Exception):
    pass

COMMON = ['-std=c++14', '-g', '-fno-omit-frame-pointer', '-w', '-rdynamic', '-DLINUX', '-D_FILE_OFFSET_BITS=64']
VARIANTS = {
    'asan': dict(cxx='g++-10', flags=['-O1', '-fsanitize=address,undefined,float-cast-overflow', '-fno-sanitize=vptr,nonnull-attribute,alignment,pointer-overflow',
                                        '-fno-sanitize-recover=all'],
                 env=dict(ASAN_OPTIONS='abort_on_error=0:exitcode=77:detect_leaks=0:detect_stack_use_after_return=1:allocator_may_return_null=1:malloc_context_size=12:handle_abort=1:handle_segv=1:max_allocation_size_mb=2048',
                          UBSAN_OPTIONS='print_stacktrace=1:exitcode=77')),
    'tsan': dict(cxx='g++-10', flags=['-O1', '-fsanitize=thread'],
                 env=dict(TSAN_OPTIONS='halt_on_error=0:exitcode=0:second_deadlock_stack=1:history_size=4:report_signal_unsafe=0:report_thread_leaks=0:detect_deadlocks=0')),
    'plain': dict(cxx='g++-10', flags=['-O2'], env={}),
}

def src_hash():
    h = hashlib.sha256()
    for root in [os.path.join(REPO, 'src'), os.path.join(VERIF, 'lib'), os.path.join(VERIF, 'harness'), os.path.join(VERIF, 'flavor'), os.path.join(VERIF, 'compat')]:
        for d, ds, fs in os.walk(root):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(('.pyc',)): continue
                p = os.path.join(d, f)
                h.update(p.encode()); h.update(b'\0')
                try:
                    with open(p, 'rb') as fh: h.update(fh.read())
                except OSError: pass
    h.update(repr((COMMON, VARIANTS)).encode())
    return h.hexdigest()[:20]

def prune_builds(keep):
    try:
        ds = [os.path.join(BUILD, d) for d in os.listdir(BUILD) if d != keep]
    except OSError:
        return
    ds.sort(key=lambda p: os.path.getmtime(p))
    for d in ds[:-2]:
        shutil.rmtree(d, ignore_errors=True)

def run_cmd(cmd, timeout=600):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode('utf-8', 'replace')

class Builder:
    def __init__(self, harnesses, pregen=None):
        self.h = harnesses
        self.key = src_hash()
        self.dir = os.path.join(BUILD, self.key)
        os.makedirs(self.dir, exist_ok=True)
        prune_builds(self.key)
        self.lock = threading.Lock()
        self.objs = {}
        self.pregen = pregen
        self.pregen_done = False

    def obj(self, src, variant, extra, pool):
        v = VARIANTS[variant]
        name = re.sub(r'[^A-Za-z0-9]+', '_', os.path.relpath(src, '/')) + '_' + hashlib.sha1(repr(extra).encode()).hexdigest()[:8]
        out = os.path.join(self.dir, '%s.%s.o' % (name, variant))
        with self.lock:
            if out in self.objs: return self.objs[out]
            def job():
                if os.path.exists(out): return out
                tmp = out + '.%d.tmp' % os.getpid()
                is_c = src.endswith('.c')
                cxx = v['cxx']
                flags = [f for f in COMMON]
                if is_c:
                    cxx = cxx.replace('g++', 'gcc')
                    flags = [f for f in flags if not f.startswith('-std=')] + ['-std=gnu99']
                cmd = [cxx] + flags + v['flags'] + ['-I', os.path.join(VERIF, 'lib'), '-I', os.path.join(REPO, 'src'), '-I', os.path.join(REPO, 'src/mg'),
                       '-I', os.path.join(REPO, 'src/b64/include')] + [x.replace('@GEN@', os.path.join(self.dir, 'gen')) for x in extra] + ['-c', src, '-o', tmp]
                rc, o = run_cmd(cmd)
                if rc: raise HarnessError('compile failed: %s\n%s' % (' '.join(cmd), o[-6000:]))
                os.rename(tmp, out)
                return out
            f = pool.submit(job)
            self.objs[out] = f
            return f

    def build(self, wanted):
        """wanted: set of (harness, variant). returns dict -> exe"""
        res = {}
        with ThreadPoolExecutor(NCPU) as pool:
            todo = []
            for (h, variant) in sorted(wanted):
                spec = self.h[h]
                if spec.get('gen') and not self.pregen_done:
                    self.pregen(self.dir)
                    self.pregen_done = True
                extra = spec.get('flags', [])
                srcs = [os.path.join(VERIF, 'harness', s) for s in spec['src']]
                srcs += [s if s.startswith('/') else (s.replace('@GEN@', os.path.join(self.dir, 'gen')) if s.startswith('@') else os.path.join(REPO, s)) for s in spec.get('repo', [])]
                fs = [self.obj(s, variant, extra, pool) for s in srcs]
                todo.append((h, variant, spec, fs))
            for h, variant, spec, fs in todo:
                objs = [f.result() for f in fs]
                exe = os.path.join(self.dir, '%s.%s' % (h, variant))
                if not os.path.exists(exe):
                    v = VARIANTS[variant]
                    tmp = exe + '.%d.tmp' % os.getpid()
                    cmd = [v['cxx']] + ['-g', '-rdynamic'] + v['flags'] + objs + spec.get('libs', ['-luv', '-lpthread', '-ldl']) + ['-o', tmp]
                    rc, o = run_cmd(cmd)
                    if rc: raise HarnessError('link failed: %s\n%s' % (' '.join(cmd), o[-6000:]))
                    os.rename(tmp, exe)
                res[(h, variant)] = exe
        return res

def simp(fn):
    """drop template arguments and parameters from a demangled function name"""
    out = []; d = 0
    fn = fn.replace('operator<', 'operator_lt').replace('operator>', 'operator_gt').replace('operator()', 'operator_call').replace('->', '_arrow')
    for ch in fn:
        if ch in '<(': d += 1
        elif ch in '>)': d -= 1
        elif d == 0: out.append(ch)
    s = ''.join(out).strip()
    s = re.sub(r'\s+const$', '', s)
    return s.split(' ')[-1] if ' ' in s else s

FRAME = re.compile(r'^\s+#\d+ (?:0x[0-9a-f]+ in )?(.*?) \(?(/[^\s:+]+)(?::(\d+))?(?::\d+)?')

def repo_frames(text, n=1, prefix=None):
    out = []
    for line in text.splitlines():
        m = FRAME.match(line)
        if m and (m.group(2).startswith(prefix or REPO + '/') or '/gen/' in m.group(2) or m.group(1).startswith('mg::')):
            out.append(simp(m.group(1)))
            if len(out) >= n: break
    return out

def classify(text, rc):
    """sanitizer report -> stable violation key"""
    m = re.search(r'ERROR: AddressSanitizer: ([\w-]+)', text)
    if m:
        tail = text[m.start():]
        f = repo_frames(tail)
        kind = m.group(1)
        if kind == 'ABRT':
            t = re.search(r"terminate called after throwing an instance of '([^']+)'", text)
            if t: kind = 'terminate(%s)' % t.group(1)
        return 'asan:%s@%s' % (kind, f[0] if f else '?'), text[m.start():][:3000]
    m = re.search(r'^(\S+?):(\d+):(\d+): runtime error: (.*)$', text, re.M)
    if m:
        msg = re.sub(r'0x[0-9a-f]+', 'P', m.group(4))
        msg = re.sub(r'-?\d[\d.e+]*', 'N', msg)
        f = repo_frames(text[m.start():])
        return 'ubsan:%s@%s' % (msg[:60], f[0] if f else os.path.basename(m.group(1))), text[m.start():][:3000]
    if rc is not None and rc < 0:
        t = re.search(r"terminate called after throwing an instance of '([^']+)'", text)
        return 'signal:%s%s' % (signal.Signals(-rc).name, (':terminate(%s)' % t.group(1)) if t else ''), text[-2000:]
    return 'exit:%s' % rc, text[-2000:]

def tsan_reports(text):
    res = []
    for blk in re.split(r'={18,}', text):
        m = re.search(r'WARNING: ThreadSanitizer: ([^\(\n]+)', blk)
        if not m: continue
        kind = m.group(1).strip().replace(' ', '-')
        fr = []
        # outermost distinct repo function of each stack: first repo frame per stack
        stacks = re.split(r'\n\s*\n', blk)
        for s in stacks[:2]:
            f = repo_frames(s)
            fr.append(f[0] if f else '?')
        if all(f == '?' for f in fr):
            anyf = repo_frames(blk)
            if anyf: fr = [anyf[0]]
        res.append(('tsan:%s@%s' % (kind, '|'.join(sorted(set(fr)))), blk[:4000]))
    return res

class Worker:
    """runs cases [a,b) of one group of one executable, restarting after crashes."""
    def __init__(self, exe, variant, harness, group, seed, a, b, thorough, tmp, stall, env_extra=None, args=None):
        self.exe, self.variant, self.harness, self.group = exe, variant, harness, group
        self.seed, self.a, self.b, self.thorough, self.tmp, self.stall = seed, a, b, thorough, tmp, stall
        self.viol = []; self.stats = []; self.err = None; self.hangs_unconfirmed = 0
        self.env_extra = env_extra or {}

    def _run(self, a, b, stall):
        tag = '%s.%s.%s.%d' % (self.harness, self.variant, self.group, a)
        out = os.path.join(self.tmp, tag + '.jsonl'); prog = os.path.join(self.tmp, tag + '.prog')
        errf = os.path.join(self.tmp, tag + '.err')
        for p in (out, prog):
            if os.path.exists(p): os.unlink(p)
        env = dict(os.environ); env.update(VARIANTS[self.variant]['env']); env['UV_USE_IO_URING'] = '0'
        env['VH_TMP'] = self.tmp; env['VERIF_REPO'] = REPO
        env.update(self.env_extra)
        cmd = [self.exe, self.group, '--seed', str(self.seed), '--from', str(a), '--to', str(b), '--out', out, '--progress', prog]
        if self.thorough: cmd.append('--thorough')
        with open(errf, 'wb') as ef:
            p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=ef, stdin=subprocess.DEVNULL, env=env, cwd=self.tmp, start_new_session=True)
            last, t0, hang = None, time.time(), False
            cpu0 = None
            while True:
                try:
                    rc = p.wait(0.05 if last is None else 0.3); break
                except subprocess.TimeoutExpired: pass
                cur = self._prog(prog)
                if cur != last: last, t0 = cur, time.time()
                elif time.time() - t0 > stall:
                    hang = True
                    try: os.killpg(p.pid, signal.SIGKILL)
                    except OSError: pass
                    rc = p.wait(); break
        with open(errf, 'rb') as ef:
            text = ef.read(4000000).decode('utf-8', 'replace')
        cur = self._prog(prog)
        recs = []
        if os.path.exists(out):
            with open(out) as f:
                for line in f:
                    try: recs.append(json.loads(line))
                    except ValueError: pass
        return rc, hang, cur, recs, text

    @staticmethod
    def _prog(p):
        try:
            with open(p, 'rb') as f:
                b = f.read(8)
                return int.from_bytes(b, 'little') if len(b) == 8 else None
        except OSError:
            return None

    def absorb(self, recs, text):
        done = False
        for r in recs:
            if 'violation' in r:
                self.viol.append(dict(key='%s/%s' % (self.group, r['violation']), case=r['case'], detail=r['detail'], desc=r['desc']))
            elif r.get('stats'):
                self.stats.append(r); done = True
        if self.variant == 'tsan':
            seen = {}
            for k, t in tsan_reports(text):
                if k not in seen:
                    seen[k] = t
                    self.viol.append(dict(key='%s/%s' % (self.group, k), case=self.a, to=self.b, detail=t, desc=''))
        return done

    def run(self):
        a, crashes = self.a, 0
        try:
            while a < self.b:
                rc, hang, cur, recs, text = self._run(a, self.b, self.stall)
                done = self.absorb(recs, text)
                if hang:
                    if not cur: raise HarnessError('%s/%s made no progress before its first case' % (self.harness, self.group))
                    i = cur - 1
                    rc2, hang2, cur2, recs2, text2 = self._run(i, i + 1, self.stall * 2)
                    if hang2:
                        self.viol.append(dict(key='%s/hang' % self.group, case=i, detail='case made no progress for %d s, twice' % self.stall, desc=''))
                        crashes += 2
                    else:
                        self.hangs_unconfirmed += 1
                        self.absorb(recs2, text2)
                    a = i + 1
                elif rc == 0 and done:
                    return
                else:
                    key, detail = classify(text, rc)
                    if not cur:
                        if done:   # crashed in process teardown after the last case
                            self.viol.append(dict(key='%s/at-exit/%s' % (self.group, key), case=self.b - 1, detail=detail, desc=''))
                            return
                        raise HarnessError('%s/%s failed before its first case rc=%s\n%s' % (self.harness, self.group, rc, text[-3000:]))
                    i = cur - 1
                    self.viol.append(dict(key='%s/%s' % (self.group, key), case=i, detail=detail, desc=''))
                    a = i + 1; crashes += 1
                if crashes >= 6: return
        except HarnessError as e:
            self.err = str(e)

def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p): return []
    with open(p) as f: return json.load(f)['findings']

def run_check(pid, spec, harnesses, pregen, tier, seed, only=None):
    t0 = time.time()
    thorough = tier == 'thorough'
    groups = spec['groups']
    b = Builder(harnesses, pregen)
    exes = b.build({(g['h'], v) for g in groups for v in g['variants']})
    tb = time.time() - t0
    tmp = tempfile.mkdtemp(prefix='vh.%s.' % pid)
    os.chmod(tmp, 0o755)
    workers = []
    try:
        for g in groups:
            for v in g['variants']:
                n = g['n']
                if isinstance(n, dict): n = n.get(v, n.get('*'))
                if thorough: n = int(n * g.get('mult', spec.get('mult', 8)))
                w = min(g.get('workers', NCPU), n)
                step = (n + w - 1) // w
                a = 0
                while a < n:
                    workers.append(Worker(exes[(g['h'], v)], v, g['h'], g['g'], seed, a, min(n, a + step), thorough, tmp, g.get('stall', 90), g.get('env')))
                    a += step
        if only:
            workers = [w for w in workers if only in w.group]
        with ThreadPoolExecutor(spec.get('par', NCPU)) as pool:
            list(pool.map(lambda w: w.run(), workers))
        errs = [w.err for w in workers if w.err]
        viol = {}
        for w in workers:
            for x in w.viol:
                k = x['key']
                if k not in viol or x['case'] < viol[k]['case']:
                    x2 = dict(x); x2.update(harness=w.harness, variant=w.variant, group=w.group, count=viol.get(k, {}).get('count', 0)); viol[k] = x2
                viol[k]['count'] = viol[k].get('count', 0) + 1
        known = [f for f in load_known() if f['property'] == pid and not f.get('fixed')]
        new, hit = [], {}
        for k, x in sorted(viol.items()):
            m = None
            for f in known:
                if f['key'] == k: m = f
            if m: hit[m['id']] = m
            else: new.append(x)
        # evidence
        cov = dict(evaluations=0, distinct_nontrivial=0, rule=spec['rule'], samples=[], counters={}, per_group={}, variants={})
        feats = {}
        for w in workers:
            for s in w.stats:
                cov['evaluations'] += s['evaluations']
                key = '%s/%s/%s' % (w.harness, w.group, w.variant)
                pg = cov['per_group'].setdefault(key, dict(cases=0, nontrivial=0))
                pg['cases'] += s['evaluations']; pg['nontrivial'] += s['nontrivial']
                for c, n in s['counters'].items(): cov['counters'][c] = cov['counters'].get(c, 0) + n
                feats.setdefault(w.group, set()).update(s['features'])
                for smp in s['samples']:
                    if len([1 for z in cov['samples'] if z['group'] == w.group]) < 2:
                        cov['samples'].append(dict(group=w.group, variant=w.variant, case=smp))
        cov['distinct_nontrivial'] = sum(len(v) for v in feats.values())
        for w in workers: cov['variants'][w.variant] = cov['variants'].get(w.variant, 0) + sum(s['evaluations'] for s in w.stats)
        cov['known_findings_observed'] = sorted(hit)
        cov['hang_suspects_not_reproduced'] = sum(w.hangs_unconfirmed for w in workers)
        cov['build_s'] = round(tb, 1)
        ev = dict(property=pid, tier=tier, seed=seed, level=spec.get('level', 'exploration'), coverage=cov,
                  assumptions=spec.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=len(new))
        if not only:
            os.makedirs(EVID, exist_ok=True)
            with open(os.path.join(EVID, pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
        for f in known:
            print('KNOWN-FINDING: property=%s %s%s' % (pid, f['what'], '' if f['id'] in hit else ' (not exercised in this run)'))
        rdir = os.path.join(EVID, 'replays')
        for i, x in enumerate(new[:20]):
            os.makedirs(rdir, exist_ok=True)
            rp = os.path.join(rdir, '%s-%d.json' % (pid, i))
            x.update(property=pid, seed=seed, tier=tier)
            with open(rp, 'w') as f: json.dump(x, f, indent=1)
            print('VIOLATION property=%s replay=%s' % (pid, rp))
            print('  key=%s case=%s/%s#%s variant=%s' % (x['key'], x['harness'], x['group'], x['case'], x['variant']))
            print('  ' + x['detail'][:600].replace('\n', '\n  '))
        if new: return 1
        if errs:
            print('HARNESS ERROR: ' + errs[0]); return 3
        for c in spec.get('require', []):
            if not cov['counters'].get(c):
                print('HARNESS ERROR: inconclusive, nothing observed for %s' % c); return 3
        if not cov['evaluations'] or not cov['distinct_nontrivial']:
            print('HARNESS ERROR: inconclusive, nothing observed'); return 3
        print('OK property=%s evaluations=%d distinct=%d wall=%.1fs (build %.1fs)' % (pid, cov['evaluations'], cov['distinct_nontrivial'], time.time() - t0, tb))
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def replay(path, harnesses, pregen):
    with open(path) as f: x = json.load(f)
    b = Builder(harnesses, pregen)
    exe = b.build({(x['harness'], x['variant'])})[(x['harness'], x['variant'])]
    env = dict(os.environ); env.update(VARIANTS[x['variant']]['env']); env['UV_USE_IO_URING'] = '0'
    tmp = tempfile.mkdtemp(prefix='vh.replay.'); env['VH_TMP'] = tmp; env['VERIF_REPO'] = REPO
    cmd = [exe, x['group'], '--seed', str(x['seed']), '--from', str(x['case']), '--to', str(x.get('to', x['case'] + 1)), '--verbose']
    if x.get('tier') == 'thorough': cmd.append('--thorough')
    print(' '.join(cmd))
    try: return subprocess.call(cmd, env=env, cwd=tmp)
    finally: shutil.rmtree(tmp, ignore_errors=True)
