#!/usr/bin/env python3
"""Driver: builds libff from /repo's working tree in instrumented variants, runs the
monitors of one property against it, and turns their reports into a verdict.

  vf.py check <ID> [--tier quick|thorough]     exit 0 / exit 1 + VIOLATION line
  vf.py replay <file>                          re-run the job recorded in a replay file
  vf.py baseline-dict                          rewrite dict_baseline.txt from /repo (maintenance)
"""
import sys, os, re, json, time, glob, shutil, subprocess, tempfile, hashlib, resource, array, threading
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
NPROC = min(os.cpu_count() or 4, 8)
sys.path.insert(0, HERE)
from checks import CHECKS, VARIANTS, RULES

def lib_sources():
    out = []
    for root, dirs, files in os.walk(os.path.join(REPO, 'libff')):
        rel = os.path.relpath(root, REPO) + '/'
        if '/tests/' in rel or '/examples/' in rel or rel.startswith('libff/algebra/curves/bn128/'):
            continue
        for f in files:
            if f.endswith('.cpp') and not f.endswith('_profile.cpp'):
                out.append(os.path.join(root, f))
    return sorted(out)

BASE = ['-I' + REPO, '-I' + HERE + '/h', '-I' + HERE, '-std=gnu++14', '-mpclmul', '-msse4.1', '-DCURVE_ALT_BN128', '-DNO_PROCPS', '-fno-omit-frame-pointer', '-w']

def sh(cmd, timeout=800):
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors='replace')
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 124, 'compiler timeout'

class Build:
    """one work directory holding every variant a check needs"""
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='vf-')
        self.errors = {}      # variant -> first compiler error
        self.exe = {}
    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)
    def build(self, wants):
        """wants: set of (variant, harness)"""
        tasks, libobjs, hobjs = [], {}, {}
        srcs = lib_sources()
        hsize = lambda w: -os.path.getsize(os.path.join(HERE, 'h', w[1] + '.cpp'))
        for v, h in sorted(wants, key=hsize):          # harnesses first: they take longest
            cfg = VARIANTS[v]
            o = os.path.join(self.dir, v + '.h.' + h + '.o')
            hobjs[(v, h)] = o
            tasks.append((v, h, [cfg['cxx']] + BASE + cfg['flags'] + cfg.get('cflags', []) + cfg.get('hflags', []) + ['-c', os.path.join(HERE, 'h', h + '.cpp'), '-o', o]))
        for v in sorted({v for v, _ in wants}):
            cfg = VARIANTS[v]
            os.makedirs(os.path.join(self.dir, v), exist_ok=True)
            libobjs[v] = []
            for s in srcs:
                o = os.path.join(self.dir, v, hashlib.md5(s.encode()).hexdigest()[:10] + os.path.basename(s) + '.o')
                libobjs[v].append(o)
                tasks.append((v, None, [cfg['cxx']] + BASE + cfg['flags'] + cfg.get('cflags', []) + ['-c', s, '-o', o]))
        def run(t):
            v, h, cmd = t
            rc, out = sh(cmd)
            if rc:
                rc, out = sh(cmd)   # once more: memory pressure is not a verdict
            return v, h, cmd, rc, out
        with ThreadPoolExecutor(NPROC) as ex:
            for v, h, cmd, rc, out in ex.map(run, tasks):
                if rc:
                    self.errors.setdefault(v, ('harness ' + h if h else 'library', ' '.join(cmd[-3:]), out[:3000]))
        def link(w):
            v, h = w
            if v in self.errors: return
            cfg = VARIANTS[v]
            exe = os.path.join(self.dir, v + '.' + h)
            rc, out = sh([cfg['cxx']] + cfg['flags'] + cfg.get('hflags', []) + [hobjs[w]] + libobjs[v] + cfg.get('link', []) + ['-lgmpxx', '-lgmp', '-lsodium', '-lcrypto', '-lpthread', '-o', exe])
            if rc: self.errors.setdefault(v, ('link ' + h, exe, out[:3000]))
            else: self.exe[w] = exe
        with ThreadPoolExecutor(NPROC) as ex:
            list(ex.map(link, sorted(wants)))

# ------------------------------------------------------------------ literal dictionary
NUM = re.compile(r'(?<![\w.])(0[xX][0-9a-fA-F]+|0[bB][01]+|\d+)(?:[uUlL]*)(?![\w.])')
def literals():
    vals = set()
    for root, dirs, files in os.walk(os.path.join(REPO, 'libff')):
        if '/tests' in root or '/curves/bn128' in root: continue
        for f in files:
            if not f.endswith(('.cpp', '.hpp', '.tcc')): continue
            try: t = open(os.path.join(root, f), errors='replace').read()
            except OSError: continue
            for m in NUM.finditer(t):
                s = m.group(1)
                try: v = int(s, 0) if s[:2].lower() in ('0x', '0b') else int(s)
                except ValueError: continue
                vals.add(v)
    return vals
def write_dict(path):
    base = set()
    bf = os.path.join(HERE, 'dict_baseline.txt')
    if os.path.exists(bf): base = {int(x) for x in open(bf).read().split()}
    cur = literals()
    novel = sorted(cur - base)
    with open(path, 'w') as f:
        for v in novel:
            f.write('N %d\n' % v)
            if v < 600: f.write('N %d\n' % (1 << v))
        for v in sorted(cur & base): f.write('O %d\n' % v)
    return len(novel)

# ------------------------------------------------------------------ running
def known_findings():
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line.strip())
            if m: out.append(m.groups())
    return out

SAN_ENV = {
    'ASAN_OPTIONS': 'abort_on_error=0:exitcode=99:detect_leaks=1:allocator_may_return_null=1:detect_stack_use_after_return=0:hard_rss_limit_mb=6000',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=99',
    'LSAN_OPTIONS': 'exitcode=98',
    'TSAN_OPTIONS': 'halt_on_error=0:exitcode=66:second_deadlock_stack=1:report_signal_unsafe=0',
}
def norm(s):
    s = re.sub(r'0x[0-9a-f]+', '0x', s)
    return re.sub(r'[^A-Za-z0-9_.:<>~+*-]+', '_', s)[:150]
def frame_name(s):
    m = re.match(r'\s*#\d+ (?:0x[0-9a-f]+ in )?(.+?) (?:/|\(|<null>)', s)
    n = m.group(1) if m else s.strip()
    n = re.sub(r'\(.*', '', n)
    return re.sub(r'<.*', '', n)
def tsan_reports(text):
    out = {}
    for blk in re.split(r'={18,}', text):
        m = re.search(r'WARNING: ThreadSanitizer: ([^\(\n]+)', blk)
        if not m: continue
        # the two innermost library frames
        names = []
        for sec in re.split(r'\n\s*\n', blk):
            if not re.search(r'(read|write|Read|Write) of size|Previous|Cycle|Mutex', sec): continue
            for ln in sec.split('\n'):
                if re.match(r'\s*#\d+ ', ln):
                    f = frame_name(ln)
                    if 'libff' in f: names.append(f.replace('libff::', '')); break
        out.setdefault(norm('tsan:' + m.group(1).strip() + ':' + '/'.join(sorted(set(names)) or ['?'])), blk.strip()[:3000])
    return out

def run_once(exe, job, tmp, dictf):
    out = tempfile.mktemp(suffix='.json', dir=tmp)
    cmd = [exe, '--seed', str(job['seed']), '--scale', str(job['scale']), '--out', out]
    if dictf: cmd += ['--dict', dictf]
    if job.get('only'): cmd += ['--only', job['only']]
    if job.get('arg'): cmd += ['--arg', job['arg']]
    if job.get('hang'): cmd += ['--hang', str(job['hang'])]
    if job.get('wrap') == 'valgrind':
        cmd = ['valgrind', '-q', '--error-exitcode=97', '--leak-check=full', '--show-leak-kinds=definite', '--errors-for-leak-kinds=definite', '--num-callers=30', '--log-file=' + out + '.vg'] + cmd
    env = dict(os.environ); env.update(SAN_ENV)
    env['TMPDIR'] = tmp
    env.pop('OMP_NUM_THREADS', None)
    env.update(job.get('env', {}))
    san = VARIANTS[job['variant']].get('san', False)
    def pre():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if not san and not job.get('wrap'): resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    so = open(out + '.o', 'wb'); se = open(out + '.e', 'wb')
    t0 = time.time()
    p = subprocess.Popen(cmd, stdout=so, stderr=se, env=env, preexec_fn=pre, cwd=tmp, stdin=subprocess.DEVNULL)
    try: rc = p.wait(timeout=job.get('wall', 700))
    except subprocess.TimeoutExpired:
        p.kill(); p.wait(); rc = 'timeout'
    so.close(); se.close()
    err = open(out + '.e', errors='replace').read()
    vg = ''
    if job.get('wrap'):
        try: vg = open(out + '.vg', errors='replace').read()
        except OSError: pass
    rep = None
    try: rep = json.load(open(out))
    except Exception: pass
    hs = array.array('Q')
    try:
        with open(out + '.h', 'rb') as f: hs.frombytes(f.read())
    except Exception: pass
    return dict(rc=rc, rep=rep, err=err, wall=time.time() - t0, hashes=hs, vg=vg)

def valgrind_reports(text):
    out = {}
    for blk in re.split(r'\n==\d+== *\n', text):
        lines = [re.sub(r'^==\d+== ?', '', l) for l in blk.split('\n') if l.strip()]
        if not lines or not re.search(r'uninitialised|Invalid|definitely lost|overlap|Mismatched|Illegal|silly|Argument', lines[0]): continue
        fn = next((m.group(1) for m in (re.match(r'\s*(?:at|by) 0x[0-9A-F]+: (libff::[^(<]+)', l) for l in lines) if m), '?')
        out.setdefault(norm('memcheck:' + re.sub(r'\d[\d,.]*', 'N', lines[0])[:60] + ':' + fn.replace('libff::', '')), '\n'.join(lines)[:2500])
    return out
def san_key(err):
    m = re.search(r'SUMMARY: (\w+): (\S+) ?(?:\S+)? ?(?:in (\S+))?', err)
    k = None
    if m:
        fn = m.group(3) or ''
        k = m.group(2)
        for ln in err.split('\n'):
            if re.match(r'\s*#\d+ ', ln) and 'libff' in ln:
                fn = frame_name(ln).replace('libff::', ''); break
        k += ':' + fn
    m = re.search(r"runtime error: ([^\n]+)", err)
    if m: k = 'ub:' + re.sub(r"-?\d[\d.e+]*", 'N', m.group(1))[:80] + (':' + k.split(':')[-1] if k else '')
    m = re.search(r"Assertion [`'](.*?)' failed", err)
    if m: k = 'assert:' + m.group(1)[:80]
    return norm(k) if k else None

def analyse(job, r):
    """-> (violations {key: detail}, inconclusive reason or None)"""
    v = {}
    rep, err, rc = r['rep'], r['err'], r['rc']
    if VARIANTS[job['variant']].get('tsan'):
        for k, d in tsan_reports(err).items(): v[k] = d
    if job.get('wrap'): v.update(valgrind_reports(r['vg']))
    if rep:
        for x in rep['violations']:
            k = x['key']
            d = x['detail'] + ' (x%d)' % x['count']
            if k.startswith('crash:'):
                sk = san_key(err)
                if sk: k = k + '|' + sk
                d += ' | ' + err[-1800:]
            v[norm(k)] = d
    if rc == 'timeout':
        return v, 'wall-timeout'
    if rep is None or (not rep['complete'] and not rep['violations']):
        if rc in (-9, 137): return v, 'killed (memory?)'
        return v, 'no-report rc=%s: %s' % (rc, err[-800:])
    if rc == 98 or 'LeakSanitizer: detected memory leaks' in err:
        fn = ''
        for ln in err.split('\n'):
            if re.match(r'\s*#\d+ ', ln) and 'libff' in ln: fn = frame_name(ln); break
        v[norm('leak:' + fn)] = err[-2500:]
    elif rc not in (0, 1, 3, 4, 66, 99) + ((97,) if v else ()) and not rep['violations']:
        return v, 'rc=%s after complete report: %s' % (rc, err[-500:])
    elif rc == 99 and not v:
        v[norm('sanitizer-at-exit:' + str(san_key(err)))] = err[-2500:]
    return v, None

def run_job(exe, job, tmp, dictf):
    r = run_once(exe, job, tmp, dictf)
    v, inc = analyse(job, r)
    hang = any(k.startswith('hang:') for k in v)
    if hang or inc:                              # time and memory are not verdicts on one sample
        r2 = run_once(exe, job, tmp, dictf)
        v2, inc2 = analyse(job, r2)
        if inc and inc2:
            if inc.startswith('wall-timeout') and inc2.startswith('wall-timeout') and job.get('deadlock'):
                v2['hang:wall:' + job['harness']] = 'no progress twice within %s s' % job.get('wall', 700); inc2 = None
            elif inc.startswith('no-report') and inc2.startswith('no-report'):
                v2['crash:unreported:' + job['harness'] + ':' + job['variant']] = inc2; inc2 = None
        if hang and not any(k.startswith('hang:') for k in v2):
            pass                                  # not reproduced: drop the hang, keep the second run's result
        r, v, inc = r2, v2, inc2
    return r, v, inc

# ------------------------------------------------------------------ check
def expand(cid, tier, seed):
    jobs = []
    for i, j in enumerate(CHECKS[cid]['jobs']):
        scale = j.get(tier, j['quick'] * 12 if tier == 'thorough' else j['quick'])
        if not scale: continue
        shards = j.get('tshards', j.get('shards', 1)) if tier == 'thorough' else j.get('shards', 1)
        for s in range(shards):
            jj = dict(j)
            jj.update(scale=scale, seed=seed * 1000 + (0 if j.get('align') else i * 50) + s + 1)   # aligned jobs get the same workload
            if 'onlys' in j:
                for o in j['onlys']:
                    j3 = dict(jj); j3['only'] = o; jobs.append(j3)
            else: jobs.append(jj)
    return jobs

def replay_path(cid, n):
    d = os.path.join(HERE, 'replay'); os.makedirs(d, exist_ok=True)
    return os.path.join(d, '%s-%d.json' % (cid, n))

def check(cid, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if 'custom' in CHECKS[cid]:
        import importlib
        extra = importlib.import_module(CHECKS[cid]['custom'])
    else: extra = None
    jobs = expand(cid, tier, seed)
    b = Build()
    inconclusive = []
    try:
        wants = {(j['variant'], j['harness']) for j in jobs}
        b.build(wants)
        viol = {}      # key -> (detail, job)
        for v, (what, cmd, out) in b.errors.items():
            if CHECKS[cid].get('build_is_property'):
                viol[norm('build:' + v + ':' + what)] = (cmd + '\n' + out, dict(variant=v, harness=what, seed=seed, scale=0))
            else:
                print('note: variant %s does not build (%s): %s' % (v, what, out[:600].replace('\n', ' | ')))
        need = [j for j in jobs if (j['variant'], j['harness']) not in b.exe]
        if need and not CHECKS[cid].get('build_is_property'):
            missing = {j['variant'] for j in need}
            if missing & set(CHECKS[cid].get('required', ['REL'])) or len(need) == len(jobs):
                print('ERROR: cannot build required variants: %s' % sorted(missing)); return 2
        dictf = os.path.join(b.dir, 'dict.txt')
        novel = write_dict(dictf)
        tmp = os.path.join(b.dir, 'run'); os.makedirs(tmp)
        bt = time.time() - t0
        distinct = set(); evals = 0; events = {}; samples = []; per = {}; notes = {}; aligned = {}
        runnable = [j for j in jobs if (j['variant'], j['harness']) in b.exe]
        runnable.sort(key=lambda j: -j.get('cost', 1))
        if extra:
            ev, vi, ex = extra.run(cid, tier, seed, b, HERE, REPO, globals())
            for k, d in vi.items(): viol[norm(k)] = (d, dict(variant='-', harness=CHECKS[cid]['custom'], seed=seed, scale=0))
            evals += ev['evals']; events.update(ev['events']); samples += ev['samples']; distinct |= ev['distinct']; inconclusive += ex
        width = CHECKS[cid].get('width', NPROC)
        with ThreadPoolExecutor(width) as ex:
            for j, (r, v, inc) in zip(runnable, ex.map(lambda j: run_job(b.exe[(j['variant'], j['harness'])], j, tmp, dictf), runnable)):
                rep = r['rep']
                if inc: inconclusive.append('%s/%s: %s' % (j['variant'], j['harness'], inc))
                if rep:
                    evals += rep['evals']
                    for k, c in rep['events'].items(): events[k] = events.get(k, 0) + c
                    if len(samples) < 12: samples += rep['samples'][:3]
                    for k, x in rep['notes'].items():
                        if k.startswith('='): aligned.setdefault(k[1:], []).append((x, j))
                        else: notes[k] = x
                    q = per.setdefault(j['variant'], [0, 0, 0.0]); q[0] += 1; q[1] += rep['evals']; q[2] += r['wall']
                distinct.update(r['hashes'])
                for k, d in v.items():
                    if k not in viol: viol[k] = (d, j)
        compared = 0
        for k, xs in aligned.items():              # results every configuration must agree on
            compared += len(xs) - 1
            vals = [x for x, _ in xs]
            if len(set(vals)) > 1:
                common = max(sorted(set(vals)), key=vals.count)
                x, j = next((x, j) for x, j in xs if x != common)
                viol.setdefault(norm(cid + '.differs:' + k.split('/')[0]), ('%s in configuration %s: %s / elsewhere: %s' % (k, sorted({j['variant'] for y, j in xs if y != common}), x, common), j))
        if aligned: events['results compared across configurations'] = compared; evals += compared
        kf = [(k, w) for (p, k, w) in known_findings() if p == cid]
        known = {norm(k): w for k, w in kf}
        new = {k: x for k, x in viol.items() if k not in known}
        for k, w in known.items():
            if k in viol: print('KNOWN-FINDING: property=%s %s [%s]' % (cid, w, k))
        wall = time.time() - t0
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        ev = {'property': cid, 'tier': tier, 'seed': seed, 'level': 'exploration',
              'coverage': {'evaluations': evals, 'distinct_nontrivial': len(distinct), 'rule': RULES.get(cid, RULES['*']),
                           'samples': samples[:12] or ['(none)'], 'oracle_classes': len(events),
                           'events': {k: events[k] for k in sorted(events, key=lambda k: (k.startswith(cid + '.'), k))[:400]},
                           'variants': {k: {'processes': q[0], 'evaluations': q[1], 'cpu_s': round(q[2], 1)} for k, q in per.items()},
                           'novel_source_literals_fed': novel, 'notes': notes, 'inconclusive': inconclusive},
              'assumptions': CHECKS[cid].get('assumptions', ['GMP integer arithmetic and the reference model in h/ref.hpp are right']),
              'wall_s': round(wall, 1), 'violations': len(new)}
        json.dump(ev, open(os.path.join(HERE, 'evidence', cid + '.json'), 'w'), indent=1)
        print('%s %s seed=%d: %d oracle evaluations, %d distinct non-trivial cases, %d oracle classes, variants %s, build %.0fs total %.0fs' % (
            cid, tier, seed, evals, len(distinct), len(events), {k: q[1] for k, q in per.items()}, bt, wall))
        if new:
            for n, (k, (d, j)) in enumerate(sorted(new.items())[:20]):
                p = replay_path(cid, n)
                json.dump({'property': cid, 'key': k, 'detail': d, 'job': j, 'tier': tier, 'seed': seed}, open(p, 'w'), indent=1)
                print('  key=%s variant=%s: %s' % (k, j.get('variant'), d[:500].replace('\n', ' | ')))
                print('VIOLATION property=%s replay=%s' % (cid, p))
            return 1
        if inconclusive:
            print('INCONCLUSIVE: ' + '; '.join(x[:600] for x in inconclusive)); return 2
        if evals == 0: print('ERROR: nothing was observed'); return 2
        return 0
    finally:
        b.close()

def replay(path):
    d = json.load(open(path)); j = d['job']
    if j['variant'] == '-' or not j['scale']:
        print('re-run: vf.py check %s' % d['property']); return check(d['property'], d['tier'])
    b = Build()
    try:
        b.build({(j['variant'], j['harness'])})
        if (j['variant'], j['harness']) not in b.exe: print(b.errors); return 2
        dictf = os.path.join(b.dir, 'dict.txt'); write_dict(dictf)
        r, v, inc = run_job(b.exe[(j['variant'], j['harness'])], j, b.dir, dictf)
        for k, x in v.items(): print(k, '->', x)
        print(r['err'][-3000:])
        return 1 if v else 0
    finally: b.close()

if __name__ == '__main__':
    a = sys.argv[1:]
    if a[:1] == ['check']:
        tier = os.environ.get('VERIF_TIER', 'quick')
        if '--tier' in a: tier = a[a.index('--tier') + 1]
        sys.exit(check(a[1], tier))
    elif a[:1] == ['replay']: sys.exit(replay(a[1]))
    elif a[:1] == ['baseline-dict']:
        open(os.path.join(HERE, 'dict_baseline.txt'), 'w').write('\n'.join(str(v) for v in sorted(literals())) + '\n')
    elif a[:1] == ['setup']:
        for t in ('g++', 'clang++', 'ar'):
            if not shutil.which(t): print('missing', t); sys.exit(1)
        print('ok: %d library sources, %d checks' % (len(lib_sources()), len(CHECKS)))
    else: print(__doc__); sys.exit(2)
