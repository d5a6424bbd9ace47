"""Building the harness from /repo's working tree, talking to it, running TLC, reporting."""
import gzip, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ProcessPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
BUILD = os.environ.get('VERIF_BUILD') or os.path.join(ROOT, '.build')
SPEC = os.path.join(ROOT, 'spec')
JOBS = min(8, os.cpu_count() or 1)
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)

class ToolError(Exception): pass

def repo_hash():
    h = hashlib.sha256()
    for d, ds, fs in os.walk(REPO):
        ds[:] = sorted(x for x in ds if x not in ('target', '.git', 'tests'))
        for f in sorted(fs):
            if f.endswith(('.rs', '.toml', '.lock')):
                p = os.path.join(d, f)
                h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()

def build(what='harness'):
    """what: harness (the driver in /verif/harness) or cli (the fajt binary of /repo)."""
    os.makedirs(BUILD, exist_ok=True)
    tgt = os.path.join(BUILD, what)
    stamp = os.path.join(BUILD, what + '.stamp')
    hv = repo_hash()
    man = os.path.join(ROOT, 'harness', 'Cargo.toml') if what == 'harness' else os.path.join(REPO, 'Cargo.toml')
    env = dict(os.environ, CARGO_TARGET_DIR=tgt, CARGO_NET_OFFLINE='true', RUSTFLAGS='-Awarnings')
    if not (os.path.exists(stamp) and open(stamp).read() == hv):
        # never trust modification times across copies of the tree
        fp = os.path.join(tgt, 'debug', '.fingerprint')
        if os.path.isdir(fp):
            for n in os.listdir(fp):
                if n.startswith('fajt'): shutil.rmtree(os.path.join(fp, n))
    cmd = ['cargo', 'build', '--offline', '--manifest-path', man]
    if what == 'cli': cmd += ['--bin', 'fajt', '--locked']
    r = subprocess.run(cmd, env=env, capture_output=True, text=True, cwd=ROOT)
    if r.returncode: raise ToolError('build of %s failed:\n%s' % (what, r.stderr[-4000:]))
    open(stamp, 'w').write(hv)
    return os.path.join(tgt, 'debug', 'fajt_harness' if what == 'harness' else 'fajt')

HARNESS = os.path.join(BUILD, 'harness', 'debug', 'fajt_harness')

def talk(reqs, timeout=None):
    """Responses of one harness process; a crash or hang is found by bisection and reported as data."""
    if not reqs: return []
    t = timeout or 20 + len(reqs) * 0.02
    text = '\n'.join(json.dumps(r) for r in reqs) + '\n'
    try:
        p = subprocess.run([HARNESS], input=text.encode(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=t)
        lines = p.stdout.decode('utf-8', 'surrogatepass').split('\n')[:-1]
        if p.returncode == 0 and len(lines) == len(reqs): return [json.loads(l) for l in lines]
        why = {'crash': p.returncode}
    except subprocess.TimeoutExpired:
        why = {'hang': True}
    if len(reqs) == 1: return [why]
    k = len(reqs) // 2
    t2 = max(3, t / 2) if 'hang' in why else None
    return talk(reqs[:k], t2) + talk(reqs[k:], t2)

def pmap(fn, items, chunk=400):
    """fn maps a list of items to a list of results; chunks run in parallel."""
    items = list(items)
    chunk = max(1, min(chunk, (len(items) + JOBS - 1) // JOBS))
    parts = [items[i:i + chunk] for i in range(0, len(items), chunk)]
    if len(parts) <= 1: return [r for p in parts for r in fn(p)]
    out = []
    with ProcessPoolExecutor(JOBS) as ex:
        for r in ex.map(fn, parts): out += r
    return out

def ask(reqs, chunk=400): return pmap(talk, reqs, chunk)

def spec_hash():
    h = hashlib.sha256()
    for f in sorted(os.listdir(SPEC)):
        h.update(f.encode()); h.update(open(os.path.join(SPEC, f), 'rb').read())
    return h.hexdigest()

def tlc_cached(*a, **k):
    """As tlc; what a run of TLC yields depends only on its arguments and the specification."""
    key = hashlib.sha256((spec_hash() + repr(a) + repr(sorted(k.items()))).encode()).hexdigest()[:32]
    d = os.path.join(BUILD, 'cache'); p = os.path.join(d, key + '.json.gz')
    if os.path.exists(p):
        try:
            with gzip.open(p, 'rt') as f: st, lines = json.load(f)
            return st, lines, ''
        except Exception: pass
    st, lines, txt = tlc(*a, **k)
    if st['rc'] == 0:
        os.makedirs(d, exist_ok=True)
        t = p + '.%d.tmp' % os.getpid()
        with gzip.open(t, 'wt', compresslevel=1) as f: json.dump([st, lines], f)
        os.replace(t, p)
    return st, lines, txt

def tlc(module, cfg, defs='', workers=JOBS, timeout=800, args=(), extends='', keep=None, env=None, heap='8g'):
    """Run TLC on module MC == EXTENDS <module>; returns (stats, lines written to OUT, raw text)."""
    d = tempfile.mkdtemp(prefix='tlc_', dir=os.path.join(BUILD))
    try:
        for f in os.listdir(SPEC):
            if f.endswith('.tla'): os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
        out = os.path.join(d, 'out.ndjson')
        open(os.path.join(d, 'MC.tla'), 'w').write(
            '---- MODULE MC ----\nEXTENDS %s%s\n%s\n====\n' % (module, extends, defs.replace('@OUT@', out).replace('@DIR@', d)))
        open(os.path.join(d, 'MC.cfg'), 'w').write(cfg)
        t0 = time.time()
        e = dict(os.environ); e.update(env or {})
        e.setdefault('JAVA_TOOL_OPTIONS', f'-Xmx{heap} -Xss256m -XX:+UseParallelGC' + (' -Dtlc2.tool.queue.IStateQueue=StateDeque' if module == 'Machine' else ''))
        p = subprocess.run(['tlc', '-workers', str(workers), '-metadir', os.path.join(d, 'md'), '-fp', '7',
                            '-config', 'MC.cfg', *args, 'MC.tla'], cwd=d, capture_output=True, text=True, timeout=timeout, env=e)
        txt = p.stdout + p.stderr
        st = {'wall': round(time.time() - t0, 1), 'rc': p.returncode}
        m = re.findall(r'(\d+) states generated, (\d+) distinct', txt)
        if m: st['transitions'], st['states'] = int(m[-1][0]), int(m[-1][1])
        else:
            m = re.findall(r'The number of states generated: (\d+)', txt)
            if m: st['states'] = st['transitions'] = int(m[-1])
        lines = []
        if os.path.exists(out):
            with open(out, encoding='utf-8') as f:
                for l in f:
                    v = json.loads(l)
                    lines.append(json.loads(v) if type(v) is str else v)
        if keep: shutil.copytree(d, keep, dirs_exist_ok=True, symlinks=True)
        return st, lines, txt
    finally:
        shutil.rmtree(d, ignore_errors=True)

def tla(v):
    """Python value -> TLA+ expression."""
    if v is True: return 'TRUE'
    if v is False: return 'FALSE'
    if isinstance(v, int): return str(v)
    if isinstance(v, str): return '"' + v.replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n').replace('\t', '\\t').replace('\r', '\\r') + '"'
    if isinstance(v, (list, tuple)): return '<<' + ', '.join(map(tla, v)) + '>>'
    if isinstance(v, (set, frozenset)): return '{' + ', '.join(sorted(map(tla, v))) + '}'
    if isinstance(v, dict): return '[' + ', '.join(f'{k} |-> {tla(x)}' for k, x in v.items()) + ']'
    raise TypeError(v)
