"""Corpora of programs from the specification (Machine.tla), and judging the parser against them."""
import collections, itertools, json, os, random
import core, conc
from concurrent.futures import ThreadPoolExecutor

KW = """break case catch class const continue debugger default delete do else export extends false finally for
function if import in instanceof new null return super switch this throw true try typeof var void while with let
static async await yield get set of from as target meta""".split()
LITS = ["1", ".5", "0x1F", "2e3", "'s'", '"t"', "''", "'use strict'", "/r/", "/[/]/g", "/=x/u",
        "`t`", "``", "`h${", "`${", "}m${", "}${", "}e`", "}`"]
PUNCTS = """{ } ( ) [ ] . ... ; , < > <= >= == != === !== + - * / % ** ++ -- << >> >>> & | ^ ! ~ && || ?? ? ?. : =
+= -= *= /= %= **= <<= >>= >>>= &= |= ^= =>""".split()
NAMES = "a b c x y foo $ constructor eval arguments implements".split()
ALL = set(KW) | set(LITS) | set(PUNCTS) | set(NAMES) | {"'constructor'"}
SKIP = {'!return', '!super-call', '!super-prop', '?import-meta', '?new-target', '?const-init',
        '?object-rest-pattern', '?nested-module-item'}

MC = '''MCConfigs == << %s >>
Report == IF Complete(m) THEN CSVWrite("%%1$s", <<ToJson([c |-> m.cfg, o |-> m.out, t |-> m.tags, v |-> m.vs[1]])>>, "@OUT@") ELSE TRUE
'''
CFG = '''CONSTANTS Mode = "%s"
 Frozen = %s
 Configs <- MCConfigs
INIT MInit
NEXT MNext
INVARIANTS Report OneValue
CHECK_DEADLOCK FALSE
'''

def cfg(sigma, n, goal='Script', prefix='', skip=(), nl=False, suffix=''):
    """A bounded language: all programs of goal over sigma with at most n tokens after prefix."""
    sp = lambda s: s.replace('use strict', 'use@strict').replace('@', '\0').split(' ') if s else []
    fix = lambda ts: [t.replace('\0', ' ') for t in ts]
    pre = fix(sp(prefix))
    return {'goal': goal, 'sigma': set(fix(sp(sigma))) if isinstance(sigma, str) else set(sigma), 'max': n + len(pre),
            'prefix': pre, 'skip': set(skip), 'nl': nl, 'slots': []}

def frame(before, slots, after, goal='Script'):
    """A bounded language: before, one token of each slot, after."""
    fix = lambda ts: [[t.replace('@', ' ')] for t in ts.replace('use strict', 'use@strict').split()]
    sl = fix(before) + [sorted(x) for x in slots] + fix(after)
    return {'goal': goal, 'sigma': set(), 'max': len(sl), 'prefix': [], 'skip': set(), 'nl': False, 'slots': sl}

def tl(c):
    d = {k: c[k] for k in ('goal', 'sigma', 'max', 'prefix', 'skip')}
    d['slots'] = [set(x) for x in c['slots']]
    return core.tla(d)

def sweep_frames(cs, langs, stats, kinds, rng, styles=('plain',), limit=3000):
    """All texts of the frames against their languages."""
    for goal in sorted({c['goal'] for c in cs}):
        lang, texts = {}, {}
        for c, recs in zip(cs, langs):
            if c['goal'] != goal: continue
            mine = {}
            for r in recs:
                if all(t[1] != 'T' for t in r['o'][1:]): mine.setdefault(tuple(t[0] for t in r['o']), []).append(r)
            sp = list(itertools.product(*c['slots']))
            if len(sp) > limit: sp = sorted(set(rng.sample(sp, limit)) | set(mine))
            for t in sp:
                if t not in texts: texts[t] = 1; lang[t] = mine.get(t, [])
        yield from judge_texts(goal, [(t, ('F',) * len(t)) for t in texts], lambda k: lang[k[0]], stats, kinds, rng, styles)

def fits(r, b):
    """Whether a sentence can be written with the line breaks b."""
    return all(x == y or y == '*' for x, y in zip(b[1:], [t[1] for t in r['o'][1:]]))

def sweep_lines(cs, langs, stats, kinds, rng):
    """The texts of the frames (one each) with a line break at one place, nowhere, and everywhere."""
    for goal in sorted({c['goal'] for c in cs}):
        lang = {}
        for c, recs in zip(cs, langs):
            if c['goal'] == goal: lang.setdefault(tuple(x[0] for x in c['slots']), recs)
        keys = []
        for t in lang:
            n = len(t)
            for b in [('F',) * n, ('F',) + ('T',) * (n - 1)] + [tuple('T' if i == k else 'F' for i in range(n)) for k in range(1, n)]: keys.append((t, b))
        yield from judge_texts(goal, sorted(set(keys)), lambda k: [r for r in lang[k[0]] if fits(r, k[1])], stats, kinds, rng)

def check_txt(st, txt, what):
    if st['rc'] != 0: raise core.ToolError('TLC failed (%s):\n%s' % (what, " ".join(l for l in txt.splitlines() if "rror" in l or "nvariant" in l)[:1500] + txt[-1500:]))

class Stats:
    def __init__(s): s.states = s.transitions = s.traces = 0; s.samples = []; s.notes = collections.Counter()
    def add(s, st): s.states += st.get('states', 0); s.transitions += st.get('transitions', 0)

def enumerate_language(cfgs, stats, frozen=True, timeout=800):
    """The complete sentences of each configuration (list of lists of {o, t, v})."""
    st, lines, txt = core.tlc_cached('Machine', CFG % ('gen', core.tla(frozen)), MC % ', '.join(map(tl, cfgs)),
                              extends=', CSV, Json', timeout=timeout, heap='12g')
    check_txt(st, txt, 'enumeration'); stats.add(st)
    out = [[] for _ in cfgs]
    for r in lines: out[r['c'] - 1].append(r)
    return out

def simulate(cfgs, num, stats, procs=core.JOBS, seed=core.SEED, depth=3000, timeout=800):
    """Random complete sentences; num traces in each process."""
    def one(k):
        return core.tlc_cached('Machine', CFG % ('sim', 'TRUE'), MC % ', '.join(map(tl, cfgs)), workers=1, heap='2g',
                        extends=', CSV, Json', args=('-simulate', 'num=%d' % num, '-depth', str(depth), '-seed', str(seed * 1000 + k)),
                        timeout=timeout)
    with ThreadPoolExecutor(procs) as ex: res = list(ex.map(one, range(procs)))
    seen, out = set(), []
    for st, lines, txt in res:
        check_txt(st, txt, 'simulation'); stats.add(st)
        for r in lines:
            k = json.dumps([r['c'], r['o']])
            if k not in seen: seen.add(k); out.append(r)
    return out

def recognise(inputs, stats, procs=core.JOBS, timeout=800):
    """inputs: [(goal, [[text, nl]...])] -> for each, the derivations {t, v}."""
    inputs = list(inputs)
    parts = [list(range(i, len(inputs), procs)) for i in range(procs)]
    parts = [p for p in parts if p]
    def one(idx):
        cs = ', '.join(core.tla({'goal': inputs[i][0], 'input': [list(t) for t in inputs[i][1]], 'skip': set(), 'slack': 0}) for i in idx)
        return core.tlc_cached('Machine', CFG % ('rec', 'TRUE'), MC % cs, workers=1, heap='3g', extends=', CSV, Json', timeout=timeout)
    out = [[] for _ in inputs]
    with ThreadPoolExecutor(procs) as ex: res = list(ex.map(one, parts))
    for idx, (st, lines, txt) in zip(parts, res):
        check_txt(st, txt, 'recognition'); stats.add(st)
        for r in lines: out[idx[r['c'] - 1]].append(r)
    return out

def classify(ds):
    """Derivations of one text -> ('accept', derivation), ('reject', None) or ('open', None)."""
    clean = [d for d in ds if not any(t[0] in '!?' for t in d['t'])]
    if clean:
        vals = {json.dumps(d['v'], sort_keys=True) for d in clean}
        if len(vals) > 1: raise core.ToolError('specification is ambiguous: %s' % json.dumps([d['v'] for d in clean])[:2000])
        return 'accept', clean[0]
    if any(not any(t[0] == '!' for t in d['t']) for d in ds): return 'open', None
    return 'reject', None

def judge(goal, want, d, spans, src, r):
    """-> None or (kind, message); kind: rejected, accepted, struct, span, crash."""
    if 'crash' in r or 'hang' in r or 'panic' in r: return 'crash', str(r)[:300]
    if want == 'accept':
        if 'err' in r: return 'rejected', r['err']['display']
        e = conc.program(d['v'], spans, src, False)
        if e['span'] is None: e['span'] = '0:0'
        a = r['ast'].get(goal) if isinstance(r['ast'], dict) else None
        if a == e: return None
        x = conc.diff(conc.nospan(a), conc.nospan(e))
        if x: return 'struct', x
        return 'span', conc.diff(a, e) or 'tree differs'
    if 'ast' in r: return 'accepted', 'is not a program of the specification'
    return None

def expand(rec, nl):
    """Line-break patterns of a sentence: with nl all of them, else only the one without line breaks."""
    base = ['F'] + [t[1] for t in rec['o'][1:]] if rec['o'] else []
    stars = [i for i, b in enumerate(base) if b == '*']
    if not nl:
        if 'T' in base: return
        for i in stars: base[i] = 'F'
        yield tuple(base); return
    for ch in itertools.product('FT', repeat=len(stars)):
        b = list(base)
        for i, c in zip(stars, ch): b[i] = c
        yield tuple(b)

def sweep(c, recs, stats, kinds, rng, limit=None, styles=('plain',)):
    """All texts over the alphabet up to the bound against the bounded language.
    Yields violations (kind, message, src, goal)."""
    lang = {}
    for r in recs:
        toks = tuple(t[0] for t in r['o'])
        for b in expand(r, c['nl']): lang.setdefault((toks, b), []).append(r)
    pre = tuple(c['prefix'])
    sig = sorted(c['sigma'])
    n = c['max'] - len(pre)
    def space():
        for k in range(0, n + 1):
            for ts in itertools.product(sig, repeat=k):
                t = pre + ts
                if not t: yield (), (); continue
                if c['nl']:
                    for b in itertools.product('FT', repeat=len(t) - 1 if not pre else k):
                        yield t, (('F',) * (len(t) - len(b))) + b
                else: yield t, ('F',) * len(t)
    size = sum((len(sig) * (2 if c['nl'] else 1)) ** k for k in range(n + 1))
    sp = space()
    if limit == 0:
        # only the sentences, each with as few line breaks as it needs
        by = {}
        for r in recs: by.setdefault(tuple(t[0] for t in r['o']), []).append(r)
        keys = {(t, ('F',) + tuple('T' if x[1] == 'T' else 'F' for x in r['o'][1:]) if t else ()) for t, rs in by.items() for r in rs}
        yield from judge_texts(c['goal'], sorted(keys), lambda k: [r for r in by[k[0]] if fits(r, k[1])], stats, kinds, rng, styles)
        return
    if limit and size > limit:
        # every sentence of the language (at most `limit`), near misses of them, and a sample of the rest
        keys = sorted(lang)
        if len(keys) > limit: keys = rng.sample(keys, limit)
        extra = set()
        for _ in range(limit if keys else 0):
            t, b = rng.choice(keys)
            if len(t) <= len(pre): continue
            t, b = list(t), list(b); k = rng.randrange(5); i = rng.randrange(len(pre), len(t))
            if k == 0: del t[i]; del b[i]
            elif k == 1 and len(t) < len(pre) + n: t.insert(i, rng.choice(sig)); b.insert(i, 'F')
            elif k == 2: t[i] = rng.choice(sig)
            elif k == 3 and i + 1 < len(t): t[i], t[i + 1] = t[i + 1], t[i]
            elif c['nl'] and i: b[i] = 'T' if b[i] == 'F' else 'F'
            else: t = t[:i]; b = b[:i]
            if t: b[0] = 'F'; extra.add((tuple(t), tuple(b)))
        for k in rng.choices(range(1, n + 1), k=limit // 4):
            t = pre + tuple(rng.choice(sig) for _ in range(k))
            extra.add((t, ('F',) * max(1, len(pre)) + tuple(rng.choice('FT') if c['nl'] else 'F' for _ in t[max(1, len(pre)):])))
        sp = itertools.chain(keys, sorted(x for x in extra if x not in lang))
    yield from judge_texts(c['goal'], sp, lambda k: lang.get(k, []), stats, kinds, rng, styles)

SLASH = {'/', '/=', '/r/', '/[/]/g', '/=x/u'}
def reads_as_written(t):
    """Whether a text in which t is not derivable is sure to be read as the tokens t (a slash can
    begin a regular expression, and a brace a template part, depending on what stands before)."""
    k = [x for x in t if x in SLASH]
    if len(k) > 1 or (k and k[0] not in ('/', '/=')): return False
    if any('`' in x or x in ('}m${', '}${') for x in t):
        st = []
        for x in t:
            if x in ('{', '(', '['): st.append(x)
            elif x in ('`h${', '`${'): st.append('`')
            elif x in ('}m${', '}${', '}e`', '}`'):
                if not st or st[-1] != '`': return False
                if x.endswith('`'): st.pop()
            elif x in ('}', ')', ']'):
                if not st or st[-1] == '`': return False
                st.pop()
        if '`' in st: return False
    return True

def judge_texts(goal, keys, deriv, stats, kinds, rng, styles=('plain',)):
    batch, info = [], []
    def flush():
        res = core.ask(batch)
        for (t, b, src, spans, want, d), r in zip(info, res):
            stats.traces += 1; stats.notes[want] += 1
            v = judge(goal, want, d, spans, src, r)
            if v and (v[0] in kinds): yield v[0], v[1], src, goal
        batch.clear(); info.clear()
    for t, b in keys:
        want, d = classify(deriv((t, b)))
        if want == 'open': stats.notes['open'] += 1; continue
        if want == 'reject' and not reads_as_written(t): stats.notes['unclear tokens'] += 1; continue
        for style in styles:
            if want == 'reject' and style != 'plain' and any(x in SLASH for x in t): style = 'plain'
            src, spans = conc.write(list(zip(t, b)), rng, style)
            if want == 'accept' and len(stats.samples) < 5 and len(t) >= 4 and rng.random() < .01: stats.samples.append(src)
            batch.append({'op': 'parse', 'src': src, 'goal': goal.lower()}); info.append((t, b, src, spans, want, d))
        if len(batch) >= 40000: yield from flush()
    yield from flush()

def judge_sentences(recs, cfgs, stats, kinds, rng, styles=('plain',)):
    batch, info = [], []
    for r in recs:
        goal = cfgs[r['c'] - 1]['goal']
        want, d = classify([r])
        if want == 'open': stats.notes['open'] += 1; continue
        for style in styles:
            src, spans = conc.write([tuple(x) for x in r['o']], rng, style)
            if len(stats.samples) < 8 and len(src) > 20 and rng.random() < .02: stats.samples.append(src)
            batch.append({'op': 'parse', 'src': src, 'goal': goal.lower()}); info.append((src, spans, want, d, goal))
    for (src, spans, want, d, goal), r in zip(info, core.ask(batch)):
        stats.traces += 1; stats.notes[want] += 1
        v = judge(goal, want, d, spans, src, r)
        if v and v[0] in kinds: yield v[0], v[1], src, goal

# --- frontiers: how far a text is the beginning of some program
MCF = '''MCConfigs == << %s >>
Seen == LET k == Len(m.out) IN IF TLCGet(m.cfg) < k THEN TLCSet(m.cfg, k) ELSE TRUE
Report == /\\ Seen
  /\\ IF Complete(m) THEN CSVWrite("%%1$s", <<ToJson([c |-> m.cfg, o |-> m.out, t |-> m.tags, v |-> m.vs[1]])>>, "@OUT@") ELSE TRUE
Post == CSVWrite("%%1$s", <<ToJson([f |-> [i \\in DOMAIN MCConfigs |-> TLCGet(i)]])>>, "@OUT@")
ASSUME \\A i \\in DOMAIN MCConfigs : TLCSet(i, 0)
'''
def recognise2(inputs, stats, procs=core.JOBS, timeout=800):
    """As recognise, with for each input also the number of tokens after which it can go no further."""
    inputs = list(inputs)
    procs = max(1, min(procs, len(inputs) // 20 + 1))
    parts = [list(range(i, len(inputs), procs)) for i in range(procs)]
    def one(idx):
        cs = ', '.join(core.tla({'goal': inputs[i][0], 'input': [list(t) for t in inputs[i][1]], 'skip': set(), 'slack': 12}) for i in idx)
        return core.tlc_cached('Machine', CFG % ('rec', 'TRUE') + 'POSTCONDITION Post\n', MCF % cs, workers=1, heap='3g',
                               extends=', CSV, Json, TLC', timeout=timeout)
    out, far = [[] for _ in inputs], [0] * len(inputs)
    with ThreadPoolExecutor(procs) as ex: res = list(ex.map(one, parts))
    for idx, (st, lines, txt) in zip(parts, res):
        check_txt(st, txt, 'recognition'); stats.add(st)
        for r in lines:
            if 'f' in r:
                for i, k in zip(idx, r['f']): far[i] = k
            else: out[idx[r['c'] - 1]].append(r)
    return list(zip(out, far))

# --- mutation of sentences
def mutate(toks, rng, pool):
    """toks: [(text, nl)]; one or two random changes."""
    t = [list(x) for x in toks]
    for _ in range(rng.choice((1, 1, 1, 2))):
        k = rng.randrange(9)
        n = len(t)
        if n == 0: return None
        i = rng.randrange(n)
        if k == 0: del t[i]
        elif k == 1: t.insert(rng.randrange(n + 1), [rng.choice(pool), 'F'])
        elif k == 2: t[i] = [rng.choice(pool), t[i][1]]
        elif k == 3 and n > 1:
            i = rng.randrange(n - 1); t[i], t[i + 1] = t[i + 1], t[i]
        elif k == 4: t = t[:i]
        elif k == 5: t.insert(i, list(t[i]))
        elif k == 6: t[i][1] = 'T' if t[i][1] != 'T' else 'F'
        elif k == 7: t[i] = [rng.choice([x[0] for x in t]), t[i][1]]
        else:
            j = rng.randrange(n); i, j = min(i, j), max(i, j)
            if j - i < 4: del t[i:j + 1]
    if not t: return None
    r = [(x, nl) for x, nl in t]
    return [(r[0][0], 'F')] + [(x, 'F' if nl == '*' else nl) for x, nl in r[1:]]
