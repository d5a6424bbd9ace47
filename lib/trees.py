"""Checks of what is done with trees: printing (C13, C14), traversal (C12), JSON (C19)."""
import copy, json, random, re
from concurrent.futures import ThreadPoolExecutor
import core, conc, parse, configs

# a report of the specification with everything that Shape.tla and Printer.tla say about the tree
MC = '''PP == INSTANCE Printer
MCConfigs == << %s >>
Full == LET v == m.vs[1] s == [span |-> <<1, Len(m.out)>>, directives |-> v.directives, body |-> v.body] IN
  IF Cfg(m).goal = "Module" THEN [Module |-> s] ELSE [Script |-> s]
Shaped == Complete(m) => PP!WellShaped("Program", Full)
Nested == Complete(m) => PP!Tight("Program", Full, 1, Len(m.out))
Bracketed == Complete(m) => PP!Brackets(PP!Walk("Program", Full), 1, <<>>)
Report == IF Complete(m) THEN CSVWrite("%%1$s", <<ToJson([c |-> m.cfg, o |-> m.out, t |-> m.tags, v |-> m.vs[1], %s])>>, "@OUT@") ELSE TRUE
'''
FIELDS = {'w': 'w |-> PP!Walk("Program", Full), l |-> PP!Places("Program", Full, <<>>)', 'p': 'p |-> PP!Text(m.vs[1])', '': 'n |-> 0'}
def mc(cfgs, want): return MC % (', '.join(map(parse.tl, cfgs)), FIELDS[want])
CFG = parse.CFG.replace('OneValue', 'OneValue Shaped Nested Bracketed')

def clean(recs):
    seen, out = set(), []
    for r in recs:
        if parse.classify([r])[0] != 'accept': continue
        k = json.dumps([r['c'], r['o']])
        if k not in seen: seen.add(k); out.append(r)
    return out

def corpus(R, confs, num, want, seed=0, procs=core.JOBS):
    """Random programs with their trees and what the specification says of them."""
    num *= 10 if R.thorough else 1
    def one(k):
        return core.tlc_cached('Machine', CFG % ('sim', 'TRUE'), mc(confs, want), workers=1, heap='3g', extends=', CSV, Json', timeout=3000,
                        args=('-simulate', 'num=%d' % num, '-depth', '3000', '-seed', str((core.SEED * 100 + int(R.prop[1:])) * 1000 + seed * 100 + k)))
    with ThreadPoolExecutor(procs) as ex: res = list(ex.map(one, range(procs)))
    recs = []
    for st, lines, txt in res:
        parse.check_txt(st, txt, 'simulation'); R.stats.add(st); recs += lines
    for r in recs: r['goal'] = confs[r['c'] - 1]['goal']
    return clean(recs)

def bounded(R, confs, want):
    """All programs of bounded languages."""
    cs = [c[1 if R.thorough else 0] for c in confs]
    st, recs, txt = core.tlc_cached('Machine', CFG % ('gen', 'TRUE'), mc(cs, want), extends=', CSV, Json', timeout=3000 if R.thorough else 800, heap='12g')
    parse.check_txt(st, txt, 'enumeration'); R.stats.add(st)
    for r in recs: r['goal'] = cs[r['c'] - 1]['goal']
    return clean(recs)

RANDOMS = configs.RANDOM_X + configs.RANDOM_S + configs.RANDOM_C + configs.RANDOM_F + configs.RANDOM_M * 2
L = configs.L
BOUNDED = configs.SPANS + [configs.EXPR[i] for i in (0, 2, 4, 10, 14, 18)] + [
    L("- + ++ -- a ! ~ ;", 4, 1), L("a / /r/ typeof in instanceof void delete", 4, 0), L("- + ++ 1 .5 . / /r/", 4, 0),
    L("a < ! -- > - =", 5, 0), L("return throw a - /r/ 's' [ ] ; }", 5, 0, prefix="function f ( ) {"),
    L("case default 's' a 1 : - /r/ break }", 5, 0, prefix="switch ( a ) {"), L("do while ( a ) ; if else", 7, 0),
    L("yield * await a 's' /r/ - , } [ ]", 4, 0, prefix="async function * f ( ) {"),
    L("a => ( ) { } 1 :", 5, 0), L("{ } a . ?. [ ]", 6, 0, prefix="( ) =>"), L("new a ( ) . [ ]", 5, 0),
    L("let const var [ ] { } = a , ;", 5, 0), L("let a of in ) ; 's' /r/", 6, 0, prefix="for ("),
    L("static async * get a ( ) { }", 6, 0, prefix="class b {"), L("async * get a 's' 1 ( ) { } }", 6, 0, prefix="( {"),
    L("'s' \"t\" 'use strict' ; a ( ) function { }", 5, 0), L("`t` `h${ }m${ }e` a ( { } )", 5, 0),
    L("class a extends ( ) { } ,", 5, 0), L("async function class a { } ( ) => ;", 6, 0, goal='Module', prefix="export default"),
]

def gather(R, want, mult=1.0):
    recs = corpus(R, RANDOMS, int(900 * mult), want)
    R.note('%d random programs' % len(recs))
    b = bounded(R, BOUNDED, want)
    k = 150000 if R.thorough else 15000
    by = {}
    for r in b: by.setdefault(r['c'], []).append(r)
    each = k // len(by)
    b = [r for c in sorted(by) for r in (by[c] if len(by[c]) <= each else R.rng.sample(by[c], each))]
    R.note('%d programs of bounded languages, %d states' % (len(b), R.stats.states))
    return recs + b

# ------------------------------------------------------------ other spellings
SPELL = {
    '1': ['0', '1', '7.', '0.', '0.5', '0.e1', '0.0', '3.e-2', '1e3', '1E-7', '0b101', '0O17', '0xfF', '123456789012345678901234567890', '5e-324', '1.0', '1_0', '0.0_1'],
    '.5': ['.5', '.0', '.5e1', '.25E+2'], '0x1F': ['0x1F', '0XaB', '0b11'], '2e3': ['2e3', '2E+3', '9e-9'],
    "'s'": ["'s'", "'a\"b'", "'a b'", "'\u00e9\u2028'", "'//'", "'/* */'", "'`'", "'${x}'", "'\\\\'", "'a\\'b'", "'\\\"'", "'<!--'", "'}'", "'\U0001F600'"],
    '"t"': ['"t"', '"it\'s"', '"\\""', '"\\\\\\""', '" "', '"\\\'"'],
    '/r/': ['/r/', '/[/]/', '/\\//', '/=/', '/ /g', '/a|b/gimsuy', '/\u00e9/', '/\\u{1}/u', '/[\\]/]/', '/(?:)/', '/</', '/-->/'],
    '/[/]/g': ['/[/]/g', '/a/y'], '/=x/u': ['/=x/u', '/=/'],
    '`t`': ['`t`', '`a b`', '`\n`', '`\\``', '`\\\\`', '`$`', '`{`', '`$ {`', '`\\${`', '`//`', "`'`", '`\u2028`', '`\\n\\u{1}`', '`}`'],
    '`h${': ['`h${', '`\n${', '`\\`${', '`$${', '` ${', '`}${', '`\\${${'],
    '}m${': ['}m${', '} ${', '}\n${', '}}${', '}$${'], '}e`': ['}e`', '}\n`', '} `', '}}`', '}$`'],
    'a': ['a', '\u00e9', '$', '_', 'a1', '\u03c0x', 'async', 'of', 'get', 'from', '\U00020000'], 'b': ['b', '$_', 'b\u200d', 'set'], 'x': ['x', 'as', 'instanceofx', 'in_'],
}
def respell(r, rng):
    """The same program with other names and literals, or None."""
    have = {t[0] for t in r['o']}
    sub = {}
    for t in have & set(SPELL):
        c = SPELL[t]
        if t in 'abx':
            c = [n for n in c if n.isidentifier() and n not in have and n not in parse.KW or n in (t, '$', '$_')] or [t]
        if t == '1' and any(x in have for x in ('.', '?.')): c = [n for n in c if n[-1] != '.']
        sub[t] = rng.choice(c)
    if not sub: return None
    if len(set(sub.values())) < len(sub): return None
    f = lambda ts: [sub.get(t, t) for t in ts]
    return [(sub.get(t, t), nl) for t, nl in r['o']], f(r['p'])

# ------------------------------------------------------------ C13, C14
def number(raw):
    s = raw.replace('_', '').lower()
    try:
        if s[:2] in ('0x', '0b', '0o'): return float(int(s, 0))
        if s.isdigit() and len(s) > 1 and s[0] == '0' and not set(s) & set('89'): return float(int(s, 8))
        return float(s)
    except (ValueError, OverflowError): return raw

def canon(x):
    """A tree without positions and without the spelling of literals."""
    if type(x) is dict:
        if set(x) == {'raw'}: return {'raw': number(x['raw'])}
        if set(x) == {'value', 'delimiter'}: return {'value': x['value']}
        return {k: canon(v) for k, v in x.items() if k not in ('span', 'arguments_span')}
    if type(x) is list: return [canon(v) for v in x]
    return x

GAP = re.compile(r'[ \t\n\r\u2028\u2029]*')
def align(text, toks, minified):
    """The gaps between the tokens of text when it consists of toks (in minified text a semicolon may
    be missing before a closing brace and at the end): [(gap, before, after, position)], or None."""
    i, out, prev = 0, [], None
    n = len(toks)
    for k, t in enumerate(toks):
        g = GAP.match(text, i).group(0)
        j = i + len(g)
        if text.startswith(t, j) and not (t == ';' and minified and text[j:j+1] == ';' and False):
            out.append((g, prev, t, i)); i = j + len(t); prev = t
        elif minified and t == ';' and (k + 1 == n or toks[k + 1] == '}'): continue
        else: return None
    g = GAP.match(text, i).group(0)
    if i + len(g) != len(text): return None
    out.append((g, prev, None, i))
    return out

def judge_print(key, r, ast):
    """Why the text printed for a tree is wrong, or None."""
    p = r.get(key)
    if p is None: return 'nothing printed: %s' % str(r)[:200]
    if 'panic' in p: return 'printing panics: ' + p['panic']
    if 'back_panic' in p: return 'parsing the output panics: ' + p['back_panic']
    if 'back_err' in p: return 'the output is rejected: %s in %r' % (p['back_err']['display'], p['text'][:200])
    d = conc.diff(canon(p['back']), canon(ast))
    if d: return 'the output has another tree: %s in %r' % (d, p['text'][:200])
    if p['again'].get('text') != p['text']: return 'printing again gives another text: %r, then %r' % (p['text'][:150], str(p['again'])[:150])
    return None

def printing(key):
    def run(R):
        core.build()
        R.assume += ['the implementation reads its own output with the parser judged by C04 to C09',
                     'other spellings of names and literals are drawn from a fixed list']
        recs = gather(R, 'p')
        jobs = []
        for r in recs:
            jobs.append((r, [tuple(t) for t in r['o']], r['p']))
            for _ in range(2):
                s = respell(r, R.rng) if len(r['o']) < 60 or R.rng.random() < .5 else None
                if s: jobs.append((r, *s))
        reqs = []
        for r, toks, p in jobs:
            src, _ = conc.write(toks, R.rng, 'plain')
            reqs.append({'op': 'parse', 'src': src, 'goal': r['goal'].lower(), 'want': [key]})
        bad_min = []
        for (r, toks, p), q, a in zip(jobs, reqs, core.ask(reqs)):
            R.stats.traces += 1
            if len(R.stats.samples) < 8 and 20 < len(q['src']) < 200 and R.rng.random() < .01: R.stats.samples.append(q['src'])
            if 'ast' not in a:
                if 'err' in a: R.stats.notes['not parsed'] += 1; continue
                R.violation('crash', str(a)[:300], q['src'], q); continue
            m = judge_print(key, a, a['ast'])
            if m: R.violation('print', m, q['src'], q); continue
            g = align(a[key]['text'], p, key == 'min')
            R.stats.notes['printed with the tokens of the specification' if g else 'printed with other tokens'] += 1
            if key == 'min': bad_min.append((q, a['ast'], a[key]['text'], g))
        R.note('%d programs printed' % len(jobs))
        if key == 'min': gaps(R, bad_min)
        if R.stats.notes['printed with other tokens'] > R.stats.traces // 2: R.note('most of the output has other tokens than the specification prescribes')
        reread(R, recs)
    return run

COMMENT = re.compile(r'//|/\*|<!--|-->')
def gaps(R, outs):
    """No white space in minified text that could be left out."""
    reqs, info = [], []
    for q, ast, text, g in outs:
        cand = []
        if g is None:
            # not the tokens of the specification: look at every run of white space
            for m in re.finditer(r'[ \t\n\r]+', text): cand.append((m.start(), m.end()))
            if len(cand) > 40: continue
        else:
            for gap, a, b, i in g:
                if not gap: continue
                if len(gap) > 1 or a is None or b is None or not conc.must_gap(a, b): cand.append((i, i + len(gap)))
        for i, j in cand:
            R.stats.notes['gaps tried without'] += 1
            reqs.append({'op': 'parse', 'src': text[:i] + text[j:], 'goal': q['goal'], 'want': []}); info.append((q, ast, text, i, j, False))
            if j - i > 1:
                reqs.append({'op': 'parse', 'src': text[:i] + ' ' + text[j:], 'goal': q['goal'], 'want': []}); info.append((q, ast, text, i, j, True))
    for (q, ast, text, i, j, one), a in zip(info, core.ask(reqs)):
        if 'ast' in a and canon(a['ast']) == canon(ast):
            R.violation('space', 'the space at %d of %r could be %s' % (i, text[max(0, i - 30):j + 30], 'shorter' if one else 'left out'), q['src'], q)

def reread(R, recs):
    """The specification reads the tokens it prescribes for a tree back as that tree."""
    short = [r for r in recs if len(r['p']) <= 16]
    pick = R.rng.sample(short, min(len(short), 3000 if R.thorough else 250))
    ins = [(r['goal'], [[t, 'F'] for t in r['p']]) for r in pick]
    for r, ds in zip(pick, parse.recognise(ins, R.stats)):
        want, d = parse.classify(ds)
        a = canon(conc.expect(r['v'], [(0, 0)] * (len(r['o']) + 2)))
        b = canon(conc.expect(d['v'], [(0, 0)] * (len(r['p']) + 2))) if d else None
        if want != 'accept' or conc.diff(b, a):
            raise core.ToolError('Printer.tla: %s is printed as %s, which is read as %s' % (r['o'], r['p'], conc.diff(b, a) if d else want))
    R.extra['trees_read_back_by_the_specification'] = len(pick)
    R.note('%d printed programs read back by the specification' % len(pick))

# ------------------------------------------------------------ C19
def check_json(R):
    core.build()
    R.assume += ['trees are compared through the PartialEq of the tree types and as JSON text']
    recs = gather(R, '')
    reqs, back = [], []
    far = set(R.rng.sample(range(len(recs)), min(len(recs), 400)))
    for i, r in enumerate(recs):
        src, spans = conc.write([tuple(t) for t in r['o']], R.rng, 'far' if i in far and r['o'] else R.rng.choice(('plain', 'wild')))
        e = conc.program(r['v'], spans, src, False)
        if e['span'] is None: e['span'] = '0:0'
        reqs.append({'op': 'parse', 'src': src, 'goal': r['goal'].lower(), 'want': ['serde']})
        back.append({'op': 'from_ast', 'ast': {r['goal']: e}})
    for q, b, a, f in zip(reqs, back, core.ask(reqs), core.ask(back)):
        R.stats.traces += 1
        if len(R.stats.samples) < 8 and 20 < len(q['src']) < 200 and R.rng.random() < .01: R.stats.samples.append(q['src'])
        if 'ast' not in a and 'err' not in a: R.violation('crash', str(a)[:300], q['src'], q); continue
        if 'ast' in a:
            s = a['serde']
            if s != {'same': True, 'text_same': True}: R.violation('json', 'written and read back: %s' % s, q['src'], q); continue
            d = conc.diff(conc.nospan(a['ast']), conc.nospan(b['ast']))
            if d: R.violation('form', 'the JSON does not have the documented form: ' + d, q['src'], q); continue
        if f.get('ast') != b['ast']:
            R.violation('json', 'the documented JSON is read as another tree: %s' % (conc.diff(f['ast'], b['ast']) if 'ast' in f else f), q['src'], b)

# ------------------------------------------------------------ C12
def steps(w): return [('enter_' if s == '+' else 'exit_') + n for s, n in w]

def node(tree, path):
    for p in path: tree = tree[int(p)] if type(tree) is list else tree[p]
    return tree

def put(tree, path, v):
    if not path: return v
    t = node(tree, path[:-1]); p = path[-1]
    t[int(p) if type(t) is list else p] = v
    return tree

def ends(w):
    """For the k-th node entered, where its steps begin and end."""
    st, out = [], []
    for i, (s, n) in enumerate(w):
        if s == '+': st.append(len(out)); out.append([i, None])
        else: out[st.pop()][1] = i + 1
    return out

def plan(r, tree, pool, rng, count):
    """A random visitor: what it declines and writes, and the steps and tree expected of it."""
    w, l = r['w'], r['l']
    e = ends(w)
    n = len(l)
    picks, last = [], -1
    for k in sorted(rng.sample(range(n), min(n, count))):
        if e[k][0] >= last: picks.append(k); last = e[k][1]
    vis, i, shift = [], 0, 0
    enter, leave, decline = [], [], []
    tree = copy.deepcopy(tree)
    s = steps(w)
    for k in picks:
        a, b = e[k]
        name, kind, path = l[k]
        inner = sum(1 for x in w[a:b] if x[0] == '+') - 1
        vis += s[i:a]; i = b
        how = rng.randrange(5)
        v = rng.choice(pool[kind]) if pool.get(kind) else None
        if v is None: how = 0
        no = k + shift                                   # the number of the node as the visitor counts
        if how == 0: decline.append(no); vis += [s[a], s[b - 1]]; shift -= inner
        elif how == 1: decline.append(no); enter.append([no, v[0]]); vis += [s[a], s[b - 1]]; shift -= inner; tree = put(tree, path, v[0])
        elif how == 2: leave.append([no, v[0]]); vis += s[a:b]; tree = put(tree, path, v[0])
        elif how == 3: enter.append([no, v[0]]); vis += v[1]; shift += v[2] - inner; tree = put(tree, path, v[0])
        else: decline.append(no); leave.append([no, v[0]]); vis += [s[a], s[b - 1]]; shift -= inner; tree = put(tree, path, v[0])
    vis += s[i:]
    return {'decline': decline, 'enter': enter, 'exit': leave}, vis, tree

def check_visits(R):
    core.build()
    R.assume += ['a visitor is exercised through the callbacks of the Visitor trait that exist today']
    recs = gather(R, 'w')
    reqs = []
    for r in recs:
        src, _ = conc.write([tuple(t) for t in r['o']], R.rng, 'plain')
        reqs.append({'op': 'parse', 'src': src, 'goal': r['goal'].lower(), 'want': ['visits']})
    pool, todo = {}, []
    for r, q, a in zip(recs, reqs, core.ask(reqs)):
        R.stats.traces += 1
        if len(R.stats.samples) < 8 and 20 < len(q['src']) < 200 and R.rng.random() < .01: R.stats.samples.append(q['src'])
        if 'ast' not in a:
            if 'err' not in a: R.violation('crash', str(a)[:300], q['src'], q)
            continue
        want = steps(r['w'])
        if a['visits'] != want:
            if not same_shape(a['ast'], r, q['src']): R.stats.notes['other tree'] += 1; continue
            R.violation('order', 'visited %s' % conc.diff(a['visits'], want), q['src'], q); continue
        if not a['unchanged']: R.violation('changed', 'a visitor that writes nothing changed the tree', q['src'], q)
        todo.append((r, q, a['ast']))
        e = ends(r['w'])
        for k, (name, kind, path) in enumerate(r['l']):
            p = pool.setdefault(kind, [])
            if len(p) < 300 or R.rng.random() < .01:
                x, y = e[k]
                if y - x > 40: continue
                v = (node(a['ast'], path), steps(r['w'][x:y]), (y - x) // 2 - 1)
                if len(p) < 300: p.append(v)
                else: p[R.rng.randrange(300)] = v
    R.note('%d trees visited; %d kinds of nodes' % (len(todo), len(pool)))
    R.extra['node_kinds_visited'] = sorted(pool)
    jobs = []
    for r, q, ast in todo:
        for _ in range(2):
            ed, vis, tree = plan(r, ast, pool, R.rng, R.rng.choice((1, 1, 2, 4, 8)))
            jobs.append(({'op': 'edit', 'src': q['src'], 'goal': q['goal'], **ed}, vis, tree))
            for k in ed: R.stats.notes[k] += len(ed[k])
    for (q, vis, tree), a in zip(jobs, core.ask([j[0] for j in jobs])):
        R.stats.traces += 1
        if 'visits' not in a: R.violation('crash', str(a)[:300], q['src'], q)
        elif a['visits'] != vis: R.violation('skip', 'visited %s' % conc.diff(a['visits'], vis), q['src'], q, vis)
        elif a['ast'] != tree: R.violation('write', 'after writing: %s' % conc.diff(a['ast'], tree), q['src'], q, tree)

def same_shape(ast, r, src):
    return conc.nospan(ast[r['goal']]) == conc.nospan(conc.expect(r['v'], [(0, 0)] * (len(r['o']) + 2)))
