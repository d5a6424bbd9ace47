"""Texts and histories of Lexer.tla, Texts.tla and Reader.tla, and judging the lexer against them (C01, C02, C03)."""
import bisect, json, random
from concurrent.futures import ThreadPoolExecutor
import core

CFG = '''CONSTANT Configs <- MCConfigs
INIT Init
NEXT Next
INVARIANTS Report Laws LongestLaw
CHECK_DEADLOCK FALSE
'''
MC = '''MCConfigs == << %s >>
Report == Reported => CSVWrite("%%1$s", <<ToJson([c |-> c, t |-> Text, s |-> Rows])>>, "@OUT@")
'''
GOALS = {'default': 'Goal(FALSE, TRUE)', 'nohtml': 'Goal(FALSE, FALSE)', 'regex': 'Goal(TRUE, TRUE)', 'regex_nohtml': 'Goal(TRUE, FALSE)', 'template': 'Template'}
NAMED = ('LF', 'CR', 'LS', 'SP', 'ID', 'PT', 'BAD')

def chars(s):
    # longest names first: IDPT is ID, PT
    import re
    return re.findall('LF|CR|LS|SP|ID|PT|BAD|.', s, re.S)
def _chars(s):
    """'a LF b' style for words in NAMED (upper case, apart), otherwise character by character."""
    out = []
    for w in s.split('\0') if '\0' in s else [s]:
        out += [w] if w in NAMED else list(w)
    return out

def C(pieces, n, n2=None, pre='', post='', goals='default', last=False):
    """A bounded set of texts: pieces separated by spaces (_S_ is the space itself)."""
    def seq(p): return chars(p.replace('_S_', ' '))
    return [{'pieces': [seq(p) for p in pieces.split(' ')], 'max': k, 'pre': seq(pre), 'post': seq(post), 'goals': goals.split(), 'last': last} for k in (n, n2 or n + 1)]

def tl(c):
    return '[pieces |-> {%s}, max |-> %d, pre |-> %s, post |-> %s, goals |-> <<%s>>, last |-> %s]' % (
        ', '.join(core.tla(p) for p in c['pieces']), c['max'], core.tla(c['pre']), core.tla(c['post']), ', '.join(GOALS[g] for g in c['goals']), core.tla(c['last']))

# members of the classes of characters
CLASS = {'LF': ['\n'], 'CR': ['\r'], 'LS': ['\u2028', '\u2029'],
         'SP': [' ', '\t', '\x0b', '\x0c', '\u00a0', '\ufeff', '\u1680', '\u2000', '\u2003', '\u200a', '\u202f', '\u205f', '\u3000'],
         'ID': ['\u00e9', '\u00aa', '\u03c0', '\u0416', '\u4e2d', '\u2118', '\u309b', '\U00010400', '\U0001d7cb', '\u16ee', '\uac00'],
         'PT': ['\u0301', '\u200c', '\u200d', '\u00b7', '\u0660', '\u203f', '\U000e0101', '\u1369'],
         'BAD': ['\u20ac', '\u00d7', '\u2014', '\U0001f600', '\x00', '\x1b', '\u00ab', '\u2260', '\u0085', '\u200b', '\u180e', '@']}
CH = {k: v for k, v in CLASS.items()}

def spell(t, rng):
    """Real characters for a text: (source, the character for each class, byte offset of each character and of the end)."""
    m = {k: rng.choice(v) for k, v in CLASS.items()}
    out, off, pos = [], [], 0
    for c in t:
        x = m.get(c, c)
        off.append(pos); pos += len(x.encode()); out.append(x)
    off.append(pos)
    return ''.join(out), m, off

PUNCT = dict(zip("""( ) [ ] { } . ... ; , < << > >> >>> = == <= <<= >= >>= >>>= => != += -= *= **= /= %= |= ^= &= === !== + ++ - -- * ** / % & && | || ^ ! ~ ? ?? ?. :""".split(), """ParenOpen ParenClose BraceOpen BraceClose BracketOpen BracketClose Dot TripleDot SemiColon Comma LessThan DoubleLessThan GreaterThan DoubleGreaterThan TripleGreaterThan Equal DoubleEqual LessEqual DoubleLessEqual GreaterEqual DoubleGreaterEqual TripleGreaterEqual EqualGreater NotEqual PlusEqual MinusEqual StarEqual DoubleStarEqual SlashEqual PercentEqual PipeEqual CaretEqual AmpersandEqual TripleEqual ExclamationDoubleEqual Plus DoublePlus Minus DoubleMinus Star DoubleStar Slash Percent Ampersand DoubleAmpersand Pipe DoublePipe Caret Exclamation Tilde QuestionMark DoubleQuestionMark QuestionMarkDot Colon""".split()))
PNAME = {v: k for k, v in PUNCT.items()}

def text(v, m): return ''.join(m[c] if c in m else chr(int(c[1:])) if len(c) > 1 else c for c in v)

def expected(tok, m, off):
    """What the implementation should give for a token of the specification: (value, or None for anything; the
    other value that is right; span; flag)."""
    k, s, e, f, v, r, tag = tok
    def val(v):
        x = text(v, m)
        return {'punct': lambda: {'Punctuator': PUNCT[x]}, 'word': lambda: {'Keyword': x.capitalize()}, 'name': lambda: {'Identifier': x},
                'num': lambda: {'Literal': {'Number': {'raw': x}}}, 'regex': lambda: {'Literal': {'Regexp': x}},
                'str': lambda: {'Literal': {'String': {'value': x, 'delimiter': None}}},
                'tpl': lambda: {'Literal': {'Template': {'parts': [{'String': x}]}}},
                'head': lambda: {'TemplateHead': x}, 'middle': lambda: {'TemplateMiddle': x}, 'tail': lambda: {'TemplateTail': x}}[k]()
    right = val(r[0]) if r and '?' not in r[0] else None
    return val(v), right, [off[s - 1], off[e - 1]], f

def differs(tok, got, src, m, off, what):
    """None, or how an item read (a token, an error or the end) differs; what: 'value' or 'place'."""
    k = tok[0]
    if k == 'unknown' or tok[6].startswith('?'): return None
    err = got.get('err')
    if k == 'end':
        if err is None: return 'a token after the end: %s' % json.dumps(got)
        return None if err['kind'] == 'EndOfStream' or what != 'value' else 'an error at the end: ' + err['display']
    if k == 'err': return None if what != 'value' or err and err['kind'] != 'EndOfStream' else '%s where there is no token' % json.dumps(got)
    if err: return '%s instead of the token %r' % (err['display'], text(tok[4], m)) if what == 'value' else None
    g = got['tok']
    want, right, span, f = expected(tok, m, off)
    if what == 'value':
        v = json.loads(json.dumps(g['value']))
        if k == 'str':
            try: d = v['Literal']['String'].pop('delimiter'); want['Literal']['String'].pop('delimiter'); right and right['Literal']['String'].pop('delimiter')
            except Exception: d = None
            if d != src.encode()[span[0]:span[0] + 1].decode(): return 'not the delimiter of the string: %s' % json.dumps(g['value'])
        if k == 'word' and tok[5] and v == {'Identifier': text(tok[4], m)}: return None
        return None if v == want or right is not None and v == right else '%s instead of %s' % (json.dumps(v, ensure_ascii=False), json.dumps(want, ensure_ascii=False))
    a, b = map(int, g['span'].split(':'))
    n = len(src.encode())
    if span[1] == n and src and ord(src[-1]) > 127:                   # (listed finding)
        if [a, b] not in (span, [span[0], n - len(src[-1].encode()) + len(src[-1].encode('utf-16-le')) // 2]): return 'at %d to %d instead of %s' % (a, b, span)
    elif [a, b] != span: return 'at %d to %d instead of %s' % (a, b, span)
    if g['first_on_line'] != f: return 'marked %s first on its line' % ('as' if g['first_on_line'] else 'as not')
    return None

def texts(confs, stats, thorough=False, timeout=800):
    cs = [c[1 if thorough else 0] for c in confs]
    st, recs, txt = core.tlc_cached('Texts', CFG, MC % ', '.join(map(tl, cs)), extends=', CSV, Json', timeout=3000 if thorough else timeout, heap='12g')
    if st['rc'] != 0: raise RuntimeError('TLC: ' + txt[-3000:])
    stats.add(st)
    return cs, recs

def judge_texts(cs, recs, stats, rng, what):
    """Yields (message, source, request) for each way in which the lexer differs."""
    reqs, info = [], []
    seen = set()
    for r in recs:
        c = cs[r['c'] - 1]
        for g, row in zip(c['goals'], r['s']):
            k = (g, tuple(r['t']))
            if k in seen: continue
            seen.add(k)
            src, m, off = spell(r['t'], rng)
            ops = ['read'] * len(row)
            if g == 'template': ops = [['state', 'template'], 'read', ['state', 'default']] + ['read'] * (len(row) - 1)
            reqs.append({'op': 'lex', 'src': src, 'mode': 'default' if g == 'template' else g, 'ops': ops})
            info.append((row, m, off))
    for q, (row, m, off), a in zip(reqs, info, core.ask(reqs, chunk=2000)):
        stats.traces += 1
        if 'out' not in a: yield 'crash: ' + str(a)[:300], q['src'], q; continue
        got = [x for x in a['out'] if x]
        for tok, g in zip(row, got):
            stats.notes[tok[0]] += 1
            if tok[6].startswith('?'): stats.notes['open'] += 1; break
            d = differs(tok, g, q['src'], m, off, what)
            if d: yield d, q['src'], q; break
            if 'err' in g: break
        if len(stats.samples) < 8 and rng.random() < .0005: stats.samples.append(q['src'])

G2, G4 = 'default regex', 'default nohtml regex regex_nohtml'
TEXTS = [
    C('+ - * / = < > & | !', 3, 4), C('? . 5 = : %', 4, 5), C('= ! > < ^ ~', 4, 5), C('* = / LF a', 4, 6, goals=G2),
    C('< ! - > LF a', 5, 7, goals='default nohtml'), C('--> - > LF SP /* */ LS', 4, 6, goals='default nohtml'), C('/ * LF CR a', 5, 7, goals=G2), C('a LF SP CR LS /*LF*/ /**/ //', 4, 5),
    C('0 1 _ . e + a', 5, 6), C('0 x b o 1 8 _ g', 4, 5, pre='0'), C('1 . _ e E - (', 5, 6), C('0 9 n . x X', 5, 5), C("1 . / 'a' [ { ID PT \\", 3, 4, goals=G2),
    C("a \\ ' \" LF CR LS", 5, 6, pre="'"), C("a \\ ' \" LF CR", 5, 6, pre='"'), C("\\ n x u 0 { } 6 1 '", 4, 5, pre="'\\"), C("' \" \\ a", 6, 7),
    C('a $ { } ` \\ LF', 5, 6, pre='`'), C('a $ { } ` \\', 5, 6, pre='}', goals='template'), C('a ` ${ } SP', 5, 6, goals='template default'), C('` $ { } \\`', 5, 6),
    C('a / [ ] \\ LF =', 5, 6, pre='/', goals='regex'), C('a g / \\ * LS ( =', 4, 5, goals='regex default'), C('/ [ ] \\] * a ID', 5, 6, pre='/', goals='regex'),
    C('a ID PT 1 $ _ BAD SP', 4, 5), C('a \\ u { } 6 1 0 3', 4, 5, pre='\\'), C('a \\u0061 \\u{62} \\u0030 \\u0020 \\u{110000} \\u{ \\u006 ID 1', 3, 4),
    C('6 1 0 3 f }', 4, 6, pre='a\\u{'), C('0 1 6 7 A d 3', 2, 3, pre='\\u00'), C('i f n d o s t', 3, 4), C('a s y n c e t', 4, 6), C('i n o f SP . 1', 4, 5),
    C('# @ a \\ BAD ! LF', 3, 4), C('} ) ; , [ ( { ] : SP', 3, 4), C('a LF /*LF*/ // /**/ ; -->', 4, 5), C("ID 'ID' `ID` /*ID*/ SP PT", 4, 5, goals='default'),
    C('LF a // <!-- --> 1', 4, 5, goals=G4), C('/ * LF CR a', 5, 6, pre='/*', goals=G2),
    C('LF CR LS SP a *', 4, 5, pre='a/*', post='*/a'), C('LF CR LS SP a', 4, 5, pre='a<!--', post='a', goals='default nohtml'), C('LF CR LS SP', 4, 6, pre='a', post='a'),
]

# those of TEXTS that are mostly about where tokens are
PLACES = [3, 4, 5, 6, 7, 14, 16, 17, 19, 21, 22, 24, 31, 33, 34, 35, 36, 37, 38, 39, 40]
WORDS = 'a if of x_1 $ ID IDPT \\u0061 in async let'
LITS = "0 1 17.5 .5 5. 0x1F 0b1 0o7 1e3 1_0 'a' \"b\" '\\'' 'ID' `a` `${ }b${ }c` ''"
OPS = '+ - * / % < > = ! & | ^ ~ ? : ; , . ( ) [ ] { } => ++ -- ... ?. ?? ** >>>= <= && '.strip()
GAPS = '_S_ LF CR LS SP /**/ /*LF*/ /*CR*/ /*LS*/ /*ID*/ //aLF <!--LF -->LF SP LF _S_ /*a*/'
def mixed(n, pieces, goals): return C(' '.join(dict.fromkeys(pieces.split())), n, n, goals=goals, last=True)[0]
RANDOM = [(8, WORDS + ' ' + GAPS + ' ; ( ) , ='), (16, WORDS + ' ' + LITS + ' ' + GAPS + ' ' + OPS), (24, GAPS + ' a 1 + /'), (30, 'a _S_ LF ; 1 /**/ ID + -'), (12, LITS + ' _S_ LF ( ) ; /**/')]
def simulate(stats, seed, num, procs=8):
    """Long random texts."""
    cs = [mixed(n, p, 'default nohtml regex') for n, p in RANDOM]
    def one(k):
        return core.tlc_cached('Texts', CFG.replace(' LongestLaw', ''), MC % ', '.join(map(tl, cs)), extends=', CSV, Json', workers=1, heap='2g', timeout=3000,
                               args=('-simulate', 'num=%d' % num, '-depth', '60', '-seed', str(seed * 100 + k)))
    recs = []
    with ThreadPoolExecutor(procs) as ex:
        for st, lines, txt in ex.map(one, range(procs)):
            if st['rc'] != 0: raise RuntimeError('TLC: ' + txt[-3000:])
            stats.add(st); recs += lines
    return cs, recs

# ------------------------------------------------------------ every character of every class
SWEEP = [('', 'default regex'), (' b', 'default'), ('a', 'default'), ("'|' b", 'default'), ('"\\|" b', 'default'), ('/*|*/b', 'default nohtml'), ('a/*|*/b', 'default'), ('//|b', 'default'), ('<!--|b', 'default nohtml'), ('/|/b', 'regex'),
         ('/\\|/b', 'regex'), ('/[|]/b', 'regex'), ('/a/|;', 'regex'), ('1|;', 'default'), ('`|`b', 'default'), ('`|${', 'default'), ('}|`;', 'template'), ('a|b', 'default'), ('a|;', 'default'), ('|b', 'default nohtml'), ('|-->b', 'default'), ('.|5', 'default'),
         ('if|;', 'default'), ('\\u0061|;', 'default'), ('a |LF b', 'default')]
def ranges(cs):
    """Sets of characters as ranges, by class, as Unicode 15 and the standard define them."""
    import unicodedata
    assert unicodedata.unidata_version == '15.0.0'
    start, cont = set(range(0x1885, 0x1887)) | {0x2118, 0x212e, 0x309b, 0x309c}, {0xb7, 0x387, 0x19da} | set(range(0x1369, 0x1372))
    by = {}
    for c in range(0x110000):
        if 0xd800 <= c < 0xe000 or 0x20 < c < 0x7f or c in (0x200c, 0x200d) and not by.setdefault(c, 'PT'): continue
        g = unicodedata.category(chr(c))
        by[c] = ('LF' if c == 10 else 'CR' if c == 13 else 'LS' if c in (0x2028, 0x2029) else 'SP' if c in (9, 11, 12, 0xfeff) or g == 'Zs' else
                 'ID' if (g[0] == 'L' and c != 0x2e2f or g == 'Nl' or c in start) else 'PT' if g in ('Mn', 'Mc', 'Nd', 'Pc') or c in cont or c in (0x200c, 0x200d) else 'BAD')
    return by

def sweep(stats, rng):
    """Every character in a few texts: all those of a class are treated as the one that is compared with the specification."""
    by = ranges(CLASS)
    cs, wanted = [], []
    for t, goals in SWEEP:
        pre, post = t.split('|') if '|' in t else (t, ' b')
        cs.append(C('ID PT BAD SP LF CR LS', 1, 1, pre=pre, post=post, goals=goals, last=True)[0])
    st, recs, txt = core.tlc_cached('Texts', CFG.replace(' LongestLaw', ''), MC % ', '.join(map(tl, cs)), extends=', CSV, Json')
    if st['rc'] != 0: raise RuntimeError('TLC: ' + txt[-3000:])
    stats.add(st)
    rows = {(r['c'] - 1, r['t'][len(cs[r['c'] - 1]['pre'])], g): row for r in recs for g, row in zip(cs[r['c'] - 1]['goals'], r['s'])}
    reqs, info = [], []
    for i, c in enumerate(cs):
        for g in c['goals']:
            pre, post = (spell(c[x], random.Random(0))[0] for x in ('pre', 'post'))
            for k in range(0, 0x110000, 0x8000): reqs.append({'op': 'classes', 'pre': pre, 'post': post, 'mode': g, 'ranges': [[k, k + 0x7fff]]}); info.append((i, g))
    runs = []
    for k in sorted(by):
        if runs and runs[-1][1] == k - 1 and runs[-1][2] == by[k]: runs[-1][1] = k
        else: runs.append([k, k, by[k]])
    ends = [r[1] for r in runs]
    found = {}
    for q, (i, g), a in zip(reqs, info, core.ask(reqs, chunk=16)):
        for x, y, s in a['runs']:
            j = bisect.bisect_left(ends, x)
            while j < len(runs) and runs[j][0] <= y:
                u, v = max(x, runs[j][0]), min(y, runs[j][1]); j += 1
                found.setdefault((i, g, runs[j - 1][2], a['sigs'][s]), []).append((u, v)); stats.notes['characters'] += v - u + 1
    out = []
    for (i, g, cl, sig), ks in sorted(found.items()):
        r = {'c': i + 1, 't': cs[i]['pre'] + [cl] + cs[i]['post']}
        out.append((chr(rng.randint(*rng.choice(ks))), cl, sum(y - x + 1 for x, y in ks), r['t'], g, rows[i, cl, g]))
    return out

def judge_sweep(out, stats, rng, what):
    reqs, info = [], []
    for c, cl, n, t, g, row in out:
        m = {k: rng.choice(v) for k, v in CLASS.items()}; m[cl] = c
        src, off = ''.join(m.get(x, x) for x in t), [0]
        for x in t: off.append(off[-1] + len(m.get(x, x).encode()))
        ops = ['read'] * len(row) if g != 'template' else [['state', 'template'], 'read', ['state', 'default']] + ['read'] * (len(row) - 1)
        reqs.append({'op': 'lex', 'src': src, 'mode': 'default' if g == 'template' else g, 'ops': ops}); info.append((row, m, off, c, n))
    for q, (row, m, off, c, n), a in zip(reqs, info, core.ask(reqs, chunk=500)):
        if 'out' not in a: yield 'crash: ' + str(a)[:300], q['src'], q; continue
        for tok, g in zip(row, [x for x in a['out'] if x]):
            if tok[6].startswith('?'): break
            d = differs(tok, g, q['src'], m, off, what)
            if d: yield 'U+%04X and %d others: %s' % (ord(c), n - 1, d), q['src'], q; break
            if 'err' in g: break

# ------------------------------------------------------------ the reader (C03)
RCFG = '''CONSTANTS Texts <- MCTexts
 Depth = %d
 Biased = %s
INIT Init
NEXT Next
%s
INVARIANTS SameStream%s
CHECK_DEADLOCK FALSE
'''
RMC = '''MCTexts == %s
Row == <<ToJson([x |-> x, g |-> html, h |-> hist', o |-> obs'])>>
Report == CSVWrite("%%1$s", Row, "@OUT@")
Last == Len(hist) = Depth => CSVWrite("%%1$s", <<ToJson([x |-> x, g |-> html, h |-> hist, o |-> obs])>>, "@OUT@")
'''
RTEXTS = ['', 'a', 'a/b/c', '}a${}b`', 'aLF/x/gLFb', "'", "a'", 'a/=/b', '/', '//', '/a/', 'a}`', '}`', '`a${b}c${d}e`LFf', '@', 'a@b', 'aLF@', '/*a', 'aLF/*b', '<!--aLFb', 'aLF-->bLFc', 'a<!--b',
          'aLF}LFbLF`c', '}LF`', 'a/LF/b', 'a=/[/]/ID', '1..2', '(/)/)', 'a?.5:b', '/ID/LFID', 'IDLF/ID/', '}ID${`', '/a/LF/b/LF/c/', 'a/b/LF}c`LF/d/', '/=/=/', '0x', 'a0x', 'a 0x', '"a" /b/ `c`']
RPIECES = "a LF / /a/ } }a` }b${ ` ; ' 'a' 1 ID _S_ /*LF*/ // @ /= -->".split()

def rtexts(rng, n):
    out = [chars(t) for t in RTEXTS]
    while len(out) < n: out.append(sum((chars(rng.choice(RPIECES).replace('_S_', ' ')) for _ in range(rng.randint(3, 8))), []))
    return out

def histories(rng, stats, n, depth, thorough=False):
    """Every transition of the reader within depth operations, by a shortest history."""
    ts = rtexts(rng, n)
    st, recs, txt = core.tlc_cached('Reader', RCFG % (depth, 'FALSE', 'VIEW View\nACTION_CONSTRAINT Report', ''), RMC % core.tla(ts), extends=', CSV, Json', timeout=3000 if thorough else 800, heap='12g')
    if st['rc'] != 0: raise RuntimeError('TLC: ' + txt[-3000:])
    stats.add(st)
    return ts, recs

def long_histories(rng, stats, n, depth, num, seed, procs=8):
    ts = rtexts(rng, n)
    def one(k):
        return core.tlc_cached('Reader', RCFG % (depth, 'TRUE', '', ' Last'), RMC % core.tla(ts), extends=', CSV, Json', workers=1, heap='2g', timeout=3000,
                               args=('-simulate', 'num=%d' % num, '-depth', str(depth + 5), '-seed', str(seed * 100 + k)))
    recs = []
    with ThreadPoolExecutor(procs) as ex:
        for st, lines, txt in ex.map(one, range(procs)):
            if st['rc'] != 0: raise RuntimeError('TLC: ' + txt[-3000:])
            stats.add(st); recs += lines
    return ts, recs

def judge_histories(ts, recs, stats, rng):
    reqs, info = [], []
    for r in recs:
        src, m, off = spell(ts[r['x'] - 1], rng)
        reqs.append({'op': 'reader', 'src': src, 'mode': 'default' if r['g'] else 'nohtml', 'ops': r['h']}); info.append((r, m, off))
    for q, (r, m, off), a in zip(reqs, info, core.ask(reqs, chunk=1000)):
        stats.traces += 1
        if 'out' not in a: yield 'crash: ' + str(a)[:300], q; continue
        for i, (o, g) in enumerate(zip(r['o'], a['out'])):
            d, src = None, q['src']
            for name, key in (('current', 'cur'), ('next', 'nxt'), ('result', 'res')):
                if d: break
                x = g[{'cur': 'cur', 'nxt': 'peek', 'res': 'res'}[key]]
                if key == 'res' and (i == 0 or q['ops'][i - 1] != 'consume'): continue
                d = differs(o[key], x, src, m, off, 'value') or differs(o[key], x, src, m, off, 'place')
                if d: d = '%s: %s' % (name, d)
            p = off[o['pos'] - 1] if o['pos'] else None
            if not d and p is not None and g['pos'] != p and not (o['pos'] == len(off) and src and ord(src[-1]) > 127): d = 'position %d instead of %d' % (g['pos'], p)
            if d: yield 'after %s: %s' % (json.dumps(q['ops'][:i]), d), q; break
        if len(stats.samples) < 8 and rng.random() < .0005: stats.samples.append(json.dumps([q['src'], q['ops']]))
