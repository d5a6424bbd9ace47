"""Reports of errors (C17) and the command line program (C18)."""
import json, os, random, re
import core, lexing

CFG = '''CONSTANT Configs <- MCConfigs
INIT Init
NEXT Next
INVARIANTS Rep Laws
CHECK_DEADLOCK FALSE
'''
MC = '''MCConfigs == << %s >>
Rep == n = 100 => CSVWrite("%%1$s", <<ToJson([t |-> Text, s |-> S, e |-> E, r |-> Here])>>, "@OUT@")
'''
CLASS = dict(lexing.CLASS, TAB=['\t'])
FILES = ['f.js', 'a/b.mjs', './x y.js', '/tmp/../é.js', '', 'a:1:2', '..', 'dir\\f.js', '{}', '%s', 'f']
NAMES = re.compile('TAB|LF|CR|LS|SP|ID|PT|BAD|.', re.S)
def seq(p): return NAMES.findall(p.replace('_S_', ' '))
def tl(d): return '[before |-> {%s}, bad |-> {%s}, after |-> {%s}, max |-> %d, maxafter |-> %d]' % (
    ', '.join(core.tla(seq(x)) for x in d['before']), ', '.join(core.tla([seq(l), seq(x)]) for l, x in d['bad']), ', '.join(core.tla(seq(x)) for x in d['after']), d['max'], d['maxafter'])
def F(before, bad, after, n, m=1): return {'before': before.split(), 'bad': bad, 'after': after.split(), 'max': n, 'maxafter': m}
LINES = 'LF CR CRLF LS a; TAB _S_ ID;'
TOKENS = [('var ', '`a`'), ('var ', '`LFa`'), ('var ', '`CRLFTABa`'), ('varTAB', '`aCRLFLFID`'), ('if', "'ID'"), ('ifTAB', '`IDTABa`'), ('var ', '/'), ('if ', '`TABLSa`')]
CONFIGS = [
    [F(LINES, [('', ')'), ('if ', '=')], 'LF TAB ID', 3), F(LINES, [('', ')'), ('if ', '=')], 'LF CR LS TAB ID', 4)],
    [F('LF CR a; TAB', TOKENS, 'LF ; TAB', 3), F('LF CR a; TAB LS', TOKENS, 'LF ; TAB CR', 5)],
    [F('a;' * 150 + 'ID;' * 100 + 'TAB;', [('', ')'), ('if ', '`' + 'aTAB' * 30)], ';' * 60, 2)] * 2,
    [F('a;LF', [('', ')'), ('TABif ', '`LFa`')], 'LF', 120)] * 2,
    [F('LF ID; /*LF*/ `TAB`; TAB_S_ CRLF //IDLF', [('a ', 'ID'), ('ID ', 'aID'), ('ifTAB', 'ID')], 'LF; ;', 3), F('LF ID; /*LF*/ `TAB`; TAB_S_ CRLF //IDLF', [('a ', 'ID'), ('ID ', 'aID'), ('ifTAB', 'ID')], 'LF; ;', 5)],
]

def cases(stats, thorough):
    st, recs, txt = core.tlc_cached('Report', CFG, MC % ', '.join(tl(c[1 if thorough else 0]) for c in CONFIGS), extends=', CSV, Json', timeout=3000 if thorough else 800)
    if st['rc'] != 0: raise RuntimeError('TLC: ' + txt[-3000:])
    stats.add(st)
    return recs

def spell(t, rng):
    m = {k: rng.choice(v) for k, v in CLASS.items()}
    out, off, pos = [], [], 0
    for c in t:
        x = m.get(c, c); off.append(pos); pos += len(x.encode()); out.append(x)
    off.append(pos)
    return out, off

def compare(text, name, display, rep, real, bad=None):
    """None, or how the text of a report differs. real: the characters of the source."""
    lines = text.split('\n')
    def line(i): return lines[i] if i < len(lines) else ''
    if line(0) != display: return 'the first line is %r' % line(0)
    if line(1) != ' --> %s:%d:%d' % (name, rep['line'], rep['col']): return '%r instead of line %d, column %d' % (line(1), rep['line'], rep['col'])
    pad = len(str(rep['rows'][-1][0])) + 1
    if line(2) != ' ' * pad + '|': return 'line 3 is %r' % line(2)
    i = 3
    for k, (no, a, z, off, marks) in enumerate(rep['rows']):
        shown = ''.join(real[a - 1:z - 1]).replace('\t', '    ')
        if line(i) != ('%-*d| %s' % (pad, no, shown)): return 'line %d of the source is shown as %r instead of %r' % (no, line(i), shown)
        i += 1
        if marks:
            w = ' ' * pad + '| ' + ' ' * off + '^' * marks
            if not (line(i) + ' ').startswith(w + ' '): return 'marked %r instead of %r' % (line(i), w)
            i += 1
    if [x for x in lines[i:] if re.match(r'\s*\d*\s*\|', x)]: return 'more lines: %r' % lines[i:]
    label = '\n'.join([lines[i - 1][len(w):]] + lines[i:])
    if bad is not None and label.startswith(' Unexpected token, found `') and not label.startswith(' Unexpected token, found `%s`, ' % bad):
        return '%r instead of found `%s`' % (label, bad)
    if bad is None and [x for x in lines[i:] if x]: return 'more lines: %r' % lines[i:]
    return None

def judge_reports(recs, stats, rng):
    reqs, info = [], []
    for r in recs:
        real, off = spell(r['t'], rng)
        reqs.append({'op': 'parse', 'src': ''.join(real), 'goal': 'script', 'want': ['report', 'noast'], 'file': rng.choice(FILES)}); info.append((r, real, off))
    for q, (r, real, off), a in zip(reqs, info, core.ask(reqs, chunk=1000)):
        stats.traces += 1
        if 'err' not in a: yield ('crash' if 'panic' in a else 'no error') + ': ' + str(a)[:300], q; continue
        e = a['err']; want = [off[r['s'] - 1], off[r['e'] - 1]]
        if e['span'] != want and not (e['span'][0] == want[0] and r['e'] == len(off) and ord(real[-1]) > 127):
            stats.notes['elsewhere'] += 1; continue
        stats.notes['reports'] += 1
        rep = e['report']
        if 'text' not in rep: yield 'crash: ' + str(rep)[:300], q; continue
        d = compare(rep['text'], q['file'], e['display'], r['r'], real, ''.join(real[r['s'] - 1:r['e'] - 1]) if e['kind'] == 'UnexpectedToken' else None)
        if d: yield d, q
        if len(stats.samples) < 8 and rng.random() < .001: stats.samples.append(q['src'] + '\n--\n' + rep['text'])

# --- reports of errors found in any text: recorded, then judged by the specification
def kinds(src):
    """The characters of a source as the specification names them, and where they start."""
    t, off, pos = [], [], 0
    for c in src:
        t.append('TAB' if c == '\t' else 'LF' if c == '\n' else 'CR' if c == '\r' else 'LS' if c in '\u2028\u2029' else '.')
        off.append(pos); pos += len(c.encode())
    return t, off + [pos]

REC = '''Recorded == << %s >>
MCConfigs == <<>>
ASSUME TLCSet(1000001, Recorded)
Rec(i) == TLCGet(1000001)[i]
Init2 == c \\in DOMAIN TLCGet(1000001) /\\ p = Rec(c)[1] /\\ b = << <<>>, Rec(c)[2] >> /\\ q = Rec(c)[3] /\\ n = 100
Rep == CSVWrite("%%1$s", <<ToJson([c |-> c, r |-> Here])>>, "@OUT@")
'''
def judge_recorded(srcs, stats, rng):
    reqs = [{'op': 'parse', 'src': s, 'goal': g, 'want': ['report', 'noast'], 'file': rng.choice(FILES)} for s, g in srcs]
    todo = []
    for q, a in zip(reqs, core.ask(reqs)):
        if 'err' not in a: stats.notes['no error'] += 1; continue
        e = a['err']; rep = e['report']; stats.traces += 1
        if 'text' not in rep: yield 'crash: ' + str(rep)[:300], q; continue
        lines = rep['text'].split('\n')
        if lines[0] != e['display']: yield 'the first line is %r' % lines[0], q; continue
        t, off = kinds(q['src'])
        s, z = e['span'] or (0, 0)
        if s == z:
            stats.notes['no place'] += 1
            if not lines[1].startswith(' --> ' + q['file']): yield 'the file is not named: %r' % lines[:2], q
            continue
        if z not in off: z = min(x for x in off if x >= min(z, off[-1]))       # (listed finding of C02)
        if s not in off: stats.notes['not at a character'] += 1; continue
        i, k = off.index(s), off.index(z)
        todo.append((q, e, rep['text'], t[:i], t[i:k], t[k:]))
    if not todo: return
    cs = ', '.join('<<%s, %s, %s>>' % tuple(map(core.tla, x[3:])) for x in todo)
    st, recs, txt = core.tlc_cached('Report', CFG.replace('INIT Init', 'INIT Init2'), REC % cs, extends=', CSV, Json', timeout=800)
    if st['rc'] != 0: raise core.ToolError('TLC: ' + txt[-3000:])
    stats.add(st)
    for r in recs:
        q, e, text, *ts = todo[r['c'] - 1]
        stats.notes['reports'] += 1
        d = compare(text, q['file'], e['display'], r['r'], q['src'], q['src'][len(ts[0]):len(ts[0]) + len(ts[1])] if e['kind'] == 'UnexpectedToken' else None)
        if d: yield d, q

def sources(srcs):
    """Sources by what they are: {'both': [(src, {goal: result})], ...}."""
    reqs = [{'op': 'parse', 'src': s, 'goal': g, 'want': ['report', 'noast', 'pretty', 'min', 'debug']} for s in srcs for g in ('script', 'module')]
    res = core.ask(reqs, 50)
    pool = {k: [] for k in ('both', 'script', 'module', 'neither')}
    for i, s in enumerate(srcs):
        one, ok = {}, []
        for g, a in zip(('script', 'module'), res[2 * i:2 * i + 2]):
            if 'err' in a:
                if 'text' not in a['err']['report']: break
                one[g] = {'report': a['err']['report']['text']}
            elif 'text' in a.get('pretty', {}) and 'text' in a.get('min', {}): ok.append(g); one[g] = {'pretty': a['pretty']['text'], 'minified': a['min']['text'], 'debug': a['debug']}
            else: break
        else: pool['both' if len(ok) == 2 else ok[0] if ok else 'neither'].append((s, one))
    return pool

# ------------------------------------------------------------------ the command line program (C18)
CLI_CFG = '''CONSTANTS Alphabet <- MCAlphabet
 Files <- MCFiles
INIT Init
NEXT Next
CONSTRAINT Short0
INVARIANTS Rep Laws
CHECK_DEADLOCK FALSE
'''
CLI_MC = '''MCAlphabet == %s
MCFiles == %s
Short0 == Len(args) <= %d
Rep == phase = "done" /\\ Len(args) <= %d => CSVWrite("%%1$s", <<ToJson([args |-> args, name |-> is.name, state |-> is.state, goal |-> Goal, out |-> out, err |-> err, code |-> code])>>, "@OUT@")
'''
ALPHA = 'F -f --format -fpretty --format=minified -cf -cfminified -c --check -x -fc --format=tiny pretty minified tiny --'.split()
ALPHA2 = ALPHA + '-f=pretty -fminified -f=minified --format=pretty -ftiny --chck --check=1 -cc other'.split()
NAMED = ['s.js', 'm.mjs', 'm.module.js', 'module.js', 's.mjs.js', 'mjs', 's.cjs', 's.module.jsx', 'dir.mjs/s.js', 'dir.js/m.mjs', '.mjs', 'a.js.mjs', 'x.min.module.js', '.module.js', 's', 's.txt', 's.module', 'smodule.js', 's.ts', 'xmjs', 's.js.']
STATES = ['both', 'script', 'module', 'neither', 'unreadable']
def cli_cases(stats, thorough):
    out = []
    for alpha, names, states, n in ((ALPHA, ['s.js'], ['both', 'neither'], 4 if thorough else 3), (ALPHA2, NAMED, STATES, 2), ('F -f -c pretty minified -fminified --'.split(), ['m.mjs', 's.js'], STATES, 4)):
        st, recs, txt = core.tlc_cached('Cli', CLI_CFG, CLI_MC % (core.tla(set(alpha)), '{' + ', '.join(core.tla({'name': x, 'state': y}) for x in names for y in states) + '}', n, n), extends=', CSV, Json', timeout=800)
        if st['rc'] != 0: raise core.ToolError('TLC: ' + txt[-3000:])
        stats.add(st); out += recs
    return out

def cli_pick(recs, rng, n):
    """All runs in which the source is parsed, a sample of the others."""
    out, rest = [], {}
    for r in recs:
        if r['err'] in ('nothing', 'report'): out.append(r)
        else: rest.setdefault((r['err'], r['name'] if r['err'] == 'some' else ''), []).append(r)
    for k in sorted(rest): out += rng.sample(rest[k], min(n if k[1] == '' else n // 40, len(rest[k])))
    return out

def run_cli(jobs):
    """jobs: [(binary, directory, argument list)] -> [code, out, err]"""
    import subprocess
    res = []
    for binary, d, args in jobs:
        try:
            p = subprocess.run([binary] + args, cwd=d, stdin=subprocess.DEVNULL, capture_output=True, timeout=60)
            res.append([p.returncode, p.stdout, p.stderr])
        except subprocess.TimeoutExpired: res.append([None, b'', b''])
    return res

def squash(s): return ''.join(s.split())

def judge_cli(recs, pool, stats, rng, dirname, k=1):
    """pool: for each state, sources with {goal: {ast.., pretty, min, debug} or error}; every case with k sources of its state."""
    binary = core.build('cli')
    put, jobs, info = {}, [], []
    for r in recs:
        for src, res in ([(None, None)] if r['state'] == 'unreadable' else rng.sample(pool[r['state']], min(k, len(pool[r['state']])))):
            key = (r['name'], src)
            if key not in put:
                d = os.path.join(dirname, str(len(put))); p = os.path.join(d, r['name'])
                os.makedirs(os.path.dirname(p))
                if src is None: open(p, 'wb').write(rng.choice((b'a\xff', b'\xfe\xff', b"'\xc3'")))
                else: open(p, 'wb').write(src.encode())
                put[key] = d
            jobs.append((binary, put[key], [r['name'] if a == 'F' else a for a in r['args']])); info.append((r, src, res))
    reports = {}
    for (r, src, res), (b, d, args), (code, out, err) in zip(info, jobs, core.pmap(run_cli, jobs, 200)):
        stats.traces += 1; stats.notes[r['out'] + '/' + r['err']] += 1
        q = {'op': 'cli', 'args': args, 'name': r['name'], 'src': src}
        if code is None: yield 'does not end', q; continue
        try: out, err = out.decode(), err.decode()
        except UnicodeDecodeError: yield 'output is not text', q; continue
        if (code == 0) != (r['code'] == 0): yield 'exit status %s, %s' % (code, 'error on it: ' + err[:200] if err else 'no error'), q; continue
        if r['out'] == 'nothing':
            if out: yield 'output %r of a failing run' % out[:200], q
            elif not err.strip(): yield 'no message about the failure', q
            elif r['err'] == 'report' and err != res[r['goal']]['report'].replace(' --> f.js', ' --> ' + r['name'], 1): yield 'the message is %r, the report %r' % (err[:300], res[r['goal']]['report'][:300]), q
            continue
        x = res[r['goal']]
        if r['out'] == 'success': ok = out == 'Parsed successfully!\n'; w = 'the success message'
        elif r['out'] == 'tree': w = squash(x['debug']); ok = w in squash(out)
        else: w = x[r['out']] + '\n'; ok = out == w
        if not ok: yield 'printed %r instead of %s %r' % (out[:200], r['out'], w[:200]), q
        elif err: yield 'printed and complained: %r' % err[:200], q
