"""What each property's check runs."""
import json, os, random, shutil, time
import core, conc, parse, configs, frames, canon, trees, lexing, reports
from parse import Stats

KNOWN = os.path.join(core.ROOT, 'known-findings.json')

class Run:
    """One run of one check: collects violations, statistics and writes the evidence."""
    def __init__(self, prop, thorough):
        self.prop, self.thorough = prop, thorough
        self.t0 = time.time(); self.rng = random.Random(core.SEED * 7919 + int(prop[1:]))
        self.stats = Stats(); self.bad = []; self.assume = []; self.extra = {}
        self.exhaustive = []
    def violation(self, kind, msg, src, request=None, want=None, got=None):
        self.bad.append({'property': self.prop, 'kind': kind, 'message': msg, 'source': src,
                         'request': request, 'expected': want, 'got': got})
    def parse_bad(self, it):
        for kind, msg, src, goal in it:
            self.violation(kind, msg, src, {'op': 'parse', 'src': src, 'goal': goal.lower()})
            if len(self.bad) > 2000: return
    def note(self, *a): print('[%5.1fs]' % (time.time() - self.t0), *a, flush=True)
    def finish(self):
        st = self.stats
        for k in self.known(): print('KNOWN-FINDING: property=%s %s' % (self.prop, k))
        cov = {'states': st.states, 'transitions': st.transitions, 'traces_validated_against_impl': st.traces,
               'samples': st.samples[:8], 'outcomes': dict(st.notes), 'exhaustively_compared': self.exhaustive[:60], **self.extra}
        ev = {'property': self.prop, 'tier': 'thorough' if self.thorough else 'quick', 'seed': core.SEED,
              'level': 'model_checking', 'coverage': cov, 'assumptions': self.assume,
              'wall_s': round(time.time() - self.t0, 1), 'violations': len(self.bad)}
        d = os.path.join(core.ROOT, 'evidence'); os.makedirs(d, exist_ok=True)
        json.dump(ev, open(os.path.join(d, self.prop + '.json'), 'w'), indent=1, ensure_ascii=False)
        if not self.bad:
            self.note('ok: %d states, %d inputs compared with the implementation' % (st.states, st.traces)); return 0
        d = os.path.join(core.BUILD, 'replay'); os.makedirs(d, exist_ok=True)
        self.bad.sort(key=lambda b: len(b['source'] or ''))
        seen = set()
        for i, b in enumerate(self.bad):
            k = (b['kind'], b['message'][:30])
            if k in seen or len(seen) >= 6: continue
            seen.add(k)
            p = os.path.join(d, '%s-%d.json' % (self.prop, len(seen)))
            json.dump(b, open(p, 'w'), indent=1, ensure_ascii=False)
            print('  %s: %s  <- %r' % (b['kind'], b['message'], (b['source'] or '')[:300]))
            print('VIOLATION property=%s replay=%s' % (self.prop, p))
        print('%d violations' % len(self.bad))
        return 1

    # ---- known findings
    def known(self):
        """Lines for the listed findings that are still there; a listed input that behaves in a third
        way is a violation."""
        if not os.path.exists(KNOWN): return
        for k in json.load(open(KNOWN))['findings']:
            if k['property'] != self.prop: continue
            r = core.talk([k['request']])[0]
            got = project(k, r)
            if got == k['recorded']: yield k['what']
            elif got != k['right']:
                self.violation('finding', 'a listed finding behaves in a new way: ' + k['what'], k['request'].get('src'),
                               k['request'], k['right'], got)

def project(k, r):
    """The part of a response that a finding is about."""
    for p in k.get('path', []):
        if isinstance(r, dict): r = r.get(p)
        elif isinstance(r, list): r = r[p] if p < len(r) else None
        else: return None
    return conc.nospan(r) if k.get('nospan') else r

# ------------------------------------------------------------------ parser
ALLK = {'rejected', 'accepted', 'struct', 'crash'}

def enumerated(R, confs, kinds, limit=25000, styles=('plain',)):
    cs = [c[1 if R.thorough else 0] for c in confs]
    t = time.time()
    langs = parse.enumerate_language(cs, R.stats, timeout=3000 if R.thorough else 800)
    R.note('%d bounded languages, %d sentences, %d states' % (len(cs), sum(map(len, langs)), R.stats.states))
    for i, (c, recs) in enumerate(zip(cs, langs)):
        lim = limit * (5 if R.thorough else 1)
        R.stats.big = getattr(R.stats, "big", []) + [(len(recs), i)]
        R.parse_bad(parse.sweep(c, recs, R.stats, kinds, R.rng, limit=lim, styles=styles))
        size = sum((len(c['sigma']) * (2 if c['nl'] else 1)) ** k for k in range(c['max'] - len(c['prefix']) + 1))
        if size <= lim: R.exhaustive.append('%s ≤%d%s%s' % (' '.join(sorted(c['sigma'])), c['max'], ' after ' + ' '.join(c['prefix']) if c['prefix'] else '', ' with line breaks' if c['nl'] else ''))
    R.note('compared with the parser: %d inputs' % R.stats.traces)
    return cs, langs

def framed(R, probes, n, kinds, styles=('plain',)):
    """Small probes inside nested constructs."""
    cs = list(frames.frames(probes, R.rng, n * (8 if R.thorough else 1)))
    langs = parse.enumerate_language(cs, R.stats, timeout=3000 if R.thorough else 800)
    R.note('%d nestings of constructs around probes, %d sentences, %d states' % (len(cs), sum(map(len, langs)), R.stats.states))
    R.parse_bad(parse.sweep_frames(cs, langs, R.stats, kinds, R.rng, styles))
    R.note('compared with the parser: %d inputs' % R.stats.traces)
    R.extra['framed_probes'] = len(cs)

def canonical(R, texts, kinds, styles=('plain',), pick=None):
    """The canonical sentences and everything one token away from them."""
    cs = canon.near(texts, R.rng, None if R.thorough else pick)
    langs = parse.enumerate_language(cs, R.stats, timeout=3000 if R.thorough else 800)
    R.note('neighbours of canonical sentences: %d frames, %d sentences, %d states' % (len(cs), sum(map(len, langs)), R.stats.states))
    R.parse_bad(parse.sweep_frames(cs, langs, R.stats, kinds, R.rng, styles))
    R.note('compared with the parser: %d inputs' % R.stats.traces)
    R.extra['canonical_frames'] = len(cs)

def canonical_lines(R, texts, kinds, pick=None):
    """The canonical sentences, with a token less too, with line breaks anywhere."""
    cs = canon.shortened(texts, R.rng, None if R.thorough else pick)
    langs = parse.enumerate_language(cs, R.stats, timeout=3000 if R.thorough else 800)
    R.parse_bad(parse.sweep_lines(cs, langs, R.stats, kinds, R.rng))
    R.note('canonical sentences with line breaks: %d; %d inputs so far' % (len(cs), R.stats.traces))

def simulated(R, confs, num, kinds, styles=('plain', 'wild'), mult=8, seed=None):
    recs = parse.simulate(confs, num * (mult if R.thorough else 1), R.stats, seed=seed or core.SEED * 100 + int(R.prop[1:]), timeout=3000)
    R.note('%d distinct random sentences' % len(recs))
    R.parse_bad(parse.judge_sentences(recs, confs, R.stats, kinds, R.rng, styles))
    return recs

def grammar_check(exh, rand, num, kinds=ALLK, limit=25000, nested=0, near=(), lines=()):
    def run(R):
        core.build()
        R.assume += ASSUME
        if near: canonical(R, near, kinds)
        if lines: canonical_lines(R, lines, kinds)
        if nested: framed(R, frames.PROBES[R.prop], nested, kinds)
        enumerated(R, exh, kinds, limit)
        if rand: simulated(R, rand, num, kinds)
    return run

ASSUME = ['the JSON form of the tree (serde) shows every field of the tree',
          'identifiers and literals of one kind are alike for the parser: a few stand for all',
          'sentences in which the specification leaves the outcome open (tags beginning with ?) are not judged']

# --- C10: spans
def check_spans(R):
    core.build(); R.assume += ASSUME
    for confs, num in ((configs.RANDOM_X, 120), (configs.RANDOM_S + configs.RANDOM_C, 120), (configs.RANDOM_F, 120), (configs.RANDOM_M, 80)):
        simulated(R, confs, num, {'span'}, styles=('plain', 'wild', 'wild', 'dense'))
    simulated(R, configs.RANDOM, 60, {'span'}, styles=('far',))
    canonical(R, canon.ALL, {'span'}, styles=('plain', 'wild'), pick=20)
    enumerated(R, configs.SPANS, {'span'}, limit=0, styles=('plain', 'wild'))

# --- C15: layout
def check_layout(R):
    core.build(); R.assume += ASSUME
    for confs, num in ((configs.RANDOM_X, 200), (configs.RANDOM_S + configs.RANDOM_C, 200), (configs.RANDOM_F, 200), (configs.RANDOM_M, 120)):
        simulated(R, confs, num, ALLK, styles=('dense', 'wild', 'wild', 'wild'))
    canonical_lines(R, canon.ALL, ALLK)
    enumerated(R, configs.LAYOUT, ALLK, limit=60000, styles=('wild', 'dense'))

# --- C11, C16: texts that are almost programs
def mutants(R, confs, num, count, maxlen=26, seed=0):
    recs = parse.simulate(confs, num, R.stats, seed=core.SEED * 100 + int(R.prop[1:]) * 10 + seed, timeout=3000)
    pool = sorted(set().union(*(c['sigma'] for c in confs)))
    ins, seen = [], set()
    short = [r for r in recs if 2 <= len(r['o']) < maxlen]
    for _ in range(count * 3):
        if len(ins) >= count: break
        r = R.rng.choice(short)
        m = parse.mutate(r['o'], R.rng, pool)
        if not m or len(m) > maxlen: continue
        k = (confs[r['c'] - 1]['goal'], tuple(m))
        if k not in seen: seen.add(k); ins.append((k[0], m))
    R.note('%d sentences, %d mutants' % (len(recs), len(ins)))
    res = parse.recognise2(ins, R.stats)
    R.note('recognised by the specification; %d states so far' % R.stats.states)
    out, reqs = [], []
    for (g, toks), (ds, far) in zip(ins, res):
        want, d = parse.classify(ds)
        R.stats.notes[want] += 1
        if want == 'open': continue
        if want == 'reject' and not parse.reads_as_written([x[0] for x in toks]): R.stats.notes['unclear tokens'] += 1; continue
        src, spans = conc.write(toks, R.rng, R.rng.choice(('plain', 'plain', 'dense', 'wild')))
        if want == 'reject' and len(R.stats.samples) < 8 and R.rng.random() < .01: R.stats.samples.append(src)
        reqs.append({'op': 'parse', 'src': src, 'goal': g.lower()}); out.append((g, toks, want, d, far, src, spans))
    for o, r in zip(out, core.ask(reqs)):
        R.stats.traces += 1
        yield (*o, r)

def check_reject(R):
    core.build(); R.assume += ASSUME
    k = 6 if R.thorough else 1
    for i, (confs, num, count) in enumerate(((configs.RANDOM + configs.RANDOM_X, 120, 1600 * k), (configs.RANDOM_S + configs.RANDOM_C, 120, 1600 * k),
                                             (configs.RANDOM_F + configs.RANDOM_M, 120, 1200 * k))):
        for g, toks, want, d, far, src, spans, r in mutants(R, confs, num, count, seed=i):
            v = parse.judge(g, want, d, spans, src, r)
            if v and v[0] in ('accepted', 'crash'): R.violation(v[0], v[1], src, {'op': 'parse', 'src': src, 'goal': g.lower()})
    canonical(R, canon.ALL, {'accepted', 'crash'}, pick=45)
    enumerated(R, configs.REJECT, {'accepted', 'crash'}, 60000)

def error_place(toks, far, spans, r):
    """None, or what is wrong with the place of an error; far tokens are the beginning of some program."""
    n, e = len(toks), r['err']
    txt = [t[0] for t in toks]
    kind = e['kind'] if isinstance(e['kind'], str) else str(e['kind'])
    sp = e['span']
    head = far < n and far >= 1 and toks[far - 1][0] == '(' and toks[far][0] in (')', '...')   # the head of an arrow function where none may be
    if far < n and toks[far][0] in ('/', '/='): return None   # the beginning of a regular expression of its own
    if kind == 'EndOfStream' or 'nd of stream' in e['display'] and kind != 'LexerError':
        return None if far == n or head or txt[far] == '=>' else 'unexpected end reported, but token %d cannot follow' % (far + 1)
    if kind == 'LexerError': return None
    starts = {a: i for i, (a, b) in enumerate(spans)}
    if sp is None or sp[0] not in starts: return 'error at %s is not at a token' % (sp,)
    at = starts[sp[0]]
    if at > far:
        if toks[far][0] == '=>': return None              # an arrow function is read in full before it is refused
        if head and (at == far + 1 or txt[far] == '...'): return None   # and so is its head
        if {'get', 'set'} & set(txt[max(0, far - 5):far]) and '(' in txt[max(0, far - 3):far]: return None   # and what an accessor has as parameters
        return 'error at token %d, but token %d cannot follow' % (at + 1, far + 1)
    if kind in ('UnexpectedToken', 'ExpectedIdentifier', 'ForbiddenIdentifier'):
        if sp[1] != spans[at][1]: return 'error covers %s, the token is %s' % (sp, spans[at])
        if at == far: return None
        if far == n and at < n: pass
        # a name in an object pattern is only known to be wrong when no colon follows it
        if kind != 'UnexpectedToken' and at == far - 1 and at > 0 and txt[at - 1] in ('{', ','): return None
        # what is in brackets may be read again as a pattern, as parameters or as a for head
        depth = 0
        for i, t in enumerate(txt[:at]):
            if t in '([' or t == '{' and (i == 0 or txt[i - 1] not in (')', ';', '}', 'else', 'try', 'do', 'finally', 'static')): depth += 1
            elif t in ')]' or t == '}' and depth: depth -= 1
        if depth > 0: return None
        if txt[at] in ('import', 'let', 'async') or txt[at - 1] == 'let' or 'async' in txt[:at]: return None
        return 'error at token %d, but %d can follow' % (at + 1, at + 1)
    return None

def check_errors(R):
    core.build(); R.assume += ASSUME
    k = 6 if R.thorough else 1
    again = []
    for i, (confs, num, count) in enumerate(((configs.RANDOM + configs.RANDOM_X, 120, 1600 * k), (configs.RANDOM_S + configs.RANDOM_C, 120, 1600 * k),
                                             (configs.RANDOM_F + configs.RANDOM_M, 120, 1600 * k))):
        for g, toks, want, d, far, src, spans, r in mutants(R, confs, num, count, seed=i):
            q = {'op': 'parse', 'src': src, 'goal': g.lower()}
            again.append((q, r))
            if not ('ast' in r or 'err' in r): R.violation('crash', str(r)[:300], src, q); continue
            if want == 'reject' and 'err' in r:
                R.stats.notes['error ' + str(r['err']['kind'])[:24]] += 1
                m = error_place(toks, far, spans, r)
                if m: R.violation('place', m + ': ' + r['err']['display'], src, q)
    chars(R, again, 6000 * k)
    R.note('character soups done')
    for (q, r), r2 in zip(again, core.ask([q for q, _ in again], chunk=150)):
        if r != r2: R.violation('unstable', 'two runs differ', q['src'], q, r, r2)

SOUP = list("abxyz019._$\\ \t\n\r'\"`{}()[];,<>=!+-*/%&|^~?:#@") + ['\u00e9', '\u2028', '\ufeff', '\U0001F600', '\u0301', '${', '/*', '*/', '//', '<!--', '-->', '=>', '...', '?.',
  '\\u', '\\u{', '0x', '1e', '\r\n', 'async ', 'for', 'function ', 'class ', 'yield ', 'await ', 'let ', 'new ', 'import ', 'export ', 'return ', 'super', "'use strict'", '/a/', '`${', 'if(', 'do ', 'get ', 'static ']
def chars(R, again, n):
    reqs = []
    for _ in range(n):
        s = ''.join(R.rng.choice(SOUP) for _ in range(R.rng.choice((1, 2, 3, 4, 6, 9, 14, 24))))
        reqs.append({'op': 'parse', 'src': s, 'goal': R.rng.choice(('script', 'module'))})
    for q, _ in R.rng.sample(again, min(len(again), n)):     # a character more or less
        s = q['src']
        if s:
            i = R.rng.randrange(len(s) + 1)
            s = s[:i] + R.rng.choice(('', R.rng.choice(SOUP))) + s[i + R.rng.choice((0, 1, 1, 3)):]
            reqs.append(dict(q, src=s))
    for q, r in zip(reqs, core.ask(reqs, chunk=300)):
        R.stats.traces += 1; R.stats.notes['soup'] += 1
        if 'err' in r:
            b = q['src'].encode(); sp = r['err']['span']
            if sp is not None:
                ok = 0 <= sp[0] <= sp[1] <= len(b)
                last = len(q['src'][-1].encode())          # (listed finding: the end of a source that ends in such a character)
                try: b[:sp[0]].decode(); last > 1 and sp[1] > len(b) - last or b[:sp[1]].decode()
                except UnicodeDecodeError: ok = False
                if not ok: R.violation('place', 'error at %s of %d bytes' % (sp, len(b)), q['src'], q)
            again.append((q, r))
        elif 'ast' not in r: R.violation('crash', str(r)[:300], q['src'], q)

# --- C01, C02, C03: the lexer
LEX = ['in most texts one character stands for all of its class (varying between texts); in a few every character is tried',
       'what follows an error of the lexer is not judged until the reader is rewound']
def lexer_check(what, confs, num):
    def run(R):
        core.build(); R.assume += LEX
        for cs, recs in ((lexing.texts(confs, R.stats, R.thorough)), lexing.simulate(R.stats, core.SEED * 10 + int(R.prop[1:]), num * (10 if R.thorough else 1))):
            R.note('%d texts, %d states' % (len(recs), R.stats.states))
            for d, src, q in lexing.judge_texts(cs, recs, R.stats, R.rng, what): R.violation('token', d, src, q)
        out = lexing.sweep(R.stats, R.rng)
        for d, src, q in lexing.judge_sweep(out, R.stats, R.rng, what): R.violation('token', d, src, q)
        R.note('every character in %d texts, %d ways to be read' % (len(lexing.SWEEP), len(out)))
        R.exhaustive += ['%d pieces of %s%s' % (c[1 if R.thorough else 0]['max'], ' '.join(''.join(p) for p in c[0]['pieces']), ' after ' + ''.join(c[0]['pre']) if c[0]['pre'] else '') for c in confs]
    return run

def check_reader(R):
    core.build(); R.assume += LEX
    k = 4 if R.thorough else 1
    for ts, recs in (lexing.histories(R.rng, R.stats, 80 * k, 8 if R.thorough else 7, R.thorough), lexing.long_histories(R.rng, R.stats, 60 * k, 30, 60 * k * k, core.SEED)):
        R.note('%d histories on %d texts, %d states' % (len(recs), len(ts), R.stats.states))
        for d, q in lexing.judge_histories(ts, recs, R.stats, R.rng): R.violation('reader', d, q['src'], q)

# --- C17, C18: reports and the command line program
def check_reports(R):
    core.build()
    R.assume += ['where an error is, is what the error says (C16)', 'an error without a place only names the file',
                 'white space after a line and the label behind the marks are not judged, except for the text it says was found']
    recs = reports.cases(R.stats, R.thorough)
    R.note('%d texts with an error, %d states' % (len(recs), R.stats.states))
    for _ in range(6 if R.thorough else 2):
        for d, q in reports.judge_reports(recs, R.stats, R.rng): R.violation('report', d, q['src'], q)
    k = 6 if R.thorough else 1
    for i, confs in enumerate((configs.RANDOM + configs.RANDOM_X, configs.RANDOM_S + configs.RANDOM_C, configs.RANDOM_F + configs.RANDOM_M)):
        srcs = broken(R, confs, 50, 700 * k, i)
        for d, q in reports.judge_recorded(srcs, R.stats, R.rng): R.violation('report', d, q['src'], q)
    R.note('%d reports' % R.stats.notes['reports'])

def broken(R, confs, num, count, seed):
    """Random sentences with tokens changed, laid out at random, at any line."""
    recs = parse.simulate(confs, num, R.stats, seed=core.SEED * 100 + int(R.prop[1:]) * 10 + seed, timeout=3000)
    pool = sorted(set().union(*(c['sigma'] for c in confs)))
    recs = [r for r in recs if 1 <= len(r['o']) < 40]
    for _ in range(count):
        r = R.rng.choice(recs)
        m = parse.mutate(r['o'], R.rng, pool)
        if not m: continue
        src, _ = conc.write(m, R.rng, R.rng.choice(('plain', 'wild', 'wild')))
        if R.rng.random() < .3: src = R.rng.choice(conc.BREAKS) * R.rng.choice((1, 8, 9, 98)) + src
        if R.rng.random() < .1: src += R.rng.choice(('`', "'", '@', '\u00e9', ' /', '/*'))
        yield src, confs[r['c'] - 1]['goal'].lower()

def check_cli(R):
    core.build()
    R.assume += ['what parsing, printing and reporting yield is judged by the other checks']
    recs = reports.cli_cases(R.stats, R.thorough)
    recs = reports.cli_pick(recs, R.rng, 20000 if R.thorough else 1200)
    R.note('%d runs of the specification, %d states' % (len(recs), R.stats.states))
    srcs = {'', 'a', ' \n', 'var a = 1;\nlet b', 'with (a) b', 'await', 'yield = 1', "delete a; 'x'", 'let = 1', '010', 'public', 'import a from "b"', 'export default 1', 'export * from "a"', 'import "a"; b',
            'export {}; export let c', 'import.meta', 'a b', '(', '}', 'var', 'export {', 'with (a) import "b"', '`', '\ufeffa', 'a\u2028b', 'a <!-- b', '\u00e9 = "\u00e9"', 'x\r\n\ty z', '#!/bin/x\na'}
    for i, confs in enumerate((configs.RANDOM + configs.RANDOM_X, configs.RANDOM_S + configs.RANDOM_C, configs.RANDOM_F + configs.RANDOM_M)):
        srcs |= {s for s, g in broken(R, confs, 30, 150, i)}
        for r in parse.simulate(confs, 30, R.stats, seed=core.SEED * 100 + 180 + i, timeout=3000)[:150]: srcs.add(conc.write([tuple(x) for x in r['o']], R.rng, 'wild')[0])
    pool = reports.sources(sorted(srcs))
    R.note('sources: ' + ', '.join('%d %s' % (len(v), k) for k, v in pool.items()))
    d = os.path.join(core.BUILD, 'cli-files'); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    try:
        for m, q in reports.judge_cli(recs, pool, R.stats, R.rng, d, 12 if R.thorough else 3): R.violation('cli', m, q['src'], q)
    finally: shutil.rmtree(d, ignore_errors=True)

TABLE = {
    'C01': lexer_check('value', lexing.TEXTS, 30),
    'C02': lexer_check('place', [lexing.TEXTS[i] for i in lexing.PLACES], 60),
    'C03': check_reader,
    'C04': grammar_check(configs.EXPR, configs.RANDOM_X, 400, near=canon.ALL[:1]),
    'C05': grammar_check(configs.STMT, configs.RANDOM_S + configs.RANDOM_F, 350, nested=700, near=canon.ALL[1:2]),
    'C06': grammar_check(configs.ASI, configs.RANDOM_S, 300, lines=canon.ALL),
    'C07': grammar_check(configs.NAMED, configs.RANDOM_F, 350, nested=2000),
    'C08': grammar_check(configs.EARLY, configs.RANDOM_F, 300, nested=2000),
    'C09': grammar_check(configs.COVER, configs.RANDOM_C + configs.RANDOM_X[1:], 400, nested=2000),
    'C20': grammar_check(configs.MODULE, configs.RANDOM_M, 400, near=canon.ALL[2:]),
    'C10': check_spans,
    'C11': check_reject,
    'C15': check_layout,
    'C16': check_errors,
    'C12': trees.check_visits,
    'C13': trees.printing('pretty'),
    'C14': trees.printing('min'),
    'C19': trees.check_json,
    'C17': check_reports,
    'C18': check_cli,
}

SHAPE = 'Trees of bounded languages and of random programs, exhaustive for the former up to a sample; the specification is checked by TLC on every tree of both (every node has its kind\'s fields, spans nest, walks are bracketed).'
TEXTS = 'All texts over small alphabets of characters and pieces up to the lengths listed, in up to four reading goals, and long random texts; TLC checks on each that the tokens cover the text, that flags follow the line terminators, that a token alone is that token and that no longer text is one.'
MANIFEST_TEXT = {
 'C01': ('TLA+ lexical grammar (Lexer.tla, sets of ends of productions) enumerated by TLC over texts (Texts.tla): every token and value of the real lexer compared', TEXTS),
 'C02': ('TLA+ lexical grammar (Lexer.tla) enumerated by TLC over texts (Texts.tla): every span and line flag of the real lexer compared', TEXTS),
 'C03': ('TLA+ reader machine (Reader.tla): TLC shows it agrees with reading from the start; every transition and random long histories replayed on the real PeekReader over the real lexer', 'All transitions within 7 operations on 80 texts, and random histories of 30 operations; the current, next and consumed items and the position compared after every operation.'),
 'C17': ('TLA+ report model (Report.tla) enumerated by TLC over texts with an error: every report of the real emitter compared; reports of errors in random text recorded and given to TLC', 'All texts of bounded numbers of lines, terminators, tabs and characters around errors at a known place, and recorded reports of damaged random programs; file names from a fixed list.'),
 'C18': ('TLA+ model of the program (Cli.tla): argument lists, file names and states of the source enumerated by TLC, each run with the real binary built from /repo', 'All lists of up to 2 (3 or 4 over small alphabets) arguments, 21 file names and 5 states of the source; what is parsed, printed and reported is the library\'s own result for the same source.'),
 'C12': ('TLA+ traversal model (Shape.tla Walk/Places) over trees derived by the TLA+ grammar: every visit sequence, skipped subtree and written value compared with the real traversal', SHAPE),
 'C13': ('TLA+ printer model (Printer.tla) over trees derived by the TLA+ grammar machine: the real output is parsed back and printed again; TLC reads the model\'s own text back', SHAPE + ' Literal spellings come from a fixed list.'),
 'C14': ('TLA+ printer model (Printer.tla) over trees derived by the TLA+ grammar machine: the real minified output is parsed back and each of its gaps judged', SHAPE + ' Literal spellings come from a fixed list.'),
 'C19': ('TLA+ tree schema (Shape.tla): the specification\'s tree is read as JSON by the implementation and the implementation\'s JSON compared with it', SHAPE),
}
