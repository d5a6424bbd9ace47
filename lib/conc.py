"""From a behaviour of the specification to a source text and the tree expected for it.

A sentence is a list of [text, nl]; nl is "F" (no line terminator before this token), "T" (a line
terminator before it) or "*".  `write` chooses the white space and comments between the tokens and
returns the text with the byte range of every token; `expect` turns the tree of the specification
(spans as pairs of token indices) into the JSON that the implementation serialises."""
import random, re

IDCH = re.compile(r'[A-Za-z0-9_$\u0080-\U0010ffff]')
PUNCT = sorted("""{ } ( ) [ ] . ... ; , < > <= >= == != === !== + - * / % ** ++ -- << >> >>> & | ^ ! ~
&& || ?? ? ?. : = += -= *= /= %= **= <<= >>= >>>= &= |= ^= => // /* <!-- --> &&= ||= ??=""".split(), key=len, reverse=True)
PSET = set(PUNCT)

def is_word(t): return bool(IDCH.match(t[0]))

def must_gap(a, b):
    """Would the tokens a b be read differently when written without anything between them?"""
    la, fb = a[-1], b[0]
    if a[0] == '/' and len(a) > 2 and a not in PSET:          # regular expression: flags glue
        return bool(IDCH.match(fb)) or fb == '\\'
    if (IDCH.match(la) or la == '\\') and (IDCH.match(fb) or fb == '\\') and not a.endswith(('"', "'", '`')): return True
    if a[0].isdigit() or (a[0] == '.' and len(a) > 1 and a[1].isdigit()):
        return fb == '.' or bool(IDCH.match(fb))
    if a in ('?',) and fb == '.': return True
    if a == '?.' and fb.isdigit(): return True
    if a == '.' and (fb.isdigit() or fb == '.'): return True
    if a in PSET and (b in PSET or b[0] in '/.<-'):
        for k in range(1, len(b) + 1):
            for j in range(0, len(a)):
                if a[j:] + b[:k] in PSET and not (a[j:] in PSET and False): return True
    if fb == '/' and la == '/': return True
    if fb == '/' and la == '<': return True
    return False

SPACES = [' ', '  ', '\t', '\u00a0', '\ufeff', '\x0b', '\x0c', '/**/', '/* c */', ' /*\u00e9*/ ', '/*;*/', '\u2003']
BREAKS = ['\n', '\r', '\r\n', '\u2028', '\u2029', '//c\n', '/*\n*/', ' // }\u00e9\n ', '/*\r\n*/', '/* a\u2028b */', '\n\n', '//\r']

def write(toks, rng=None, style='plain', module=False, lead=True):
    """style plain: single spaces and \\n;  dense: as little as possible;  wild: random trivia;
    far: wild, with a gap somewhere that takes what follows past 65535."""
    far = rng.randrange(len(toks)) if style == 'far' and toks else None
    if style == 'far': style = 'wild'
    out, pos, spans, nls = [], 0, [], []
    def put(s):
        nonlocal pos
        out.append(s); pos += len(s.encode('utf-8'))
    prev = None
    for i, (t, nl) in enumerate(toks):
        if i == 0:
            broke = False
            if style == 'wild' and rng.random() < .3:
                if rng.random() < .5: put(rng.choice(SPACES))
                if rng.random() < .5: put(rng.choice(BREAKS))
                broke = True
        else:
            want = nl
            if want == '*':
                want = 'T' if style == 'wild' and rng.random() < .25 else 'F'
            intpl = False
            if want == 'T':
                if style == 'wild':
                    s = (rng.choice(SPACES) if rng.random() < .3 else '') + rng.choice(BREAKS)
                    if prev[-1] in '/<' and s[0] == '/': s = ' ' + s
                    put(s)
                    if rng.random() < .3: put(rng.choice(SPACES[:7]))
                else: put('\n')
            elif style == 'plain': put(' ')
            elif style == 'dense':
                if must_gap(prev, t): put(' ')
            else:
                if must_gap(prev, t) or rng.random() < .6:
                    s = rng.choice(SPACES)
                    if prev[-1] in '/<*' and s[0] == '/': s = ' ' + s
                    if t[0] in '/*' and s[-1] == '/': s += ' '
                    put(s)
            nls.append(want)
        if i == far: put(' ' * rng.choice((65530, 65535, 65536, 70001, 131080)))
        spans.append((pos, pos + len(t.encode('utf-8'))))
        put(t); prev = t
    if style == 'wild' and rng.random() < .2 and prev is not None:
        put(rng.choice([' ', '\n', '// end', '/* end */', ' /*\n*/ ']) if prev[-1] not in '/<' else '\n')
    return ''.join(out), spans

def expect(v, spans):
    """Tree of the specification -> JSON tree of the implementation."""
    def sp(p):
        i, j = p
        if j == 0:
            s = spans[i - 1][0]
            return f'{s}:{s}'
        return f'{spans[i-1][0]}:{spans[j-1][1]}'
    def go(x):
        if type(x) is dict:
            if 'isnull' in x: return None
            if 'unit' in x: return x['unit']
            r = {}
            for k, y in x.items():
                if (k == 'span' or k == 'arguments_span') and type(y) is list and y and type(y[0]) is int: r[k] = sp(y)
                else: r[k] = go(y)
            return r
        if type(x) is list: return [go(y) for y in x]
        return x
    return go(v)

def program(v, spans, src, module):
    r = expect(v, spans)
    n = len(spans)
    r['span'] = f'{spans[0][0]}:{spans[-1][1]}' if n else None
    return r

def strip(x):
    """The tree without spans and without parentheses."""
    if type(x) is dict:
        if len(x) == 1 and 'Parenthesized' in x: return strip(x['Parenthesized']['expression'])
        return {k: strip(v) for k, v in x.items() if k not in ('span', 'arguments_span')}
    if type(x) is list: return [strip(v) for v in x]
    return x

def nospan(x):
    if type(x) is dict: return {k: nospan(v) for k, v in x.items() if k not in ('span', 'arguments_span')}
    if type(x) is list: return [nospan(v) for v in x]
    return x

def diff(a, b, path=''):
    """First difference between two JSON values."""
    if type(a) is dict and type(b) is dict:
        for k in sorted(set(a) | set(b)):
            if k not in a: return f'{path}/{k}: missing, expected {short(b[k])}'
            if k not in b: return f'{path}/{k}: unexpected {short(a[k])}'
            d = diff(a[k], b[k], f'{path}/{k}')
            if d: return d
        return None
    if type(a) is list and type(b) is list:
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, f'{path}[{i}]')
            if d: return d
        if len(a) != len(b): return f'{path}: {len(a)} elements, expected {len(b)}'
        return None
    return None if a == b and type(a) == type(b) else f'{path}: {short(a)}, expected {short(b)}'

def short(x):
    import json
    s = json.dumps(x, ensure_ascii=False)
    return s if len(s) < 120 else s[:117] + '...'
