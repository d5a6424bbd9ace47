"""Writes MANIFEST.json from the table below."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks
NOTE = {
 'C01': ('TLA+ lexical grammar (Lexer.tla), TLC-enumerated texts compared with the lexer', ''),
}
GRAM = ('TLA+ pushdown grammar (Grammar.tla, Machine.tla): TLC enumerates bounded languages and random sentences; every text compared with the parser in both directions',
        'Exhaustive for the listed alphabets and lengths (all texts, or all sentences plus near misses), random beyond. Trusts the specification\'s reading of ECMAScript, and that names and literals of one kind are alike.')
MUT = ('TLA+ grammar machine as recogniser (TLC): near-miss texts, decided by the specification, compared with the parser',
       'Random one- and two-token changes of random sentences plus exhaustive bounded alphabets; assurance is that of the explored texts.')
TEXT = {p: GRAM for p in ('C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C20')}
TEXT['C10'] = ('TLA+ grammar machine: spans of every node derived in the specification, compared with the parser under several layouts', GRAM[1])
TEXT['C11'] = MUT
TEXT['C15'] = ('TLA+ grammar machine with line-break demands: each sentence written in many layouts, the tree compared with the specification\'s', GRAM[1])
TEXT['C16'] = ('TLA+ grammar machine as recogniser: the first token that cannot follow, compared with the place of the error; texts of any characters for termination', MUT[1])
TEXT.update({k: v for k, v in getattr(checks, 'MANIFEST_TEXT', {}).items()})
props = [json.loads(l)['id'] for l in open(os.path.join(checks.core.ROOT, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'python3 lib/setup.py', 'checks': [], 'not_applicable': []}
for p in props:
    if p in checks.TABLE:
        m['checks'].append({'property': p, 'quick_cmd': f'python3 check.py {p}', 'thorough_cmd': f'python3 check.py {p} --thorough',
                            'technique': TEXT[p][0], 'level': 'model_checking', 'level_note': TEXT[p][1]})
    else: m['not_applicable'].append({'property': p, 'reason': 'the check is under construction'})
m['notes'] = 'Specification in TLA+ (spec/), checked with TLC; see DESIGN.md.'
json.dump(m, open(os.path.join(checks.core.ROOT, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
