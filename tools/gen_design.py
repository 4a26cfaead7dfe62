#!/usr/bin/env python3
"""Writes DESIGN.md: the prose below plus one section per property from the harnesses, the evidence of the last run, the
planted bugs and the bench results (tools/bench_results.txt)."""
import json, os, re, glob
V = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
HEAD = open(V + '/tools/design_head.md').read(); TAIL = open(V + '/tools/design_tail.md').read()
ORACLE = {
'C01': 'address arithmetic in 64-bit integers written out in the harness; two symbolic index tuples must share no byte',
'C02': 'the stored bit pattern itself; getters of the boxed value read it back',
'C03': 'a snapshot of both arrays taken before the call; every byte is compared after it',
'C04': 'the first index whose element equals, found by a loop over the elements in the harness',
'C05': 'the constructor arguments; the engine\'s heap model knows what is freed and when',
'C06': 'byte i of the snapshot of the storage, block copies through a temporary',
'C07': 'the bit pattern of the value',
'C08': 'hex digits computed in the harness from the byte',
'C09': 'a reference parser written in the harness over (white space, sign, digits, white space) that computes with saturating 128-bit style arithmetic',
'C10': 'a text is canonical and its value, summed digit by digit, is the number; symbolic buffer sizes with canaries behind',
'C11': 'mathematical comparison of the two values widened to 64 bits',
'C12': 'the C# conversion of the value written as explicit casts',
'C13': 'case-insensitive match against the two words, character by character',
'C14': 'a reference comparison in the harness; antisymmetry and transitivity are asserted over triples directly',
'C15': 'a quadratic reference search in the harness',
'C16': 'reference editing on a character array in the harness; operands are compared with their snapshots',
'C17': 'the source characters; sources are modified afterwards',
'C18': 'an ideal character sequence (sb.h) edited beside the builder; compared through every reader',
'C19': 'the inequality itself, and the ideal text after every step of a history',
'C20': 'an ideal cursor over the text',
'C21': 'the C locale\'s class definitions as ranges; overloads against each other',
'C22': 'calendar arithmetic of its own (dt.h) in mixed radix: 400/100/4-year cycles',
'C23': 'the calendar of dt.h: start and result are decomposed independently',
'C24': '64-bit tick arithmetic with explicit range tests; IEEE product and round() for fractional units',
'C25': 'the Gregorian rules, and the successor relation of days',
'C26': 'comparison of the tick counts',
'C27': 'fields assembled in the harness into text, padded by rule',
'C28': 'mixed-radix decomposition of the magnitude',
'C29': '128-bit style overflow tests on the operands',
'C30': 'IEEE product or quotient, then the conversion rules, in the solver\'s floating-point theory',
'C31': 'a reference grammar and a reference formatter in the harness, digit by digit',
'C32': 'widened integer arithmetic',
'C33': 'the solver\'s IEEE-754 theory (fp.roundToIntegral, fp.rem-free primitives) and bit-level definitions',
'C34': 'the IEEE-754 encoding: exponent and fraction fields of the bit pattern',
'C35': 'an interval set of the blocks handed out; every byte read back as zero',
'C36': 'the expected output text; console output is captured both under the engine and natively',
'C37': 'identity, and the answers of a user-defined object under the harness\'s control',
'C38': 'stand-in clocks driven by symbolic values: universal second, local offset, nanosecond',
'C39': 'a stand-in conversion that answers anything its contract allows; the verdict must be a function of that answer',
'C40': 'the libm function of the same name as an uninterpreted function of exactly the arguments given'}
seeds = {}
for d in sorted(glob.glob(V + '/seeded/*') + glob.glob(V + '/bench/*')):
    m = json.load(open(d + '/meta.json')); seeds.setdefault(m['property'], []).append((os.path.basename(d), '/bench/' in d))
caught = {}
if os.path.exists(V + '/tools/bench_results.txt'):
    for l in open(V + '/tools/bench_results.txt'):
        m = re.match(r'(\S+) (C\d\d) (caught|missed)(.*)', l)
        if m: caught[m.group(1)] = m.group(3) + m.group(4)
out = [HEAD]
for p in props:
    i = p['id']; hp = V + '/harness/%s.cpp' % i
    out.append('### %s %s\n' % (i, p['title']))
    if not os.path.exists(hp): out.append('Not applicable, see below.\n'); continue
    src = open(hp).read()
    ents = re.findall(r'ENTRY\(\s*(\w+)\s*\)', src)
    out.append('- entries (`harness/%s.cpp`): %s' % (i, ', '.join(ents) if len(ents) <= 24 else '%d, from %s to %s' % (len(ents), ents[0], ents[-1])))
    out.append('- oracle: ' + ORACLE[i])
    for b in re.findall(r'^//@bound (.*)$', src, re.M): out.append('- bounds: ' + b.strip())
    for b in re.findall(r'^//@assume (.*)$', src, re.M): out.append('- assumed: ' + b.strip())
    ev = V + '/evidence/%s.json' % i
    if os.path.exists(ev):
        e = json.load(open(ev)); c = e['coverage']; s = c['solver']
        if e['tier'] == 'quick':
            out.append('- cost (quick): %d paths, %d property and %d safety assertions, %d solver queries (%d reached z3, %.0f s in it), %.0f s wall on 8 cores; %d library functions encoded' % (c['states'], c['property_assertions'], c['implicit_safety_assertions'], s.get('queries', 0), s.get('z3_calls', 0), s.get('time', 0), e['wall_s'], len([f for f in c['functions_encoded'] if not f.startswith('E_')])))
    if i in seeds: out.append('- planted bugs: ' + ', '.join('%s%s%s' % (n, ' (bench)' if b else '', ' - ' + caught[n] if n in caught else '') for n, b in seeds[i]))
    out.append('')
out.append(TAIL)
open(V + '/DESIGN.md', 'w').write('\n'.join(out))
