#!/usr/bin/env python3
# Writes /verif/known_findings.json: the findings that are recorded, and the defects that were repaired,
# with a case each that reproduces it. Run by hand; the checks only read the result.
import json, os, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()

def commit(subject):
    hits = [l.split(' ', 1)[0] for l in log if subject in l]
    assert len(hits) == 1, (subject, hits)
    return hits[0]

J = lambda x: json.dumps(x, ensure_ascii=False)

def val(x):
    if isinstance(x, dict): return {'k': 'o', 'm': [{'n': k, 'v': val(v)} for k, v in x.items()]} if x else {'k': 'o'}
    if isinstance(x, list): return {'k': 'a', 'e': [val(v) for v in x]} if x else {'k': 'a'}
    if x is True: return {'k': 't'}
    if x is False: return {'k': 'f'}
    if x is None: return {'k': 'z'}
    if isinstance(x, str): return {'k': 's', 's': x} if x else {'k': 's'}
    return {'k': 'n', 's': json.dumps(x)}

def pat(x, path=()):
    f = []
    for k, v in x.items():
        p = list(path) + [k]
        if isinstance(v, dict):
            f += pat(v, p)['f']
            continue
        alts = []
        for a in v:
            if isinstance(a, dict):
                (t, s), = a.items()
                if t == 'exists': alts.append({'t': t, 'b': s} if s else {'t': t})
                elif t == 'anything-but': alts.append({'t': t, 'l': s})
                else: alts.append({'t': {'equals-ignore-case': 'eic'}.get(t, t), 's': s})
            elif isinstance(a, str): alts.append({'t': 's', 's': a})
            elif a is True or a is False or a is None: alts.append({'t': J(a)})
            else: alts.append({'t': 'n', 's': J(a)})
        f.append({'path': p, 'alts': alts})
    return {'f': f}

def P(*ps):  # patterns by identifier
    out = []
    for i, p in enumerate(ps):
        rx = None
        if isinstance(p, tuple): p, rx = p
        m = pat(p)
        if rx: m['f'][0]['alts'][0]['rx'] = rx
        out.append({'x': 'P%d' % i, 'text': J(p), 'p': m})
    return out

def H(*ps): return [{'text': x['text'], 'p': x['p']} for x in P(*ps)]

def E(*es):
    out = []
    for e in es:
        t = None
        if isinstance(e, tuple): t, e = e
        out.append({'text': t or J(e), 'v': val(e)})
    return out

def M(ps, es): return {'pats': P(*ps), 'evs': E(*es), 'probe': [-1] * len(ps)}
def S(ps, alpha, n, extra=()): return {'pats': P(*ps), 'alpha': alpha, 'len': n, 'extra': list(extra)}

def lit(c): return {'op': 'lit', 'r': ord(c)}
def lits(s): return lit(s) if len(s) == 1 else {'op': 'cat', 'kids': [lit(c) for c in s]}
def cat(*k): return {'op': 'cat', 'kids': list(k)}
def alt(*k): return {'op': 'alt', 'kids': list(k)}
def grp(k): return k
def rp(k, lo, hi): return {'op': 'rep', 'kids': [k], 'min': lo, 'max': hi}

import base64
b64 = lambda s: base64.b64encode(s if isinstance(s, bytes) else s.encode()).decode()
def ev(pats, *texts): return {'pats': list(pats), 'texts': [b64(t) for t in texts]}
def L(*texts): return {'texts': [b64(t) for t in texts]}

fixed, known = [], []
def F(prop, sub, subject, what, case=None):
    e = {'property': prop, 'sub': sub, 'status': 'fixed', 'what': what, 'commit': commit(subject)}
    e['line'] = 'fixed: property=%s %s %s' % (prop, e['commit'], what)
    if case is not None: e['case'] = case
    fixed.append(e)
def K(prop, sub, what, case):
    known.append({'property': prop, 'sub': sub, 'status': 'known', 'what': what, 'case': case})

F('C14', 'valid', 'exactly JSON\'s number syntax', 'number syntax: 1e+2 and 1e02 refused; -, 01, 1. and 1e- accepted',
  ev(['{"a":[1]}'], '{"a":1e+2}', '{"a":1e02}', '{"a":-}', '{"a":01}', '{"a":1.}', '{"a":1e-}'))
F('C14', 'valid', 'refuse the byte 0xF5', 'the byte 0xF5 accepted in a string', ev(['{"a":["x"]}'], b'{"a":"\xf5\x80\x80\x80"}', b'{"a":"x\xf5"}'))
F('C01', 'mixed', 'a value found where patterns only expect an object', 'a value where patterns only expect an object counted as a field looked for',
  M([{'a': {'b': ['x']}, 'c': ['x'], 'd': ['x']}, {'c': ['x']}, {'d': ['x']}], [{'a': 1, 'c': 'x', 'd': 'x'}, {'a': 1, 'd': 'x', 'e': {}}, {'a': 1, 'f': 1, 'd': 'x', 'e': {}, 'c': 'x'}, {'q': {'a': {}}, 'a': [1, 2, 3], 'c': 'x', 'd': 'x'}]))
F('C01', 'mixed', 'don\'t look in an array of a', 'an object in an array at a read as the object the array is in',
  M([{'a': [1]}, {'b': [1]}], [{'a': [{'b': 1}]}]))
F('C13', 'mixed', 'escape such as \\n right after', 'an escape right after \\u lost its backslash',
  {'pats': [{'p': pat({'a': ['A\n']}), 'texts': ['{"a":["A\\n"]}', '{"a":["\\u0041\\n"]}']}],
   'evs': [{'v': val({'a': 'A\n'}), 'texts': ['{"a":"A\\n"}', '{"a":"\\u0041\\n"}']}, {'v': val({'a': 'A"'}), 'texts': ['{"a":"A\\""}', '{"a":"\\u0041\\""}']}]})
F('C14', 'valid', 'nothing but white space', 'an event of white space accepted', ev(['{"a":["x"]}'], ' ', '\n \t'))
F('C14', 'valid', 'a comma before the end', 'a comma before } or ] accepted', ev(['{"z":["x"]}', '{"a":["x"]}', '{"b":{"c":["x"]}}'], '{"a":1,}', '{"a":[1,]}', '{"b":{"c":1,}}', '{"a":"x","b":[1,]}'))
F('C03', 'exists', 'an exists:false that follows an exists:true', 'exists:false after exists:true at the end of the fields not considered',
  M([{'a': [{'exists': True}], 'b': [{'exists': False}]}], [{'a': 1}, {'a': 1, 'b': 1}]))
F('C01', 'mixed', 'overwrite the states a value led to', 'of several states one value led to only the first was followed',
  M([{'a': ['x'], 'b': ['y', {'prefix': 'y'}], 'c': ['z']}, {'a': [{'prefix': 'x'}], 'b': ['y'], 'c': ['z']}, {'a': [{'wildcard': '*x'}], 'b': ['y'], 'c': ['z']}], [{'a': 'x', 'b': 'y', 'c': 'z'}]))
F('C01', 'mixed', 'empty list of values match nothing', 'a field with an empty value list was ignored', M([{'a': [], 'b': ['x']}], [{'b': 'x'}, {'a': 1, 'b': 'x'}]))
F('C21', 'pure', 'in a slice that the next call', 'the matches returned were overwritten by the next call',
  {'pats': H({'a': ['x']}, {'a': ['y']}), 'evs': E({'a': 'x'}, {'a': 'y'}),
   'ops': [{'k': 'add', 'x': 'x0', 'p': 0}, {'k': 'add', 'x': 'x1', 'p': 1}, {'k': 'ev', 'e': 0}, {'k': 'ev', 'e': 1}]})
F('C04', 'values', 'let 0 match -0', '0 did not match -0', M([{'a': [0]}], [('{"a":-0}', {'a': -0.0}), ('{"a":0}', {'a': 0})]))
F('C05', 'crowd', 'exclude both values when', 'one anything-but value that is the start of another was not excluded',
  M([{'a': [{'anything-but': ['a', 'a"b']}]}], [{'a': 'a"b'}, {'a': 'a'}, {'a': 'b'}]))
F('C10', 'grammar', 'such as {"a":[{}]}', '{"a":[{}]} panicked', L('{"a":[{}]}', '{"a":["x",{}]}'))
F('C10', 'grammar', 'a pattern that is not UTF-8', 'a pattern that is not UTF-8 was accepted', L(b'{"a":["\xff"]}', b'{"\xc0":["x"]}'))
F('C06', 'small', 'an escape right after *', 'an escape right after * in a wildcard misread', S([{'a': [{'wildcard': '*\\*x'}]}, {'a': [{'wildcard': 'x*\\\\x'}]}], '*x\\', 4))
F('C06', 'small', 'don\'t lose matches when merging', 'a prefix was lost when a wildcard shared its path',
  S([{'a': [{'prefix': 'ab'}]}, {'a': [{'wildcard': 'a*c'}]}, {'a': ['abc']}], 'abc', 4))
F('C25', 'doubling', 'visit each state once', 'exponential time to find out whether a regexp is deterministic', {'shape': 'regexp concatenation', 'k': 24, 's': ['(a|b)']})
F('C25', 'families', 'run out of stack merging', 'adding two values of 250 kB for one field overflowed the stack and ended the process', {'fam': 'very long values', 'n': [700000, 2, 0], 's': ['s', 'a']})
F('C25', 'families', 'run out of stack reading arrays', 'an event with an array nested a million deep overflowed the stack and ended the process', {'fam': 'bottomless arrays', 'n': [4000000, 0]})
F('C25', 'families', 'from the same state more than once', 'exponential number of states while matching (a|a)*', {'fam': 'nested quantifiers', 'n': [200], 's': ['(a|a)*']})
F('C11', 'mutants', 'allow U+FFFD', 'U+FFFD refused in a regexp', {'rx': ['\ufffd', '[\ufffd]']})
F('C11', 'mutants', 'refuse malformed regexps', 'malformed regexps accepted', {'rx': ['a}', '}', 'a{2', '~p{', 'a{', '~p', 'a|']})
F('C08', 'small', 'refuse malformed regexps', 'an empty last branch ignored', S([({'a': [{'regexp': 'a|'}]}, alt(lit('a'), {'op': 'cat'}))], 'ab', 3))
F('C09', 'classes', 'all the right characters', 'characters from U+11000 missing from classes',
  {'nodes': [{'op': 'set', 'items': [{'Lo': 0x11000, 'Hi': 0x11010}]}, {'op': 'set', 'neg': True, 'items': [{'Lo': 0x20, 'Hi': 0x40}, {'Lo': 0x2d, 'Hi': 0x2d}]}, {'op': 'set', 'neg': True, 'items': [{'Lo': 1, 'Hi': 0x10fffe}]}],
   'texts': ['[\U00011000-\U00011010]', '[^ -@~-]', '[^\u0001-\U0010fffe]'], 'stride': 97})
F('C08', 'small', 'groups, empty branches', '(ab|a)* and the like matched too little or panicked; x{2,} matched the wrong counts',
  S([({'a': [{'regexp': '(ab|a)*'}]}, rp(grp(alt(lits('ab'), lit('a'))), 0, -1)), ({'a': [{'regexp': 'a{2,}b'}]}, cat(rp(lit('a'), 2, -1), lit('b'))), ({'a': [{'regexp': '(|b)a'}]}, cat(grp(alt({'op': 'cat'}, lit('b'))), lit('a')))], 'ab', 5))
F('C11', 'mutants', 'class that matches no character', 'a class that matches no character panicked', {'rx': ['[^~p{L}~P{L}]', '[^\u0000-\U0010ffff]']})
F('C20', 'cold-race', 'guard what all instances share', 'adding patterns with properties to two instances at once was a data race')
F('C08', 'small', 'the numbers 100 and 200', 'a{0,100} taken for a*, a{1,100} for a+, a{200} for a{200,}',
  S([({'a': [{'regexp': 'a{0,100}'}]}, rp(lit('a'), 0, 100)), ({'a': [{'regexp': 'a{1,100}'}]}, rp(lit('a'), 1, 100)), ({'a': [{'regexp': 'a{200}'}]}, rp(lit('a'), 200, 200))], 'a', 3, ['a' * 99, 'a' * 100, 'a' * 101, 'a' * 199, 'a' * 200, 'a' * 201]))
F('C07', 'words', 'find all the variants', 'equals-ignore-case missed some variants of a character', M([{'a': [{'equals-ignore-case': '\u03bc'}]}], [{'a': '\u00b5'}, {'a': '\u039c'}, {'a': '\u03bc'}]))
F('C17', 'histories', 'don\'t resurrect or lose', 'an X deleted and added again was reported for its deleted pattern',
  {'del': True, 'pats': H({'a': ['x']}, {'a': ['y']}), 'evs': E({'a': 'x'}, {'a': 'y'}),
   'ops': [{'k': 'add', 'x': 'x0', 'p': 0}, {'k': 'del', 'x': 'x0'}, {'k': 'add', 'x': 'x0', 'p': 1}, {'k': 'ev', 'e': 0}, {'k': 'ev', 'e': 1}]})
F('C18', 'trees', 'keep the build mode when copying', 'a copy lost the build mode',
  {'pats': H({'a': ['x']}), 'evs': E({'a': 'x'}), 'ops': [{'k': 'mode', 's': True}, {'k': 'copy'}]})
F('C19', 'between', 'wasn\'t looked for as absent', 'a field that came into use between the two phases of a match taken as absent')
F('C05', 'crowd', 'don\'t take the last character of a prefix', 'the prefix ab" matched the string ab', M([{'a': [{'prefix': 'ab"'}]}], [{'a': 'ab'}, {'a': 'ab"'}, {'a': 'ab"c'}]))
F('C09', 'classes', 'let U+10FFFE and U+10FFFF', 'U+10FFFE and U+10FFFF had no category',
  {'nodes': [{'op': 'prop', 'p': 'Cn'}, {'op': 'prop', 'p': 'C'}], 'texts': ['~p{Cn}', '~p{C}'], 'stride': 997})
F('C10', 'grammar', 'an object or array in an anything-but', 'an object or array in an anything-but list accepted', L('{"a":[{"anything-but":[{}]}]}', '{"a":[{"anything-but":["x",["y"]]}]}', '{"a":[{"anything-but":[["x"]]}]}', '{"a":[{"anything-but":[{"x":"y"}]}]}'))
F('C10', 'grammar', 'a wildcard that ends in * and', 'a wildcard ending in * and a lone backslash accepted', L('{"a":[{"wildcard":"a*\\\\"}]}', '{"a":[{"wildcard":"*\\\\"}]}'))
F('C23', 'shapes', 'count what is behind single values', 'statistics left out what is behind single values and exists')
F('C26', 'repeat', 'an AddPattern that is refused leaves nothing', 'with pattern deletion, each refused AddPattern kept something for its identifier for ever',
  {'kind': 'refused', 'h': {'del': True, 'xkind': 'int', 'pats': [{'text': '{"a":["cࠀa\x80"]}', 'p': {'f': [{'path': ['a'], 'alts': [{'t': 's', 's': 'cࠀa\x80'}]}]}}, {'text': '{"a":{"a":["cࠀa\x80"]}}', 'p': {'f': [{'path': ['a', 'a'], 'alts': [{'t': 's', 's': 'cࠀa\x80'}]}]}}], 'evs': [{'text': '{}', 'v': {'k': 'o'}}], 'ops': None}, 'bad': ['{"a":[""],"azz":[{"nonesuch":1}]}', '{"a":[""],"azz":[{"nonesuch":1}]}', '{"a":[""],"azz":[{"nonesuch":1}]}', '{"a":[""],"azz":[{"nonesuch":1}]}', '{"a":[""],"azz":[{"nonesuch":1}]}'], 'n': [0, 0]})
F('C26', 'rounds', 'count the emitted patterns since the last rebuild', 'how much garbage was tolerated grew with the traffic of the whole lifetime',
  {'Live': 40, 'Adds': 40, 'Rounds': 45, 'Each': 78, 'Size': 20, 'Kind': 's', 'Copies': False, 'Traffic': 5000})
F('C27', 'latency', 'look for an identifier among the live patterns', 'with pattern deletion, the time of a match grew with the number of patterns',
  {'kind': 's', 'shape': 'the same first', 'few': 30, 'many': 20000, 'letters': 'ab', 'len': 0, 'hits': [19071, 18883, 19500], 'misses': 3, 'del': True})
F('C22', 'fields', 'compare the array elements of all matched fields', 'fields in two elements of one array matched together, when a field between them in order of path was in neither',
  {'pats': [{'text': '{"a":["x"],"b":["x"],"c":["x"]}', 'p': pat({'a': ['x'], 'b': ['x'], 'c': ['x']})}], 'seed': 1,
   'evs': [[{'path': ['a'], 'v': {'k': 's', 's': 'x'}, 'trail': [[7, 1]]}, {'path': ['c'], 'v': {'k': 's', 's': 'x'}, 'trail': [[7, 2]]}, {'path': ['b'], 'v': {'k': 's', 's': 'x'}, 'trail': [[2, 0]]}]]})

# recorded, not repaired
K('C01', 'mixed', 'member names with a newline: {"a\\nb":…} and {"a":{"b":…}} are confused (a newline separates the names in a path, also in the Flattener interface)',
  {'pats': [{'x': 'P0', 'text': '{"a\\nb":["x"]}', 'p': {'f': [{'path': ['a\nb'], 'alts': [{'t': 's', 's': 'x'}]}]}}, {'x': 'P1', 'text': '{"a":{"b":["x"]}}', 'p': pat({'a': {'b': ['x']}})}],
   'evs': E({'a\nb': 'x'}, {'a': {'b': 'x'}}), 'probe': [-1, -1]})
K('C25', 'doubling', 'a pattern with k fields that list two values each takes 2^k states', {'shape': 'value lists', 'k': 8})
K('C25', 'families', 'an event of n nested arrays with a value in each takes n^2 space: each value is given the positions in all the arrays around it', {'fam': 'values around nested arrays', 'n': [8000]})
K('C25', 'doubling', 'matching a pattern with k fields against an event in which each is an array of n equal values takes n^k steps', {'shape': 'several arrays', 'k': 4})
K('C10', 'trailing', 'text after the closing brace of a pattern is ignored (tests in the repository rely on it)', L('{"a":["x"]} {"b":["x"]}'))

json.dump({'findings': known + fixed}, open(root + '/known_findings.json', 'w'), indent=1, ensure_ascii=False)
