#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from properties.jsonl and the notes below.
import json, os, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
TECH = {
 'C01': 'property-based testing: random pattern sets and events against an independent reference matcher, with shrinking',
 'C02': 'property-based testing: multi-path patterns and array-rich events against a reference matcher that searches for a compatible choice of leaves',
 'C03': 'property-based testing: exists conditions against a reference matcher; exhaustive presence patterns of 2-4 siblings',
 'C04': 'property-based testing: generated float64 values and spellings against strconv.ParseFloat equality',
 'C05': 'property-based testing: strings, prefixes and anything-but against direct string comparison; exhaustive small alphabets',
 'C06': 'property-based testing: globs against a dynamic-programming oracle; all strings over small alphabets',
 'C07': 'property-based testing: every cased character enumerated, random words, against Unicode simple folding',
 'C08': 'property-based testing: bounded-exhaustive and random expressions rendered from a syntax tree, against a set-of-positions oracle on the tree',
 'C09': 'property-based testing: every Unicode scalar value enumerated against every category and block of generated classes, oracle the Unicode tables of the Go library and algebraic relations',
 'C10': 'property-based testing and fuzzing: derivations of the pattern grammar and mutations of them, against an independent recogniser',
 'C11': 'property-based testing and fuzzing: derivations of the regexp grammar and mutations of them, against an independent recogniser',
 'C12': 'property-based testing: histories with rejected additions against the same history without them (metamorphic)',
 'C13': 'property-based testing: respelled events and patterns against the original spelling (metamorphic)',
 'C14': 'property-based testing and fuzzing: generated, truncated and damaged JSON against an independent recogniser of what must be accepted and refused',
 'C15': 'property-based testing: a pattern set against the union of single-pattern instances, and permutations (metamorphic)',
 'C16': 'property-based testing: the same additions under different build modes (differential)',
 'C17': 'stateful property-based testing: histories of additions, deletions and matches against a model of the live patterns, long enough to force rebuilds',
 'C18': 'stateful property-based testing: histories over a tree of copies against one shared model',
 'C19': 'property-based testing of concurrent histories: timestamped operations checked against the visibility rule; schedules driven through a custom Flattener; race detector',
 'C20': 'stateful property-based testing: interleaved and parallel use of several instances against separate models; race detector',
 'C21': 'stateful property-based testing: histories of matches and failures with snapshots of inputs and results',
 'C22': 'property-based testing: a recording Flattener queried against a model of the tracker, and a full Flattener compared with the built-in one (differential)',
 'C23': 'property-based testing: statistics of equal histories compared (metamorphic)',
 'C24': 'property-based testing: every sequence of up to four options against a table of permitted combinations',
 'C25': 'property-based testing and fuzzing: adversarial patterns and events under CPU and memory allowances',
 'C26': 'stateful property-based testing: operations repeated thousands of times, invariant: the reachable heap stops growing; rounds of additions and deletions against a model of the rebuild policy',
 'C27': 'property-based testing: the same match timed, and its allocations counted, with few patterns and with many (metamorphic)',
 'C28': 'property-based testing of concurrent histories: the longest wait of any match during a long addition, confirmed by repetition',
}
NOTE = {
 'default': 'A search, not a proof: within the generated cases no counterexample exists. Trusts the reference model in /verif/harness, which is written from the documentation.',
}
done = [p['id'] for p in props if os.path.exists(root + '/harness') and p['id'] in open(root + '/tools/claimed.txt').read().split()]
m = {
 'version': 1,
 'setup_cmd': './setup.sh',
 'hooks': {'guard': 'none', 'enable': 'The checks use only the public API; no hooks were added to /repo.', 'source_commits': []},
 'checks': [], 'not_applicable': [],
 'notes': 'quick_cmd: see DESIGN.md for what each check generates. VERIF_SEED selects the random cases, VERIF_TIER=thorough multiplies their number.',
}
for p in props:
    i = p['id']
    if i in done:
        m['checks'].append({'property': i, 'quick_cmd': './check.sh ' + i, 'thorough_cmd': 'VERIF_TIER=thorough ./check.sh ' + i,
            'technique': TECH[i], 'level': 'exploration', 'level_note': NOTE.get(i, NOTE['default'])})
    else:
        m['not_applicable'].append({'property': i, 'reason': 'the check is not built yet'})
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1)
