#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the harnesses that exist."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
T = {
 'C01': ('generated command lines with known values; metamorphic reordering', ''),
 'C02': ('fuzzing of declarations and argument vectors under ASan/UBSan', ''),
 'C03': ('single planted mistakes in generated command lines against the documented exception', ''),
 'C04': ('generated texts against reference conversions', ''),
 'C05': ('generated list occurrences against the expected sequence', ''),
 'C06': ('generated arguments behind --, crafted from the declaration', ''),
 'C07': ('generated validators and values against reference decisions', ''),
 'C08': ('generated directory trees against system calls issued by the harness', ''),
 'C09': ('generated directory trees with snapshots before and after', ''),
 'C10': ('generated trees of subcommands with command lines built for them', ''),
 'C11': ('generated command lines with special requests; differential against the lone request', ''),
 'C12': ('generated declarations against a reference page model', ''),
 'C13': ('generated pages on pseudo terminals against layout invariants', ''),
 'C14': ('generated texts, HTML page parsed by an independent tokenizer', ''),
 'C15': ('generated texts, roff source against a reference page model', ''),
 'C16': ('stateful model-based testing of the interface', ''),
 'C17': ('generated command lines with known identifiers', ''),
 'C18': ('stateful model-based testing of histories of runs', ''),
 'C19': ('generated names, versions and server answers against a reference', ''),
 'C20': ('metamorphic: with and without moves, under ASan', ''),
 'C21': ('generated enumerations and texts against a reference map', ''),
 'C22': ('generated meta data against a reference page model', ''),
 'C23': ('metamorphic: equivalent set-ups have the same outcome', ''),
 'C25': ('generated declarations against an independent rendering of the tool description',
         'The library that writes CTD and CWL is not installed; a stand-in with its data structures records what it is given.'),
 'C24': ('generated faulty environments, differential against a healthy one', ''),
}
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'harness', i + '.cpp')):
        checks.append({
            'property': i,
            'quick_cmd': './check.py ' + i,
            'thorough_cmd': './check.py ' + i + ' --tier thorough',
            'technique': 'property-based testing: ' + T[i][0],
            'level': 'exploration',
            'level_note': 'Random search with shrinking over generated cases against an explicit oracle, in a build with sanitizers and '
                          'assertions, in a release build, and guided by the coverage of the library; no guarantee beyond the cases explored. ' + T[i][1],
        })
    else:
        na.append({'property': i, 'reason': 'Not built yet (no technical obstacle).'})
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo are needed. Every check compiles its harness against /repo/include.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
