#!/usr/bin/env python3
"""Writes MANIFEST.json: one entry per property with a check, the rest under not_applicable."""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FLOW = 'abstract interpretation of the compiler\'s MIR (gated value-flow summaries over finite domains)'
TECH = {
    'C01': FLOW + '; tables over all cards',
    'C02': FLOW + '; tables over all cards',
    'C03': 'visibility, signature and constructor queries over the type-checked crate, plus value-flow summaries of every exported producer of cards and evaluations',
    'C04': FLOW + '; every character a free scalar value',
    'C05': FLOW + '; the iterator adaptor over an arbitrary inner iterator',
    'C06': FLOW + '; string tables',
    'C07': FLOW + '; tables over all pairs of cards',
    'C08': FLOW + '; abstract sequences',
    'C09': FLOW + '; permutation effect rule',
    'C10': FLOW + '; the uniqueness condition decided over all partitions of n cards',
    'C11': FLOW + '; evaluation table of all five-card hands against an independent oracle',
    'C12': FLOW + '; comparison table of all pairs of evaluations against an independent oracle',
    'C13': FLOW + '; transfer function of the selection loop proved to be the maximum over all subsets',
    'C14': FLOW + '; evaluation table of all ordered five-card hands; symmetry of the selection for more cards',
    'C15': FLOW + '; comparison tables over all pairs of evaluations',
    'C16': FLOW + '; predicate tables over all evaluations',
    'C17': FLOW + '; comparison of the constants with all evaluations',
    'C18': FLOW + '; text tables over all evaluations and classes',
    'C19': FLOW + '; message templates over symbolic inputs',
    'C20': 'reachable panic sites in the MIR of every public operation, each with its guard shown unsatisfiable by abstract interpretation',
    'C21': 'effect analysis over the call graph of the MIR, type walks for interior mutability, Send/Sync compile witnesses',
    'C22': FLOW + '; evaluation tables of every way to obtain an evaluator compared',
    'C23': FLOW + '; macro expansions as compiled',
    'C24': FLOW + '; the static evaluator against the dynamic one',
    'C25': FLOW + '; comparison tables over all pairs of class values',
    'C26': 'compile witnesses: constants and programs that use every documented item, with and without default features',
    'C27': FLOW,
    'C31': FLOW + '; equality tables over all pairs of values, and terms over symbolic texts and numbers',
    'C28': FLOW + '; effect rule over the drawn swaps (a complete sequence gives every ordering exactly once) and independence from the cards afterwards',
}
NOTE = ('Decides the stated obligations for every input in the ranges listed in the evidence file, from the MIR of the current source. '
        'Trusts rustc\'s MIR and the transfer functions of the standard library and third-party functions in analysis/models.py; '
        'an obligation the analyser cannot decide is listed as undecided in the evidence and raises no alarm (none on this tree).')
EXTRA = {
    'C13': ' Hand sizes 6 to 12 (and sizes near integer constants in the code); larger hands rest on the same code path.',
    'C10': ' Hand sizes 0 to 9 (thorough: 11).',
    'C24': ' The generated tables are not in the source (C29): the module is compiled with empty ones and analysed with tables equal to those the evaluator builds. Hand sizes 0 to 8 (thorough: 10).',
    'C28': ' Trusts the rand crate to draw a bounded number uniformly and to shuffle a slice by the swaps it documents. A shuffle written otherwise is undecided unless two orderings are shown to be merged or one cannot come.',
    'C26': ' Decided by the compiler\'s type and const checking of the witness crate.',
    'C21': ' Send/Sync are decided by the compiler; effects by walking the call graph of resolved instances.',
}
NA = {
    'C27': 'the example is an interactive program whose state lives in terminal input and a shuffled deck; only fragments of it are finite functions, and the repository\'s guarantees do not rest on it',
    'C29': 'the static tables are downloaded from the network when the feature is built; they are not in the source, so there is nothing to analyse',
    'C30': 'running time and allocation cost depend on the machine and optimiser, not on anything a static rule over this source can bound soundly',
}


def main():
    ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
    have = set()
    for f in os.listdir(os.path.join(HERE, 'analysis')):
        if f.startswith('checks_') and f.endswith('.py'):
            have |= set(re.findall(r'^def (C\d\d)\(', open(os.path.join(HERE, 'analysis', f)).read(), re.M))
    checks, na = [], []
    for i in ids:
        if i in have:
            checks.append({'property': i, 'quick_cmd': 'python3-vt check.py %s' % i, 'thorough_cmd': 'python3-vt check.py %s --thorough' % i,
                           'technique': TECH[i], 'level': 'other', 'level_note': NOTE + EXTRA.get(i, '')})
        else:
            na.append({'property': i, 'reason': NA.get(i, 'no check yet')})
    m = {'version': 1, 'setup_cmd': 'python3-vt tools/setup.py', 'checks': checks, 'not_applicable': na,
         'notes': 'No hooks: the crate is analysed as it is. All machinery is in driver/, roots/, witness/ and analysis/; check.py runs one property.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    print(len(checks), 'checks,', len(na), 'not applicable')


if __name__ == '__main__':
    main()
