#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist under props/."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
GVF = 'gated value-flow dataflow over MIR compared with a reference predicate (decision diagrams)'
TECH = {
 'C01': 'hashing-root enumeration over the type-checked program, constant evaluation of prefixes, value-flow through every hash_rep/to_be_hashed',
 'C02': 'type reachability from hashed types and field-coverage/skip-condition extraction from the derived Serialize bodies (MIR)',
 'C03': 'type-reachability query over the layout of every hashed type',
 'C05': 'interprocedural mutation (effect) analysis over MIR plus signature query',
 'C08': 'panic-site reachability: abstract interpretation of MIR with path conditions as decision diagrams',
 'C12': 'effect and typestate analysis over MIR',
 'C13': 'effect-ordering (typestate) analysis over MIR with value-flow of every result',
 'C16': 'overflow-site enumeration over MIR; abstract interpretation decides each site\'s guard',
 'C18': 'constant propagation of the protocol table, then relational checks over the propagated table',
 'C20': 'effect-ordering and error-flow analysis over MIR',
 'C21': 'codec agreement: item sequences read and written extracted by value-flow',
 'C23': 'value-flow comparison with a reference definition, bit-provenance abstract interpretation of the packing loops',
 'C15': 'gated value-flow analysis of MIR: credential acceptance, committed hash, sortition weight, lowest output and order compared as decision diagrams with the reference formulas',
 'C08': 'abstract interpretation: every operation that can panic (checked arithmetic, index, slice, unwrap/expect, explicit panic, aborting std call) reachable from the untrusted-input entry points becomes a proof obligation, discharged from path conditions, interval facts and inductive loop facts',
 'C01': 'interprocedural value-flow: the message term reaching every hash/signature primitive (through wrappers) and the representation of every Hashable, against prefix-freeness of the constants in the compiled program',
 'C05': 'effect analysis: signatures and type freeze-ness, raw-pointer writes over the call graph, and value-flow of the post-state and result of each entry point',
 'C02': 'abstract interpretation of every Serialize implementation with an unknown serializer (keys, values, skip conditions, variants) over the type graph reached from the Hashable implementations',
 'C03': 'type-graph reachability over what the Serialize implementations write, and dependence analysis of the written values and conditions',
 'C18': 'constant propagation of the protocol table out of its builder by abstract interpretation, then relational checks over every entry and every approved upgrade',
 'C20': 'abstract interpretation of every trie operation with contracts for the node cache and the recursive calls; history of the cache as a value; failure tracking',
 'C21': 'abstract interpretation of the codec on symbolic encodings; one-round induction over the entry loop; read-failure and allocation tracking',
 'C28': 'lock-set and lock-order dataflow over MIR: guard tokens, access paths, per-function summaries propagated over the call graph',
 'C36': 'value-flow summaries of the loaders, writers and key-name functions compared with their definitions; success conditions checked against every fallible call',
 'C41': 'field-table comparison of derived encoders and decoders from MIR, plus value-flow composition of hand-written decode after encode',
 'C43': 'gated value-flow dataflow over MIR: state transition and selection functions compared with references as decision diagrams; loop call-argument and call-count analysis',
 'C44': 'value-flow analysis with decision-diagram-gated values over rustc MIR: conversion summaries compared with reference definitions',
 'C46': 'value-flow analysis with decision-diagram-gated values over rustc MIR: whole functions on inputs of known shape and symbolic contents, compared with a reference',
 'C45': 'value-flow analysis with decision-diagram-gated values over rustc MIR: accessors and defaults compared with the published meaning',
 'C47': 'value-flow analysis with decision-diagram-gated values over rustc MIR: what the seed of each key is made of; typed call-site census of random generators',
 'C14': 'value-flow comparison with a reference definition under ring normalisation of curve arithmetic',
 'C24': 'taint/trait-implementation query over the type-checked program plus value-flow of file modes',
 'C28': 'lock-region and lock-order analysis over MIR',
}
NOTE = ('Judges the MIR of the current tree (rustc nightly front end, same crate and features). Every obligation is decided for all inputs, with no path '
        'enumeration and no execution; obligations the analysis cannot interpret are reported as undecided in the evidence, never as a violation. '
        'Trusted: the MIR extraction driver, the models of std/collection callees, arithmetic idealised where the model says so, and external crates '
        '(hashes, signatures, curve arithmetic) as uninterpreted functions of their arguments.')
LEVEL_NOTE = {}
NA = {
 'C40': 'Quantifies over the numeric accuracy of a floating-point binomial quantile for every VRF output; no sound static argument in reach bounds statrs\' f64 arithmetic.',
 'C42': 'History independence of the trie root relates two unbounded sequences of heap mutations over a recursive structure; no shape analysis in reach decides it (the node-level obligations are decided in C20 and C21).',
}
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(V, 'props', i + '.py')):
        checks.append({'property': i, 'quick_cmd': './check.sh ' + i, 'thorough_cmd': './check.sh ' + i + ' --thorough',
                       'technique': TECH.get(i, GVF), 'level': 'other', 'level_note': LEVEL_NOTE.get(i, NOTE)})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'Not claimed: no check has been built for it yet.')})
json.dump({'version': 1, 'setup_cmd': 'python3 analysis/facts.py', 'checks': checks, 'not_applicable': na}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
