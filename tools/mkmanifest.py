#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property that has a harness."""
import json, subprocess, re, glob, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
claimed = set()
for f in glob.glob(root + '/harness/*/*.go'):
    claimed |= set(re.findall(r'^//verif:check (\w+)', open(f).read(), re.M))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
assumed = {
 'B12': 'Interleavings of two (thorough: up to three) goroutines with scheduling points at lock operations and source calls; data races are judged by happens-before over the modelled lock and goroutine events, so sequentially consistent memory suffices for race-free programs. ',
 'B13': 'encoding/json works by reflection and is replaced by a model that renders the value shapes used exactly, or fails as the encoder does; replays run the real encoder and must agree. ',
 'B14': 'The protobuf encoders are replaced by models that return arbitrary bytes depending only on the message and the options, or fail. ',
 'B15': 'Panics of the source and of the writer are ordinary panics of their calls. ',
 'B16': 'Only answers outside 0..len(buffer) and negative lengths count as impossible; other lies (wrong data, a false position) cannot be told from the truth. ',
 'B17': 'The inner source holds exactly what it declares and does not fail. ',
 'R09': 'The encoders are modelled as for B13 and B14. ',
 'R08': 'Interleavings of two goroutines with scheduling points at lock operations, source calls and status headers, as for B12. ',
 'H03': 'Interleavings of two goroutines with scheduling points at handler calls and what the client is sent; the Prometheus client is replaced as for H02 and its operations are atomic. ',
 'M02': 'Interleavings of two (thorough: three) goroutines with scheduling points at lock operations, as for B12. ',
 'R02': 'The encoders behind the JSON and protobuf setters are modelled as for B13 and B14. ',
 'H02': 'The Prometheus client is replaced by a model of labelled counters and histograms; replays run against the real client. ',
}
checks, na = [], []
for p in props:
    i = p['id']
    if i in claimed:
        checks.append({
            'property': i,
            'quick_cmd': './check.sh %s quick' % i,
            'thorough_cmd': './check.sh %s thorough' % i,
            'technique': 'symbolic execution of the Go SSA of /repo with SMT (z3), counterexamples replayed on the compiled code',
            'level': 'model_checking',
            'level_note': 'Holds for every input, choice and interleaving within the bounds stated per harness in evidence (functions encoded, bounds, queries). Nothing is claimed beyond them. ' + assumed.get(i, '') + 'Trusted: go/ssa, the interpreter in /verif/engine (its explored paths are replayed against the compiled code and must agree), z3.',
        })
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check yet') if 'NA' in globals() else 'no check yet'})
m = {'version': 1, 'setup_cmd': './build.sh', 'checks': checks, 'not_applicable': na,
     'hooks': {'guard': 'verif', 'enable': 'no hooks are needed: harnesses enter /repo through go build overlays', 'source_commits': []},
     'notes': 'See DESIGN.md. Repaired defects are listed in known_findings.txt.'}
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not claimed')
