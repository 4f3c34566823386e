#!/usr/bin/env python3
# Writes MANIFEST.json from the checks that are built and properties.jsonl.
import json, subprocess, os, tempfile
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
env = dict(os.environ, GOFLAGS='-mod=readonly', GOPROXY='off', GOTOOLCHAIN='local', GOWORK='off')
with tempfile.TemporaryDirectory() as t:
    subprocess.check_call(['go', 'build', '-o', t + '/mc', './cmd/mc'], cwd=root, env=env)
    checks = json.loads(subprocess.check_output([t + '/mc', '-list']))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
have = {c['Property'] for c in checks}
m = {
    'version': 1,
    'setup_cmd': './setup',
    'hooks': {'guard': 'verif', 'enable': 'No hooks are needed: the checks build /repo as it is; the schedule explorer of C13 instruments a scratch copy of its sources.', 'source_commits': []},
    'checks': [{
        'property': c['Property'],
        'quick_cmd': './check %s quick' % c['Property'],
        'thorough_cmd': './check %s thorough' % c['Property'],
        'evidence_file': 'evidence/%s.json' % c['Property'],
        'technique': c['Technique'], 'level': c['Level'], 'level_note': c['LevelNote'],
    } for c in sorted(checks, key=lambda c: c['Property'])],
    'not_applicable': [{'property': p['id'], 'reason': 'Its check is not built yet; model checking applies to it (see DESIGN.md).'} for p in props if p['id'] not in have],
    'notes': 'Replay a counterexample with: ./check <property> quick -replay <path>',
}
open(root + '/MANIFEST.json', 'w').write(json.dumps(m, indent=1) + '\n')
