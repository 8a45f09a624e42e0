#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V); sys.dont_write_bytecode = True
import checks as T
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
m = dict(version=1, setup_cmd='make -C symx', hooks=dict(guard='none', enable='the sources need no hooks: they are compiled as they are', source_commits=[]), checks=[], not_applicable=[],
  notes='All checks run the symbolic executor build/symx (sources in symx/, built by setup_cmd) over LLVM bitcode and assembled machine code produced from /repo on every run; see DESIGN.md.')
for p in props:
    c = T.CHECKS.get(p['id'])
    if not c: m['not_applicable'].append(dict(property=p['id'], reason=T.NA.get(p['id'], 'check not built yet'))); continue
    m['checks'].append(dict(property=p['id'], quick_cmd='./vp.py check ' + p['id'], thorough_cmd='./vp.py check %s thorough' % p['id'], evidence_file='evidence/%s.json' % p['id'],
      technique=c.get('technique', T.TECH), level=c.get('level', 'model_checking'), level_note=c.get('note', T.NOTE)))
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); open(V + '/MANIFEST.json', 'a').write('\n')
