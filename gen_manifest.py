#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, subprocess
V = os.path.dirname(os.path.abspath(__file__))
import sys
sys.path.insert(0, V)
import checks as CH
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='python3 run.py build',
         hooks=dict(guard='XAD_VERIF_CHUNK_SIZE', enable='harness and src/Tape.cpp are compiled from /repo with -DXAD_VERIF_CHUNK_SIZE=<n>',
                    source_commits=CH.HOOK_COMMITS),
         checks=[], not_applicable=[],
         notes='Every check rebuilds its harness from the working tree of /repo (content-hashed object cache in /verif/build).')
for p in props:
    i = p['id']
    if i in CH.CHECKS:
        c = CH.CHECKS[i]
        m['checks'].append(dict(property=i, quick_cmd='python3 run.py check %s quick' % i,
                                thorough_cmd='python3 run.py check %s thorough' % i,
                                evidence_file='evidence/%s.json' % i, technique=c['technique'], level=c['level'], level_note=c['note']))
    else:
        m['not_applicable'].append(dict(property=i, reason=CH.NOT_APPLICABLE.get(i, 'check not built yet')))
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
import shutil
