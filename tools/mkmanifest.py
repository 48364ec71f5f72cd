#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from tools/mkprops.py and vlib/table.py."""
import json, os, subprocess, sys
B = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, B + '/vlib')
sys.path.insert(0, B + '/tools')
import mkprops, table
subprocess.run([sys.executable, B + '/tools/mkprops.py'], check=True)
subprocess.run([sys.executable, B + '/tools/genlib.py'], check=True)
ids = [p['id'] for p in mkprops.P]
hooks = [l.split()[0] for l in subprocess.run(['git', '-C', '/repo', 'log', '--format=%H %s'], capture_output=True, text=True).stdout.splitlines() if 'verification hooks' in l.lower()]
m = dict(version=1, setup_cmd='python3 check.py --help',
         hooks=dict(guard='cfg lofty_verif="<area>" (areas: mpeg, aac, flac, id3, iff, mp4, ape, musepack, wavpack, util, ogg)',
                    enable='RUSTFLAGS=\'--cfg lofty_verif="<area>"\' for the areas a check names in vlib/table.py; set by check.py',
                    source_commits=hooks),
         checks=[], not_applicable=[])
for i in ids:
    if i in table.PROPS:
        c = table.PROPS[i]
        m['checks'].append(dict(property=i, quick_cmd=f'python3 check.py {i} --tier quick', thorough_cmd=f'python3 check.py {i} --tier thorough',
                                technique=c['technique'], level=c['level'], level_note=c['note']))
    else:
        m['not_applicable'].append(dict(property=i, reason=table.NOT_APPLICABLE.get(i, 'no check yet')))
json.dump(m, open(B + '/MANIFEST.json', 'w'), indent=1)
print(len(m['checks']), 'checks', len(m['not_applicable']), 'not applicable')
