"""Fills the table of planted bugs in DESIGN.md from the logs of tools/seedcheck.sh (development aid)."""
import glob, json, os, re
rows = ['| planted bug | manifests with | caught by |', '|---|---|---|']
for d in sorted(glob.glob('/verif/seeded/*/')):
    i = os.path.basename(d[:-1])
    m = json.load(open(d + 'meta.json'))
    log = f'/tmp/seed/{i}.check'
    hit = re.search(r'VIOLATION property=(\S+) replay=\S*/([^/\s]+?)(?:\.json)?(\s|$)', open(log).read()) if os.path.exists(log) else None
    rows.append(f"| {i} | {m['needs']} | {hit[1] + ': ' + hit[2].replace('-', ' ') if hit else '?'} |")
s = open('/verif/DESIGN.md').read()
a = s.index('Results:\n') + len('Results:\n')
open('/verif/DESIGN.md', 'w').write(s[:a] + '\n' + '\n'.join(rows) + '\n')
