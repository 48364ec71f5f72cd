#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--replay FILE]"""
import argparse, json, os, sys
from pathlib import Path
sys.path.insert(0, str(Path(__file__).resolve().parent / 'vlib'))
from driver import Check, VERIF
from table import PROPS

a = argparse.ArgumentParser()
a.add_argument('id')
a.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
a.add_argument('--replay')
a = a.parse_args()
seed = int(os.environ.get('VERIF_SEED') or 1)
c = Check(a.id, PROPS[a.id], a.tier, seed)
if a.replay:
    d = json.load(open(VERIF / a.replay if not os.path.exists(a.replay) else a.replay))
    if 'input' not in d:
        print(json.dumps(d, indent=1))
        sys.exit(0)
    (VERIF / '.build').mkdir(exist_ok=True)
    if not c.build_native():
        print(c.notes)
        sys.exit(2)
    lab = c.replay_native(d['harness'], d['input'])
    print('violated: ' + lab if lab else 'the obligation holds on this input')
    sys.exit(1 if lab else 0)
c.main()
