#!/usr/bin/env python3
"""note.py ID TECHNIQUE NOTE: records a check's technique and note, and regenerates MANIFEST.json."""
import json, os, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__))
p = os.path.join(here, 'level_notes.json')
d = json.load(open(p))
d[sys.argv[1]] = [sys.argv[2], sys.argv[3]]
json.dump(d, open(p, 'w'), indent=1)
subprocess.run([sys.executable, os.path.join(here, 'gen_manifest.py')], check=True)
