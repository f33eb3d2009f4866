#!/usr/bin/env python3
"""Setup: the specifications parse, and the harness compiles; checks build for themselves."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
for tool in ('java', 'g++', 'python3'):
    subprocess.run(['sh', '-c', 'command -v ' + tool], check=True, stdout=subprocess.DEVNULL)
cp = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
d = os.path.join(HERE, 'specs')
mods = sorted(f for f in os.listdir(d) if f.endswith('.tla'))
p = subprocess.run(['java', '-cp', cp, 'tla2sany.SANY'] + mods, cwd=d, capture_output=True, text=True)
if p.returncode or 'rror' in p.stdout:
    print(p.stdout[-3000:])
    sys.exit(1)
print(len(mods), 'modules parsed')
