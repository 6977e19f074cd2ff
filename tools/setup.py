#!/usr/bin/env python3
"""Nothing to build ahead: checks that the toolchain is present and every module parses."""
import subprocess, sys, glob, os
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
os.chdir('/verif/spec')
bad = 0
for m in sorted(glob.glob('*.tla')):
    r = subprocess.run(['java', '-cp', JARS, 'tla2sany.SANY', m], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0 or 'Errors' in r.stdout:
        print(m, r.stdout[-800:]); bad = 1
sys.exit(bad)
