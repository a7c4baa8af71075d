#!/bin/bash
# addprop.sh FILE: insert property entries and regenerate
python3 - "$1" <<'P'
import sys
s=open('/verif/tools/properties.py').read()
s=s.replace("#MORE\n",open(sys.argv[1]).read()+"#MORE\n")
open('/verif/tools/properties.py','w').write(s)
P
cd /verif && python3-vt tools/properties.py && python3-vt tools/manifest.py
