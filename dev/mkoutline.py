#!/usr/bin/env python3
"""writes specs/outline.json (the declarations of /repo/src the reference models refer to by name) and specs/fields.json
(the default member initialisers they take as given)"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/engine')
import ir
p = ir.Program()
import glob
ir.load(p, ir.REPO, sorted(glob.glob(ir.REPO + '/src/*.cpp')))
json.dump(ir.outline(p), open(V + '/specs/outline.json', 'w'), indent=0, sort_keys=True)
json.dump(ir.fieldinits(p), open(V + '/specs/fields.json', 'w'), indent=0, sort_keys=True)
