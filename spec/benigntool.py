"""python3 spec/benigntool.py spec/benignN.py : behaviour-preserving edits as patches below /tmp/seedwork/benign (for matrix runs)"""
import sys, os, subprocess, importlib.util, difflib, shutil
spec = importlib.util.spec_from_file_location('b', sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
OUT = os.environ.get('OUT', '/tmp/seedwork/benign')
for id, edits in m.B:
    files = {}
    bad = False
    for f, old, new in edits:
        s = files.get(f) or open('/repo/' + f).read()
        if s.count(old) != 1: print('BAD', id, f, s.count(old), repr(old[:60])); bad = True; break
        files[f] = s.replace(old, new)
    if bad: continue
    d = os.path.join(OUT, id); os.makedirs(d, exist_ok=True)
    p = ''
    for f, s in files.items():
        a = open('/repo/' + f).read()
        p += ''.join(difflib.unified_diff(a.splitlines(True), s.splitlines(True), 'a/' + f, 'b/' + f))
    open(d + '/patch.diff', 'w').write(p)
