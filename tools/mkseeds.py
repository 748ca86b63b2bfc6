#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the planted-bug definitions in seeds/*.txt.

A definition file:
  property: C01
  needs: ...
  breaks: ...
  race            (optional line: the demo runs under the race detector)
  === edit FILE
  <old text>
  === to
  <new text>
  === demo
  <Go test file body (package clause and imports included)>
"""
import json, os, re, shutil, subprocess, sys, glob
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(HERE, '..', 'seeded')
SW = '/tmp/sw'
only = sys.argv[1:]
for path in sorted(glob.glob(HERE + '/seeds/*.txt')):
    sid = os.path.basename(path)[:-4]
    if only and sid not in only:
        continue
    text = open(path).read()
    head, *parts = re.split(r'^=== ', text, flags=re.M)
    meta = {}
    race = False
    for l in head.splitlines():
        if l.strip() == 'race':
            race = True
        elif ':' in l:
            k, v = l.split(':', 1)
            meta[k.strip()] = v.strip()
    shutil.rmtree(SW, ignore_errors=True)
    subprocess.check_call(['git', 'clone', '-q', '/repo', SW])
    i = 0
    demo = None
    while i < len(parts):
        first, body = parts[i].split('\n', 1)
        if first.startswith('edit '):
            f = os.path.join(SW, first[5:].strip())
            assert parts[i + 1].startswith('to\n'), sid
            new = parts[i + 1][3:].rstrip('\n')
            body = body.rstrip('\n')
            s = open(f).read()
            if s.count(body) != 1:
                print(f'ERROR {sid}: {f}: old text occurs {s.count(body)} times:\n{body}'); break
            open(f, 'w').write(s.replace(body, new))
            i += 2
        elif first == 'demo':
            demo = body
            i += 1
        else:
            sys.exit(f'{sid}: bad section {first}')
    if i < len(parts):
        continue
    subprocess.check_call('gofmt -l . ', shell=True, cwd=SW)
    d = os.path.join(OUT, sid)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    diff = subprocess.check_output(['git', 'diff'], cwd=SW, text=True)
    open(d + '/patch.diff', 'w').write(diff)
    shutil.copy(HERE + '/seedlib/demo.sh', d)
    shutil.copy(HERE + '/seedlib/demolib_test.go.txt', d)
    open(d + '/demo_test.go.txt', 'w').write(demo)
    if race:
        open(d + '/race', 'w').write('1\n')
    json.dump({'property': meta['property'], 'needs': meta['needs'], 'what_it_breaks': meta['breaks']},
              open(d + '/meta.json', 'w'), indent=1)
    shutil.rmtree(SW, ignore_errors=True)
    print(sid)
