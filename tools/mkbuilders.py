#!/usr/bin/env python3
"""Writes sim/harness/builders_gen.go: the constructors of every builder of the repository."""
import os, re, sys
repo = sys.argv[1] if len(sys.argv) > 1 else '/repo'
out = []
imports = {}
for root in ('domain', 'applications'):
    for d, _, files in os.walk(os.path.join(repo, root)):
        for f in sorted(files):
            if not f.endswith('.go') or f.endswith('_test.go'):
                continue
            s = open(os.path.join(d, f)).read()
            rel = os.path.relpath(d, repo)
            for m in re.finditer(r'^func (New\w*Builder)\(\) (\w+) \{', s, re.M):
                if 'AdapterBuilder' in m[1] or 'ApplicationBuilder' in m[1] or rel == 'applications/languages/lexers':
                    continue
                alias = 'p_' + rel.replace('/', '_').replace('domain_', '').replace('languages_', '')
                imports[alias] = 'github.com/steve-care-software/steve/' + rel
                short = rel.replace('domain/', '')
                out.append((short + '.' + m[2], alias + '.' + m[1]))
out.sort()
with open('/verif/sim/harness/builders_gen.go', 'w') as o:
    o.write('//go:build go1.23\n\npackage main\n\n// written by tools/mkbuilders.py\n\nimport (\n')
    for a in sorted(imports):
        o.write('\t%s "%s"\n' % (a, imports[a]))
    o.write(')\n\nvar builderCtors = []builderCtor{\n')
    for n, c in out:
        o.write('\tmkBuilder("%s", %s),\n' % (n, c))
    o.write('}\n')
os.system('gofmt -w /verif/sim/harness/builders_gen.go')
