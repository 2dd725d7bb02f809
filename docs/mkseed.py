"""make a planted bug: mkseed.py SPECFILE   (python file defining SEEDS = [dict(id, prop, needs, breaks, edits=[(file, old, new)], scm, want)])
Applies the edits in /repo, builds, tests, runs the demo with and without, writes /verif/seeded/<id>, restores /repo."""
import sys, os, subprocess, json
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
R = '/repo'


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def build():
    p = sh('bash /opt/vp/build.sh')
    return p.returncode == 0, p.stdout[-800:] + p.stderr[-800:]


base = set(json.load(open('/opt/vp/BASELINE.json')).get('stable', [])) or None
for s in ns['SEEDS']:
    if only and s['id'] not in only:
        continue
    assert sh('git -C /repo status --porcelain').stdout == ''
    d = '/verif/seeded/' + s['id']
    os.makedirs(d, exist_ok=True)
    open(d + '/demo.scm', 'w').write(s['scm'])
    open(d + '/expected.txt', 'w').write(s['want'])
    open(d + '/demo.sh', 'w').write('#!/bin/bash\n# run in /repo after the build\nd=$(cd "$(dirname "$0")" && pwd)\nw=$(mktemp -d)\ntrap \'rm -r "$w"\' EXIT\nexe=$PWD/_build/pscm_cc\ncd "$w" || exit 2\ntimeout 120 "$exe" --test "$d/demo.scm" > "$w/out.txt" 2>"$w/err.txt" </dev/null || { echo "exit status $?"; tail -3 "$w/err.txt"; exit 1; }\ndiff "$d/expected.txt" "$w/out.txt"\n')
    json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
    try:
        ok, log = build()
        p = sh('bash %s/demo.sh' % d, cwd=R)
        if p.returncode:
            print(s['id'], 'DEMO FAILS ON CLEAN:', p.stdout[:600], p.stderr[:300])
            continue
        for f, old, new in s['edits']:
            t = open(R + '/' + f).read()
            if t.count(old) != 1:
                raise SystemExit('%s: %d matches in %s for %r' % (s['id'], t.count(old), f, old))
            open(R + '/' + f, 'w').write(t.replace(old, new))
        open(d + '/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
        ok, log = build()
        if not ok:
            print(s['id'], 'BUILD FAILS', log)
            continue
        sh('bash /opt/vp/test.sh /tmp/w/seed.json')
        r = json.load(open('/tmp/w/seed.json'))
        if base is not None and base - set(r['passed']):
            print(s['id'], 'BREAKS TESTS', sorted(base - set(r['passed']))[:5])
            continue
        p = sh('bash %s/demo.sh' % d, cwd=R)
        if p.returncode == 0:
            print(s['id'], 'DEMO PASSES WITH PATCH')
            continue
        print(s['id'], 'ok;', p.stdout.strip()[:150].replace('\n', ' | '))
    finally:
        sh('git -C /repo checkout -- .')
build()
