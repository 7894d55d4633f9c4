"""mkseed.py NAME...|all : build, confirm and store planted bugs described in tools/seed/bugs.py (development helper)
   mkseed.py check NAME... : run the property's check (quick) against the planted bug in a scratch copy"""
import os, re, sys, subprocess, json, shutil
V = '/verif'
S = '/tmp/seed'
BUGS = {}


def bug(name, prop, file, old, new, needs, breaks, demo):
    BUGS[name] = (prop, [(file, old, new)] if isinstance(file, str) else file, needs, breaks, demo)


exec(open(V + '/tools/seed/bugs.py').read())


def sh(c, cwd=None, env=None, to=1200):
    p = subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, timeout=to)
    return p.returncode, p.stdout


def scratch(name):
    d = S + '/' + name
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(S, exist_ok=True)
    rc, o = sh('mkdir %s && cd /repo && git ls-files -z | xargs -0 cp -a --parents -t %s && cd %s && git init -q && git add -A && git -c user.email=a@b -c user.name=x commit -qm b' % (d, d, d))
    assert rc == 0, o
    for f, old, new in BUGS[name][1]:
        p = d + '/arm-wt-22k/' + f
        s = open(p, encoding='latin-1', newline='').read()
        lo, hi = 0, len(s)
        if old.startswith('@'):          # '@func|text': unique inside that function
            fn, old = old[1:].split('|', 1)
            m = re.search(r'^[A-Za-z][^;\n]*\b' + fn + r'\s*\([^;{]*\)\s*\{', s, re.M)
            assert m, (name, fn)
            lo, hi = m.start(), s.index('\n}', m.end())
        ms = list(re.finditer(r'\s+'.join(re.escape(x) for x in old.split()), s[lo:hi]))
        assert len(ms) == 1, (name, f, len(ms), old)
        a, b = lo + ms[0].start(), lo + ms[0].end()
        open(p, 'w', encoding='latin-1', newline='').write(s[:a] + new.strip() + s[b:])
    return d


BUILD = 'cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DBUILD_TESTING=ON -DFETCHCONTENT_FULLY_DISCONNECTED=ON >/dev/null && ninja -C _build -j8'


def make(name):
    prop, edits, needs, breaks, demo = BUGS[name]
    out = V + '/seeded/' + name
    d = scratch(name)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    _, diff = sh('git diff', d)
    open(out + '/patch.diff', 'w').write(diff)
    shutil.copy(V + '/tools/seed/demo.h', out)
    shutil.copy(V + '/tools/seed/demo.sh', out)
    open(out + '/demo.c', 'w').write('#include "demo.h"\n' + demo)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(out + '/meta.json', 'w'), indent=1)
    rc, o = sh(BUILD, d)
    if rc:
        print(name, 'BUILD FAILS', o[-1500:]); return
    env = dict(os.environ, TEMP=d + '/_build')
    rc, o = sh('ctest --test-dir _build -j1 --timeout 300 2>&1 | tail -8', d, env)
    tests = '100% tests passed' in o
    rcp, op = sh('bash %s/demo.sh' % out, d)
    rcu, ou = sh('bash %s/demo.sh' % out, '/repo')
    ok = tests and rcp != 0 and rcu == 0
    print(name, prop, 'OK' if ok else 'BAD', 'tests', tests, 'patched', rcp, op.strip()[-200:], '| clean', rcu, ou.strip()[-200:], flush=True)
    shutil.rmtree(d, ignore_errors=True)


def check(name):
    prop = BUGS[name][0]
    d = scratch(name)
    rc, o = sh('python3 %s/lib/driver.py check %s' % (V, prop), V, dict(os.environ, VK_REPO=d))
    print(name, prop, 'CAUGHT' if rc == 1 else 'MISSED rc=%d' % rc, [l for l in o.splitlines() if 'VIOLATION' in l or 'failed obl' in l], [l.strip()[:250] for l in o.splitlines() if ' fail ' in l or 'inconcl' in l][:4], flush=True)
    shutil.rmtree(d, ignore_errors=True)


a = sys.argv[1:]
f = make
if a[0] == 'check':
    f = check
    a = a[1:]
names = [n for n in BUGS if a == ['all'] or n in a or BUGS[n][0] in a]
for n in names:
    f(n)
