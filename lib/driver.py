#!/usr/bin/env python3
"""Contract-verification driver.

  driver.py check PROP [--tier quick|thorough]   decide one property (see README in DESIGN.md)
  driver.py unit NAME [-v]                        run one unit (development)
  driver.py list                                  list properties / units

A *unit* is one verification task: one function of /repo under an enforced
CBMC code contract (or one lemma over such functions).  Units live in
/verif/units/*.c and are declared there by lines of the form

  //@ unit NAME prop=X01 harness=h_name [enforce=func] [replace=f:f_spec,...]
  //@      [unwind=N] [fs=N] [link=a.c,b.c] [defs=-DA,-DB] [nochecks=signed-overflow,..]
  //@      [tier=quick|thorough] [timeout=S] [slots=N] [kind=proof|bounded] [solver=sat|cvc5|z3]
  //@      [native=0] [nlink=a.c,...] [bound=text]
  //@ assume[NAME] free text            (recorded in the evidence)
"""
import sys, os, re, json, subprocess, time, shutil, tempfile, threading, signal, resource
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VK_REPO', '/repo')
UNITS = os.path.join(VERIF, 'units')
LIB = os.path.join(VERIF, 'lib')
SRC = os.path.join(REPO, 'arm-wt-22k')
NCPU = os.cpu_count() or 4
SLOTS = max(2, min(8, NCPU))
STD_CHECKS = ['bounds', 'pointer', 'div-by-zero', 'signed-overflow', 'undefined-shift', 'pointer-primitive']

BASE_DEFS = ['-DDLS_SYNTHESIZER', '-DEAS_WT_SYNTH', '-DMAX_SYNTH_VOICES=64', '-DNUM_OUTPUT_CHANNELS=2',
             '-DUNIFIED_DEBUG_MESSAGES', '-D_16_BIT_SAMPLES', '-D_CHORUS_ENABLED', '-D_FILTER_ENABLED',
             '-D_REVERB_ENABLED', '-D_SAMPLE_RATE_44100', '-DNDEBUG']


def log(*a):
    print(*a, flush=True)


# ------------------------------------------------------------------ units --
class Unit:
    def __init__(self, name, file, attrs):
        self.name, self.file = name, file
        self.base = name
        self.props = attrs.get('prop', '').split(',')
        self.harness = attrs.get('harness', 'h_' + name)
        self.enforce = attrs.get('enforce')
        self.replace = [tuple(x.split(':')) for x in attrs.get('replace', '').split(',') if x]
        self.unwind = int(attrs.get('unwind', '1'))
        self.unwindset = attrs.get('unwindset', '')
        self.fs = attrs.get('fs', '16')
        self.link = [x for x in attrs.get('link', '').split(',') if x]
        self.nlink = [x for x in attrs['nlink'].split(',') if x] if 'nlink' in attrs else self.link
        self.defs = [x for x in attrs.get('defs', '').split(',') if x]
        self.nochecks = [x for x in attrs.get('nochecks', '').split(',') if x]
        self.tier = attrs.get('tier', 'quick')
        self.timeout = float(attrs.get('timeout', '300'))
        self.slots = int(attrs.get('slots', '1'))
        self.kind = attrs.get('kind', 'proof')
        self.bound = attrs.get('bound', '').replace('_', ' ')
        self.solver = attrs.get('solver', 'cadical')
        self.native = attrs.get('native', '1') != '0'
        self.nsub = attrs.get('native') == 'sub'    # replay with the contract stubs in place of the replaced callees
        self.nsan = attrs.get('nsan', '')
        self.loops = attrs.get('loops', '0') == '1'
        self.plain = attrs.get('mode', 'dfcc') == 'plain'
        if self.plain:
            self.defs.append('-DVK_PLAIN')
        self.inline = attrs.get('inline', '1') == '1'    # can the unit be decided with its callees inlined?
        self.objbits = attrs.get('objbits', '12')
        self.ignore = [x for x in attrs.get('ignore', '').split(',') if x]    # obligation classes not decided (named in DESIGN.md)
        self.covers = [x for x in attrs.get('covers', '').split(',') if x]
        self.assumes = []
        self.loopc = []


def load_units():
    units = {}
    for fn in sorted(os.listdir(UNITS)):
        if not fn.endswith('.c'):
            continue
        path = os.path.join(UNITS, fn)
        cur = None
        fileassume = []
        filedef = {}
        here = []
        fileloops = []
        for line in open(path):
            m = re.match(r'//@\s*(.*)$', line.rstrip())
            if not m:
                cur = None
                continue
            t = m.group(1)
            mm = re.match(r'loop\[(\w+)\]\s+(\w+):(\d+)\s+locals:(.*?);\s*assigns:(.*?);\s*inv:(.*)$', t)
            if mm:
                fileloops.append([x.strip() for x in mm.groups()])
                cur = None
                continue
            mm = re.match(r'inv\+(.*)$', t)
            if mm:
                fileloops[-1][5] += ' ' + mm.group(1).strip()
                continue
            if t.startswith('unit '):
                toks = t.split()
                cur = [toks[1], toks[2:]]
                here.append(cur)
            elif t.startswith('file '):
                filedef.update(dict(x.split('=', 1) for x in t.split()[1:]))
            elif t.startswith('assume'):
                mm = re.match(r'assume(?:\[(\w+)\])?\s+(.*)$', t)
                fileassume.append((mm.group(1), mm.group(2)))
            elif cur is not None:
                cur[1] += t.split()
        for name, toks in here:
            attrs = dict(filedef)
            attrs.update(dict(x.split('=', 1) for x in toks))
            # cases=MACRO:0:1:2  -> one verification task per value (an exhaustive case split)
            split = [('', [])]
            if 'cases' in attrs:
                c = attrs['cases'].split(':')
                split = [('_%s' % v, ['-D%s=%s' % (c[0], v)]) for v in c[1:]]
            for suf, extra in split:
                u = Unit(name + suf, path, attrs)
                u.base = name
                u.defs = u.defs + extra
                u.assumes = [t for (n, t) in fileassume if n is None or n == name]
                u.loopc = [x for x in fileloops if x[0] == name]
                if u.name in units:
                    raise SystemExit('duplicate unit ' + u.name)
                units[u.name] = u
    return units


# ---------------------------------------------------------------- helpers --
def limits(gb):
    def f():
        os.setsid()
        try:
            resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))
        except Exception:
            pass
        try:
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        except Exception:
            pass
    return f


def run(cmd, timeout, cwd=None, gb=14, env=None, outfile=None):
    t0 = time.time()
    out = open(outfile, 'wb') if outfile else subprocess.PIPE
    try:
        p = subprocess.Popen(cmd, cwd=cwd, stdout=out, stderr=subprocess.STDOUT if not outfile else subprocess.DEVNULL,
                             preexec_fn=limits(gb), env=env)
    except OSError as e:
        return 127, str(e), 0.0
    try:
        o, _ = p.communicate(timeout=max(1, timeout))
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        o, _ = p.communicate()
        rc = -999
    if outfile:
        out.close()
        o = b''
    return rc, (o or b'').decode('utf-8', 'replace'), time.time() - t0


def gen_eas_h(dst):
    os.makedirs(dst, exist_ok=True)
    ver = ['3', '6', '14', '0']
    try:
        t = open(os.path.join(REPO, 'CMakeLists.txt')).read()
        m = re.search(r'VERSION\s+(\d+)\.(\d+)\.(\d+)\.(\d+)', t)
        if m:
            ver = list(m.groups())
    except OSError:
        pass
    s = open(os.path.join(SRC, 'host_src', 'eas.cmake')).read()
    for k, v in zip(['MAJOR', 'MINOR', 'PATCH', 'TWEAK'], ver):
        s = s.replace('@PROJECT_VERSION_%s@' % k, v)
    open(os.path.join(dst, 'eas.h'), 'w').write(s)


class Ctx:
    def __init__(self):
        self.work = tempfile.mkdtemp(prefix='vk_')
        gen_eas_h(os.path.join(self.work, 'inc'))
        # the newer of the installed z3 releases serves '--z3'
        zb = os.path.join(self.work, 'bin')
        os.makedirs(zb)
        z = shutil.which('z3-new') or shutil.which('z3')
        if z:
            os.symlink(z, os.path.join(zb, 'z3'))
        os.environ['PATH'] = zb + ':' + os.environ.get('PATH', '')
        self.flags = BASE_DEFS + ['-I' + os.path.join(self.work, 'inc'), '-I' + os.path.join(SRC, 'host_src'),
                                  '-I' + os.path.join(SRC, 'lib_src'), '-I' + os.path.join(REPO, 'fakes'), '-I' + LIB,
                                  '-I' + UNITS, '-DVK_REPO_DIR="%s"' % REPO]
        self.lock = threading.Lock()
        self.slots = threading.BoundedSemaphore(SLOTS)
        self.cc_cache = {}
        self.sib = {}
        self.deadline = time.time() + 840

    def sibling(self, u):
        """state shared by the cases of one case split"""
        with self.lock:
            return self.sib.setdefault(u.base, {'confirmed': '', 'lock': threading.Lock(), 'first': None})

    def inlined_run(self, u, sib):
        """decide the unit with its callees inlined; a case split that cannot be decided this way is tried once"""
        with sib['lock']:
            if sib['first'] is None:
                r = run_cbmc(self, u, [], 'i', max(u.timeout, 300))
                sib['first'] = r['status']
                return r
        if sib['first'] == 'inconclusive':
            return {'status': 'inconclusive', 'why': 'a sibling case was not decided with callees inlined', 'failed': [], 'n': 0, 'obl': {}}
        return run_cbmc(self, u, [], 'i', max(u.timeout, 300))

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)

    def src(self, f):
        for d in ('lib_src', 'host_src'):
            p = os.path.join(SRC, d, f)
            if os.path.exists(p):
                return p
        p = os.path.join(UNITS, f)
        return p

    def remaining(self):
        return self.deadline - time.time()

    def goto_cc(self, u, inlined=False):
        """compile the unit's translation unit + linked sources -> goto binary (cached per file/defs/link)"""
        extra = ['-DVK_INLINED'] if inlined else []
        key = (u.file, tuple(u.defs), tuple(u.link), inlined)
        with self.lock:
            ev = self.cc_cache.get(key)
            if ev is None:
                ev = self.cc_cache[key] = {'lock': threading.Lock(), 'done': None, 'n': len(self.cc_cache)}
        with ev['lock']:
            if ev['done'] is None:
                out = os.path.join(self.work, 'cc%d.gb' % ev['n'])
                cmd = ['goto-cc'] + self.flags + u.defs + extra + [u.file] + [self.src(f) for f in u.link] + ['-o', out]
                rc, o, _ = run(cmd, min(200, self.remaining()))
                ev['done'] = (rc, o, out)
        return ev['done']


# ------------------------------------------------------------------- cbmc --
def parse_json(path):
    try:
        data = open(path, 'rb').read().decode('utf-8', 'replace')
        return json.loads(data)
    except Exception:
        return None


def build_goto(ctx, u, replace, tag):
    inlined = bool(u.replace) and not replace
    rc, o, gb = ctx.goto_cc(u, inlined)
    if rc != 0:
        return None, 'goto-cc failed: ' + o[-1500:]
    base = os.path.join(ctx.work, '%s_%s' % (u.name, tag))
    notes = []
    cur = base + '_e.gb'
    rc, o, _ = run(['goto-cc', '--function', u.harness, gb, '-o', cur], min(120, ctx.remaining()))
    if rc != 0:
        return None, 'goto-cc link failed: ' + o[-800:]
    if replace:
        for f, g in replace:
            nxt = base + '_r.gb'
            rc, o, _ = run(['goto-instrument', '--replace-calls', '%s:%s' % (f, g), cur, nxt + '.tmp'], min(120, ctx.remaining()))
            if rc != 0:
                # the callee does not exist any more: decide the unit with all callees inlined
                gb2, n2 = build_goto(ctx, u, [], tag + 'x')
                return gb2, 'replace %s unavailable, callees inlined; %s' % (f, n2)
            os.replace(nxt + '.tmp', nxt)
            cur = nxt
    if u.loopc:
        nxt, err = annotate_loops(ctx, u, cur, base)
        if nxt is None:
            return None, 'loop contracts do not fit the code: ' + err
        cur = nxt
    if u.plain:
        nxt = base + '_u.gb'
        rc, o, _ = run(['goto-instrument', '--drop-unused-functions', cur, nxt], min(120, ctx.remaining()))
        if rc == 0:
            cur = nxt
    final = base + '_d.gb'
    if u.enforce and not u.plain:
        cmd = ['goto-instrument', '--dfcc', u.harness, '--enforce-contract', u.enforce]
        if u.loops:
            cmd += ['--apply-loop-contracts']
        rc, o, _ = run(cmd + [cur, final], min(200, ctx.remaining()))
        if rc != 0:
            return None, 'contract instrumentation failed: ' + o[-1500:]
        cur = final
    return cur, '; '.join(notes)


def annotate_loops(ctx, u, cur, base):
    # attach the loop invariants of the unit to the compiled loops (nothing is written into /repo)
    rc, o, _ = run(['goto-instrument', '--show-symbol-table', cur], min(120, ctx.remaining()))
    syms = re.findall(r'^Symbol\.*: (\S+)$', o, re.M)
    fns = {}
    for _, fn, lid, locs, asg, inv in u.loopc:
        sm = []
        for v in [x.strip() for x in locs.split(',') if x.strip()]:
            c = [x for x in syms if re.match(re.escape(fn) + r'(::\d+)*::' + re.escape(v) + '$', x)]
            if len(c) != 1:
                return None, 'no unique local %s in %s' % (v, fn)
            sm.append('%s,%s' % (v, c[0]))
        e = {'loop_id': lid, 'assigns': asg, 'invariants': inv}
        if sm:
            e['symbol_map'] = ';'.join(sm)
        fns.setdefault(fn, []).append(e)
    js = base + '_lc.json'
    json.dump({'sources': [u.file], 'functions': [{f: v} for f, v in fns.items()]}, open(js, 'w'))
    a, b = base + '_l1.gb', base + '_l2.gb'
    rc, o, _ = run(['goto-instrument', '--loop-contracts-file', js, cur, a], min(120, ctx.remaining()))
    if rc != 0 and 'get_loop_head_or_end' in o:      # loops with calls through function pointers: make the calls explicit first
        run(['goto-instrument', '--remove-function-pointers', cur, b], min(120, ctx.remaining()))
        rc, o, _ = run(['goto-instrument', '--loop-contracts-file', js, b, a], min(120, ctx.remaining()))
    if rc != 0 or 'not enough arguments' in o:
        m = re.search(r'Reason:.*|Condition:.*', o)
        return None, (m.group(0)[:200] + ' ' if m else '') + o[-400:]
    rc, o, _ = run(['goto-instrument', '--apply-loop-contracts', '--disable-loop-contracts-side-effect-check', a, b], min(200, ctx.remaining()))
    if rc != 0:
        m = re.search(r'Reason:.*|Condition:.*', o)
        return None, (m.group(0)[:200] + ' ' if m else '') + o[-400:]
    return b, ''


def cbmc_cmd(u, gb, extra):
    cmd = ['cbmc', gb]
    cmd += ['--json-ui', '--unwind', str(u.unwind), '--unwinding-assertions', '--max-field-sensitivity-array-size', u.fs,
            '--object-bits', u.objbits, '--verbosity', '8', '--slice-formula']
    if u.unwindset:
        cmd += ['--unwindset', u.unwindset]
    for c in u.nochecks:
        cmd += ['--no-%s-check' % c]
    if u.solver == 'cvc5':
        cmd += ['--cvc5']
    elif u.solver == 'z3':
        cmd += ['--z3']
    elif u.solver == 'kissat':
        cmd += ['--external-sat-solver', 'kissat']
    elif u.solver == 'cadical':
        cmd += ['--sat-solver', 'cadical']
    return cmd + extra


def classify(u, prop):
    """is this obligation about the real code / a contract clause, or internal to the machinery?"""
    name, desc = prop['property'], prop.get('description', '')
    loc = prop.get('sourceLocation', {})
    fn = loc.get('function', '') or ''
    if any('.%s.' % x in name for x in u.ignore):
        return 'ignored'
    if 'VACUITY' in desc:
        return 'vacuity'
    if '.unwind.' in name or 'unwinding assertion' in desc or '.recursion' in name:
        return 'unwind'
    if name.startswith('__CPROVER_contracts') or 'single top-level call' in desc or 'no_recursive_call' in name \
            or 'no_alloc_dealloc' in name:
        return 'internal'
    if 'loop invariant' in desc or 'loop_invariant' in name or 'loop instrumentation' in desc or 'decreases clause' in desc \
            or (u.loopc and ('is valid' in desc or 'is assignable' in desc or '.assigns.' in name)):
        return 'loopinv'
    if 'no-body' in name or 'no body' in desc or '.no_body' in name:
        return 'nobody'
    if 'ensures clause' in desc or '.postcondition' in name:
        return 'post'
    if 'requires clause' in desc or '.precondition' in name:
        return 'pre'
    if '.assigns.' in name or 'is assignable' in desc:
        if loc.get('file', '').startswith(VERIF):
            return 'internal'
        return 'frame'
    f = loc.get('file', '')
    if '.assertion.' in name:
        return 'assert' if f.startswith(VERIF) or f.startswith(REPO) else 'internal'
    if f.startswith(VERIF):
        return 'spec'
    if f.startswith(REPO):
        return 'safety'
    return 'internal'


def run_cbmc(ctx, u, replace, tag, timeout):
    res = {'status': 'inconclusive', 'why': '', 'obl': {}, 'n': 0, 'failed': [], 'time': 0.0, 'solver': 0.0}
    gb, note = build_goto(ctx, u, replace, tag)
    if gb is None:
        res['why'] = note
        return res
    res['note'] = note
    res['gb'] = gb
    out = os.path.join(ctx.work, '%s_%s.json' % (u.name, tag))
    rc, _, dt = run(cbmc_cmd(u, gb, []), min(timeout, ctx.remaining()), outfile=out, gb=20)
    res['time'] = dt
    if rc == -999:
        res['why'] = 'verifier timeout after %.0f s' % dt
        return res
    d = parse_json(out)
    if d is None:
        res['why'] = 'verifier produced no parsable result (rc=%s)' % rc
        return res
    results = None
    errs = []
    for m in d:
        if not isinstance(m, dict):
            continue
        if 'result' in m:
            results = m['result']
        t = m.get('messageText', '')
        mm = re.search(r'Runtime (?:decision procedure|Solver): ([\d.]+)', t)
        if mm and 'decision' in t:
            res['solver'] += float(mm.group(1))
        if m.get('messageType') == 'ERROR':
            errs.append(t)
    if results is None:
        res['why'] = 'verifier error: ' + '; '.join(errs)[-600:]
        return res
    counts = {}
    failed, vac, unw, other, linv = [], None, [], [], []
    for r in results:
        c = classify(u, r)
        st = r['status']
        if c == 'vacuity':
            vac = st if vac in (None, 'SUCCESS') else vac
            continue
        if c == 'ignored':
            continue
        if c in ('internal',):
            if st == 'FAILURE':
                other.append(r)
            continue
        if st == 'SUCCESS':
            counts[c] = counts.get(c, 0) + 1
        elif st == 'FAILURE':
            if c == 'unwind':
                unw.append(r)
            elif c == 'loopinv':
                linv.append(r)
            elif c in ('spec', 'nobody'):
                other.append(r)
            else:
                failed.append((c, r))
        else:
            other.append(r)
    res['obl'] = counts
    res['n'] = sum(counts.values()) + len(failed)
    res['failed'] = failed
    if failed:
        res['status'] = 'fail'
        res['tainted'] = bool(unw) or bool(u.loopc)
        res['linv'] = [x['property'] + ' ' + x.get('description', '') for x in linv + unw]
        return res
    if linv:
        res['why'] = 'loop invariant not inductive for this code: ' + ', '.join(x['property'] for x in linv[:4])
        return res
    if vac != 'FAILURE':
        res['why'] = 'vacuity guard: harness end not reachable (%s)' % vac
        return res
    if unw:
        res['why'] = 'loop bound exceeded: ' + ', '.join(x['property'] for x in unw[:5])
        return res
    if other:
        res['why'] = 'machinery obligation failed: ' + ', '.join(x['property'] + ' ' + x.get('description', '') for x in other[:3])
        return res
    if sum(counts.get(k, 0) for k in ('post', 'assert', 'frame', 'safety', 'pre')) == 0:
        res['why'] = 'no obligations generated'
        return res
    res['status'] = 'pass'
    return res


# ------------------------------------------------------- counterexamples ---
def emit_value(v, lhs, out):
    if not isinstance(v, dict):
        return
    n = v.get('name')
    if n == 'struct' or 'members' in v:
        for m in v.get('members', []):
            if m['name'].startswith('$'):
                continue
            emit_value(m['value'], lhs + '.' + m['name'], out)
    elif n == 'array' or 'elements' in v:
        for e in v.get('elements', []):
            emit_value(e['value'], '%s[%s]' % (lhs, e['index']), out)
    elif n == 'union' and 'member' in v:
        emit_value(v['member']['value'], lhs + '.' + v['member']['name'], out)
    elif n in ('integer', 'boolean') or 'binary' in v:
        b = v.get('binary')
        if b and re.match(r'^[01]+$', b):
            val = int(b, 2)
            if val:
                out.append('%s = 0x%xULL;' % (lhs, val))
        elif str(v.get('data', '')).lower() == 'true':
            out.append('%s = 1;' % lhs)


def extract_inputs(u, trace):
    """first value given to each INPUT object inside the harness"""
    got = {}
    for s in trace:
        if s.get('stepType') != 'assignment':
            continue
        lhs = s.get('lhs', '')
        if not re.match(r'^\w+$', lhs):
            continue
        if s.get('sourceLocation', {}).get('function') != u.harness:
            continue
        if lhs not in got:
            got[lhs] = s.get('value', {})
    return got


def input_names(u):
    names, todo, seen = set(), [u.file], set()
    while todo:
        f = todo.pop()
        if f in seen or not os.path.exists(f):
            continue
        seen.add(f)
        txt = open(f).read()
        names |= set(re.findall(r'\bINPUT\((\w+)\)', txt))
        todo += [os.path.join(UNITS, x) for x in re.findall(r'#include "(\w+\.h)"', txt)]
    return names


def gen_wrapper(ctx, u, inputs, path):
    body = []
    names = input_names(u)
    for k in sorted(inputs):
        if k not in names:
            continue
        st = []
        emit_value(inputs[k], '(*q)', st)
        body.append('  if (!strcmp(name, "%s")) { __typeof__(%s) *q = p; (void) q;\n    %s\n    return; }' % (k, k, '\n    '.join(st)))
    with open(path, 'w') as f:
        f.write('/* generated replay driver: real code + counterexample values */\n#define VK_NATIVE 1\n')
        f.write('#include "%s"\n#include <string.h>\n' % u.file)
        f.write('int vk_have_cex = %d;\nvoid vk_apply_cex(const char *name, void *p) { (void) p;\n%s\n}\n' % (1 if body else 0, '\n'.join(body)))
        f.write('void vk_harness(void) { %s(); }\n' % u.harness)


def native_build(ctx, u, wrapper, exe):
    san = ['address', 'bounds', 'null', 'integer-divide-by-zero', 'return', 'object-size']
    if 'signed-overflow' not in u.nochecks:
        san.append('signed-integer-overflow')
    if u.nsan:
        san = [x for x in u.nsan.split('+') if x and x != 'none']
    cmd = ['gcc', '-g', '-O1', '-w', '-std=gnu11']
    if san:
        cmd += ['-fsanitize=' + ','.join(san), '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']
    if u.nsub:
        # compile to assembly and send the calls of the replaced callees to their contracts
        asm = exe + '.s'
        c1 = cmd + ['-O0', '-fno-inline', '-fno-optimize-sibling-calls', '-fcf-protection=none'] + ctx.flags + u.defs + ['-S', wrapper, '-o', asm]
        rc, o, _ = run(c1, min(100, ctx.remaining()), gb=64)
        if rc:
            return rc, o, c1
        txt = open(asm).read()
        for f, g in u.replace:
            txt = re.sub(r'\b(call|jmp)(\s+)%s(@PLT)?\s*$' % re.escape(f), r'\1\2%s\3' % g, txt, flags=re.M)
        open(asm, 'w').write(txt)
        wrapper = asm
    cmd += ctx.flags + u.defs + [wrapper, os.path.join(LIB, 'native.c')] + [ctx.src(f) for f in u.nlink] + ['-lm', '-lpthread', '-o', exe]
    rc, o, _ = run(cmd, min(150, ctx.remaining()), gb=64)
    return rc, o, cmd


NENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1',
            UBSAN_OPTIONS='print_stacktrace=0')


def run_native(exe, args, timeout, cwd):
    t0 = time.time()
    try:
        p = subprocess.Popen([exe] + args, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(NENV, VK_PROGRESS=os.path.join(cwd, os.path.basename(exe) + '.prog')),
                             preexec_fn=os.setsid)
        try:
            o, _ = p.communicate(timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            o, _ = p.communicate()
            rc = -999
    except OSError as e:
        return 127, str(e)
    return rc, o.decode('utf-8', 'replace')


def native_search(ctx, u, inputs, tag, seed, secs):
    """replay the counterexample on the real code; otherwise seeded search around it.
       returns (found, description, details)"""
    wrapper = os.path.join(ctx.work, '%s_%s_w.c' % (u.name, tag))
    exe = os.path.join(ctx.work, '%s_%s_w' % (u.name, tag))
    try:
        gen_wrapper(ctx, u, inputs, wrapper)
    except Exception as e:
        return False, 'wrapper generation failed: %r' % (e,), {}
    rc, o, cmd = native_build(ctx, u, wrapper, exe)
    for _ in range(3):                 # a local of the harness that merely shares the name of an input
        bad = set(re.findall('error: \u2018(\\w+)\u2019 undeclared', o)) if rc else set()
        if not bad & set(inputs):
            break
        inputs = {k: v for k, v in inputs.items() if k not in bad}
        gen_wrapper(ctx, u, inputs, wrapper)
        rc, o, cmd = native_build(ctx, u, wrapper, exe)
    if rc != 0:
        return False, 'native build failed: ' + o[-800:], {}
    det = {'build': ' '.join(cmd), 'wrapper': open(wrapper).read()}
    if inputs:
        rc, o = run_native(exe, ['replay'], 20, ctx.work)
        det['replay_rc'], det['replay_out'] = rc, o[-3000:]
        if rc == 99 or (rc not in (0, 77, 127) and rc != -999):
            det['how'] = 'replay of the verifier counterexample'
            return True, 'counterexample replayed on the real code (exit %s): %s' % (rc, first_line(o)), det
    n = 0
    budget = max(1.0, min(secs, ctx.remaining() - 20))
    rc, o = run_native(exe, ['random', str(seed), '100000000', str(budget)], budget + 15, ctx.work)
    det['random_rc'], det['random_out'] = rc, o[-3000:]
    if rc == 99 or (rc not in (0, 77, 127) and rc != -999):
        k = ''
        try:
            k = open(os.path.join(ctx.work, os.path.basename(exe) + '.prog')).read().strip(' \0\n')
        except OSError:
            pass
        det['how'] = 'seeded search, re-run with: one %s %s' % (seed, k)
        return True, 'seeded search around the counterexample, run %s of seed %s (exit %s): %s' % (k, seed, rc, first_line(o)), det
    return False, 'no failing native run found (%s)' % first_line(o), det


def first_line(o):
    for l in o.splitlines():
        if 'VK-FAIL' in l or 'runtime error' in l or 'ERROR: AddressSanitizer' in l or 'VK-' in l:
            return l.strip()[:300]
    return o.strip().splitlines()[0][:200] if o.strip() else ''


def get_trace(ctx, u, gb, pname, tag, timeout):
    out = os.path.join(ctx.work, '%s_%s_t.json' % (u.name, tag))
    rc, _, dt = run(cbmc_cmd(u, gb, ['--trace', '--property', pname]), min(timeout, ctx.remaining()), outfile=out, gb=20)
    d = parse_json(out)
    if not d:
        return {}
    for m in d:
        if isinstance(m, dict) and 'result' in m:
            for r in m['result']:
                if r['property'] == pname and r['status'] == 'FAILURE':
                    return extract_inputs(u, r.get('trace', []))
    return {}


# -------------------------------------------------------------- one unit ---
def decide(ctx, u, seed):
    t0 = time.time()
    r = run_cbmc(ctx, u, u.replace, 'm', u.timeout)
    rep = {'unit': u.name, 'file': u.file, 'enforce': u.enforce, 'kind': u.kind, 'bound': u.bound,
           'replaced': ['%s by %s' % x for x in u.replace], 'covers': u.covers,
           'obligations': r['n'], 'discharged': sum(r['obl'].values()), 'by_class': r['obl'], 'verifier_s': round(r['time'], 2),
           'solver_s': round(r['solver'], 2), 'solver': u.solver, 'status': r['status'], 'why': r['why'], 'note': r.get('note', ''),
           'assumes': u.assumes, 'not_inductive': r.get('linv', [])}
    sib = ctx.sibling(u)
    if r['status'] == 'fail' and sib['confirmed']:
        rep['failed'] = ['%s: %s' % (p['property'], p.get('description', '')) for c, p in r['failed']]
        if not r.get('tainted'):
            rep['confirmed'], rep['confirm'], rep['detail'] = False, 'not replayed: %s already failed on the real code' % sib['confirmed'], {}
        else:
            rep['status'], rep['why'] = 'inconclusive', 'loop bound does not fit'
    elif r['status'] == 'fail':
        rep['failed'] = ['%s: %s [%s:%s]' % (p['property'], p.get('description', ''), os.path.basename(p.get('sourceLocation', {}).get('file', '')),
                                            p.get('sourceLocation', {}).get('line', '')) for c, p in r['failed']]
        found, desc, det = confirm(ctx, u, r, 'm', seed)
        if found:
            sib['confirmed'] = u.name
        if not found and u.replace and u.inline and ctx.remaining() > 60 and not sib['confirmed']:
            r2 = ctx.inlined_run(u, sib)
            rep['inlined'] = r2['status'] + (': ' + r2['why'] if r2['why'] else '')
            if r2['status'] == 'pass':
                rep['status'] = 'pass'
                rep['note'] += ' modular proof failed, proof with callees inlined accepted'
                rep['obligations'], rep['discharged'] = r2['n'], sum(r2['obl'].values())
                rep['by_class'] = r2['obl']
                rep['wall_s'] = round(time.time() - t0, 2)
                return rep
            if r2['status'] == 'fail':
                found, desc, det = confirm(ctx, u, r2, 'i', seed)
                if found:
                    sib['confirmed'] = u.name
        if r.get('tainted') and not found:
            # a loop bound no longer covers the code: nothing was decided
            rep['status'] = 'inconclusive'
            rep['why'] = 'obligations fail, but a loop bound or loop invariant no longer fits the code; not confirmed on the real code'
        else:
            rep['confirmed'], rep['confirm'], rep['detail'] = found, desc, det
    elif r['status'] == 'inconclusive' and u.native and ctx.remaining() > 30:
        # the verifier did not decide this unit: weaker, bounded stand-in
        # (seeded runs of the same contract on the real code), never counted as proof
        found, desc, det = native_search(ctx, u, {}, 'f', seed, 15)
        rep['fallback'] = 'bounded: seeded native contract checking: ' + desc
        if found:
            rep['status'] = 'fail'
            rep['failed'] = ['contract clause (seeded native run, verifier undecided: %s)' % r['why'][:200]]
            rep['confirmed'], rep['confirm'], rep['detail'] = True, desc, det
    rep['wall_s'] = round(time.time() - t0, 2)
    return rep


def confirm(ctx, u, r, tag, seed):
    order = {'post': 0, 'assert': 1, 'safety': 2, 'pre': 3, 'frame': 4}
    fl = sorted(r['failed'], key=lambda x: order.get(x[0], 9))
    desc, det = 'native replay not available', {}
    if not u.native:
        return False, desc, det
    first = True
    for c, p in fl[:2]:
        inputs = get_trace(ctx, u, r['gb'], p['property'], tag, u.timeout)
        found, desc, det = native_search(ctx, u, inputs, tag, seed, 12)
        det['obligation'] = p['property']
        if found:
            return True, desc, det
        if ctx.remaining() < 60:
            break
    return False, desc, det


# ---------------------------------------------------------------- checks ---
def known_findings():
    res = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding:\s+property=(\S+)\s+unit=(\S+)\s+obligation=(\S+)\s+(.*)$', l)
            if m:
                res.append(m.groups())
    return res


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    units = [u for u in load_units().values() if prop in u.props and (tier == 'thorough' or u.tier == 'quick')]
    if not units:
        log('no units for', prop)
        return 0
    ctx = Ctx()
    if tier == 'thorough':
        ctx.deadline = time.time() + 3600
    reps = []
    try:
        sem = threading.Condition()
        free = [SLOTS]

        def work(u):
            need = min(u.slots, SLOTS)
            with sem:
                while free[0] < need:
                    sem.wait()
                free[0] -= need
            try:
                return decide(ctx, u, seed)
            except Exception as e:
                return {'unit': u.name, 'status': 'inconclusive', 'why': 'driver exception %r' % (e,), 'obligations': 0, 'discharged': 0,
                        'by_class': {}, 'verifier_s': 0, 'solver_s': 0, 'kind': u.kind, 'enforce': u.enforce, 'assumes': u.assumes,
                        'replaced': [], 'solver': u.solver, 'covers': u.covers, 'bound': u.bound, 'note': ''}
            finally:
                with sem:
                    free[0] += need
                    sem.notify_all()

        units.sort(key=lambda u: -u.slots * 1000 - u.timeout)
        with ThreadPoolExecutor(max_workers=len(units)) as ex:
            reps = list(ex.map(work, units))
    finally:
        ctx.close()
    known = known_findings()
    rdir = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    viol = []
    kf = []
    for r in reps:
        line = '  unit %-34s %-12s obligations %d/%d  %.1fs' % (r['unit'], r['status'], r['discharged'], r['obligations'], r.get('wall_s', 0))
        if r['status'] != 'pass':
            line += '  ' + (r.get('why') or '; '.join(r.get('failed', [])[:3]))[:400]
        if r.get('note'):
            line += '  (note: %s)' % r['note'][:200]
        if r.get('fallback'):
            line += '  [%s]' % r['fallback'][:200]
        log(line)
        if r['status'] == 'fail':
            names = ' '.join(r['failed'])
            hit = [k for k in known if k[0] == prop and k[1] == r['unit'] and all(re.search(k[2], f) for f in r['failed'])]
            if hit:
                kf.append('KNOWN-FINDING: property=%s %s' % (prop, hit[0][3]))
                continue
            path = os.path.join(rdir, '%s_%s.json' % (prop, r['unit']))
            json.dump({'property': prop, 'unit': r['unit'], 'function': r['enforce'], 'failed_obligations': r['failed'],
                       'confirmed_on_real_code': r.get('confirmed', False), 'confirmation': r.get('confirm', ''),
                       'inlined_run': r.get('inlined', ''), 'detail': r.get('detail', {})}, open(path, 'w'), indent=1)
            viol.append((path, r.get('confirmed', False), r['failed'][0]))
    for k in kf:
        log(k)
    proof = [r for r in reps if r['kind'] == 'proof']
    pn = sum(r['obligations'] for r in proof)
    pd = sum(r['discharged'] for r in proof if r['status'] == 'pass') + sum(r['discharged'] for r in proof if r['status'] != 'pass')
    assumptions = []
    for r in reps:
        for a in r.get('assumes', []):
            if a not in assumptions:
                assumptions.append(a)
    allu = load_units()
    enforced = {u.enforce for u in allu.values()} | {c for u in allu.values() for c in u.covers}
    for f in sorted({f for r in reps for f in replaced_names(r.get('replaced'))} - enforced):
        assumptions.append('the contract put in the place of %s is assumed (no unit enforces it)' % f)
    assumptions += ['CBMC 6.11 (goto-cc, goto-instrument --dfcc, bit-precise SAT/SMT back end) is trusted',
                    'LP64 little-endian target as configured by the build (long is 64 bit, int 32 bit)']
    bnd = [r for r in reps if r['kind'] != 'proof']
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof' if proof else 'other',
          'coverage': {'explanation': 'obligations/discharged count the unbounded contract proofs; bounded_obligations/bounded_discharged count units with a stated bound (see units[].bound), never counted as proved',
                       'obligations': max(pn, 0), 'discharged': pd,
                       'bounded_obligations': sum(r['obligations'] for r in bnd), 'bounded_discharged': sum(r['discharged'] for r in bnd),
                       'checker_cmd': 'python3 /verif/lib/driver.py check %s --tier %s  (goto-cc; goto-instrument --dfcc --enforce-contract; cbmc --unwinding-assertions)' % (prop, tier),
                       'trusted_base': ['CBMC 6.11 front end, contract instrumentation and bundled SAT solver (CaDiCaL), z3 where a unit says so', 'callee contracts replaced at call sites are each enforced by their own unit or listed under assumptions'],
                       'functions_under_contract': sorted({r['enforce'] for r in reps if r.get('enforce')} | {c for r in reps for c in r.get('covers', [])}),
                       'solver_time_s': round(sum(r['solver_s'] for r in reps), 2),
                       'verifier_time_s': round(sum(r['verifier_s'] for r in reps), 2),
                       'units': [{k: r.get(k) for k in ('unit', 'enforce', 'covers', 'kind', 'bound', 'status', 'why', 'note', 'replaced', 'obligations', 'discharged', 'by_class', 'solver', 'verifier_s', 'solver_s', 'fallback', 'failed', 'confirm')} for r in reps],
                       'undecided_units': [r['unit'] for r in reps if r['status'] == 'inconclusive']},
          'assumptions': assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    for path, conf, what in viol:
        log('failed obligation: ' + what)
    if viol:
        viol.sort(key=lambda v: not v[1])
        path, conf, what = viol[0]
        log('VIOLATION property=%s replay=%s%s' % (prop, path, '' if conf else ' no-failing-input-found'))
        return 1
    log('OK property=%s units=%d obligations=%d discharged=%d undecided=%d wall=%.1fs' % (prop, len(reps), pn, pd, len(ev['coverage']['undecided_units']), time.time() - t0))
    return 0


def replaced_names(x):
    return [re.split(r'[:/= ]', str(y[0] if isinstance(y, (list, tuple)) else y))[0] for y in (x or [])]


def main():
    a = sys.argv[1:]
    if a and a[0] == 'list':
        us = load_units()
        for n, u in us.items():
            log(','.join(u.props), n, u.enforce or '(lemma)')
        return 0
    if a and a[0] == 'unit':
        us = load_units()
        ctx = Ctx()
        rc = 0
        try:
            for n in a[1:]:
                if n.startswith('-'):
                    continue
                r = decide(ctx, us[n], int(os.environ.get('VERIF_SEED', '1')))
                d = r.pop('detail', {})
                log(json.dumps(r, indent=1)[:4000])
                if '-v' in a:
                    log(d.get('replay_out', ''), d.get('random_out', ''), [l for l in d.get('wrapper', '').splitlines() if '(*q)' in l][:80])
        finally:
            if '-k' not in a:
                ctx.close()
            else:
                log(ctx.work)
        return rc
    if a and a[0] == 'check':
        tier = 'quick'
        if '--tier' in a:
            tier = a[a.index('--tier') + 1]
        try:
            return check(a[1], tier)
        except SystemExit:
            raise
        except Exception as e:
            import traceback
            traceback.print_exc()
            return 2
    log(__doc__)
    return 2


if __name__ == '__main__':
    sys.exit(main())
