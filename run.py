#!/usr/bin/env python3
"""Driver of the contract proofs for crashmail.

  run.py check Pnn [--tier quick|thorough]   decide one property
  run.py harness NAME [--keep]               run a single proof (development)
  run.py list                                list proofs and properties

Every run recompiles /repo's working tree with goto-cc, links the real
functions with the contracts in /verif/proofs, lets goto-instrument (DFCC)
turn the contracts into obligations and lets cbmc discharge them.  A failing
obligation's counterexample is replayed natively (gcc + ASan/UBSan) on the
real sources.
"""
import sys, os, re, json, time, subprocess, tempfile, shutil, hashlib
from concurrent.futures import ThreadPoolExecutor, as_completed

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
PROOFS = os.path.join(VERIF, 'proofs')
EVID = os.path.join(VERIF, 'evidence')
REPLAY = os.path.join(VERIF, 'evidence', 'replay')
DEFS = ['-DPLATFORM_LINUX', '-DMSGBASE_MSG', '-DMSGBASE_JAM', '-DNODELIST_CMNL', '-DNODELIST_V7P']
TOOLS = ['crashexport', 'crashgetnode', 'crashlist', 'crashlistout', 'crashmaint', 'crashstats', 'crashwrite']
MEMKB = 24 * 1024 * 1024
NPROC = 8

DEADLINE = None     # quick checks give their answer within 900 s
def left(t): return t if DEADLINE is None else max(1, min(t, DEADLINE - time.time()))

class Broken(Exception):
    """The check could not be carried out (not a verdict on the property)."""

def sh(cmd, timeout=None, cwd=None, env=None):
    def lim():
        import resource, ctypes
        ctypes.CDLL(None).prctl(1, 9)   # die with the driver
        resource.setrlimit(resource.RLIMIT_AS, (MEMKB * 1024, MEMKB * 1024))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=env,
                         start_new_session=True, preexec_fn=lim)
    try:
        o, e = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, 9)
        except ProcessLookupError: pass
        p.communicate()
        return 'timeout', '', ''
    return p.returncode, o.decode('utf-8', 'replace'), e.decode('utf-8', 'replace')

# ---------------------------------------------------------------- sources

def sources(target):
    def d(x): 
        p = os.path.join(SRC, x)
        return sorted(os.path.join(p, f) for f in os.listdir(p) if f.endswith('.c'))
    base = d('shared') + d('oslib_linux') + d('cmnllib') + d('jamlib')
    if target == 'crashmail':
        return d('crashmail') + base
    if target in TOOLS:
        return [os.path.join(SRC, 'tools', target + '.c')] + base
    if target == 'jamlib':
        return d('jamlib')
    raise Broken('unknown target ' + target)

def cflags(src):
    if os.sep + 'jamlib' + os.sep in src:
        return ['-D__LINUX__']
    return ['-I', SRC] + DEFS

# ---------------------------------------------------------------- harness metadata

class H:
    pass

def load(name):
    h = H(); h.name = name; h.file = os.path.join(PROOFS, name + '.c')
    txt = open(h.file).read()
    md = {}
    for m in re.finditer(r'^//\s*@(\w+):\s*(.*?)\s*$', txt, re.M):
        md.setdefault(m.group(1), []).append(m.group(2))
    g = lambda k, dflt='': ' '.join(md.get(k, [dflt]))
    h.props = g('props').split()
    h.target = g('target', 'crashmail')
    h.enforce = g('enforce').split()
    h.replace = g('replace').split()
    h.unwind = int(g('unwind', '1'))
    h.hunwind = int(g('hunwind', '0'))     # bound for the harness's own loops
    h.lunwind = int(g('lunwind', '0'))     # bound for loops of libc models
    h.unwindset = g('unwindset').split()
    h.level = g('level', 'proof')          # proof | bounded
    h.bound = g('bound')
    h.tier = g('tier', 'quick')            # quick: both tiers
    h.flags = g('flags').split()
    h.defs = g('defs').split()
    h.thorough_defs = g('thorough_defs').split()
    h.thorough_unwind = int(g('thorough_unwind', '0'))
    h.srcdefs = g('srcdefs').split()       # extra defines for the repo sources
    h.timeout = int(g('timeout', '300'))
    h.functions = g('functions').split() or h.enforce
    h.desc = g('desc')
    h.assume = md.get('assume', [])
    h.extra = g('extra').split()           # extra model files in vf/
    h.overrides = re.findall(r'^//\s*@models:\s*(.*)$', txt, re.M)
    h.modeldefs = g('modeldefs').split()   # options of vf/libc_model.c
    h.noflags = g('nochecks').split()
    h.parts = g('parts').split()           # -DVF_PART=x case split, one cbmc run each
    h.part = None
    return h

def all_harness():
    return [load(f[:-2]) for f in sorted(os.listdir(PROOFS)) if f.endswith('.c')]

# ---------------------------------------------------------------- build

class Build:
    """goto objects of the repository's sources, one set per (target, extra defines)."""
    def __init__(self, tmp):
        self.tmp = tmp; self.cache = {}
    def objs(self, target, srcdefs, pool):
        key = (target, tuple(srcdefs))
        if key in self.cache: return self.cache[key]
        srcs = sources(target); out = []; jobs = []
        for i, s in enumerate(srcs):
            ck = ('obj', s, tuple(srcdefs))
            if ck in self.cache:
                out.append(self.cache[ck]); continue
            o = os.path.join(self.tmp, 'o%s_%s.o' % (hashlib.md5((s + ' '.join(srcdefs)).encode()).hexdigest()[:10], os.path.basename(s)[:-2]))
            out.append(o); self.cache[ck] = o
            jobs.append((s, ['goto-cc'] + cflags(s) + srcdefs + ['-c', s, '-o', o]))
        for (s, c), r in zip(jobs, pool.map(lambda j: sh(j[1], 120), jobs)):
            if r[0] != 0:
                raise Broken('goto-cc failed on %s: %s' % (s, (r[1] + r[2])[-600:]))
        self.cache[key] = out
        return out

def prepare(h, bld, pool, tmp, tier):
    objs = bld.objs(h.target, h.srcdefs, pool)
    defs = h.defs + (h.thorough_defs if tier == 'thorough' else []) + (['-DVF_PART=' + h.part] if h.part else [])
    tag = h.name + ('_' + h.part if h.part else '')
    ho = os.path.join(tmp, 'h_%s.o' % tag)
    hf = (['-D__LINUX__'] if h.target == 'jamlib' else []) + ['-I', SRC] + DEFS + ['-I', os.path.join(VERIF, 'vf'), '-I', PROOFS] + defs
    steps = [['goto-cc'] + hf + h.srcdefs + ['-c', h.file, '-o', ho]]
    lo = os.path.join(tmp, 'libc_%s.o' % tag)
    steps.append(['goto-cc'] + h.modeldefs + ['-c', os.path.join(VERIF, 'vf', 'libc_model.c'), '-o', lo])
    a, b0, b, c = (os.path.join(tmp, '%s.%s.goto' % (tag, x)) for x in 'adbc')
    steps.append(['goto-cc', '--function', 'vf_harness', ho, lo] + objs + ['-o', a])
    # library bodies, then everything unreachable from the harness goes away
    steps.append(['goto-instrument', '--drop-unused-functions', a, b0])
    steps.append(['goto-instrument', '--add-library', '--drop-unused-functions', '--no-malloc-may-fail', b0, b])
    if h.enforce or h.replace:
        ins = ['goto-instrument', '--dfcc', 'vf_harness']
        for f in h.enforce: ins += ['--enforce-contract', f]
        for f in h.replace: ins += ['--replace-call-with-contract', f]
        steps.append(ins + [b, c])
    else:
        steps.append(['goto-instrument', '--generate-function-body-options', 'assert-false-assume-false',
                      '--generate-function-body', '(?!__CPROVER|__builtin|__assert|nondet).*', b, c])
    for s in steps:
        r = sh(s, 200)
        if r[0] != 0:
            raise Broken('%s: %s failed: %s' % (tag, ' '.join(s[:3]), (r[1] + r[2])[-800:]))
    return c

CHECKS = {'bounds': '--no-bounds-check', 'pointer': '--no-pointer-check', 'signed': '--no-signed-overflow-check',
          'prim': '--no-pointer-primitive-check', 'div': '--no-div-by-zero-check', 'shift': '--no-undefined-shift-check'}

def loop_bounds(h, goto, unwind, scale):
    """--unwindset entries for harness and libc loops, found by the file a loop comes from."""
    if not (h.hunwind or h.lunwind): return []
    rc, out, err = sh(['cbmc', '--show-loops', '--json-ui', goto], 120)
    js = parse_json(out)
    if js is None: raise Broken('%s: --show-loops failed' % h.name)
    r = []
    for e in js:
        for l in e.get('loops', []) if isinstance(e, dict) else []:
            f = os.path.join(l['sourceLocation'].get('workingDirectory', ''), l['sourceLocation'].get('file', ''))
            f = os.path.realpath(f) if not l['sourceLocation'].get('file', '').startswith('<') else l['sourceLocation']['file']
            if f.startswith(os.path.realpath(PROOFS)) or f.endswith('_model.h'):
                if h.hunwind: r.append('%s:%d' % (l['name'], h.hunwind))
            elif not f.startswith(os.path.realpath(SRC)):
                if h.lunwind: r.append('%s:%d' % (l['name'], h.lunwind * scale))
    return r

def cbmc_cmd(h, goto, unwind, bounds=[]):
    # signed overflow is not part of any claimed property (the build uses no -ftrapv); pointer-primitive checks are
    # about the specification language, not the code
    off = set(h.noflags) | {'signed', 'prim'}
    cmd = ['cbmc', goto, '--unwind', str(unwind), '--no-malloc-may-fail', '--json-ui', '--object-bits', '12']
    if '--sat-solver' not in h.flags and not any(f in h.flags for f in ('--cvc5', '--z3', '--bitwuzla')): cmd += ['--sat-solver', 'cadical']
    for s in list(h.unwindset) + bounds: cmd += ['--unwindset', s]
    for o in sorted(off): cmd.append(CHECKS[o])
    return cmd + h.flags

def parse_json(out):
    try:
        return json.loads(out)
    except Exception:
        return None

def results(js):
    for e in js:
        if isinstance(e, dict) and 'result' in e: return e['result']
    return None

def classify(r):
    d = r.get('description', ''); p = r.get('property', '')
    if d.startswith('REACH '): return 'reach'
    if '.unwind.' in p or d.startswith('unwinding assertion'): return 'unwind'
    if 'undefined function should be unreachable' in d or 'no body for' in d or d.startswith('libc model:'): return 'tool'
    if 'assigns' in p and False: return 'obl'
    return 'obl'

# ---------------------------------------------------------------- counterexample -> native replay

def leaves(lhs, v, out):
    if 'members' in v:
        for m in v['members']:
            if m['name'].startswith('$pad'): continue
            leaves(lhs + '.' + m['name'], m['value'], out)
    elif 'elements' in v:
        for e in v['elements']:
            leaves('%s[%d]' % (lhs, e['index']), e['value'], out)
    elif 'binary' in v:
        out[lhs] = (int(v['binary'], 2), v.get('width', 8))

def cex_inputs(js):
    vals = {}; seen = False
    for r in results(js) or []:
        for s in r.get('trace', []):
            if s.get('stepType') == 'assignment':
                l = re.sub(r'\[(\d+)[a-z]*\]', r'[\1]', s.get('lhs', ''))
                if (l == 'vf_in' or l.startswith('vf_in.') or l.startswith('vf_in[')) and '$pad' not in l:
                    seen = True
                    leaves(l, s['value'], vals)
    return vals if seen else None

RANDOM_LOAD = r"""
#include <stdlib.h>
#include <string.h>
void vf_load(void)
{
   static const unsigned char nice[]={0,0,1,1,2,3,4,5,7,8,13,10,32,34,42,46,47,48,49,50,57,58,63,64,65,66,69,90,92,97,98,122,127,128,200,229,255};
   char *e=getenv("VF_RSEED"); unsigned long long x=(e ? strtoull(e,0,10) : 1)*0x9E3779B97F4A7C15ULL+1; unsigned char *p=(unsigned char *)&vf_in; size_t i; int mode=(int)(x>>61);
   for(i=0;i<sizeof(vf_in);i++)
   {
      unsigned v; x^=x<<13; x^=x>>7; x^=x<<17; v=(unsigned)(x>>33);
      p[i]=mode<3 ? nice[v%sizeof(nice)] : mode<5 ? v%4 : mode==5 ? v%2 : (unsigned char)v;
   }
}
"""

def native_build(h, tmp, vals, tier):
    """Compile the harness and the real sources natively; returns (exe, log)."""
    tag = h.name + ('_' + h.part if h.part else '')
    wd = os.path.join(tmp, 'native_' + tag); os.makedirs(wd, exist_ok=True)
    defs = h.defs + (h.thorough_defs if tier == 'thorough' else []) + (['-DVF_PART=' + h.part] if h.part else [])
    cex = '' if vals is None else ''.join('   %s=(%s)%dULL;\n' % (k, '__typeof__(%s)' % k, v[0]) for k, v in vals.items())
    src = '#define VF_NATIVE 1\n#include "%s"\nvoid vf_load(void)\n{\n%s}\n' % (h.file, cex)
    if vals is None: src = '#define VF_NATIVE 1\n#include "%s"\n' % h.file + RANDOM_LOAD
    hf = os.path.join(wd, 'replay_%s.c' % tag)
    open(hf, 'w').write(src)
    exe = os.path.join(wd, 'replay')
    san = ['-g', '-O0', '-w', '-fno-builtin', '-fcommon', '-fsanitize=address,bounds', '-fno-sanitize-recover=bounds', '-fno-omit-frame-pointer', '-ftrivial-auto-var-init=pattern']
    objs = []
    def cc(job):
        s, fl, o = job
        return sh(['gcc'] + san + fl + ['-c', s, '-o', o], 200)
    jobs = [(hf, (['-D__LINUX__'] if h.target == 'jamlib' else []) + ['-I', SRC] + DEFS + ['-I', os.path.join(VERIF, 'vf'), '-I', PROOFS] + defs + h.srcdefs, os.path.join(wd, 'h.o')),
            (os.path.join(VERIF, 'vf', 'native.c'), [], os.path.join(wd, 'n.o'))]
    for i, s in enumerate(sources(h.target)):
        jobs.append((s, cflags(s) + h.srcdefs, os.path.join(wd, 's%d.o' % i)))
    with ThreadPoolExecutor(NPROC) as ex:
        rs = list(ex.map(cc, jobs))
    for j, r in zip(jobs, rs):
        if r[0] != 0: return None, 'native compile of %s failed: %s' % (j[0], r[2][-1500:]), src
    r = sh(['gcc'] + san + ['-Wl,--allow-multiple-definition'] + [j[2] for j in jobs] + ['-o', exe], 200)
    if r[0] != 0: return None, 'native link failed: ' + r[2][-1500:], src
    return exe, '', src

def replay(h, tmp, js, tier):
    vals = cex_inputs(js)
    if vals is None: return False, 'no input in trace', '', {}
    exe, log, src = native_build(h, tmp, vals, tier)
    if not exe: return False, log, src, vals
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0')
    wd = os.path.join(os.path.dirname(exe), 'cwd'); os.makedirs(wd, exist_ok=True)
    r = sh_native([exe], 20, wd, env)
    txt = ('exit %s\n' % r[0]) + r[2][-4000:]
    if r[0] == 'timeout': return True, 'native run does not terminate (20 s)\n', src, vals
    if r[0] == 77: return False, txt, src, vals
    return (r[0] != 0), txt, src, vals

def sh_native(cmd, timeout, cwd, env):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=env, start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, 9)
        except ProcessLookupError: pass
        p.communicate()
        return 'timeout', '', ''
    return p.returncode, o.decode('utf-8', 'replace'), e.decode('utf-8', 'replace')

def stand_in(h, tmp, tier, why, runs=400, secs=60):
    """The verifier gave no answer for this proof: run its obligations natively on sampled inputs instead (bounded, never
    counted as proved).  Returns a result record or None when this is not possible either."""
    R = dict(name=h.name + ('#' + h.part if h.part else ''), level='bounded', obligations=0, discharged=0, reach=0, failures=[], status='ok',
             notes=['verifier gave no answer (%s)' % why[:200]], functions=h.functions, replaced=h.replace, solver_s=0.0, cmd='native stand-in')
    t0 = time.time()
    exe, log, src = native_build(h, tmp, None, tier)
    if not exe: return None
    wd = os.path.join(os.path.dirname(exe), 'cwd'); os.makedirs(wd, exist_ok=True)
    ran = 0
    for i in range(runs):
        if time.time() - t0 > secs: break
        env = dict(os.environ, VF_RSEED=str(i + 1), ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0')
        r = sh_native([exe], 10, wd, env)
        if r[0] == 77: continue
        ran += 1
        if r[0] != 0:
            m = re.search(r'VF-CHECK-FAILED (.*)', r[2])
            R['status'] = 'violated'
            R['failures'].append(dict(proof=R['name'], obligation='native.%s' % h.name, description=m.group(1) if m else 'memory safety or termination', where={},
                                      confirmed=True, replay_log='VF_RSEED=%d exit %s\n%s' % (i + 1, r[0], r[2][-4000:]), replay_src=src, inputs={}, kind='obl'))
            break
    if not ran: return None
    R['bound'] = '%d sampled inputs, run natively under ASan because the verifier gave no answer' % ran
    R['wall_s'] = time.time() - t0
    return R

# ---------------------------------------------------------------- one proof

def run_one(h, bld, pool, tmp, tier, prop):
    t0 = time.time()
    R = dict(name=h.name + ('#' + h.part if h.part else ''), level=h.level, bound=h.bound, obligations=0, discharged=0,
             reach=0, failures=[], status='ok', notes=[], functions=h.functions, replaced=h.replace, solver_s=0.0)
    goto = prepare(h, bld, pool, tmp, tier)
    unwind = h.thorough_unwind if (tier == 'thorough' and h.thorough_unwind) else h.unwind
    for attempt in range(3):
        cmd = cbmc_cmd(h, goto, unwind, loop_bounds(h, goto, unwind, attempt + 1))
        R['cmd'] = ' '.join(cmd).replace(tmp, '$TMP')
        t1 = time.time()
        rc, out, err = sh(cmd, left(h.timeout * (3 if tier == 'thorough' else 1)))
        R['solver_s'] += time.time() - t1
        if rc == 'timeout':
            raise Broken('%s: cbmc timed out after %ds' % (h.name, h.timeout))
        js = parse_json(out)
        if js is None or results(js) is None:
            raise Broken('%s: cbmc gave no result (rc %s): %s' % (h.name, rc, re.sub(r'cbmc\(\+.*', '', out + err)[-600:]))
        res = results(js)
        bad = [r for r in res if r['status'] not in ('SUCCESS',)]
        # once one assertion fails, cbmc can leave others without an answer: judge by the ones it did decide
        if any(r['status'] == 'FAILURE' and classify(r) != 'reach' for r in bad): bad = [r for r in bad if r['status'] == 'FAILURE']
        obl = [r for r in res if classify(r) in ('obl', 'unwind')]
        reach = [r for r in res if classify(r) == 'reach']
        R['obligations'] = len(obl); R['discharged'] = sum(r['status'] == 'SUCCESS' for r in obl)
        R['reach'] = len(reach)
        fails = [r for r in bad if classify(r) == 'obl']
        unw = [r for r in bad if classify(r) == 'unwind']
        tool = [r for r in bad if classify(r) == 'tool']
        if tool and not fails:
            raise Broken('%s: %s (%s)' % (h.name, tool[0].get('description'), tool[0].get('property')))
        kf = [r for r in fails if any(x['proof'] == R['name'] and x['obligation'] == r.get('description') for x in known_findings()['findings'])]
        for r in kf:
            R['failures'].append(dict(proof=R['name'], obligation=r['property'], description=r.get('description'), where=r.get('sourceLocation', {}),
                                      confirmed=True, replay_log='listed in KNOWN_FINDINGS.json', replay_src='', inputs={}, kind='obl'))
        fails = [r for r in fails if r not in kf]
        if tool and not fails:
            raise Broken('%s: %s (%s)' % (h.name, tool[0].get('description'), tool[0].get('property')))
        if fails or unw:
            # real obligations first, then non-terminating loops
            confirmed = None; first = None
            for r in (fails[:4] + unw[:2]):
                rc2, out2, err2 = sh(cmd + ['--trace', '--property', r['property']], left(h.timeout * 2))
                js2 = parse_json(out2) if rc2 != 'timeout' else None
                ok, log, src, vals = (False, 'no trace', '', {}) if js2 is None else replay(h, tmp, js2, tier)
                rec = dict(proof=R['name'], obligation=r['property'], description=r.get('description'),
                           where=r.get('sourceLocation', {}), confirmed=ok, replay_log=log, replay_src=src,
                           inputs={k: v[0] for k, v in vals.items()}, kind=classify(r))
                if ok: confirmed = rec; break
                if first is None and classify(r) == 'obl': first = rec
            if confirmed:
                R['failures'].append(confirmed); R['status'] = 'violated'; break
            if tool:
                # a failed obligation beside a use the libc model does not cover: only a replayed failure is believed
                raise Broken('%s: %s (%s)' % (h.name, tool[0].get('description'), tool[0].get('property')))
            if fails:
                R['failures'].append(first); R['status'] = 'violated'; break
            if attempt < 2:
                unwind = unwind * 2 + 2
                R['notes'].append('loop bound raised to %d' % unwind)
                continue
            R['notes'].append('unwinding incomplete at %d: verdict is bounded for this run' % unwind)
            R['level'] = 'bounded'; R['bound'] = 'loops unwound %d times' % unwind
        break
    if R['status'] == 'ok':
        if not R['obligations']:
            raise Broken('%s: no obligations generated' % h.name)
        unreached = [r['description'] for r in reach if r['status'] == 'SUCCESS']
        if not reach:
            raise Broken('%s: harness has no reachability guard' % h.name)
        if unreached:
            raise Broken('%s: vacuous: %s is unreachable' % (h.name, unreached[0]))
    R['wall_s'] = time.time() - t0
    return R

def expand(hs):
    out = []
    for h in hs:
        if h.parts:
            for p in h.parts:
                g = load(h.name); g.part = p; out.append(g)
        else:
            out.append(h)
    return out

# ---------------------------------------------------------------- property check

def known_findings():
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.json')
    return json.load(open(p)) if os.path.exists(p) else {'findings': [], 'fixed': []}

def check(prop, tier):
    global DEADLINE
    t0 = time.time()
    if tier == 'quick': DEADLINE = t0 + 700
    seed = int(os.environ.get('VERIF_SEED', '1'))
    hs = expand([h for h in all_harness() if prop in h.props and (h.tier == 'quick' or tier == 'thorough')])
    if not hs:
        print('no proof registered for', prop); return 2
    os.makedirs(REPLAY, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='vf_')
    rs = []; broken = []; undecided = []
    try:
        with ThreadPoolExecutor(NPROC) as cpool, ThreadPoolExecutor(NPROC) as pool:
            bld = Build(tmp)
            for h in hs: bld.objs(h.target, h.srcdefs, cpool)
            futs = {pool.submit(run_one, h, bld, cpool, tmp, tier, prop): h for h in sorted(hs, key=lambda h: -h.timeout)}
            for f in as_completed(futs):
                h = futs[f]
                try:
                    r = f.result(); rs.append(r)
                    print('%-34s %-8s %4d/%-4d obligations  reach %d  %.1fs %s' % (r['name'], r['status'], r['discharged'], r['obligations'], r['reach'], r['wall_s'], '; '.join(r['notes'])))
                except Broken as e:
                    broken.append(str(e)); print('%-34s UNDECIDED %s' % (h.name, e))
                    undecided.append((h, str(e)))
                sys.stdout.flush()
            for h, why in undecided:
                if time.time() - t0 > 780: break
                r = stand_in(h, tmp, tier, why, secs=max(10, min(60, (800 - (time.time() - t0)) / len(undecided))))
                if r:
                    rs.append(r); broken.remove(why)
                    print('%-34s %-8s bounded stand-in: %s' % (r['name'], r['status'], r['bound']))
    except Broken as e:
        broken.append(str(e)); print('BROKEN', e)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    rs.sort(key=lambda r: r['name'])
    kf = known_findings(); viol = []
    for r in rs:
        for f in r['failures']:
            k = [x for x in kf['findings'] if x['property'] == prop and x['proof'] == f['proof'] and x['obligation'] == f['description']]
            if k and f['confirmed'] is not None:
                print('KNOWN-FINDING: property=%s %s' % (prop, k[0]['what'])); continue
            path = os.path.join(REPLAY, '%s_%s.txt' % (prop, f['proof'].replace('#', '_')))
            with open(path, 'w') as fo:
                fo.write('property: %s\nproof: %s\nobligation: %s\ndescription: %s\nlocation: %s\nreplayed on the real code: %s\n' %
                         (prop, f['proof'], f['obligation'], f['description'], json.dumps(f['where']), 'violation reproduced' if f['confirmed'] else 'no failing input found'))
                fo.write('\n--- verifier input (counterexample) ---\n')
                for kk, vv in f['inputs'].items(): fo.write('%s = %d\n' % (kk, vv))
                fo.write('\n--- native replay output ---\n%s\n' % f['replay_log'])
                fo.write('\n--- native replay source ---\n%s\n' % f['replay_src'][-20000:])
            viol.append((f, path))
    # confirmed ones first
    viol.sort(key=lambda x: not x[0]['confirmed'])
    proofs = [r for r in rs]
    allproof = all(r['level'] == 'proof' for r in rs)
    lvl = manifest_level(prop)
    trusted = ['cbmc 6.11 / goto-cc / goto-instrument (DFCC) and its SAT back end', 'cbmc built-in models of libc string/memory functions',
               'vf/libc_model.c (formatted output), compared with glibc by vf/test_libc_model.c (setup)']
    funcs = sorted({x for r in rs for x in r['functions']})
    assum = sorted({a for h in hs for a in h.assume})
    assum.append('signed overflow is evaluated with two\'s complement wrap-around and not itself an obligation')
    ev = dict(property=prop, tier=tier, seed=seed, level=lvl,
              coverage=dict(obligations=sum(r['obligations'] for r in rs), discharged=sum(r['discharged'] for r in rs),
                            checker_cmd='python3 /verif/run.py check %s --tier %s  (goto-cc; goto-instrument --dfcc --enforce-contract/--replace-call-with-contract; cbmc, SAT)' % (prop, tier),
                            trusted_base=trusted, functions_under_contract=funcs,
                            replaced_by_contract=sorted({x for r in rs for x in r['replaced']}),
                            solver_s=round(sum(r['solver_s'] for r in rs), 2),
                            proved=[r['name'] for r in rs if r['level'] == 'proof' and r['status'] == 'ok'],
                            bounded=['%s: %s' % (r['name'], r['bound']) for r in rs if r['level'] != 'proof'],
                            vacuity_guards_reached=sum(r['reach'] for r in rs),
                            per_proof=[dict(name=r['name'], obligations=r['obligations'], discharged=r['discharged'], solver_s=round(r['solver_s'], 2), cmd=r.get('cmd', ''), notes=r['notes']) for r in rs],
                            broken=broken),
              wall_s=round(time.time() - t0, 2), assumptions=assum,
              violations=[dict(obligation=f['obligation'], description=f['description'], replay=p, confirmed=f['confirmed']) for f, p in viol])
    os.makedirs(EVID, exist_ok=True)
    json.dump(ev, open(os.path.join(EVID, prop + '.json'), 'w'), indent=1)
    if viol:
        for f, p in viol[:5]:
            print('failed obligation: %s [%s] %s' % (f['description'], f['obligation'], f['where'].get('function', '')))
        f, p = viol[0]
        print('VIOLATION property=%s replay=%s%s' % (prop, p, '' if f['confirmed'] else ' no-failing-input-found'))
        return 1
    if broken: return 2
    print('%s holds: %d obligations discharged in %d proofs, %.1fs' % (prop, ev['coverage']['discharged'], len(rs), ev['wall_s']))
    return 0

def manifest_level(prop):
    try:
        m = json.load(open(os.path.join(VERIF, 'MANIFEST.json')))
        for c in m['checks']:
            if c['property'] == prop: return c['level']
    except Exception: pass
    return 'proof'

def main():
    a = sys.argv[1:]
    if not a: print(__doc__); return 2
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a:
        i = a.index('--tier'); tier = a[i + 1]; del a[i:i + 2]
    if a[0] == 'setup':
        for t in ('goto-cc', 'goto-instrument', 'cbmc', 'gcc'):
            if not shutil.which(t): print('missing tool', t); return 2
        os.makedirs(REPLAY, exist_ok=True)
        tmp = tempfile.mkdtemp(prefix='vf_')
        try:
            exe = os.path.join(tmp, 'tlm')
            r = sh(['gcc', '-w', '-O1', '-o', exe, os.path.join(VERIF, 'vf', 'test_libc_model.c')], 60)
            if r[0] == 0: r = sh([exe], 60)
            print(r[1] + r[2])
            if r[0] != 0: return 2
        finally: shutil.rmtree(tmp, ignore_errors=True)
        print('ok'); return 0
    if a[0] == 'check': return check(a[1], tier)
    if a[0] == 'list':
        for h in all_harness(): print(h.name, h.props, h.level, h.tier)
        return 0
    if a[0] == 'nativecheck':               # every proof must also compile natively, for the replay
        tmp = tempfile.mkdtemp(prefix='vf_'); bad = 0
        try:
            for h in expand(all_harness()):
                if a[1:] and h.name not in a[1:]: continue
                if h.part and h.part != h.parts[0]: continue
                exe, log, src = native_build(h, tmp, {}, tier)
                if not exe: bad = 1; print(h.name, log)
                shutil.rmtree(os.path.join(tmp, 'native_' + h.name + ('_' + h.part if h.part else '')), ignore_errors=True)
        finally: shutil.rmtree(tmp, ignore_errors=True)
        return bad
    if a[0] == 'harness':
        keep = '--keep' in a
        tmp = tempfile.mkdtemp(prefix='vf_')
        rc = 0
        try:
            with ThreadPoolExecutor(NPROC) as cpool:
                bld = Build(tmp)
                hh = [h for h in expand([load(a[1])]) if not (len(a) > 2 and not a[2].startswith('-') and h.part not in a[2:])]
                for h in hh: bld.objs(h.target, h.srcdefs, cpool)
                def one(h):
                    try: return run_one(h, bld, cpool, tmp, tier, '')
                    except Broken as e: return e
                with ThreadPoolExecutor(NPROC) as rp: rs = list(rp.map(one, hh))
                for h, r in zip(hh, rs):
                    if isinstance(r, Broken): print('BROKEN', r); rc = 2; continue
                    print('%-34s %-8s %4d/%-4d obligations reach %d  wall %.1fs solver %.1fs %s' % (r['name'], r['status'], r['discharged'], r['obligations'], r['reach'], r['wall_s'], r['solver_s'], r['notes']))
                    for f in r['failures']:
                        rc = 1
                        print('  FAILED', f['description'], f['obligation'], f['where'], 'confirmed' if f['confirmed'] else 'unconfirmed')
                        print('  ', str({k: v for k, v in f['inputs'].items() if v})[:1500])
                        print('  ', f['replay_log'][:1500])
        finally:
            if keep: print('kept', tmp)
            else: shutil.rmtree(tmp, ignore_errors=True)
        return rc
    return 2

if __name__ == '__main__':
    sys.exit(main())
