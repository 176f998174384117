#!/usr/bin/env python3
"""Decide one property: check.py PROPERTY [--tier quick|thorough] [--unit NAME[:VARIANT]] [-v]

For every unit (harness + contracts) of the property: compile the harness, which
includes the real source files of /repo, with goto-cc, apply the function and
loop contracts with goto-instrument --dfcc and discharge every obligation with
cbmc.  See DESIGN.md for the ladder applied when an obligation is not discharged.
"""
import sys, os, re, json, subprocess, time, shutil, tempfile, threading, resource, signal
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
LM = os.path.join(REPO, 'libmseed')
T0 = time.time()
BUDGET = float(os.environ.get('VP_BUDGET', '800'))     # seconds for the whole check
CBMC_FLAGS = ['--no-signed-overflow-check', '--no-undefined-shift-check', '--object-bits', '8']
MEM = int(os.environ.get('VP_MEM', '9')) << 30

def log(*a):
    print(*a, file=sys.stderr, flush=True)

def left():
    return BUDGET - (time.time() - T0)

def run(cmd, timeout, cwd=None, env=None, mem=MEM):
    """-> (rc, out, err); rc None on timeout"""
    def pre():
        os.setsid()
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         text=True, errors='replace', preexec_fn=pre)
    try:
        out, err = p.communicate(timeout=max(1, timeout))
        return p.returncode, out, err
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        return None, out, err

# ---------------------------------------------------------------- units
class Unit:
    def __init__(self, path):
        self.path = path
        self.name = os.path.basename(path)[:-2]
        text = open(path).read()
        m = re.search(r'/\*UNIT\s*(\{.*?\n?\})\s*\*/', text, re.S)
        if not m:
            raise SystemExit('no UNIT header in ' + path)
        self.meta = json.loads(m.group(1))
        self.variants = self.meta.get('variants') or {'': {}}

class Job:
    """one unit variant"""
    def __init__(self, unit, vname, tier):
        v = dict(unit.meta)
        v.pop('variants', None)
        vv = unit.variants[vname]
        for k, x in vv.items():
            v[k] = (v.get(k, []) + x) if isinstance(x, list) and isinstance(v.get(k, []), list) else x
        self.m = v
        self.unit = unit
        self.vname = vname
        self.tier = tier
        self.id = unit.name + ((':' + vname) if vname else '')
        self.mode = v.get('mode', 'contract')        # contract | complete | bounded
        self.defs = v.get('defs', [])

def find_units(prop, tier, only):
    props = json.load(open(os.path.join(VERIF, 'lib', 'plan.json')))
    plan = props[prop]
    jobs = []
    for ent in plan['units']:
        name, _, var = ent.partition(':')
        u = Unit(os.path.join(VERIF, 'units', name + '.c'))
        for vn in ([var] if var else u.variants):
            j = Job(u, vn, tier)
            if j.m.get('tier', 'quick') == 'thorough' and tier != 'thorough':
                continue
            if only and j.id != only and u.name != only:
                continue
            jobs.append(j)
    return plan, jobs

# ---------------------------------------------------------------- compile
def write_labels(d):
    seen = set()
    for f in sorted(os.listdir(LM)):
        if f.endswith('.c') or f.endswith('.h'):
            for k, l in re.findall(r'LMV_(LOOP|GHOST) \((\w+)\)', open(os.path.join(LM, f), errors='replace').read()):
                seen.add((k, l))
    with open(os.path.join(d, 'vp_labels.h'), 'w') as o:
        for k, l in sorted(seen):
            o.write('#ifndef LMV_%s_%s\n#define LMV_%s_%s\n#endif\n' % (k, l, k, l))
    return seen

def compile_goto(job, d, mode, extra=()):
    """mode: contract|bounded -> path of goto binary or (None, reason)"""
    out = os.path.join(d, mode + ''.join(re.sub(r'\W', '', e) for e in extra) + '.gb')
    cmd = ['goto-cc', '-I' + d, '-I' + os.path.join(VERIF, 'lib'), '-I' + LM, '-I' + os.path.join(REPO, 'src'),
           '-DVP_CONTRACT' if mode == 'contract' else '-DVP_BOUNDED']
    if mode == 'contract':
        cmd += ['-DLIBMSEED_VERIFY="vp_labels.h"']
    cmd += ['-D' + x for x in job.defs] + list(extra)
    cmd += ['--function', 'harness', job.unit.path, '-o', out]
    rc, o, e = run(cmd, 120)
    if rc != 0:
        return None, 'goto-cc: ' + (o + e)[-1500:]
    # callees whose contract is written as a function: it checks the precondition and returns any result the postcondition allows
    for f, g in job.m.get('stubs', {}).items():
        rc, o, e = run(['goto-instrument', '--replace-calls', f + ':' + g, out, out + '.s'], 120)
        if rc != 0:
            return None, 'replace-calls: ' + (o + e)[-800:]
        os.rename(out + '.s', out)
    out2 = out[:-3] + '.u.gb'
    rc, o, e = run(['goto-instrument', '--drop-unused-functions', out, out2], 120)
    if rc != 0:
        return None, 'goto-instrument: ' + (o + e)[-1500:]
    return out2, ''

def loops_of(gb):
    rc, o, e = run(['goto-instrument', '--show-loops', gb], 60)
    res = []
    for m in re.finditer(r'Loop (\S+?)\.(\d+):\s*\n\s*file (\S+) line (\d+)', o):
        res.append((m.group(1), int(m.group(2)), m.group(3), int(m.group(4))))
    return res

def apply_contracts(job, d, gb):
    out = os.path.join(d, 'c.gb')
    m = job.m
    uw = m.get('unwind_inner')
    if uw:
        # complete unwinding of the loops without contract nested in loops with one
        sel = []
        labelled = {}
        for fn, k, f, line in loops_of(gb):
            for pat, n in uw.items():
                if re.fullmatch(pat, fn):
                    labelled.setdefault(fn, (n, []))[1].append((k, f, line))
        for fn, (n, ls) in labelled.items():
            for k, f, line in ls:
                if not has_label(f, line, d):
                    sel.append('%s.%d:%d' % (fn, k, n))
        if sel:
            out1 = os.path.join(d, 'iu.gb')
            rc, o, e = run(['goto-instrument', '--unwindset', ','.join(sel), '--unwinding-assertions', gb, out1], 120)
            if rc != 0:
                return None, 'unwind: ' + (o + e)[-800:]
            gb = out1
    cmd = ['goto-instrument', '--dfcc', 'harness']
    for f in m.get('enforce', []):
        cmd += ['--enforce-contract', f]
    for f in m.get('replace', []):
        cmd += ['--replace-call-with-contract', f]
    if m.get('loops', True):
        cmd += ['--apply-loop-contracts']
    cmd += m.get('dfcc_flags', [])
    rc, o, e = run(cmd + [gb, out], 300)
    if rc != 0:
        return None, 'goto-instrument --dfcc: ' + (o + e)[-1500:]
    return out, ''

_src = {}
def has_label(f, line, d):
    """does the loop starting at line of source file f carry a contract (a label directly after its header)?"""
    for base in ('', d, os.path.join(VERIF, 'lib'), LM):
        p = os.path.join(base, f)
        if os.path.isfile(p):
            break
    else:
        return False
    if p not in _src:
        _src[p] = open(p, errors='replace').read()
    t = _src[p]
    pos = 0
    for _ in range(line - 1):
        pos = t.index('\n', pos) + 1
    i = re.compile(r'\b(for|while)\b').search(t, pos)
    if not i:
        return False
    k = t.find('(', i.start())
    dep = 0
    while k < len(t):
        if t[k] == '(':
            dep += 1
        elif t[k] == ')':
            dep -= 1
            if dep == 0:
                break
        k += 1
    m = re.match(r'\s*(?:/\*.*?\*/\s*)*LMV_LOOP\s*\(\s*(\w+)\s*\)', t[k + 1:k + 400], re.S)
    if not m:
        return False
    return bool(re.search(r'#define\s+LMV_LOOP_%s\b[ \t]*\S' % m.group(1), open(_unit_cur.path).read() + _inc(_unit_cur.path)))

_unit_cur = threading.local()
def _inc(path):
    s = ''
    for h in re.findall(r'#include "(c_\w+\.h)"', open(path).read()):
        p = os.path.join(VERIF, 'units', h)
        if os.path.isfile(p):
            s += open(p).read()
    return s

# ---------------------------------------------------------------- cbmc
def parse_text(o):
    """results of cbmc's text output (json output carries a trace, and possibly gigabytes of it, per failure)"""
    props, f, fn = [], '?', '?'
    for l in o.splitlines():
        m = re.match(r'\[(\S+)\] (?:line (\d+) )?(.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$', l)
        if m:
            props.append({'property': m.group(1), 'description': m.group(3), 'status': m.group(4),
                          'sourceLocation': {'file': f, 'line': m.group(2) or '?', 'function': fn}})
            continue
        m = re.match(r'(\S+) function (\S+)$', l)
        if m:
            f, fn = m.groups()
    return props

def cbmc(job, gb, timeout, extra=(), trace=False):
    m = job.m
    cmd = ['cbmc', gb, '--verbosity', '8'] + CBMC_FLAGS + m.get('cbmc', []) + list(extra)
    if trace:
        cmd += ['--json-ui', '--trace']
    t = time.time()
    rc, o, e = run(cmd, min(timeout, left()))
    dt = time.time() - t
    if rc is None:
        return {'status': 'timeout', 'secs': dt, 'why': 'cbmc: no answer after %.0f s' % dt}
    solver = sum(float(x) for x in re.findall(r'Runtime Solver: ([\d.e+-]+)s', o))
    if not trace:
        if rc not in (0, 10) or not re.search(r'VERIFICATION (SUCCESSFUL|FAILED)', o):
            return {'status': 'error', 'secs': dt, 'why': 'cbmc rc=%s %s' % (rc, (o + e)[-600:])}
        return {'status': 'ok', 'props': parse_text(o), 'secs': dt, 'solver': solver, 'cmd': ' '.join(cmd)}
    try:
        js = json.loads(o)
    except ValueError:
        return {'status': 'error', 'secs': dt, 'why': 'cbmc rc=%s %s' % (rc, (o + e)[-600:])}
    props, msgs = None, []
    for it in js:
        if 'result' in it:
            props = it['result']
        if it.get('messageType') == 'ERROR':
            msgs.append(it.get('messageText', ''))
    if props is None:
        return {'status': 'error', 'secs': dt, 'why': 'cbmc: ' + ' '.join(msgs)[-600:]}
    return {'status': 'ok', 'props': props, 'secs': dt, 'solver': solver, 'cmd': ' '.join(cmd)}

def cbmc_split(job, gb, timeout, extra):
    """as cbmc(), with the obligations matching a pattern given to another solver"""
    split = job.m.get('split', [])
    if not split and not job.m.get('chunk'):
        return cbmc(job, gb, timeout, extra)
    rc, o, e = run(['cbmc', gb, '--show-properties'] + CBMC_FLAGS + list(extra), 120)
    names = re.findall(r'^Property (\S+):\n.*\n(.*)$', o, re.M)
    ign = job.m.get('ignore')
    if ign:
        names = [n for n in names if not re.search(ign, n[0] + ' ' + n[1])]
    groups, rest = [], list(names)
    for sp in split:
        sel = [n for n in rest if re.search(sp['match'], n[0] + ' ' + n[1])]
        rest = [n for n in rest if n not in sel]
        if sp.get('each'):
            groups += [([n], sp.get('flags', [])) for n in sel]
        elif sel:
            groups.append((sel, sp.get('flags', [])))
    n = job.m.get('chunk') or max(1, len(rest))
    groups += [(rest[i:i + n], []) for i in range(0, len(rest), n)]
    def one(g):
        fl = list(extra) + g[1]
        for n in g[0]:
            fl += ['--property', n[0]]
        return cbmc(job, gb, timeout, fl)
    with ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(one, groups))
    bad = [(r, g) for r, g in zip(rs, groups) if r['status'] != 'ok']
    if bad:
        r, g = bad[0]
        r['why'] += ' (%d groups, first: %s ... %s)' % (len(bad), g[0][0][0], g[0][-1][0])
        return r
    props = {}
    for r in rs:
        for p in r['props']:
            props[p['property']] = p
    return {'status': 'ok', 'props': list(props.values()), 'secs': max(r['secs'] for r in rs),
            'solver': sum(r['solver'] for r in rs), 'cmd': rs[-1]['cmd']}

AUX = re.compile(r'loop invariant|loop_invariant|decreases|variant|assigns|assignable|is assignable|loop_assigns', re.I)

def classify(p, job):
    """property class of a failed cbmc check"""
    d, n = p.get('description', ''), p.get('property', '')
    if d.startswith('vp_reach'):
        return 'reach'
    if 'unwinding assertion' in d or 'recursion unwinding' in d or 'no body' in d:
        return 'unwind'
    if d.startswith('vp: ') or 'ensures' in d or 'postcondition' in n or 'postcondition' in d.lower():
        return 'post'
    if 'precondition' in n or 'requires' in d.lower():
        return 'pre'
    if AUX.search(d) or AUX.search(n):
        return 'aux'
    return 'safety'

def summarize(job, r):
    """split results -> (n_obl, n_ok, failed list, reach_ok, reach_total, unwind_failed)"""
    failed, unw = [], []
    nobl = nok = rt = rok = 0
    ign = job.m.get('ignore')
    for p in r['props']:
        st = p['status']
        if ign and re.search(ign, p['property'] + ' ' + p['description']):
            continue
        c = classify(p, job)
        if c == 'reach':
            rt += 1
            rok += st == 'FAILURE'
            continue
        nobl += 1
        if st == 'SUCCESS':
            nok += 1
        elif st == 'FAILURE':
            if c == 'unwind':
                unw.append(p)
            else:
                failed.append((c, p))
        else:
            unw.append(p)
    return nobl, nok, failed, rok, rt, unw

def describe(p):
    loc = p.get('sourceLocation', {})
    return '%s: %s (%s:%s)' % (p.get('property'), p.get('description'), os.path.basename(loc.get('file', '?')), loc.get('line', '?'))

def trace_inputs(p):
    vals = []
    for s in p.get('trace', []):
        if s.get('stepType') == 'assignment' and s.get('lhs') == 'vp_log' and s.get('assignmentType') != 'actual-parameter':
            v = s.get('value', {})
            b = v.get('binary')
            if s.get('hidden') and not s.get('sourceLocation', {}).get('function', '').startswith('vp_'):
                continue
            if b is not None:
                vals.append(int(b, 2))
    return vals

# ---------------------------------------------------------------- native
_ar_lock = threading.Lock()
def native_lib(work):
    """all of libmseed, for functions a unit does not include"""
    with _ar_lock:
        ar = os.path.join(work, 'liball.a')
        if os.path.exists(ar):
            return ar
        od = os.path.join(work, 'objs')
        os.makedirs(od, exist_ok=True)
        def cc(f):
            run(['gcc', '-std=gnu11', '-O1', '-g', '-w', '-fno-omit-frame-pointer', '-fsanitize=address', '-fwrapv', '-I' + LM,
                 '-c', os.path.join(LM, f), '-o', os.path.join(od, f[:-2] + '.o')], 180, mem=None)
        with ThreadPoolExecutor(6) as ex:
            list(ex.map(cc, [f for f in sorted(os.listdir(LM)) if f.endswith('.c')]))
        objs = [os.path.join(od, f) for f in sorted(os.listdir(od)) if f.endswith('.o')]
        run(['ar', 'rcs', ar + '.t'] + objs, 60, mem=None)
        os.rename(ar + '.t', ar)
        return ar

def build_native(job, d):
    out = os.path.join(d, 'native')
    if os.path.exists(out):
        return out, ''
    o1 = os.path.join(d, 'h.o')
    base = ['gcc', '-std=gnu11', '-O1', '-g', '-w', '-fno-omit-frame-pointer', '-fsanitize=address', '-fwrapv', '-DVP_NATIVE',
            '-I' + d, '-I' + os.path.join(VERIF, 'lib'), '-I' + LM, '-I' + os.path.join(REPO, 'src')] + ['-D' + x for x in job.defs]
    rc, o, e = run(base + [job.unit.path, os.path.join(VERIF, 'lib', 'vp_native.c'), native_lib(os.path.dirname(d)),
                     '-o', out, '-Wl,--allow-multiple-definition', '-lm'], 180, mem=None)
    if rc != 0:
        return None, 'gcc: ' + (o + e)[-1500:]
    return out, ''

NENV = dict(os.environ, ASAN_OPTIONS='exitcode=43:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1', TZ='UTC')

def native_replay(prog, path, safety):
    rc, o, e = run([prog, 'replay', path], 60, env=NENV, mem=None)
    if rc == 42 or (rc == 43 and safety) or (rc is not None and rc < 0 and safety):
        return True, e[-2500:]
    return False, e[-500:]

def native_search(job, prog, d, secs, seed, nproc):
    """-> (found (path, why) | None, number of inputs tried)"""
    safety = job.m.get('safety', True)
    ps, total = [], 0
    for i in range(nproc):
        out = os.path.join(d, 'found%d' % i)
        if os.path.exists(out):
            os.unlink(out)
        err = open(os.path.join(d, 'search%d.err' % i), 'w+')
        ps.append((subprocess.Popen([prog, 'search', str(seed * 100 + i), str(int(max(1, secs))), out], cwd=d, env=NENV,
                                    stdout=subprocess.DEVNULL, stderr=err, start_new_session=True), out, err))
    end = time.time() + secs + 60
    found, live = None, list(ps)
    while live and not found and time.time() < end:
        time.sleep(0.1)
        for x in list(live):
            rc = x[0].poll()
            if rc is None:
                continue
            live.remove(x)
            x[2].seek(0)
            m = re.search(r'searched (\d+) inputs', x[2].read())
            total += int(m.group(1)) if m else 0
            if os.path.exists(x[1]) and (rc == 42 or (rc == 43 and safety)):
                ok, why = native_replay(prog, x[1], safety)
                if ok:
                    found = (x[1], why)
                    break
    for p, out, err in ps:
        if p.poll() is None:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
        err.close()
    return found, total

# ---------------------------------------------------------------- one job
def cex_from(job, d, gb, flags, timeout, tag):
    """run cbmc with a trace on a binary without reach assertions; replay natively
    -> (found(path, why) | None, note)"""
    r = cbmc(job, gb, timeout, flags, trace=True)
    if r['status'] != 'ok':
        return None, 'bounded check: ' + r['why'], r
    nobl, nok, failed, rok, rt, unw = summarize(job, r)
    note = 'bounded check: %d of %d obligations hold%s' % (nok, nobl, ', bound not complete' if unw else '')
    if not failed:
        return None, note, r
    prog, why = build_native(job, d)
    tried = 0
    for c, p in failed[:12]:
        vals = trace_inputs(p)
        if not vals or not prog:
            continue
        path = os.path.join(d, 'cex_%s_%d' % (tag, tried))
        tried += 1
        with open(path, 'w') as f:
            f.write('# %s\n' % describe(p))
            f.write('\n'.join(map(str, vals)) + '\n')
        ok, why = native_replay(prog, path, job.m.get('safety', True))
        if ok:
            return (path, describe(p) + '\n' + why), note, r
    return None, note + '; counterexample not confirmed by replay: ' + '; '.join(describe(p) for c, p in failed[:3]), r

def do_job(job, work, seed):
    d = os.path.join(work, re.sub(r'\W', '_', job.id))
    os.makedirs(d, exist_ok=True)
    res = {'unit': job.id, 'mode': job.mode, 'obligations': 0, 'discharged': 0, 'solver_s': 0.0, 'secs': 0.0,
           'outcome': '', 'notes': [], 'failed': []}
    t = time.time()
    tmo = job.m.get('timeout', 300)
    if job.tier == 'thorough':
        tmo = job.m.get('timeout_thorough', tmo * 3)
    write_labels(d)
    global _unit_cur
    r = None
    if job.mode == 'runtime':
        # bounded stand-in: the contract evaluated on the real code for generated inputs
        prog, why = build_native(job, d)
        if not prog:
            res['outcome'] = 'undecided'
            res['notes'].append(why)
        else:
            secs = job.m.get('search', 20) if job.tier != 'thorough' else job.m.get('search_thorough', 600)
            f, n = native_search(job, prog, d, secs, seed, job.m.get('procs', 2))
            res['notes'].append('%d inputs' % n)
            res['inputs'] = n
            nass = len(re.findall(r'VP_ASSERT \(', open(job.unit.path).read()))
            res['obligations'] = res['discharged'] = nass
            if f:
                res['found'], res['outcome'] = f, 'failed'
                m = re.search(r'VP-FAIL: (.*)|ERROR: AddressSanitizer: (.*)', f[1])
                res['failed'] = [('post', m.group(0)[:200] if m else 'failing input')]
            else:
                res['outcome'] = 'held within bound' if n else 'undecided'
        res['secs'] = time.time() - t
        res['dir'] = d
        return res
    if job.mode == 'contract':
        gb, why = compile_goto(job, d, 'contract')
        if gb:
            with _lock:
                _unit_cur = job.unit
                gb, why = apply_contracts(job, d, gb)
        if gb:
            fl = []
            if job.m.get('unwind'):
                fl = ['--unwind', str(job.m['unwind']), '--unwinding-assertions']
            r = cbmc_split(job, gb, tmo, fl)
    else:
        gb, why = compile_goto(job, d, 'bounded')
        if gb:
            fl = bounded_flags(job)
            r = cbmc_split(job, gb, tmo, fl)
    if r is None:
        res['outcome'] = 'undecided'
        res['notes'].append(why)
    elif r['status'] != 'ok':
        res['outcome'] = 'undecided'
        res['notes'].append(r['why'])
    else:
        nobl, nok, failed, rok, rt, unw = summarize(job, r)
        res['obligations'], res['discharged'] = nobl, nok
        res['solver_s'] = r['solver']
        res['failed'] = [(c, describe(p)) for c, p in failed]
        if failed:
            res['outcome'] = 'failed'
        elif unw:
            res['outcome'] = 'undecided'
            res['notes'].append('loop without contract exceeds its unwinding: ' + '; '.join(describe(p) for p in unw[:3]))
        elif rok < rt or rt == 0 or nobl == 0:
            res['outcome'] = 'undecided'
            res['notes'].append('vacuity guard: %d of %d reachability points reached' % (rok, rt))
        else:
            res['outcome'] = 'proved' if job.mode != 'bounded' else 'held within bound'
    res['secs'] = time.time() - t
    res['dir'] = d
    return res

_lock = threading.Lock()

def bounded_flags(job):
    b = job.m.get('bounded', {}) if job.mode == 'contract' else job.m
    fl = []
    if b.get('unwind'):
        fl += ['--unwind', str(b['unwind'])]
    if b.get('unwindset'):
        fl += ['--unwindset', ','.join(b['unwindset'])]
    return fl + ['--unwinding-assertions']

def ladder(job, res, seed, deadline):
    """obligations not discharged: look for a failing input of the real code
    -> (path, why) or None"""
    d = res['dir']
    log('  %s: %s %s' % (job.id, res['outcome'], '; '.join(x[1] for x in res['failed'][:3]) or '; '.join(res['notes'])[-300:]))
    prog, why = build_native(job, d)
    if not prog:
        res['notes'].append('native: ' + why[-300:])
    if res.get('found'):
        return res['found']
    if job.mode == 'runtime':
        return None
    if prog and job.m.get('native', True):
        f, n = native_search(job, prog, d, min(deadline, job.m.get('search', 45)), seed, 4)
        res['notes'].append('native search: %s' % ('failing input found' if f else 'no failing input among %d' % n))
        if f:
            return f
    gb, why = compile_goto(job, d, 'bounded', ['-DVP_NOREACH'])
    if not gb:
        res['notes'].append(why)
        return None
    f, note, r = cex_from(job, d, gb, bounded_flags(job), min(deadline, job.m.get('bounded', {}).get('timeout', 240)), 'b')
    res['notes'].append(note)
    return f

# ---------------------------------------------------------------- main
def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--unit')
    ap.add_argument('--keep', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    global BUDGET
    if a.tier == 'thorough' and 'VP_BUDGET' not in os.environ:
        BUDGET = 7200
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    plan, jobs = find_units(a.property, a.tier, a.unit)
    work = tempfile.mkdtemp(prefix='vp_%s_' % a.property)
    rdir = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    try:
        return decide(a, plan, jobs, work, rdir, seed)
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)

def decide(a, plan, jobs, work, rdir, seed):
    jobs.sort(key=lambda j: -j.m.get('weight', 1))
    with ThreadPoolExecutor(8) as ex:
        results = list(ex.map(lambda j: do_job(j, work, seed), jobs))
    bad = [(j, r) for j, r in zip(jobs, results) if r['outcome'] not in ('proved', 'held within bound')]
    violations = []
    if bad:
        deadline = max(20, min(300, (left() - 60) / max(1, (len(bad) + 1) // 2)))
        def lad(jr):
            return ladder(jr[0], jr[1], seed, deadline)
        with ThreadPoolExecutor(2) as ex:
            founds = list(ex.map(lad, bad))
        for (j, r), f in zip(bad, founds):
            if f:
                violations.append((j, r, f))
            elif r['outcome'] == 'failed':
                violations.append((j, r, None))
            else:
                r['outcome'] = 'undecided, bounded check and search found nothing'
    if a.v:
        for j, r in zip(jobs, results):
            log('%-34s %-28s %5d/%5d  %6.1fs solver %6.1fs %s' % (r['unit'], r['outcome'], r['discharged'], r['obligations'], r['secs'], r['solver_s'], '; '.join(r['notes'])[-200:]))
    # concrete failing inputs first
    violations.sort(key=lambda v: v[2] is None)
    line = None
    known = load_known(a.property)
    unlisted = []
    for v in violations:
        j, r, f = v
        k = match_known(known, j, r)
        if k:
            print('KNOWN-FINDING: property=%s %s' % (a.property, k))
        else:
            unlisted.append(v)
    for n, (j, r, f) in enumerate(unlisted):
        path = os.path.join(rdir, '%s_%s.txt' % (a.property, re.sub(r'\W', '_', j.id)))
        with open(path, 'w') as o:
            o.write('# property %s  unit %s\n' % (a.property, j.id))
            for c, x in r['failed']:
                o.write('# failed obligation [%s] %s\n' % (c, x))
            for x in r['notes']:
                o.write('# note: %s\n' % x.replace('\n', ' ')[-900:])
            if f:
                if r['mode'] == 'runtime':
                    o.write('# contract evaluated at run time (bounded stand-in)\n')
                o.write('# failing input, confirmed by running the real code:\n')
                o.write('#   gcc -std=gnu11 -g -w -fsanitize=address -fwrapv -DVP_NATIVE %s -Ilib -I%s units/%s.c lib/vp_native.c -lm -o r && ./r replay %s\n'
                        % (' '.join('-D' + x for x in j.defs), LM, j.unit.name, path))
                for l in f[1].splitlines()[:40]:
                    o.write('# ' + l + '\n')
                o.write(''.join(l for l in open(f[0]) if not l.startswith('#')))
        if line is None:
            line = 'VIOLATION property=%s replay=%s%s' % (a.property, path, '' if f else ' no-failing-input-found')
    write_evidence(a, plan, jobs, results, len(unlisted), seed)
    if line:
        print(line, flush=True)
        return 1
    return 0

def load_known(prop):
    p = os.path.join(VERIF, 'known-findings.txt')
    res = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) unit=(\S+) obligation=/(.*?)/ (.*)', l.strip())
            if m and m.group(1) == prop:
                res.append(m.groups())
    return res

def match_known(known, j, r):
    if not r['failed']:
        return None
    texts = []
    for c, x in r['failed']:
        hit = [k for k in known if k[1] == j.id and re.search(k[2], x)]
        if not hit:
            return None
        texts.append(hit[0][3])
    return texts[0]

def write_evidence(a, plan, jobs, results, nviol, seed):
    obl = sum(r['obligations'] for r in results if r['mode'] not in ('bounded', 'runtime'))
    dis = sum(r['discharged'] for r in results if r['mode'] not in ('bounded', 'runtime'))
    bnd = [{'unit': r['unit'], 'bound': j.m.get('note', '') + ('; %d generated inputs' % r['inputs'] if 'inputs' in r else ''), 'obligations': r['obligations'], 'hold': r['discharged']}
           for j, r in zip(jobs, results) if r['mode'] in ('bounded', 'runtime')]
    funcs = sorted({f for j in jobs if j.mode not in ('bounded', 'runtime') for f in j.m.get('enforce', []) + j.m.get('functions', [])})
    bfuncs = sorted({f for j in jobs if j.mode in ('bounded', 'runtime') for f in j.m.get('functions', [])} - set(funcs))
    trusted = list(plan.get('trusted', []))
    for j in jobs:
        for f in j.m.get('replace', []):
            if f not in j.m.get('proved_elsewhere', []):
                trusted.append('contract of %s used without proof by %s' % (f, j.id))
        for f in j.m.get('stubs', {}):
            if f not in j.m.get('proved_elsewhere', []):
                trusted.append('contract of %s used without proof by %s' % (f, j.id))
        trusted += j.m.get('trusted', [])
    trusted = sorted(set(trusted)) + COMMON_TRUST
    ev = {
        'property': a.property, 'tier': a.tier if a.tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': plan['level'],
        'coverage': {
            'obligations': obl, 'discharged': dis,
            'checker_cmd': 'goto-cc; goto-instrument --dfcc harness --enforce-contract ... --apply-loop-contracts; cbmc ' + ' '.join(CBMC_FLAGS),
            'trusted_base': trusted,
            'functions_under_contract': funcs,
            'functions_bounded_only': bfuncs,
            'back_end': 'cbmc 6.11.0, MiniSat (SAT)' ,
            'solver_seconds': round(sum(r['solver_s'] for r in results), 2),
            'units': [{'unit': r['unit'], 'mode': r['mode'], 'outcome': r['outcome'], 'obligations': r['obligations'],
                       'discharged': r['discharged'], 'seconds': round(r['secs'], 1),
                       'notes': [n[-300:] for n in r['notes']]} for r in results],
            'bounded_standins': bnd,
        },
        'assumptions': plan.get('assumptions', []) + COMMON_ASSUME,
        'wall_s': round(time.time() - T0, 2), 'violations': nviol,
    }
    if plan['level'] != 'proof':
        ev['coverage']['explanation'] = plan.get('explanation', plan['note'])
    with open(os.path.join(VERIF, 'evidence', a.property + '.json'), 'w') as o:
        json.dump(ev, o, indent=1)

COMMON_TRUST = [
    'CBMC 6.11.0: goto-cc C front end, dfcc contract instrumentation, symbolic execution, bit-blasting, MiniSat; its models of memcpy, memset, memcmp, strlen, malloc, free',
    'the contract and specification text in /verif/units (reviewed by reading, exercised by planted bugs)',
]
COMMON_ASSUME = [
    'x86-64 Linux data model, little endian host, gcc -O2 compiles the verified C faithfully',
    'signed integer overflow wraps (checks for signed overflow are off unless a unit says otherwise)',
    'ms_rlog() (logging) replaced by a stub returning 0: no effect on its caller',
]

if __name__ == '__main__':
    sys.exit(main())
