#!/usr/bin/env python3
"""check.py PROPERTY: verify every unit of the property against /repo's tree.

A unit is a harness file harness/u_*.c; its leading comment carries the
directives (see parse_unit).  Exit 0: all obligations of all units discharged.
Exit 1 + VIOLATION line: some obligation fails.  Exit 2: could not be decided.
"""
import concurrent.futures as cf, json, os, re, resource, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('ASM6809_REPO', '/repo')
HAR = os.path.join(VERIF, 'harness')
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
LIMIT = {'quick': 300, 'thorough': 600}.get(TIER, 300)
START = time.time()
BUDGET = 700 if TIER != 'thorough' else 3000

def sh(cmd, cwd=None, timeout=None, env=None, mem=None):
    def pre():
        os.setsid()
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    p = subprocess.Popen(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, preexec_fn=pre)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.communicate()
        return -999, 'TIMEOUT'

def parse_unit(path):
    """Directives: @props, @function, @callees (by contract), @engine
    modular|dfcc, @enforce, @replace, @loops, @unwind, @unwindset, @opts,
    @variant NAME defs..., @bounded text, @assume text, @fallback-unwind."""
    u = dict(path=path, name=os.path.basename(path)[2:-2], props=[], function=[], callees=[], engine='modular',
             enforce=None, replace=[], optional=[], loops=False, unwind=40, unwindset=[], opts=[], variant=[],
             bounded=None, exact=False, assume=[], fb=4, native=True, thorough=[], timeout=None, rcalls=[], link=[], bu=None)
    head = open(path).read().split('*/', 1)[0]
    for line in head.splitlines():
        m = re.match(r'\s*\*?\s*/?\*?\s*@([a-z-]+)\s*(.*)$', line)
        if not m:
            continue
        k, v = m.group(1), m.group(2).strip()
        if k in ('props', 'function', 'callees', 'replace', 'optional', 'unwindset', 'opts', 'thorough'):
            u[k] += v.split()
        elif k == 'replace-calls': u['rcalls'] += v.split()
        elif k == 'link': u['link'] += v.split()
        elif k == 'engine': u['engine'] = v
        elif k == 'enforce': u['enforce'] = v
        elif k == 'loops': u['loops'] = True
        elif k == 'exact-bounded': u['exact'] = True
        elif k == 'unwind': u['unwind'] = int(v)
        elif k == 'bounded-unwind': u['bu'] = int(v)
        elif k == 'timeout': u['timeout'] = int(v)
        elif k == 'fallback-unwind': u['fb'] = int(v)
        elif k == 'variant':
            w = v.split(); u['variant'].append((w[0], w[1:]))
        elif k == 'bounded': u['bounded'] = v
        elif k == 'assume': u['assume'].append(v)
        elif k == 'no-native': u['native'] = False
        else:
            raise SystemExit('%s: unknown directive @%s' % (path, k))
    if not u['variant']:
        u['variant'] = [('', [])]
    return u

def units_for(prop):
    res = []
    for f in sorted(os.listdir(HAR)):
        if f.startswith('u_') and f.endswith('.c'):
            u = parse_unit(os.path.join(HAR, f))
            if prop in u['props']:
                res.append(u)
    return res

EMIT = ['error', 'section_emit_op', 'section_emit_uint8', 'section_emit_uint16', 'section_emit_uint32', 'section_emit_pad']

def includes(gen):
    return ['-I' + HAR, '-I' + os.path.join(HAR, 'cfg'), '-I' + os.path.join(REPO, 'src'), '-I' + os.path.join(REPO, 'dt101'),
            '-I' + gen, '-I' + REPO, '-DHAVE_CONFIG_H']

def gen_dir(tmp):
    """grammar.h is a build product; make our own from grammar.y."""
    g = os.path.join(tmp, 'gen')
    os.makedirs(g, exist_ok=True)
    sh(['bison', '-d', '-o', os.path.join(g, 'grammar.c'), os.path.join(REPO, 'src', 'grammar.y')])
    return g

class Job:
    def __init__(self, u, vname, defs, tmp, gen):
        self.u, self.vname, self.defs, self.tmp, self.gen = u, vname, defs, tmp, gen
        self.engine = u['engine']
        self.id = u['name'] + ('.' + vname if vname else '')

def build(job, bounded):
    u = job.u
    base = os.path.join(job.tmp, job.id + ('.b' if bounded else ''))
    defs = ['-DVH_CBMC'] + job.defs + (['-DVH_BOUNDED'] if bounded else ['-DASM6809_VERIFY'])
    engine = 'modular' if bounded else job.engine
    if engine == 'modular':
        defs.append('-DVH_MODULAR')
    a, b, c = base + '.ga', base + '.gb', base + '.gc'
    cmd = ['goto-cc'] + includes(job.gen) + defs + [u['path'], '-o', a] + (['-c'] if u['link'] else ['--function', 'vh_main'])
    rc, out = sh(cmd, timeout=120)
    cmds = [' '.join(cmd)]
    if rc:
        return None, cmds, 'goto-cc failed:\n' + out[-3000:]
    fn = b
    if engine == 'dfcc':
        rep = []
        for r in u['replace']:
            rep += EMIT if r == 'EMIT' else [r]
        rc, syms = sh(['goto-instrument', '--list-goto-functions', a], timeout=60)
        for r in u['optional']:
            if re.search(r'\b%s /\* %s \*/' % (re.escape(r), re.escape(r)), syms):
                rep.append(r)
        cmd = ['goto-instrument', '--dfcc', 'vh_main']
        if u['enforce']:
            cmd += ['--enforce-contract', u['enforce']]
        for r in rep:
            cmd += ['--replace-call-with-contract', r]
        if u['loops'] and not bounded:
            cmd += ['--apply-loop-contracts']
        cmd += [a, b]
        rc, out = sh(cmd, timeout=120)
        cmds.append(' '.join(cmd))
        if rc:
            return None, cmds, 'goto-instrument failed:\n' + out[-3000:]
    else:
        if u['rcalls']:
            cmd = ['goto-instrument']
            for r in u['rcalls']:
                cmd += ['--replace-calls', r]
            cmd += [a, a]
            rc, out = sh(cmd, timeout=120)
            cmds.append(' '.join(cmd))
            if rc:
                return None, cmds, 'goto-instrument failed:\n' + out[-3000:]
        if u['link']:
            cmd = ['goto-cc'] + includes(job.gen) + defs + [a] + [os.path.join(HAR, l) for l in u['link']] + ['-o', base + '.gl', '--function', 'vh_main']
            rc, out = sh(cmd, timeout=120)
            cmds.append(' '.join(cmd))
            if rc:
                return None, cmds, 'goto-cc failed:\n' + out[-3000:]
            a = base + '.gl'
        cmd = ['goto-instrument', '--drop-unused-functions', a, b]
        rc, out = sh(cmd, timeout=120)
        cmds.append(' '.join(cmd))
        if rc:
            return None, cmds, 'goto-instrument failed:\n' + out[-3000:]
        if u['loops'] and not bounded:
            fn = c
            cmd = ['goto-instrument', '--apply-loop-contracts', b, c]
            rc, out = sh(cmd, timeout=120)
            cmds.append(' '.join(cmd))
            if rc:
                return None, cmds, 'goto-instrument failed:\n' + out[-3000:]
    return fn, cmds, out

def cbmc_cmd(job, fn, bounded):
    u = job.u
    cmd = ['cbmc', fn, '--no-signed-overflow-check', '--no-malloc-may-fail', '--unwind', str(u['fb'] if bounded and u['loops'] else u['bu'] if bounded and u['bu'] else u['unwind'])]
    for s in u['unwindset']:
        cmd += ['--unwindset', s]
    if not any(o.startswith('--object-bits') for o in u['opts']):
        cmd += ['--object-bits', '10' if bounded or job.engine == 'modular' else '9']
    if TIER == 'thorough':
        cmd += u['thorough']
    return cmd + [o for o in u['opts'] if not (bounded and o == '--cvc5')]

def run_cbmc(job, fn, bounded):
    u = job.u
    t0 = time.time()
    left = BUDGET - (time.time() - START)
    lim = min(u['timeout'] or LIMIT, LIMIT if not bounded else LIMIT * 2 // 3, left)
    cmd = cbmc_cmd(job, fn, bounded)
    if lim < 15:
        return dict(cmd=' '.join(cmd), time=0.0, props=[], err='no time left', solver=0.0)
    rc, out = sh(cmd + ['--json-ui'], timeout=lim, mem=9 << 30)
    dt = time.time() - t0
    r = dict(cmd=' '.join(cmd), time=dt, props=[], err=None, solver=None)
    try:
        js = json.loads(out)
    except ValueError:
        r['err'] = 'cbmc: no result (%s)' % ('time limit %ds' % lim if rc == -999 else 'exit %d: %s' % (rc, out[-500:]))
        return r
    st = 0.0
    for e in js:
        if 'result' in e:
            r['props'] = [(p['property'], p.get('description', ''), p['status'],
                           (p.get('sourceLocation') or {}).get('file', ''), (p.get('sourceLocation') or {}).get('line', ''))
                          for p in e['result']]
        t = e.get('messageText', '')
        m = re.match(r'Runtime (Solver|decision procedure): ([0-9.e-]+)s', t, re.I)
        if m:
            st = max(st, float(m.group(2))) if m.group(1).lower() != 'solver' else st + float(m.group(2))
    r['solver'] = st
    if not r['props']:
        msgs = [e.get('messageText', '') for e in js if e.get('messageType') in ('ERROR', 'WARNING')]
        r['err'] = 'cbmc: no obligations: ' + ' | '.join(msgs)[-800:]
    return r

def get_trace(job, fn, prop, bounded):
    cmd = cbmc_cmd(job, fn, bounded) + ['--property', prop, '--trace', '--json-ui']
    rc, out = sh(cmd, timeout=max(30, min(300, BUDGET - (time.time() - START))), mem=14 << 30)
    vals = []
    try:
        js = json.loads(out)
    except ValueError:
        return None, out[-2000:]
    for e in js:
        for p in e.get('result', []):
            if p.get('status') == 'FAILURE' and 'trace' in p:
                for s in p['trace']:
                    if s.get('stepType') == 'assignment' and re.search(r'(^|::)vh_ndv$', s.get('lhs', '')) \
                       and s.get('sourceLocation', {}).get('function', '').startswith('vh_nd'):
                        v = s['value']
                        if 'binary' in v:
                            n = int(v['binary'], 2)
                            if n >= 1 << 63:
                                n -= 1 << 64
                            vals.append((s.get('sourceLocation', {}).get('line'), n))
    return vals, None

def native(job, vals, tag, rnd=None):
    u = job.u
    exe = os.path.join(job.tmp, job.id + ('.native' if rnd is None else '.sample'))
    cmd = ['gcc', '-g', '-O0', '-w', '-fsanitize=address,undefined', '-fno-sanitize=signed-integer-overflow,shift,float-cast-overflow,alignment',
           '-fno-sanitize-recover=all'] + includes(job.gen) + ['-DVH_NATIVE', '-DVH_MODULAR'] + ([] if rnd is None else ['-DVH_BOUNDED']) + job.defs + [u['path']] + [os.path.join(HAR, l) for l in u['link']] + ['-o', exe, '-lm', '-no-pie', '-Wl,--unresolved-symbols=ignore-all']
    if not os.path.exists(exe):
        rc, out = sh(cmd, timeout=120)
        if rc:
            return None, 'native build failed: ' + out[-1500:], cmd
    env = dict(os.environ, VH_REPLAY=' '.join(map(str, vals)), ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=66', UBSAN_OPTIONS='print_stacktrace=1:exitcode=66')
    if rnd is not None:
        env['VH_RANDOM'] = str(rnd)
    rc, out = sh([exe], timeout=20, env=env, cwd=job.tmp)
    if 'points to the zero page' in out and 'FAILED' not in out:
        return None, 'the native run calls a function that the unit does not provide\n' + out[-1500:], cmd
    return rc, out[-6000:], cmd

def is_cover(p): return p[1].startswith('VH_COVER')
def is_unwind(p): return '.unwind.' in p[0] or 'unwinding assertion' in p[1] or 'recursion' in p[0] and 'unwind' in p[1]
def is_nobody(p): return '.no-body.' in p[0]
def is_loopaux(p): return any(s in p[0] for s in ('loop_invariant', 'loop_decreases', 'loop_assigns', 'loop_step')) or 'loop invariant' in p[1] or 'decreases' in p[1] or 'loop write set' in p[1]

def sample(job, n=400, secs=15):
    """Random inputs natively: where no proof and no bounded run is to be had.
    Returns (runs within the precondition, hit or None, note)."""
    t0 = time.time()
    ok = 0
    for i in range(n):
        if time.time() - t0 > secs:
            break
        rc, out, cmd = native(job, [], 'sample', rnd=SEED * 100000 + i + 1)
        if rc is None:
            return ok, None, out
        if rc == 0:
            ok += 1
        elif rc not in (77, -999):
            return ok, (SEED * 100000 + i + 1, out, rc, cmd), ''
    return ok, None, ''

def sampled(job, res):
    """Last resort for an undecided unit."""
    if not job.u['native']:
        return
    ok, hit, note = sample(job)
    if hit:
        seed, out, rc, cmd = hit
        res['verdict'] = 'violation'
        res['log'] = '\n'.join(['unit %s: failing input (random native runs; the verifier gave no answer)' % job.id,
            'build:  ' + ' '.join(cmd), "run:    VH_RANDOM=%d %s" % (seed, cmd[cmd.index('-o') + 1]), '', out])
    elif ok:
        res['verdict'] = 'ok'
        res['bounded'] = 'not proved: %d random inputs only' % ok
        res['obligations'] = res['discharged'] = 0
    else:
        res['notes'].append('sampling: ' + note[-300:])

def sample_hit(job, res, real):
    """A failing input by random native runs, when the verifier's own does not fail natively."""
    ok, hit, note = sample(job)
    if not hit:
        return False
    seed, out, rc, cmd = hit
    res['verdict'] = 'violation'
    res['log'] = '\n'.join(['unit %s: failing obligations:' % job.id] + ['  %s: %s (%s:%s)' % (p[0], p[1], p[3], p[4]) for p in real[:20]] +
        ['', 'failing input found by random native runs of the unit, exit %s' % rc, 'build:  ' + ' '.join(cmd), "run:    VH_RANDOM=%d %s" % (seed, cmd[cmd.index('-o') + 1]), '', out])
    return True

def verify(job):
    res = verify1(job)
    if res['verdict'] == 'undecided' and not res['log'].startswith('vacuous'):
        sampled(job, res)
    return res

def fbtext(u):
    return 'fallback: loops unwound %d times' % u['fb'] if u['loops'] else 'fallback: small inputs'

def verify1(job):
    u = job.u
    res = dict(unit=job.id, functions=u['function'], callees=u['callees'], engine=u['engine'], bounded=u['bounded'],
               obligations=0, discharged=0, failed=[], covers=0, solver_s=0.0, wall_s=0.0, cmds=[], notes=[], verdict='?', log='')
    t0 = time.time()
    def attempt(bounded):
        fn, cmds, out = build(job, bounded)
        res['cmds'] += cmds
        if fn is None:
            return None, None, out
        r = run_cbmc(job, fn, bounded)
        res['cmds'].append(r['cmd'])
        res['solver_s'] += r['solver'] or 0
        return fn, r, r['err']
    def confirm(fn, fails, bounded):
        """native replay of the first few failing obligations"""
        tried = []
        for p in fails[:4]:
            if time.time() - START > BUDGET - 60:
                break
            vals, err = get_trace(job, fn, p[0], bounded)
            if vals is None:
                tried.append((p, None, 'no trace: %s' % err)); continue
            vs = [v for _, v in vals]
            if not u['native']:
                tried.append((p, vs, 'no native replay for this unit')); continue
            rc, out, cmd = native(job, vs, p[0])
            if rc not in (0, 77, None):
                return (p, vs, out, rc, cmd), tried
            tried.append((p, vs, 'native replay exit %s:\n%s' % (rc, out)))
        return None, tried
    fn, r, err = attempt(False)
    if err and job.engine == 'dfcc':
        res['notes'].append('dfcc: ' + err[:600])
        job.engine = res['engine'] = 'modular'
        fn, r, err = attempt(False)
    if err:
        res['notes'].append('proof run: ' + err)
        if u['fb'] and (u['loops'] or u['exact'] or 'goto-cc' not in err):
            fn, r, err2 = attempt(True)
            if not err2:
                res['notes'].append('BOUNDED fallback, unwind %d' % u['fb'])
                res['bounded'] = fbtext(u)
                bnd = True
            else:
                res['notes'].append('bounded run: ' + err2)
        if r is None or r['err']:
            res['verdict'] = 'undecided'; res['log'] = '\n'.join(res['notes']); res['wall_s'] = time.time() - t0
            return res
        bnd = True
    else:
        bnd = False
    def classify(r):
        cov = [p for p in r['props'] if is_cover(p)]
        obl = [p for p in r['props'] if not is_cover(p)]
        return cov, obl, [p for p in obl if p[2] == 'FAILURE'], [p for p in obl if p[2] not in ('SUCCESS', 'FAILURE')]
    cov, obl, fails, unk = classify(r)
    real = [p for p in fails if not is_unwind(p) and not is_loopaux(p) and not is_nobody(p)]
    real.sort(key=lambda p: 0 if ('.postcondition' in p[0] or p[1].startswith('VH_')) else 1)
    if not bnd and [p for p in fails if is_unwind(p) or is_loopaux(p)] or (bnd and [p for p in fails if is_unwind(p)]):
        aux = [p for p in fails if is_unwind(p) or is_loopaux(p)]
        res['notes'].append('annotations no longer carry: ' + '; '.join('%s (%s)' % (p[0], p[1]) for p in aux[:5]))
        # decide within the bound instead
        f2, r2, e2 = attempt(True)
        if not e2:
            c2, o2, fl2, u2 = classify(r2)
            real2 = [p for p in fl2 if not is_unwind(p) and not is_loopaux(p) and not is_nobody(p)]
            res['bounded'] = fbtext(u)
            if real2 or not real:
                fn, r, bnd, cov, obl, fails, unk, real = f2, r2, True, c2, o2, fl2, [p for p in u2 if not is_unwind(p)], real2
                unk = [p for p in unk if p[2] == 'ERROR']
            if not real2:
                real = []
                fn, r, bnd, cov, obl, fails = f2, r2, True, c2, o2, fl2
                unk = []
        elif not real:
            res['verdict'] = 'undecided'; res['log'] = '\n'.join(res['notes'] + [e2]); res['wall_s'] = time.time() - t0
            return res
    aux_n = len([p for p in obl if is_unwind(p) and p[2] != 'SUCCESS'])
    res['obligations'] = len(obl)
    res['discharged'] = len([p for p in obl if p[2] == 'SUCCESS'])
    res['covers'] = len(cov)
    res['names'] = sorted({p[1] for p in obl if p[1].startswith('VH_') or 'postcondition' in p[0] or 'loop_invariant' in p[0]})
    res['failed'] = [(p[0], p[1], p[2], p[3], p[4]) for p in fails if not is_cover(p)][:50]
    res['wall_s'] = time.time() - t0
    nb = [p for p in fails if is_nobody(p)]
    if nb:
        res['notes'].append('calls without a contract, taken as arbitrary values: ' + ', '.join(p[0] for p in nb))
    if not real:
        if unk and not bnd:
            res['verdict'] = 'undecided'; res['log'] = 'UNKNOWN: ' + str(unk[:5])
            return res
        if not obl or not cov:
            res['verdict'] = 'undecided'; res['log'] = 'vacuous: no obligations or no reachability probe'
            return res
        dead = [p for p in cov if p[2] != 'FAILURE']
        if dead:
            res['verdict'] = 'undecided'; res['log'] = 'vacuous: unreachable probe ' + str(dead[:3])
            return res
        res['verdict'] = 'ok'
        return res
    hit, tried = confirm(fn, real, bnd)
    if not hit and not bnd and (u['loops'] or u['exact']):
        f2, r2, e2 = attempt(True)
        if not e2:
            c2, o2, fl2, u2 = classify(r2)
            real2 = [p for p in fl2 if not is_unwind(p) and not is_loopaux(p) and not is_nobody(p)]
            real2.sort(key=lambda p: 0 if ('.postcondition' in p[0] or p[1].startswith('VH_')) else 1)
            h2, t2 = confirm(f2, real2, True)
            tried += t2
            if h2:
                hit = h2
            if not real2 and c2 and all(p[2] == 'FAILURE' for p in c2):
                res['notes'].append('proof obligations fail without a failing input: ' + '; '.join('%s (%s)' % (p[0], p[1]) for p in real[:5]))
                res['notes'].append('decided within a bound instead')
                res['bounded'] = 'fallback: bounded run'
                res['obligations'] = len(o2); res['discharged'] = len([p for p in o2 if p[2] == 'SUCCESS'])
                res['failed'] = []
                res['verdict'] = 'ok'; res['wall_s'] = time.time() - t0
                return res
    log = ['unit %s: failing obligations:' % job.id]
    for p in real[:20]:
        log.append('  %s: %s (%s:%s)' % (p[0], p[1], p[3], p[4]))
    if hit:
        p, vs, out, rc, cmd = hit
        res['verdict'] = 'violation'
        log += ['', 'counterexample of %s (%s), replayed natively against the real code, exit %s' % (p[0], p[1], rc),
                'build:  ' + ' '.join(cmd), "run:    VH_REPLAY='%s' %s" % (' '.join(map(str, vs)), cmd[cmd.index('-o') + 1]), '', out]
        res['replay'] = dict(obligation=p[0], description=p[1], values=vs)
    elif u['native'] and sample_hit(job, res, real):
        return res
    else:
        res['verdict'] = 'violation-noinput'
        log += ['', 'no failing input found natively; verifier output follows']
        for p, vs, out in tried:
            log += ['', '%s: %s' % (p[0], p[1]), 'values: %s' % vs, str(out)]
        log += [r['cmd']]
    res['log'] = '\n'.join(log)
    res['wall_s'] = time.time() - t0
    return res

def skipped(job):
    return dict(unit=job.id, functions=job.u['function'], callees=job.u['callees'], engine=job.engine, bounded=job.u['bounded'],
                obligations=0, discharged=0, failed=[], covers=0, solver_s=0.0, wall_s=0.0, cmds=[''], notes=['not run: a violation was already found'],
                verdict='skipped', log='')

def load_known():
    known = []
    f = os.path.join(VERIF, 'KNOWN_FINDINGS')
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r'known: property=(\S+) unit=(\S+) obligation="([^"]*)" (.*)$', l.strip())
            if m:
                known.append(m.groups())
    return known

def main():
    prop = sys.argv[1]
    only = sys.argv[2:] 
    us = units_for(prop) if prop != 'unit' else [parse_unit(os.path.join(HAR, 'u_%s.c' % n)) for n in only]
    if not us:
        print('no units for', prop); return 2
    tmp = tempfile.mkdtemp(prefix='vh.')
    if os.environ.get('VH_SAMPLE'):
        gen = gen_dir(tmp)
        for u in us:
            for v, d in u['variant']:
                j = Job(u, v, d, tmp, gen)
                ok, hit, note = sample(j, int(os.environ['VH_SAMPLE']), 20) if u['native'] else (0, None, 'not native')
                print('%-28s %d within the precondition, %s %s' % (j.id, ok, 'FAILS ' + '; '.join(l for l in hit[1].splitlines() if 'FAILED' in l or 'ERROR' in l or 'runtime error' in l)[:300] + ' seed %d' % hit[0] if hit else 'no failure', note[-200:]), flush=True)
        shutil.rmtree(tmp, ignore_errors=True)
        return 0
    try:
        gen = gen_dir(tmp)
        jobs = [Job(u, v, d, tmp, gen) for u in us for v, d in u['variant']]
        par = min(8, len(jobs))
        with cf.ThreadPoolExecutor(max_workers=par) as ex:
            stop = []
            def run(j):
                if stop:
                    return skipped(j)
                r = verify(j)
                if r['verdict'] == 'violation':
                    stop.append(1)
                if os.environ.get('VH_PROGRESS'):
                    print('  ', r['unit'], r['verdict'], '%.1fs' % r['wall_s'], [n[:150] for n in r['notes']], file=sys.stderr, flush=True)
                return r
            results = list(ex.map(run, jobs))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    rc = 0
    outdir = os.path.join(VERIF, 'out'); os.makedirs(outdir, exist_ok=True)
    for r in results:
        print('%-28s %-10s %5d/%-5d obligations  %.1fs%s' % (r['unit'], r['verdict'], r['discharged'], r['obligations'], r['wall_s'],
              '  [bounded: %s]' % r['bounded'] if r['bounded'] else ''))
        for n in r['notes']:
            print('    ' + n.replace('\n', '\n    ')[:1500])
    viol = [r for r in results if r['verdict'].startswith('violation')]
    und = [r for r in results if r['verdict'] == 'undecided']
    viol.sort(key=lambda r: r['verdict'] != 'violation')
    if prop != 'unit':
        write_evidence(prop, us, results, len(viol))
    for r in und:
        print('UNDECIDED %s: %s' % (r['unit'], r['log'][:300]))
    for r in viol:
        if prop == 'unit':
            print(r['log'])
    if viol:
        r = viol[0]
        path = os.path.join(outdir, '%s.replay.txt' % prop)
        with open(path, 'w') as f:
            for r2 in viol:
                f.write(r2['log'] + '\n\n')
        print(r['log'][:3000])
        print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if r['verdict'] == 'violation' else ' no-failing-input-found'))
        return 1
    if und:
        return 2
    return 0

def tool_versions():
    v = sh(['cbmc', '--version'])[1].strip()
    return 'cbmc ' + v

def write_evidence(prop, us, results, nviol):
    ev = os.path.join(VERIF, 'evidence'); os.makedirs(ev, exist_ok=True)
    proved = [r for r in results if not r['bounded']]
    bnd = [r for r in results if r['bounded']]
    assume = []
    for u in us:
        for a in u['assume']:
            if a not in assume:
                assume.append(a)
    base = ['signed integer arithmetic wraps (no overflow obligations)', 'xmalloc() returns a valid block (gnulib exits otherwise)',
            'the C semantics of goto-cc/cbmc for x86_64, and its SAT back end (MiniSat)']
    level = 'proof' if proved else 'other'
    cov = dict(
        obligations=sum(r['obligations'] for r in proved), discharged=sum(r['discharged'] for r in proved),
        checker_cmd='python3 bin/check.py ' + prop,
        trusted_base=base + assume,
        functions_under_contract=sorted({f for r in results for f in r['functions']}),
        callees_by_contract=sorted({f for r in results for f in r['callees']}),
        solver='cbmc (SAT, MiniSat)', solver_s=round(sum(r['solver_s'] for r in results), 2),
        units=[dict(unit=r['unit'], verdict=r['verdict'], functions=r['functions'], obligations=r['obligations'], discharged=r['discharged'],
                    bounded=r['bounded'], wall_s=round(r['wall_s'], 2), named=r.get('names', [])[:60], notes=[n[:500] for n in r['notes']]) for r in results],
        bounded_units=[r['unit'] for r in bnd],
        bounded_obligations=sum(r['obligations'] for r in bnd), bounded_discharged=sum(r['discharged'] for r in bnd),
        explanation='Each unit includes the real source; obligations are the contract clauses plus pointer, bounds, division and unwinding checks. '
                    'obligations/discharged count only units without a stated bound.',
        tool=tool_versions(),
        commands=[c for r in results for c in r['cmds'][-1:]],
    )
    d = dict(property=prop, tier=TIER if TIER in ('quick', 'thorough') else 'quick', seed=SEED, level=level, coverage=cov,
             assumptions=base + assume, wall_s=round(time.time() - START, 2), violations=nviol)
    with open(os.path.join(ev, prop + '.json'), 'w') as f:
        json.dump(d, f, indent=1)

if __name__ == '__main__':
    sys.exit(main())
