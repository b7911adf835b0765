#!/usr/bin/env python3
"""Decides one property by static analysis of /repo's current headers.

  check.py ID [--tier quick|thorough] [--repo /repo] [--jobs N] [--only SUBSTR]

Every unit under checks/ID is one of
  *.ir.cpp   drivers (public API only, over abstract bounded types); compiled to LLVM IR, never run, and analysed by
             build/vsa (engine/vsa.cpp): path-sensitive typestate/ownership/value-flow dataflow
  *.sa.cpp   type-level obligations (static_assert), discharged by clang++ and g++
  *.rej.cpp  compile-fail witnesses: for each CASE_x, the program must compile, and with -DBAD it must not
Exit 0 held / 1 VIOLATION / 2 the analysis itself is broken.
"""
import argparse, concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
ROOT = os.path.dirname(os.path.abspath(__file__))
CLANG = next((c for c in ('/usr/bin/clang++-18', 'clang++-18', 'clang++') if shutil.which(c)), 'clang++')
GXX = shutil.which('g++') or 'g++'
TOOL = os.path.join(ROOT, 'build', 'vsa')
TOOLSRC = os.path.join(ROOT, 'engine', 'vsa.cpp')
IRF = ['-O1', '-Xclang', '-disable-llvm-passes', '-g', '-fno-discard-value-names', '-w', '-emit-llvm', '-c']

def build_tool():
    h = hashlib.sha256(open(TOOLSRC, 'rb').read()).hexdigest()
    stamp = TOOL + '.sha'
    if os.path.exists(TOOL) and os.path.exists(stamp) and open(stamp).read() == h: return
    os.makedirs(os.path.dirname(TOOL), exist_ok=True)
    tmp = TOOL + '.%d' % os.getpid()
    r = subprocess.run([GXX, '-O2', '-std=c++17', '-fno-rtti', '-w', '-I/usr/lib/llvm-18/include', '-D_GNU_SOURCE', '-D__STDC_CONSTANT_MACROS',
                        '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS', TOOLSRC, '-o', tmp, '-L/usr/lib/llvm-18/lib', '-lLLVM-18'],
                       capture_output=True, text=True)
    if r.returncode: die('cannot build the analyser:\n' + r.stderr[-3000:])
    os.replace(tmp, TOOL); open(stamp, 'w').write(h)

def die(msg):
    print('ANALYSIS-BROKEN: ' + msg); sys.exit(2)

def directives(path):
    d = dict(std=['17'], stdp=[], flags=[], config=[('', [])], configp=[], cover=[], ignore=[], args=[], argsp=[], compilers=['clang', 'gcc'])
    for l in open(path):
        m = re.match(r'//@(\S+)\s*(.*)', l)
        if not m: continue
        k, v = m.group(1), m.group(2).strip()
        if k == 'std': d['std'] = v.split()
        elif k == 'std+': d['stdp'] = v.split()
        elif k == 'flags': d['flags'] += v.split()
        elif k in ('config', 'config+'):
            n, f = v.split(':', 1); d['config' if k == 'config' else 'configp'].append((n.strip(), f.split()))
        elif k == 'no-default-config': d['config'] = [c for c in d['config'] if c[0]]
        elif k == 'cover': d['cover'] += v.split()
        elif k == 'ignore': d['ignore'] += v.split()
        elif k == 'args': d['args'] += v.split()
        elif k == 'args+': d['argsp'] += v.split()
        elif k == 'compilers': d['compilers'] = v.split()
        else: die('unknown directive %s in %s' % (k, path))
    return d

class Ctx: pass
def run(cmd, timeout=None):
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout)
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired:
        return 124, '', 'timeout'

def errline(err, cx):
    ls = [l for l in err.splitlines() if 'error:' in l]
    rp = [l for l in err.splitlines() if cx.repo in l and ('error:' in l or 'in instantiation' in l or 'required' in l or 'note:' in l)]
    return '\n'.join((ls[:4] or err.splitlines()[:4]) + rp[:4])

def headers_ok(cx, comp, std, flags):
    key = (comp, std, tuple(flags))
    if key not in cx.hdr:
        src = os.path.join(ROOT, 'harness', 'headers.cpp')
        rc, o, e = run([comp, '-std=c++' + std, '-fsyntax-only', '-w', '-I' + cx.repo + 'include'] + flags + [src])
        cx.hdr[key] = (rc == 0, e)
    return cx.hdr[key]

def inc(cx): return ['-I' + os.path.join(ROOT, 'harness'), '-I' + cx.repo + 'include']

def compile_failed(cx, comp, std, flags, src, err, what):
    if ' error:' not in err: return dict(broken='%s: the compiler did not finish (%s -std=c++%s %s): %s' % (src, comp, std, ' '.join(flags), err[-300:]))
    ok, he = headers_ok(cx, comp, std, flags)
    if not ok: return dict(broken='%s: the library headers do not compile with %s -std=c++%s %s:\n%s' % (src, comp, std, ' '.join(flags), errline(he, cx)))
    return dict(violations=[dict(rule='COMPILE', msg=what, loc=os.path.basename(src), func='', entry=os.path.basename(src), stack=[], trace=[], detail=errline(err, cx))])

def job_ir(cx, src, d, std, cname, cflags):
    name = os.path.basename(src)
    tag = '%s.%s.%s' % (name[:-7], std, cname or 'default')
    bc = os.path.join(cx.tmp, tag + '.bc')
    flags = d['flags'] + cflags
    cc = [CLANG, '-std=c++' + std] + IRF + inc(cx) + flags + [src, '-o', bc]
    t0 = time.time(); rc, o, e = run(cc); tc = time.time() - t0
    if rc: return dict(tag=tag, **compile_failed(cx, CLANG, std, flags, src, e, 'a program using only the documented interface no longer compiles (-std=c++%s %s)' % (std, cname)))
    va = [TOOL, bc, '--repo', cx.repo, '--time', '300', '--max-viol', '40'] + d['args'] + (d['argsp'] if cx.tier == 'thorough' else [])
    t0 = time.time(); rc, o, e = run(va, timeout=800); ta = time.time() - t0
    try: j = json.loads(o)
    except Exception: return dict(tag=tag, broken='%s: analyser failed (rc=%d): %s' % (tag, rc, e[-500:]))
    res = dict(tag=tag, ir=j, compile_s=round(tc, 1), analyse_s=round(ta, 1), cmd=' '.join(cc) + ' && ' + ' '.join(va))
    vi = [v for v in j['violations'] if v['rule'] not in d['ignore']]
    res['ignored'] = len(j['violations']) - len(vi)
    for v in vi: v['unit'] = tag
    if vi: res['violations'] = vi
    elif j['incomplete']: res['broken'] = '%s: analysis incomplete: %s' % (tag, '; '.join(map(str, j['incomplete'][:3])))
    else:
        cov = set(j['covered']); miss = []
        for c in d['cover']:
            who, lab = c.split(':', 1)
            if who == 'all': miss += [e + ':' + lab for e in [x['name'] for x in j['entries']] if e + ':' + lab not in cov]
            elif who == 'any':
                if not any(x.split(':', 1)[1] == lab for x in cov): miss.append(c)
            elif c not in cov: miss.append(c)
        if miss: res['broken'] = '%s: obligations never reached: %s' % (tag, ' '.join(miss))
        elif not j['entries']: res['broken'] = tag + ': no driver entry'
    return res

def job_sa(cx, src, d, std, cname, cflags, comp):
    name = os.path.basename(src)
    tag = '%s.%s.%s.%s' % (name[:-7], os.path.basename(comp), std, cname or 'default')
    flags = d['flags'] + cflags
    cmd = [comp, '-std=c++' + std, '-fsyntax-only', '-w'] + inc(cx) + flags + [src]
    rc, o, e = run(cmd)
    n = len(re.findall(r'\b(?:static_assert|SAME|YES|NO|AT)\s*\(', open(src).read()))
    if rc:
        r = compile_failed(cx, comp, std, flags, src, e, 'type-level obligation fails (%s -std=c++%s %s)' % (os.path.basename(comp), std, cname))
        if 'violations' in r:
            for v in r['violations']: v['rule'] = 'TYPE-LEVEL'; v['unit'] = tag
        return dict(tag=tag, **r)
    return dict(tag=tag, sa=n, cmd=' '.join(cmd))

def job_rej(cx, src, d, std, cname, cflags, comp, case):
    tag = '%s.%s.%s.%s' % (os.path.basename(src)[:-8], os.path.basename(comp), std, case)
    flags = d['flags'] + cflags
    base = [comp, '-std=c++' + std, '-fsyntax-only', '-w'] + inc(cx) + flags + ['-DCASE_' + case, src]
    rc, o, e = run(base)
    if rc:
        r = compile_failed(cx, comp, std, flags, src, e, 'well-formed control program %s is rejected (%s -std=c++%s)' % (case, os.path.basename(comp), std))
        for v in r.get('violations', []): v['rule'] = 'REJECTS-VALID'; v['unit'] = tag
        return dict(tag=tag, **r)
    rc, o, e = run(base + ['-DBAD'])
    if rc == 0:
        return dict(tag=tag, violations=[dict(rule='ACCEPTS-INVALID', msg='program %s must not compile but does (%s -std=c++%s)' % (case, os.path.basename(comp), std),
                    loc=os.path.basename(src), func='', entry=case, stack=[], trace=[], unit=tag)], cmd=' '.join(base + ['-DBAD']))
    if rc != 1: return dict(tag=tag, broken='%s: compiler crashed' % tag)
    return dict(tag=tag, rej=1, cmd=' '.join(base + ['-DBAD']))

def known(pid):
    ks = []
    f = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l)
            if m and m.group(1) == pid: ks.append((m.group(2), m.group(3)))
    return ks

def vkey(v): return '%s@%s@%s' % (v['rule'], v['loc'], v['msg'].replace(' ', '_'))

def main():
    ap = argparse.ArgumentParser(); ap.add_argument('id'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--repo', default='/repo'); ap.add_argument('--jobs', type=int, default=os.cpu_count() or 8); ap.add_argument('--only', default='')
    ap.add_argument('--no-evidence', action='store_true'); ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    cx = Ctx(); cx.repo = a.repo.rstrip('/') + '/'; cx.tier = a.tier; cx.hdr = {}; cx.tmp = tempfile.mkdtemp(prefix='vsa-%s-' % a.id)
    build_tool()
    if not a.no_evidence:
        try: os.remove(os.path.join(ROOT, 'evidence', a.id + '.violation.txt'))
        except OSError: pass
    cd = os.path.join(ROOT, 'checks', a.id)
    srcs = sorted(f for f in os.listdir(cd) if f.endswith('.cpp') and a.only in f)
    if not srcs: die('no units for ' + a.id)
    jobs = []
    for f in srcs:
        src = os.path.join(cd, f); d = directives(src)
        stds = d['std'] + (d['stdp'][-1:] if f.endswith('.rej.cpp') and a.tier != 'thorough' else d['stdp'])
        cfgs = d['config'] + (d['configp'] if a.tier == 'thorough' else [])
        combos = [(s, c) for s in stds for c in cfgs] if a.tier == 'thorough' else [(s, cfgs[0]) for s in stds] + [(stds[0], c) for c in cfgs[1:]]
        for s, (cn, cf_) in combos:
            if f.endswith('.ir.cpp'): jobs.append((job_ir, (cx, src, d, s, cn, cf_)))
            else:
                for comp in [c for c, n in ((CLANG, 'clang'), (GXX, 'gcc')) if n in d['compilers']]:
                    if f.endswith('.sa.cpp'): jobs.append((job_sa, (cx, src, d, s, cn, cf_, comp)))
                    elif f.endswith('.rej.cpp'):
                        for case in sorted(set(re.findall(r'CASE_(\w+)', open(src).read()))):
                            jobs.append((job_rej, (cx, src, d, s, cn, cf_, comp, case)))
                    else: die('unknown unit kind ' + f)
    res = []
    try:
        with cf.ThreadPoolExecutor(a.jobs) as ex:
            for r in ex.map(lambda j: j[0](*j[1]), jobs): res.append(r)
    finally:
        shutil.rmtree(cx.tmp, ignore_errors=True)
    viol = [v for r in res for v in r.get('violations', [])]
    broken = [r['broken'] for r in res if 'broken' in r]
    ks = known(a.id); hits = {}
    fresh = []
    for v in viol:
        k = next((k for k in ks if k[0] == vkey(v)), None)
        if k: hits[k] = 1
        else: fresh.append(v)
    for k, text in hits: print('KNOWN-FINDING: property=%s %s' % (a.id, text))
    irs = [r for r in res if 'ir' in r]
    ob = {}
    for r in irs:
        for k, n in r['ir']['obligations'].items(): ob[k] = ob.get(k, 0) + n
    rf, rl, ents = set(), set(), 0
    for r in irs:
        rf |= set(r['ir']['repo_functions']) if isinstance(r['ir']['repo_functions'], list) else set()
        rl |= set(map(str, r['ir']['repo_lines'])); ents += len(r['ir']['entries'])
    cov = dict(explanation='Static analysis: the listed units are compiled (never run) against the current headers; drivers are analysed by path-sensitive typestate/ownership/value-flow dataflow over LLVM IR, type-level and compile-fail units are decided by the compilers\' type checking. All paths of the instantiated library code from each driver entry are covered up to the assumptions.',
               units=len(jobs), entries=ents, abstract_states=sum(r['ir']['states'] for r in irs), steps=sum(r['ir']['steps'] for r in irs),
               forks=sum(r['ir']['forks'] for r in irs), merged=sum(r['ir']['merged'] for r in irs), library_lines_analysed=len(rl),
               library_functions=sum(r['ir']['repo_functions'] if isinstance(r['ir']['repo_functions'], int) else len(r['ir']['repo_functions']) for r in irs),
               obligations_by_rule=ob, static_asserts=sum(r.get('sa', 0) for r in res), compile_fail_witnesses=sum(r.get('rej', 0) for r in res),
               obligations=sum(ob.values()) + sum(r.get('sa', 0) for r in res) + sum(r.get('rej', 0) for r in res),
               covered=sorted({c for r in irs for c in r['ir']['covered']}),
               unit_list=[dict(unit=r['tag'], **({'states': r['ir']['states'], 'compile_s': r['compile_s'], 'analyse_s': r['analyse_s']} if 'ir' in r else {})) for r in res],
               samples=[r['cmd'].replace(cx.tmp, 'TMP') for r in res if 'cmd' in r][:2])
    ev = dict(property=a.id, tier=a.tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='other', coverage=cov,
              assumptions=['clang 18\'s translation of the templates to IR is faithful', 'bounded types behave as their declared special members allow (any may throw where not noexcept)',
                           'quantification over type lists is by representative lists per dispatch class of the library', 'loops over histories are closed by a fixpoint on abstract states'],
              wall_s=round(time.time() - t0, 1), violations=len(fresh))
    if not a.no_evidence:
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(ROOT, 'evidence', a.id + '.json'), 'w'), indent=1)
    print('%s %s: %d units, %d entries, %d states, %d obligations, %.1fs' % (a.id, a.tier, len(jobs), ents, cov['abstract_states'], cov['obligations'], time.time() - t0))
    if a.v:
        for r in res: print('  ', r['tag'], {k: r[k] for k in ('compile_s', 'analyse_s', 'ignored', 'broken') if k in r}, (r['ir']['states'], r['ir']['steps']) if 'ir' in r else '', len(r.get('violations', [])))
    if fresh:
        rp = os.path.join(ROOT, 'evidence', a.id + '.violation.txt')
        if a.no_evidence: rp = os.path.join(tempfile.gettempdir(), a.id + '.violation.txt')
        with open(rp, 'w') as f:
            f.write('property %s; re-run: python3 %s %s --tier %s\n' % (a.id, os.path.abspath(__file__), a.id, a.tier))
            seen = set()
            for v in fresh:
                k = (v['rule'], v['loc'], v['msg'])
                if k in seen: continue
                seen.add(k)
                f.write('\n[%s] %s\n  at %s in %s\n  unit %s, entry %s\n' % (v['rule'], v['msg'], v['loc'], v['func'], v.get('unit', ''), v['entry']))
                if v.get('detail'): f.write(v['detail'] + '\n')
                for s in v['stack']: f.write('    called from ' + s + '\n')
                if v['trace']: f.write('  path:\n'); [f.write('    ' + s + '\n') for s in v['trace'][-40:]]
        for v in fresh[:3]: print('  [%s] %s at %s (%s; %s)' % (v['rule'], v['msg'], v['loc'], v.get('unit', ''), v['entry']))
        print('VIOLATION property=%s replay=%s' % (a.id, rp)); sys.exit(1)
    if broken: die('\n'.join(broken[:5]))
    sys.exit(0)
if __name__ == '__main__': main()
