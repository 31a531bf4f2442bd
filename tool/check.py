#!/usr/bin/env python3
"""check.py ID: decide one property on /repo's current working tree.

1. extract the functions under contract from the current source and let Verus
   discharge every obligation (proof);
2. vacuity: probe assertions that must fail;
3. run the refuter (real code, sanitizers, naive oracle) to turn a failure into
   a concrete input. It is also the labelled bounded stand-in when a function
   has left the verifier's reach."""
import json, os, re, shutil, subprocess, sys, tempfile, time, itertools
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'tool'))
import transpile as T
REPO = '/repo'
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
T0 = time.time()
BUDGET = 840 if TIER == 'quick' else 3000

def left(): return BUDGET - (time.time() - T0)

# ------------------------------------------------------------------ proof part
class Result:
    status = 'unreached'      # proved | failed | undecided | unreached
    reason = ''; failed = []; info = []; obligations = 0; discharged = 0; fns = 0; smt_ms = 0
    labels = {}; inlined = []; rs = None; output = ''; repaired = None; vac = None; per_fn = {}

VERUS = ['verus', '--crate-type', 'lib', '--triggers-mode', 'silent', '-A', 'warnings', '--no-report-long-running']

def fn_ranges(src):
    """line -> name of the translated function / lemma"""
    out = []; cur = None
    for i, ln in enumerate(src.split('\n'), 1):
        m = re.match(r'// FN (\w+) <- (.*)', ln)
        if m: cur = m.group(1)
        out.append(cur)
        if ln.startswith('// ENDFN'): cur = None
    return out

def parse_errors(text, src):
    """Verus diagnostics -> list of dict(msg, line, snippet, fn)"""
    ranges = fn_ranges(src); lines = src.split('\n'); errs = []
    for blk in re.split(r'\n(?=error|note|warning|verification results)', '\n' + text):
        blk = blk.strip('\n')
        m = re.match(r'error(\[E\d+\])?: (.*)', blk)
        if not m: continue
        if m.group(2).startswith('aborting due'): continue
        locs = [int(x) for x in re.findall(r'--> [^\n]*?\.rs:(\d+):\d+', blk)]
        # the primary span is the first; the function concerned is any translated one in the spans
        numbered = [int(x) for x in re.findall(r'^\s*(\d+)\s*[|/]', blk, flags=re.M)]
        fn = None
        for l in locs + numbered:
            if 0 < l <= len(ranges) and ranges[l-1]: fn = ranges[l-1]; break
        line = locs[0] if locs else None
        errs.append({'code': m.group(1), 'msg': m.group(2), 'line': line, 'fn': fn,
                     'text': lines[line-1].strip()[:400] if line else '', 'block': blk})
    return errs

def run_verus(rs, rlimit, extra=(), timeout=300, log=None):
    cmd = VERUS + ['--rlimit', str(rlimit), '--output-json', '--time', *extra, rs]
    if log: cmd += ['--log', 'air', '--log-dir', log]
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=max(20, min(timeout, left())), cwd=os.path.dirname(rs))
    except subprocess.TimeoutExpired:
        return None, '', 'timeout', cmd
    js = None
    i = p.stdout.find('{')
    if i >= 0:
        try: js = json.loads(p.stdout[i:])
        except ValueError:
            try: js = json.JSONDecoder().raw_decode(p.stdout[i:])[0]
            except ValueError: js = None
    return js, p.stderr, p.returncode, cmd

def count_obligations(logdir, fnset):
    """asserted conditions in the AIR queries, per function"""
    total = 0; per = {}
    for f in sorted(os.listdir(logdir)):
        cur = None
        for ln in open(os.path.join(logdir, f), errors='replace'):
            m = re.match(r';; (?:Function-Def|Function-Termination|Function-Decl-Check-Recommends|Query|Function-Recommends)?.*?(\w+)::([\w&%:]+)\s*$', ln) if ln.startswith(';; Function') else None
            if m: cur = m.group(2).split('::')[-1]
            if ln.strip() == '(assert' or ln.strip().startswith('(assert '):
                per[cur] = per.get(cur, 0) + 1; total += 1
    return total, per

def prove(pid, work, refuted=lambda: False):
    r = Result(); r.failed = []; r.info = []; r.inlined = []; r.labels = {}; r.per_fn = {}
    spec_path = os.path.join(ROOT, 'specs', pid + '.spec')
    base = {}
    bp = os.path.join(ROOT, 'specs', 'baseline.json')
    if os.path.exists(bp): base = json.load(open(bp)).get(pid, {})
    try:
        sp = T.Spec(spec_path)
        cpp = os.path.join(work, pid + '.driver.cpp'); open(cpp, 'w').write(sp.driver)
        tu = T.TU(T.dump_ast(cpp, sp.filters))
    except T.Unsupported as e:
        r.reason = 'extraction: %s' % e; return r
    r.trusted = list(sp.trusted)
    runtime = open(os.path.join(ROOT, 'tool', 'cxx.rs')).read()
    rlimit = 60 if TIER == 'quick' else 200
    best = None; tried = 0
    for name, ren, lmap in candidates(sp, tu, base):
        if tried and (left() < 200 or refuted()): break
        if tried > 12: break
        try:
            sp2 = T.Spec(spec_path); apply_loopmap(sp2, lmap)
            g = T.Gen(sp2, tu, rename=ren); src = g.generate(runtime)
        except (T.Unsupported, T.AttachError) as e:
            if best is None: r.reason = '%s: %s' % (type(e).__name__, e)
            continue
        except Exception as e:      # translator limitation on unforeseen code
            if best is None: r.reason = 'translator: %s: %s' % (type(e).__name__, e)
            continue
        tried += 1
        rs = os.path.join(work, '%s.rs' % pid); open(rs, 'w').write(src)
        log = os.path.join(work, 'log'); shutil.rmtree(log, ignore_errors=True)
        js, err, rc, cmd = run_verus(rs, rlimit, log=log, timeout=200)
        for seed in (7, 23):
            # solver instability must not decide: retry what was not proved with another seed
            if rc == 0 or left() < 400 or 'error[E' in err or refuted(): break
            shutil.rmtree(log, ignore_errors=True)
            js2, err2, rc2, cmd2 = run_verus(rs, rlimit, extra=['--smt-option', 'smt.random_seed=%d' % seed], log=log, timeout=150)
            if rc == 'timeout' or rc2 == 0: js, err, rc, cmd = js2, err2, rc2, cmd2
        cand = Result(); cand.failed = []; cand.trusted = r.trusted; cand.rs = rs; cand.src = src
        cand.info = g.info; cand.inlined = sorted(g.inlined); cand.repaired = name; cand.output = err; cand.cmd = ' '.join(cmd); cand.per_fn = {}
        cand.sp, cand.tu, cand.ren, cand.lmap = spec_path, tu, ren, lmap
        if rc == 'timeout': cand.status = 'undecided'; cand.reason = 'Verus timed out'
        else:
            errs = parse_errors(err, src)
            vr = (js or {}).get('verification-results', {})
            if rc == 0 and vr.get('success') and vr.get('errors') == 0 and vr.get('verified', 0) > 0:
                cand.status = 'proved'
            elif not vr or vr.get('encountered-vir-error') or any(e['code'] for e in errs) or 'verified' not in vr or (vr.get('errors', 0) == 0):
                cand.status = 'unreached'; cand.reason = 'the translation does not fit the contract: ' + (errs[0]['msg'] + ' @ ' + errs[0]['text'] if errs else err[-400:])
            else:
                hard = [e for e in errs if not re.search(r'rlimit|Resource limit|timed? ?out', e['msg'] + e['block'])]
                if hard: cand.status = 'failed'; cand.failed = hard
                else: cand.status = 'undecided'; cand.reason = 'resource limit exceeded'
            cand.fns = vr.get('verified', 0); cand.nerr = vr.get('errors', 0)
            cand.smt_ms = ((js or {}).get('times-ms', {}).get('smt', {}) or {}).get('total', 0)
            if os.path.isdir(log):
                cand.obligations, cand.per_fn = count_obligations(log, None)
                cand.discharged = cand.obligations if cand.status == 'proved' else 0
        rank = {'proved': 0, 'failed': 1, 'undecided': 2, 'unreached': 3}
        if best is None or rank[cand.status] < rank[best.status] or (cand.status == best.status == 'failed' and len(cand.failed) < len(best.failed)): best = cand
        if best.status == 'proved': break
    if best is None: return r
    return best

def apply_loopmap(sp, lmap):
    for f in sp.fns:
        m = lmap.get(f.rust)
        if m is not None: f.loops = {new: f.loops[old] for old, new in m.items() if old in f.loops}

def candidates(sp, tu, base):
    """ways to attach the annotations to the code: as written, then with renamed
    locals matched by type and order. The contract itself never changes, so any
    candidate that verifies is a proof."""
    yield 'as written', {}, {}
    # current locals per function
    try: g = T.Gen(sp, tu)
    except (T.Unsupported, T.AttachError): return
    ren1 = {}; ren2 = {}
    for f in sp.fns:
        b = base.get(f.rust)
        if not b or not hasattr(f, 'node'): continue
        cur = collect_locals(f.node, g, tu)
        bn = dedup([tuple(x) for x in b['locals']]); cn = dedup(cur)
        miss = [x for x in bn if x[0] not in [y[0] for y in cn]]
        extra = [x for x in cn if x[0] not in [y[0] for y in bn]]
        used = set()
        for x in miss:
            for i, y in enumerate(extra):
                if i not in used and y[1] == x[1]: ren1[(f.rust, y[0])] = x[0]; used.add(i); break
        used = set()
        for x in miss:
            for i, y in reversed(list(enumerate(extra))):
                if i not in used and y[1] == x[1]: ren2[(f.rust, y[0])] = x[0]; used.add(i); break
        left_m = [x for x in miss if x[0] not in [v for k, v in ren1.items() if k[0] == f.rust]]
        left_e = [y for y in extra if (f.rust, y[0]) not in ren1]
        for x, y in zip(left_m, left_e): ren1[(f.rust, y[0])] = x[0]
    if ren1: yield 'locals renamed (by type and order)', ren1, {}
    if ren2 and ren2 != ren1: yield 'locals renamed (by type, reversed)', ren2, {}

def dedup(l):
    out = []
    for x in l:
        if x[0] not in [y[0] for y in out]: out.append(x)
    return out

def collect_locals(node, g, tu, depth=0):
    out = []
    def go(n):
        if n['kind'] == 'VarDecl' and n.get('name'):
            try: out.append((n['name'], g.types.rust(T.qt(n))))
            except T.Unsupported: pass
        if n['kind'] in ('CallExpr', 'CXXMemberCallExpr') and depth < 3:
            d = n.get('inner', [{}])[0]
            for _ in range(4):
                if d.get('kind') in ('ImplicitCastExpr', 'ParenExpr') and T.kids(d): d = T.kids(d)[0]
            i = d.get('referencedDecl', {}).get('id') or d.get('referencedMemberDecl')
            if i and i not in g.bound:
                r = g.resolve({'id': i})
                if r and r[0] is None: out.extend(collect_locals(r[1], g, tu, depth + 1))
        for c in T.kids(n): go(c)
    for c in T.kids(node):
        if c['kind'] == 'CompoundStmt': go(c)
    return out

def vacuity(pid, work, best):
    """every contract must be satisfiable and every function must be able to return"""
    try:
        sp = T.Spec(best.sp); apply_loopmap(sp, best.lmap)
        g = T.Gen(sp, best.tu, rename=best.ren); g.vac = True
        src = g.generate(open(os.path.join(ROOT, 'tool', 'cxx.rs')).read())
    except Exception as e: return {'ok': False, 'why': str(e)}
    src = re.sub(r'#\[verifier::rlimit\(\d+\)\]', '', src)      # probes are to fail: no long search
    rs = os.path.join(work, '%s_vac.rs' % pid); open(rs, 'w').write(src)
    js, err, rc, cmd = run_verus(rs, 4, extra=['--multiple-errors', '40', '--no-auto-recommends-check', '-V', 'spinoff-all'], timeout=200)
    if rc == 'timeout': return {'ok': True, 'points': len(g.vacpoints), 'reached': 0, 'note': 'the probe run timed out: no probe assertion was proved'}
    hit = set(); slow = set()
    for e in parse_errors(err, src):
        # the solver gave up on this function without proving the probe: not shown vacuous
        if re.search(r'rlimit|Resource limit|timed? ?out', e['msg'] + e['block']) and e['fn']: slow.add(e['fn'])
        for k in re.findall(r'assert\(vac_\((\d+)\)\)', '\n'.join(src.split('\n')[i-1] for i in [e['line']] if i)):
            hit.add(int(k))
    res = {'points': len(g.vacpoints), 'reached': len(hit), 'unreached': ['%s: %s' % g.vacpoints[k] for k in range(len(g.vacpoints)) if k not in hit]}
    fns = {f for f, _ in g.vacpoints}
    ent = {f for k, (f, w) in enumerate(g.vacpoints) if w == 'entry' and k in hit}
    ret = {f for k, (f, w) in enumerate(g.vacpoints) if w == 'return' and k in hit}
    haveret = {f for f, w in g.vacpoints if w == 'return'}
    if slow: res['solver_gave_up'] = sorted(slow)
    ent |= slow; ret |= slow
    res['ok'] = ent == fns and ret >= haveret and bool(fns)
    if not res['ok']: res['why'] = 'vacuous: entry %s, return %s; verus: %s' % (sorted(fns - ent), sorted(haveret - ret), err[-300:] if not hit else '')
    return res

# ------------------------------------------------------------------ refuter part
def dictionary(files):
    vals = set()
    for f in files:
        try: t = open(os.path.join(REPO, f), errors='replace').read()
        except OSError: continue
        t = re.sub(r'//.*|/\*.*?\*/', '', t, flags=re.S if False else 0)
        for m in re.findall(r'(?<![\w.])(0[xX][0-9a-fA-F]+|\d{1,18})(?![\w.])', t):
            try: v = int(m, 0) if not re.match(r'^0\d', m) else int(m, 8)
            except ValueError: continue
            if v < 2**62: vals.update((v - 1, v, v + 1, -v))
        for ch in re.findall(r"'(\\?.)'", t): vals.add(ord(ch[-1]))
    return ' '.join(str(v) for v in sorted(vals))

def refute(pid, work, props):
    """returns dict(status ok|fail|error, text, cases...)"""
    src = os.path.join(ROOT, 'harness', pid + '.cpp')
    if not os.path.exists(src): return {'status': 'none'}
    exe = os.path.join(work, pid + '.refuter')
    cc = ['g++', '-std=c++11', '-O1', '-g', '-w', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-include', 'stdint.h',
          '-I' + REPO + '/src/include', '-I' + os.path.join(ROOT, 'harness'), src, '-o', exe]
    m = re.search(r'^// FLAGS: (.*)$', open(src).read(), flags=re.M)
    if m: cc += m.group(1).split()
    p = subprocess.run(cc, capture_output=True, text=True)
    if p.returncode != 0 and 'undefined reference' in p.stderr:
        # code moved to another translation unit: link the remaining sources too
        text = open(src).read(); rest = []
        for d, _, fs in os.walk(os.path.join(REPO, 'src')):
            for f in sorted(fs):
                q = os.path.join(d, f)
                if f.endswith('.cpp') and q not in text and '/network/' not in q: rest.append(q)
        p2 = subprocess.run(cc + rest, capture_output=True, text=True)
        if p2.returncode == 0: p = p2; cc = cc + rest
    if p.returncode != 0: return {'status': 'error', 'text': 'refuter does not compile:\n' + p.stderr[-3000:]}
    env = dict(os.environ, VH_DICT=dictionary(props.get('anchors', {}).get('files', [])), ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:handle_abort=1', UBSAN_OPTIONS='print_stacktrace=1', VERIF_TIER=TIER, VERIF_SEED=str(SEED))
    lim = max(30, min(400 if TIER == 'quick' else 2000, left() - 30))
    try:
        p = subprocess.run([exe], capture_output=True, timeout=lim, env=env, cwd=work)
    except subprocess.TimeoutExpired as e:
        return {'status': 'error', 'text': 'refuter exceeded %d s' % lim}
    out = p.stdout.decode('utf-8', 'replace'); err = p.stderr.decode('utf-8', 'replace')
    if p.returncode == 0 and 'REFUTER-OK' in out:
        m = re.search(r'REFUTER-OK cases=(\d+) nontrivial=(\d+)', out)
        return {'status': 'ok', 'cases': int(m.group(1)), 'nontrivial': int(m.group(2)), 'samples': re.findall(r'^SAMPLE (.*)$', out, flags=re.M)}
    return {'status': 'fail', 'text': out[-4000:] + '\n--- stderr\n' + err[-4000:], 'cmd': ' '.join(cc)}

# ------------------------------------------------------------------ main
def known_findings(pid):
    p = os.path.join(ROOT, 'known-findings.txt'); out = []
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r'known: property=(\S+) (.*)', ln)
            if m and m.group(1) == pid: out.append(m.group(2).strip())
    return out

def main(pid):
    props = {}
    for ln in open(os.path.join(ROOT, 'properties.jsonl')):
        if ln.strip():
            d = json.loads(ln); props[d['id']] = d
    prop = props.get(pid, {})
    os.makedirs(os.path.join(ROOT, 'build'), exist_ok=True)
    work = tempfile.mkdtemp(prefix=pid + '-', dir=os.path.join(ROOT, 'build'))
    try:
        return decide(pid, prop, work)
    finally:
        if not os.environ.get('VERIF_KEEP'): shutil.rmtree(work, ignore_errors=True)

def decide(pid, prop, work):
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(2) as ex:
        fr = ex.submit(refute, pid, work, prop)
        best = prove(pid, work, lambda: fr.done() and fr.result()['status'] == 'fail')
        vac = vacuity(pid, work, best) if best.status == 'proved' else None
        ref = fr.result()
    if vac and not vac['ok']: best.status = 'undecided'; best.discharged = 0; best.reason = vac.get('why', 'vacuity check failed')
    viol = None
    if ref['status'] == 'fail':
        viol = ('concrete', ref['text'])
    elif best.status == 'failed':
        viol = ('obligation', '')
    os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
    rp = os.path.join(ROOT, 'replays', pid + '.txt')
    if os.path.exists(rp): os.remove(rp)
    names = ['%s: %s: %s' % (e['fn'] or 'lemma', e['msg'], e['text']) for e in best.failed]
    if viol:
        with open(rp, 'w') as f:
            f.write('property %s: %s\n\n' % (pid, prop.get('title', '')))
            if viol[0] == 'concrete':
                f.write('Concrete failing input on the real code of /repo (sanitizers on):\n%s\n\nreplay: VERIF_SEED=%d VERIF_TIER=%s; build with\n  %s\nand run it.\n\n' % (viol[1], SEED, TIER, ref.get('cmd', '')))
            if best.status == 'failed':
                f.write('Failed obligations:\n' + '\n'.join('  - ' + n for n in names) + '\n\nVerifier output:\n' + best.output[:20000] + '\n')
            elif viol[0] == 'concrete': f.write('Proof status on this tree: %s %s\n' % (best.status, best.reason))
    # evidence
    fu = [{'function': i['qual'], 'contract': i['fn'], 'obligations': best.per_fn.get(i['fn'], 0)} for i in best.info]
    level = 'proof' if best.status in ('proved', 'failed') else 'exploration'
    ev = {'property': pid, 'tier': TIER, 'seed': SEED, 'level': level, 'wall_s': round(time.time() - T0, 2), 'violations': 1 if viol else 0,
          'assumptions': ASSUME + getattr(best, 'trusted', [])}
    cov = {'obligations': best.obligations, 'discharged': best.discharged, 'checker_cmd': getattr(best, 'cmd', 'verus'),
           'trusted_base': ['Verus 0.2026.09.13 with its bundled Z3', 'clang 18 AST', 'tool/transpile.py (C++ AST to Verus exec code)', 'tool/cxx.rs and the runtime files tool/rt_*.rs that the spec names (assumed contracts of the C++ core language and libstdc++)'],
           'proof_status': best.status, 'functions_under_contract': fu, 'inlined_helpers': best.inlined, 'verus_items_verified': best.fns,
           'solver_ms': best.smt_ms, 'back_end': 'Verus -> AIR -> Z3', 'annotation_attachment': best.repaired, 'vacuity': vac,
           'external_body_functions': scan_trusted(best)}
    if best.reason: cov['undecided_reason'] = best.reason
    if best.failed: cov['failed_obligations'] = names
    if ref['status'] in ('ok', 'fail'):
        cov['bounded_refuter'] = {'label': 'bounded: not counted as proof', 'status': ref['status'], 'cases': ref.get('cases', 0), 'nontrivial': ref.get('nontrivial', 0)}
        cov['evaluations'] = ref.get('cases', 0); cov['distinct_nontrivial'] = ref.get('nontrivial', 0)
        cov['rule'] = 'inputs enumerated up to a small size and drawn at random with VERIF_SEED; non-trivial as counted by the harness (harness/%s.cpp)' % pid
        cov['samples'] = ref.get('samples', [])
    if level == 'exploration': cov['note'] = 'the proof did not apply to this tree (%s); BOUNDED stand-in only' % best.reason
    ev['coverage'] = cov
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w'), indent=1)
    for k in known_findings(pid): print('KNOWN-FINDING: property=%s %s' % (pid, k))
    if viol:
        tail = '' if viol[0] == 'concrete' else ' no-failing-input-found'
        print(viol[1][:1500] if viol[0] == 'concrete' else 'failed obligations:\n' + '\n'.join(names[:10]))
        print('VIOLATION property=%s replay=%s%s' % (pid, rp, tail)); return 1
    if best.status == 'proved':
        print('%s: proved: %d functions under contract, %d obligations (%d Verus items), solver %d ms; vacuity probes %d/%d; refuter %s %s' % (pid, len(fu), best.obligations, best.fns, best.smt_ms, vac['reached'], vac['points'], ref['status'], ref.get('cases', '')))
        if ref['status'] == 'error': print('note: ' + ref['text'][:600])
        return 0
    # the proof does not reach this tree: bounded stand-in decides
    print('%s: NOT PROVED on this tree (%s: %s); bounded stand-in: %s %s' % (pid, best.status, best.reason, ref['status'], ref.get('cases', '')))
    if ref['status'] == 'ok': return 0
    print(ref.get('text', '')); return 2

ASSUME = ['the translation C++ -> Verus (tool/transpile.py) preserves the meaning of the functions under contract',
          'contracts assumed for libstdc++ and the C++ core language in tool/cxx.rs and tool/rt_*.rs (external_body)',
          'memory allocation succeeds; objects passed by reference do not alias each other',
          'messages written to std::cerr before exit() are not modelled']
def scan_trusted(best):
    try: src = best.src
    except AttributeError: return []
    names = re.findall(r'#\[verifier::external_body\]\s*(?:pub )?(?:fn|struct|proof fn) (\w+)', src)
    used = []
    body = src[src.find('// FN '):] if '// FN ' in src else ''
    for n in names:
        if re.search(r'\b%s\b' % n, body): used.append(n)
    for n in re.findall(r'#\[verifier::external_body\]\s*(?:pub )?(?:broadcast )?proof fn (\w+)', src):
        if len(re.findall(r'\b%s\b' % n, src)) > 1: used.append(n)
    return sorted(set(used))

if __name__ == '__main__':
    if sys.argv[1] == '--record':
        # record the locals of the functions under contract on the current tree
        bp = os.path.join(ROOT, 'specs', 'baseline.json'); base = {}
        for f in sorted(os.listdir(os.path.join(ROOT, 'specs'))):
            if not f.endswith('.spec'): continue
            pid = f[:-5]; sp = T.Spec(os.path.join(ROOT, 'specs', f)); os.makedirs(os.path.join(ROOT, 'build'), exist_ok=True)
            cpp = os.path.join(ROOT, 'build', 'rec.cpp'); open(cpp, 'w').write(sp.driver)
            tu = T.TU(T.dump_ast(cpp, sp.filters)); g = T.Gen(sp, tu)
            base[pid] = {fs.rust: {'locals': dedup(collect_locals(fs.node, g, tu))} for fs in sp.fns}
        json.dump(base, open(bp, 'w'), indent=0, sort_keys=True); sys.exit(0)
    sys.exit(main(sys.argv[1]))
