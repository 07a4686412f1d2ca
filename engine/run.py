#!/opt/veriftools/pyvenv/bin/python3
"""Checks one property: compiles its harnesses against /repo's current headers,
executes them symbolically, asks the solver, replays counterexamples natively."""
import random
import glob
import hashlib
import json
import multiprocessing as mp
import os
import re
import resource
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
CLANG = '/usr/bin/clang++-18'
GXX = '/usr/bin/g++'
PASSES = 'function(mem2reg)'
JOBS = int(os.environ.get('VERIF_JOBS', '8'))
CLEANENV = {k: v for k, v in os.environ.items() if k not in ('CXXFLAGS', 'CPPFLAGS', 'LDFLAGS', 'CPATH', 'CPLUS_INCLUDE_PATH')}


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=CLEANENV, **kw)


def build_irdump():
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(HERE, 'irdump.cpp')
    exe = os.path.join(BUILD, 'irdump')
    if os.path.exists(exe) and os.path.getmtime(exe) >= os.path.getmtime(src):
        return exe
    cf = sh(['llvm-config-18', '--cxxflags']).stdout.split()
    lf = sh(['llvm-config-18', '--ldflags']).stdout.split()
    tmp = exe + '.%d' % os.getpid()
    r = sh([GXX, '-O1', '-w', '-fno-rtti', src, '-o', tmp] + cf + ['-std=c++17'] + lf + ['-lLLVM-18'])
    if r.returncode:
        print(r.stdout)
        sys.exit(2)
    os.rename(tmp, exe)
    return exe


def harness_files(prop):
    fs = sorted(glob.glob(os.path.join(VERIF, 'harness', prop + '.cpp')) + glob.glob(os.path.join(VERIF, 'harness', prop + '_*.cpp')))
    out = []
    for f in fs:
        flags = []
        for line in open(f):
            m = re.match(r'//\s*FLAGS:(.*)', line)
            if m:
                flags += m.group(1).split()
        out.append((f, flags))
    return out


COMMON = ['-std=c++14', '-I', HERE, '-I', os.path.join(REPO, 'src'), '-DTHEORETICA_NO_PRINT', '-w']


def compile_ir(f, flags, tier, wd):
    base = os.path.join(wd, os.path.basename(f)[:-4])
    tf = ['-DTHOROUGH'] if tier == 'thorough' else []
    r = sh([CLANG, '-O0', '-Xclang', '-disable-O0-optnone', '-fno-exceptions', '-fno-threadsafe-statics', '-emit-llvm', '-c', f,
            '-o', base + '.bc', '-DSYM_ENGINE'] + COMMON + flags + tf)
    if r.returncode:
        return None, r.stdout
    r = sh([build_irdump(), base + '.bc', PASSES, base + '.json'])
    if r.returncode:
        return None, r.stdout
    return base + '.json', ''


def compile_native(f, flags, tier, wd):
    base = os.path.join(wd, os.path.basename(f)[:-4])
    tf = ['-DTHOROUGH'] if tier == 'thorough' else []
    if '-fopenmp' in flags:      # real threads under the thread sanitizer, see replay_omp.cpp
        for san, exe in (('thread', '.replay'), ('address', '.replay_asan')):
            o = []
            for x, fl in ((f, flags), (os.path.join(HERE, 'replay.cpp'), []), (os.path.join(HERE, 'replay_omp.cpp'), [])):
                o.append(base + '.%s%d.o' % (san, len(o)))
                r = sh([CLANG, '-O0', '-g1', '-DREPLAY_THREADS', '-fsanitize=' + san, '-c', x, '-o', o[-1]] + COMMON + fl + tf)
                if r.returncode:
                    return None, r.stdout
            r = sh([CLANG, '-fsanitize=' + san, '-rdynamic'] + o + ['-o', base + exe, '-ldl', '-lpthread'])
            if r.returncode:
                return None, r.stdout
        return base + '.replay', ''
    r = sh([GXX, '-O0', '-g1', '-rdynamic', '-fsanitize=address,shift,return,bounds,integer-divide-by-zero,unreachable', '-fno-sanitize-recover=all',
            '-ftrivial-auto-var-init=pattern', f, os.path.join(HERE, 'replay.cpp'), '-o', base + '.replay'] + COMMON + flags + tf + ['-ldl'])
    if r.returncode:
        return None, r.stdout
    return base + '.replay', ''


def write_values(path, vals):
    with open(path, 'w') as f:
        for n, v in vals.items():
            if n == '@uf':
                for name, pts in v.items():
                    for a, y in pts:
                        f.write('u %s %d %s %s\n' % (name, len(a), ' '.join(a), y))
            else:
                x = v[1]
                f.write('%s %s %s\n' % (v[0], n, x))


def native_run(exe, name, vpath, to=30, *more):
    try:
        r = subprocess.run([exe, name, vpath] + list(more), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=to,
                           env=dict(CLEANENV, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=77', UBSAN_OPTIONS='exitcode=77', TSAN_OPTIONS='exitcode=77:halt_on_error=1'))
    except subprocess.TimeoutExpired:
        return 'timeout', 'did not terminate within %d s' % to
    out = r.stdout
    if r.returncode == 0:
        if os.path.exists(exe + '_asan'):   # threads: also under the address sanitizer
            return native_run(exe + '_asan', name, vpath, to, *more)
        return 'ok', out
    if r.returncode == 1:
        return 'fail', out
    if r.returncode == 3:
        return 'assume', out
    if r.returncode == 2:
        return 'error', out + r.stderr
    return 'crash', out + r.stderr[-3000:]


def search(exe, name, wd, n=300):
    """The solver gave no verdict on some path of this harness: look for a counterexample among
    inputs satisfying its assumptions, run on the real code. At least two are needed."""
    from concurrent.futures import ThreadPoolExecutor

    def one(i):
        vp = os.path.join(wd, '%s.s%d' % (name, i))
        open(vp, 'w').close()
        st, out = native_run(exe, name, vp, 15, str(i))
        if st not in ('fail', 'crash', 'timeout'):
            os.unlink(vp)
        return st, vp, out
    bad = []
    with ThreadPoolExecutor(JOBS) as ex:
        for lo in range(1, n, 16):
            bad += [x for x in ex.map(one, range(lo, lo + 16)) if x[0] in ('fail', 'crash', 'timeout')]
            if len(bad) > 1:
                break
    return bad if len(bad) > 1 else []


def variants(vals):
    yield vals
    for q in (8.0, 1.0, 64.0):
        v2 = {}
        for n, v in vals.items():
            if n != '@uf' and v[0] == 'r':
                v2[n] = ['r', repr(round(float(v[1]) * q) / q)]
            else:
                v2[n] = v
        yield v2
    # the solver's values of sin, exp, ln ... need not belong to its arguments: look for arguments near which they do
    names = [n for n, v in vals.items() if n != '@uf' and v[0] == 'r']
    rnd = random.Random(1)
    for i in range(72 if names else 0):
        v2 = dict(vals)
        for n in names:
            c = rnd.randrange(-64, 65) / 16.0 if i % 3 == 0 else rnd.randrange(1, 48) / 32.0
            if i % 3 == 2 and rnd.random() < 0.7:
                continue
            v2[n] = ['r', repr(c)]
        yield v2


def worker(jpath, name, opts, conn):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        import symex
        sys.setrecursionlimit(100000)
        t0 = time.time()
        mod = symex.Module(jpath)
        mode = opts.get('mode', 'real')
        E = symex.Engine(mod, mode, opts)
        nosum = opts.get('nosum', '').split(',')
        if mode == 'real' and 'all' not in nosum:
            for mang, s in symex.SUMMARIES.items():
                if s and s[0] not in nosum:
                    E.intercepts[mang] = s[1]
        if mode == 'fp' and 'libm' in opts:
            E.intercepts.update(symex.LIBM)
        tl = float(opts.get('t', 60))

        def partial(E):
            conn.send(dict(name=name, partial=1, stats=dict(E.stats), failures=E.failures + E.suspects, nfail=len(E.failures),
                           incomplete=['killed at the time limit'], witnesses=[], functions=[], notes=[], wall=time.time() - t0, nsym=0))
        E.on_failure = partial
        E.run('h_' + name, tl)
        dn = {}
        for f in E.functions:
            dn[f] = mod.j['functions'][f]['dn']
        fns = sorted(set(re.sub(r'<.*', '', d.split('(')[0]) for d in dn.values() if 'theoretica::' in d.split('(')[0] + d[:40]))
        res = dict(name=name, stats=E.stats, failures=E.failures + E.suspects, nfail=len(E.failures), incomplete=sorted(set(E.incomplete)), witnesses=E.witnesses,
                   functions=fns, notes=sorted(E.notes), wall=time.time() - t0, nsym=len(E.sp.names))
    except MemoryError:
        res = dict(name=name, error='memory limit')
    except Exception:
        res = dict(name=name, error=traceback.format_exc()[-3000:])
    try:
        conn.send(res)
    except Exception as e:
        conn.send(dict(name=name, error='send: %r' % e))
    conn.close()


def run_pool(tasks, tier):
    """tasks: list of (jpath, name, opts). Returns dict name -> result."""
    pend = list(tasks)
    t_end = time.time() + (float(os.environ.get('VERIF_BUDGET', '700')) if tier == 'quick' else 6 * 3600)
    pend.sort(key=lambda t: -float(t[2].get('w', t[2].get('t', 60))))
    live = []
    out = {}
    part = {}
    while pend or live:
        while pend and len(live) < JOBS:
            j, n, o = pend.pop(0)
            left = t_end - time.time()
            if left < 5:
                out[n] = dict(name=n, error='not started: the overall time budget ran out')
                continue
            if float(o.get('t', 60)) > left:
                o['t'] = str(left)
            a, b = mp.Pipe(False)
            p = mp.Process(target=worker, args=(j, n, o, b))
            p.start()
            b.close()
            live.append((p, a, n, time.time() + float(o.get('t', 60)) * 1.2 + 45))
        nl = []
        for p, a, n, dl in live:
            msg = None
            while a.poll(0):
                try:
                    msg = a.recv()
                except EOFError:
                    msg = dict(name=n, error='worker died') if n not in part else part[n]
                    break
                if msg.get('partial'):
                    part[n] = msg
                    msg = None
                else:
                    break
            if msg is not None:
                out[n] = msg
                p.join()
            elif not p.is_alive():
                out[n] = part.get(n) or dict(name=n, error='worker died (exit %s)' % p.exitcode)
            elif time.time() > dl:
                p.kill()
                p.join()
                out[n] = part.get(n) or dict(name=n, error='killed at the time limit')
            else:
                nl.append((p, a, n, dl))
        live = nl
        if live:
            time.sleep(0.02)
    return out


def parse_opts(s):
    o, claim = s.split('|', 1)
    d = {}
    for w in o.split():
        if '=' in w:
            k, v = w.split('=', 1)
            d[k] = v
        else:
            d[w] = '1'
    return d, claim


def harness_list(jpath):
    j = json.load(open(jpath))
    out = []
    for g in j['globals']:
        if g['n'].startswith('o_'):
            n = g['sz']
            b = bytearray(n)
            for off, size, ty, c in g['init']:
                b[off] = c[2] & 255
            s = bytes(b).split(b'\0')[0].decode('latin1')
            name = g['n'][2:]
            if 'h_' + name in j['functions']:
                out.append((name,) + parse_opts(s))
    return out


def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    if os.path.exists(p):
        return json.load(open(p)).get('findings', [])
    return []


def main():
    prop = sys.argv[1]
    if prop == '--setup':
        build_irdump()
        sys.exit(0)
    tier = os.environ.get('VERIF_TIER', 'quick')
    only = None
    verbose = False
    for a in sys.argv[2:]:
        if a in ('quick', 'thorough'):
            tier = a
        elif a == '-v':
            verbose = True
        elif a.startswith('-k'):
            only = a[2:]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    build_irdump()
    wd = os.path.join(BUILD, prop + ('' if tier == 'quick' else '.t') + ('.%d' % os.getpid()))
    os.makedirs(wd, exist_ok=True)
    files = harness_files(prop)
    if not files:
        print('no harness for', prop)
        sys.exit(2)
    # compile IR and native replay concurrently
    from concurrent.futures import ThreadPoolExecutor
    ex = ThreadPoolExecutor(8)
    irs = [(f, fl, ex.submit(compile_ir, f, fl, tier, wd)) for f, fl in files]
    nat = {f: ex.submit(compile_native, f, fl, tier, wd) for f, fl in files}
    tasks = []
    meta = {}
    for f, fl, fut in irs:
        j, err = fut.result()
        if j is None:
            print('harness %s does not compile against the current tree:\n%s' % (f, err[-3000:]))
            sys.exit(2)
        for name, opts, claim in harness_list(j):
            if opts.get('tier') == 'thorough' and tier != 'thorough':
                continue
            if only and not re.search(only, name):
                continue
            if tier == 'thorough':
                opts['t'] = str(float(opts.get('t', 60)) * 4)
                opts['t_check'] = str(int(opts.get('t_check', 30000)) * 4)
            meta[name] = dict(file=f, opts=opts, claim=claim)
            tasks.append((j, name, opts))
    results = run_pool(tasks, tier)
    known = [k for k in load_known() if k.get('property') == prop and k.get('status') == 'known']
    violations = []
    knownhit = []
    unconfirmed = []
    incomplete = []
    validated = 0
    mismatched = []
    searches = []
    rdir = os.path.join(VERIF, 'replays', prop)
    tot = {}
    functions = set()
    samples = []
    for name in sorted(results):
        r = results[name]
        m = meta[name]
        if 'error' in r:
            r['nfail'] = 0
            incomplete.append('%s: %s' % (name, r['error'].strip().splitlines()[-1]))
            exe, err = nat[m['file']].result()
            if exe:
                searches.append((name, exe))
            if verbose:
                print(name, 'ERROR', r['error'])
            continue
        for k, v in r['stats'].items():
            tot[k] = tot.get(k, 0) + v
        functions |= set(r['functions'])
        for i in r['incomplete']:
            incomplete.append('%s: %s' % (name, i))
        exe, err = nat[m['file']].result()
        if exe is None:
            print('native replay of %s does not compile:\n%s' % (m['file'], err[-3000:]))
            sys.exit(2)
        if not r['witnesses'] and not r['nfail']:
            incomplete.append('%s: no path reached a check (vacuous)' % name)
        for wi, w in enumerate(r['witnesses'][:2]):
            vp = os.path.join(wd, '%s.w%d' % (name, wi))
            write_values(vp, w['values'])
            stt, out = native_run(exe, name, vp)
            if stt == 'ok':
                validated += 1
            elif stt in ('crash', 'timeout'):
                r['failures'].append(dict(id='memory-safety' if stt == 'crash' else 'termination', why='native %s on an input of an explored path' % stt,
                                          loc=[], cands=[w['values']], verdict='sat', branches=0))
            elif stt != 'assume':   # 'assume': the model's values of exp/ln/... do not belong to its x
                mismatched.append('%s: %s %s' % (name, stt, out.strip()[-300:]))
            if len(samples) < 6 and wi == 0:
                samples.append(dict(harness=name, path_inputs={k: v for k, v in list(w['values'].items())[:12]}, native=stt))
        done = set()
        open_ = list(r['incomplete'])
        if any(x.startswith(name + ': fail') for x in mismatched):
            open_.append('mismatch')
        for fl in r['failures']:
            if fl['id'] in done:
                continue
            soft = fl['id'] == 'cut-path'
            conf = None
            for cv in fl['cands']:
                for vi, v in enumerate(variants(cv)):
                    vp = os.path.join(wd, '%s.f' % name)
                    write_values(vp, v)
                    stt, out = native_run(exe, name, vp)
                    if vi > 3 and fl['verdict'] != 'sat':
                        break
                    if stt in ('fail', 'crash', 'timeout') and (vi <= 3 or stt == 'fail' and ('CHECK-FAIL ' + fl['id']) in out):
                        conf = (v, stt, out)
                        break
                if conf:
                    break
            if verbose:
                print('   FAIL', name, fl['id'], fl['why'], fl['verdict'], 'confirmed' if conf else 'UNCONFIRMED', fl['loc'][-2:], fl['cands'][:1])
                if conf:
                    print('      ', conf[1], conf[2].strip()[-600:])
            if conf:
                done.add(fl['id'])
                kf = [k for k in known if k.get('harness') == name and k.get('check') in (fl['id'], '*')]
                if kf:
                    knownhit.append((kf[0], name, fl))
                    continue
                os.makedirs(rdir, exist_ok=True)
                rp = os.path.join(rdir, '%s_%s.txt' % (name, re.sub(r'\W+', '_', fl['id'])))
                write_values(rp, conf[0])
                with open(rp + '.log', 'w') as g:
                    g.write('property %s harness %s check %s\n%s\nclaim: %s\nreplay: %s %s %s\n%s\n' % (
                        prop, name, fl['id'], fl['why'], m['claim'], os.path.join(HERE, 'replay.sh') + ' ' + prop, name, rp, conf[2]))
                violations.append((name, fl, rp, conf))
            elif not soft:
                open_.append(fl['id'])
                unconfirmed.append('%s/%s: %s (%s)' % (name, fl['id'], fl['why'], fl['verdict']))
        if open_ and not done:
            searches.append((name, exe))
        if verbose:
            st = r['stats']
            print('%-34s paths=%d checks=%d nf=%d q=%d unk=%d solver=%.1fs wall=%.1fs %s%s' % (
                name, st['paths'], st['checks'], st['normal_form'], st['queries'], st['unknown'], st['solver_s'], r['wall'],
                'FAIL ' if r['failures'] else '', '; '.join(r['incomplete'])[:200]), r['notes'][:2] if r['notes'] else '')
    searched = 0
    for name, exe in searches:
        m = meta[name]
        if 'nosample' in m['opts'] or '-fopenmp' in dict(files)[m['file']] or time.time() - t0 > 780 and tier == 'quick':
            continue
        searched += 1
        bad = search(exe, name, wd)
        if not bad:
            continue
        st, vp, out = bad[0]
        mm = re.search(r'CHECK-FAIL (.*?)(?: got | (?:\S+ <= )|$)', out, re.M)
        fl = dict(id=mm.group(1) if st == 'fail' and mm else 'memory-safety' if st == 'crash' else 'termination', why='no solver verdict; counterexample found on the real code', verdict='native', loc=[], cands=[])
        kf = [k for k in known if k.get('harness') == name and k.get('check') in (fl['id'], '*')]
        if kf:
            knownhit.append((kf[0], name, fl))
            continue
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, '%s_%s.txt' % (name, re.sub(r'\W+', '_', fl['id'])))
        with open(vp) as g, open(rp, 'w') as h:
            h.write(g.read())
        with open(rp + '.log', 'w') as g:
            g.write('property %s harness %s check %s\n%s\nclaim: %s\nreplay: %s %s %s\n%s\n' % (
                prop, name, fl['id'], fl['why'], m['claim'], os.path.join(HERE, 'replay.sh') + ' ' + prop, name, rp, out))
        violations.append((name, fl, rp, (None, st, out)))
    wall = time.time() - t0
    okc = [n for n in results if 'error' not in results[n] and not results[n]['nfail'] and not results[n]['incomplete'] and results[n]['witnesses']]
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', coverage=dict(
        states=tot.get('paths', 0), transitions=tot.get('instrs', 0), traces_validated_against_impl=validated,
        samples=samples, obligations=len(results), fully_discharged=len(okc),
        assertions_checked=tot.get('checks', 0), closed_by_exact_normal_form=tot.get('normal_form', 0),
        solver_queries=tot.get('queries', 0), unsat=tot.get('unsat', 0), sat=tot.get('sat', 0), unknown=tot.get('unknown', 0),
        solver_s=round(tot.get('solver_s', 0), 2), forks=tot.get('forks', 0),
        functions_encoded=sorted(functions), harnesses={n: dict(claim=meta[n]['claim'], mode=meta[n]['opts'].get('mode', 'real'),
                                                               status='discharged' if n in okc else 'see incomplete/violations') for n in results},
        incomplete=incomplete, searched_natively=searched, unconfirmed_counterexamples=unconfirmed, native_mismatch=mismatched,
        explanation='states = feasible paths executed symbolically, transitions = IR instructions executed; every check on every path is a solver query over all input values on that path'),
        assumptions=['mode real: double arithmetic is taken as exact real arithmetic over finite inputs; rounding, overflow, signed zeros are outside the claim',
                     'mode fp: IEEE-754 binary64, round to nearest, bit exact',
                     'double literals that are the nearest double to p/q, q<=1000, are read as p/q (mode real)',
                     'sqrt is the exact root; sin/cos/exp/ln/log2/log10/atan of a symbolic argument are symbols with their defining identities (mode real), unless the harness checks that very function',
                     'operator new never fails; harness sizes and loop bounds as stated per harness'],
        wall_s=round(wall, 2), violations=len(violations))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    if not only:
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    seen = set()
    for k, name, fl in knownhit:
        if id(k) not in seen:
            seen.add(id(k))
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    for i in incomplete:
        print('INCOMPLETE %s' % i)
    for i in unconfirmed:
        print('UNCONFIRMED (not reproduced natively, not reported) %s' % i)
    for i in mismatched:
        print('NATIVE-MISMATCH %s' % i)
    import shutil
    if not verbose:
        shutil.rmtree(wd, ignore_errors=True)
    print('%s %s: %d/%d obligations discharged, %d assertions, %d paths, %d queries, solver %.1f s, wall %.1f s' % (
        prop, tier, len(okc), len(results), tot.get('checks', 0), tot.get('paths', 0), tot.get('queries', 0), tot.get('solver_s', 0), wall))
    if violations:
        for name, fl, rp, conf in violations:
            print('  %s / %s: %s; native replay: %s' % (name, fl['id'], fl['why'], conf[2].strip().splitlines()[0] if conf[2].strip() else conf[1]))
        print('VIOLATION property=%s replay=%s' % (prop, violations[0][2]))
        sys.exit(1)
    sys.exit(0)


if __name__ == '__main__':
    main()
