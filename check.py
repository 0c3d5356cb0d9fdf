#!/usr/bin/env python3
"""Decides one property of INNC:  check.py <property-id> [quick|thorough]

1. compiles /repo's current sources to LLVM IR (clang++) and links them with the
   property's harness (harness/<id>.cpp) and harness/support.cpp;
2. runs the symbolic executor (engine/) on every entry of the harness: the data,
   indices and operation sequences are symbolic, every feasible path within the
   harness's bounds is followed, every assertion and memory access is decided by
   z3 for all values;
3. replays each counterexample on the natively compiled library (g++, ASan) and
   reports only those that fail there too; replays witnesses of completed paths
   the same way, as a check of the encoding;
4. writes evidence/<id>.json.
"""
import concurrent.futures as cf
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
R = os.environ.get('INNC_REPO', '/repo')
B = os.path.join(V, 'build')
NCPU = os.cpu_count() or 8
PRE = []
for h in ('algorithm', 'array', 'cmath', 'cstdint', 'cstring', 'functional', 'initializer_list', 'limits', 'memory', 'numeric', 'queue', 'random', 'sstream', 'stdexcept', 'string', 'typeinfo', 'utility', 'vector'):
    PRE += ['-include', h]
COMMON = ['-std=c++20', '-D_GLIBCXX_ASSERTIONS=1', '-w', '-I' + R + '/include', '-I' + V + '/harness'] + PRE
BCFLAGS = ['-O0', '-Xclang', '-disable-O0-optnone', '-ffp-contract=off', '-gline-tables-only', '-fdebug-info-for-profiling', '-emit-llvm', '-c']
NATFLAGS = ['-O0', '-g1', '-fsanitize=address', '-fno-omit-frame-pointer', '-ffp-contract=off', '-c']


def tool(n):
    for c in (n, n + '-18', '/usr/lib/llvm-18/bin/' + n):
        p = shutil.which(c)
        if p:
            return p
    raise SystemExit('missing tool ' + n)


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)
    if p.returncode:
        print('command failed: %s\n%s' % (' '.join(cmd), p.stdout[-4000:]))
        raise RuntimeError('build failed')
    return p.stdout


def sources():
    return sorted(glob.glob(R + '/src/**/*.cpp', recursive=True))


def tree_hash(extra=()):
    h = hashlib.sha256()
    fs = sources() + sorted(glob.glob(R + '/include/**/*', recursive=True)) + sorted(glob.glob(R + '/src/**/*.h*', recursive=True))
    for f in fs + list(extra):
        if os.path.isfile(f):
            h.update(f.encode() + b'\0' + open(f, 'rb').read() + b'\0')
    h.update(repr((COMMON, BCFLAGS, NATFLAGS)).encode())
    return h.hexdigest()[:20]


class Lock:
    def __init__(self, name):
        os.makedirs(B, exist_ok=True)
        self.f = open(os.path.join(B, name + '.lock'), 'w')

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)


def build_engine():
    with Lock('engine'):
        run(['make', '-s', '-j8', '-C', V + '/engine', 'OUT=' + B])
    return B + '/symex'


def build_lib():
    """IR and native objects of /repo's current tree (cached by content)."""
    key = tree_hash([V + '/harness/support.cpp'])
    d = os.path.join(B, 'lib-' + key)
    with Lock('lib'):
        if not os.path.exists(d + '/ok'):
            for o in glob.glob(B + '/lib-*'):
                if time.time() - os.path.getmtime(o) > 7200:
                    shutil.rmtree(o, ignore_errors=True)
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            jobs, bcs, objs = [], [], []
            for i, s in enumerate(sources()):
                b, o = '%s/%d.bc' % (d, i), '%s/%d.o' % (d, i)
                bcs.append(b)
                objs.append(o)
                jobs.append([tool('clang++')] + COMMON + BCFLAGS + [s, '-o', b])
                jobs.append(['g++'] + COMMON + NATFLAGS + [s, '-o', o])
            sb = d + '/support.bc'
            jobs.append([tool('clang++')] + COMMON + BCFLAGS + [V + '/harness/support.cpp', '-o', sb])
            jobs.sort(key=lambda c: -os.path.getsize(c[-3]))
            with cf.ThreadPoolExecutor(NCPU) as ex:
                list(ex.map(run, jobs))
            run([tool('llvm-link')] + bcs + [sb, '-o', d + '/lib.bc'])
            open(d + '/ok', 'w').write('ok')
    return d


def meta(path):
    m = {'entries': [], 'bounds': [], 'outside': [], 'cover': [], 'assume': [], 'oracle': []}
    for l in open(path):
        g = re.match(r'//@\s*(\w+):\s*(.*)', l)
        if not g:
            continue
        k, v = g.groups()
        if k == 'entry':
            p = v.split()
            e = {'name': p[0], 'quick': 60, 'thorough': 600}
            for x in p[1:]:
                a, b = x.split('=')
                e[a] = float(b)
            m['entries'].append(e)
        elif k == 'cover':
            m['cover'] += v.split()
        else:
            m[k].append(v)
    return m


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    hp = '%s/harness/%s.cpp' % (V, prop)
    m = meta(hp)
    symex = build_engine()
    lib = build_lib()
    w = '%s/run-%s-%s-%d' % (B, prop, tier, os.getpid())
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    try:
        return decide(prop, tier, seed, t0, hp, m, symex, lib, w)
    finally:
        if not os.environ.get('KEEP'):
            shutil.rmtree(w, ignore_errors=True)


def decide(prop, tier, seed, t0, hp, m, symex, lib, w):
    tdef = '-DTIER=%d' % (1 if tier == 'thorough' else 0)
    jobs = [[tool('clang++')] + COMMON + BCFLAGS + [tdef, hp, '-o', w + '/h.bc'],
            ['g++'] + COMMON + NATFLAGS + [tdef, hp, '-o', w + '/h.o']]
    with cf.ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(run, jobs))
    entries = [e['name'] for e in m['entries']]
    run([tool('llvm-link'), lib + '/lib.bc', w + '/h.bc', '-o', w + '/l.bc'])
    # functions the executor recognises by name must survive as functions
    names = run([tool('llvm-nm'), '--format=just-symbols', w + '/l.bc']).split()
    keep = [n for n in names if re.match(r'_ZNSt7__cxx119to_stringE.$|_ZNSt19normal_distributionI[fd]Ecl', n)]
    run([tool('opt'), '-passes=internalize,globaldce,forceattrs,default<O1>'] + ['-force-attribute=%s:noinline' % n for n in keep] + ['-internalize-public-api-list=' + ','.join(entries), w + '/l.bc', '-o', w + '/o.bc'])

    def native(e):
        b = '%s/replay_%s' % (w, e)
        run(['g++'] + COMMON + NATFLAGS[:-1] + ['-DENTRY=' + e, V + '/harness/replay.cpp', w + '/h.o'] + sorted(glob.glob(lib + '/[0-9]*.o')) + ['-o', b])
        return b
    natives = {}
    nat_ex = cf.ThreadPoolExecutor(2)
    futs = {e: nat_ex.submit(native, e) for e in entries}

    kf = []
    p = V + '/known_findings.json'
    if os.path.exists(p):
        kf = [k for k in json.load(open(p))['findings'] if k['property'] == prop and k['status'] == 'known']
    tot = {}
    per_entry, errors, covers, funcs, samples = [], {}, {}, set(), []
    confirmed, unconfirmed, known_seen = [], [], {}
    wit_ok = wit_bad = 0
    budget = 800.0 if tier == 'quick' else 6 * 3600.0
    for e in m['entries']:
        name = e['name']
        tl = min(e[tier], max(20.0, budget - (time.time() - t0) - 60))
        od = '%s/out_%s' % (w, name)
        os.makedirs(od)
        nw = int(e.get('wit', 24))
        pr = subprocess.run([symex, '-o', od, '-e', name, '-j', str(NCPU), '-t', str(tl), '-s', str(seed), '-w', str(nw), '-v', '12', '-r', str(int(e.get('rlimit', 60000000))), w + '/o.bc'],
                            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        if pr.returncode or not os.path.exists(od + '/result.json'):
            print(pr.stdout[-2000:])
            raise RuntimeError('symbolic executor failed on ' + name)
        r = json.load(open(od + '/result.json'))
        for k, v in r.items():
            if isinstance(v, (int, float)) and k not in ('stop',):
                tot[k] = tot.get(k, 0) + v
        for k, v in r['errors'].items():
            errors[k] = errors.get(k, 0) + v
        for k, v in r['cover'].items():
            covers[k] = covers.get(k, 0) + v
        funcs |= set(r['functions'])
        per_entry.append({k: r[k] for k in ('entry', 'wall_s', 'stop', 'paths_ok', 'paths_assume', 'paths_unsup', 'paths_viol', 'paths_stopped', 'asserts', 'asserts_const', 'asserts_solver', 'asserts_unknown', 'safety_checks', 'queries', 'unknown', 'solver_s', 'instrs', 'crashed')})
        rb = futs[name].result()

        def replay(inp, fills):
            f = inp + '.txt'
            j = json.load(open(inp))
            with open(f, 'w') as o:
                for n, v in j['inputs']:
                    o.write('%s %d\n' % (n, v))
            out = (0, '')
            for b in fills:
                env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:redzone=1024:max_redzone=2048:max_malloc_fill_size=268435456:malloc_fill_byte=%d:allocator_may_return_null=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=1' % b)
                try:
                    q = subprocess.run([rb, f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=30, env=env, cwd=w)
                    out = (q.returncode, q.stdout)
                except subprocess.TimeoutExpired:
                    out = (124, 'TIMEOUT: no termination within 30 s')
                if out[0] not in (0, 3, 4):
                    return out
            return out
        wits = sorted(glob.glob(od + '/wit_*.json'))
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for f, (rc, out) in zip(wits, ex.map(lambda f: replay(f, [190]), wits)):
                j = json.load(open(f))
                g = re.search(r'OK asserts=(\d+)', out)
                if rc == 0 and g and int(g.group(1)) == j['asserts']:
                    wit_ok += 1
                    if len(samples) < 3:
                        samples.append({'entry': name, 'inputs': j['inputs'][:40], 'asserts_on_path': j['asserts'], 'native_replay': 'agrees'})
                else:
                    wit_bad += 1
                    errors['witness replay disagrees: rc=%d %s' % (rc, out.strip()[-200:])] = 1
        viols = sorted(glob.glob(od + '/viol_*.json'))
        with cf.ThreadPoolExecutor(NCPU) as ex:
            res = list(ex.map(lambda f: replay(f, [190, 0, 255, 1, 127]), viols))
        for f, (rc, out) in zip(viols, res):
            j = json.load(open(f))
            tag = next((k for k in kf if j['msg'].startswith('[' + k['id'] + ']')), None)
            real = rc not in (0, 3, 4)
            if real and tag:
                known_seen[tag['id']] = tag
            elif real:
                d = '%s/replay/%s/%s_%d' % (B, prop, name, len(confirmed))
                shutil.rmtree(d, ignore_errors=True)
                os.makedirs(d)
                shutil.copy(f + '.txt', d + '/inputs.txt')
                shutil.copy(hp, d)
                shutil.copy(rb, d + '/replay')
                j['native_exit'] = rc
                j['native_output'] = out[-3000:]
                json.dump(j, open(d + '/violation.json', 'w'), indent=1)
                open(d + '/run.sh', 'w').write('#!/bin/sh\ncd "$(dirname "$0")" && ASAN_OPTIONS=detect_leaks=0:redzone=1024 ./replay inputs.txt\n')
                confirmed.append((j, d))
            else:
                unconfirmed.append((j, rc, out))
    nat_ex.shutdown()
    missing = [c for c in m['cover'] if c not in covers]
    exhaustive = not errors and not missing and all(x['stop'] == 0 and not x['paths_unsup'] and not x['crashed'] and not x['asserts_unknown'] for x in per_entry)
    ok = tot.get('paths_ok', 0)
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': int(ok),
            'transitions': int(tot.get('sym_branches', 0) + tot.get('forks', 0)),
            'traces_validated_against_impl': wit_ok,
            'samples': samples or [{'entry': x['entry'], 'paths': x['paths_ok']} for x in per_entry[:2]],
            'exhaustive': bool(exhaustive),
            'explanation': 'states: symbolic paths followed to their end (each stands for every input satisfying its path condition); transitions: symbolic branch decisions and forks; traces_validated_against_impl: witnesses of completed paths replayed natively with the same result.',
            'functions_encoded': sorted(funcs),
            'functions_encoded_count': len(funcs),
            'bounds': m['bounds'], 'outside_bounds': m['outside'], 'oracle': m['oracle'],
            'assertions_checked': int(tot.get('asserts', 0)),
            'assertions_decided_by_solver': int(tot.get('asserts_solver', 0)),
            'assertions_on_concrete_values': int(tot.get('asserts_const', 0)),
            'assertions_undecided': int(tot.get('asserts_unknown', 0)),
            'memory_safety_conditions': int(tot.get('safety_checks', 0)),
            'queries_discharged': int(tot.get('queries', 0)),
            'queries_sat': int(tot.get('sat', 0)), 'queries_unsat': int(tot.get('unsat', 0)), 'queries_unknown': int(tot.get('unknown', 0)),
            'solver_s': round(tot.get('solver_s', 0), 3),
            'ir_instructions': int(tot.get('instrs', 0)),
            'cover_labels': covers, 'cover_missing': missing,
            'entries': per_entry, 'not_explored': errors,
            'witness_disagreements': wit_bad,
            'unconfirmed_counterexamples': [{'msg': j['msg'], 'where': j['where'], 'native_exit': rc} for j, rc, _ in unconfirmed[:10]],
            'known_findings_seen': sorted(known_seen),
        },
        'assumptions': m['assume'] + [
            'the engine (engine/) implements LLVM IR semantics faithfully; cross-checked on this run by native replay of path witnesses',
            'clang 18 -O0 IR followed by opt -O1 is a faithful translation of the source; the shipped build uses g++',
            'z3 4.8.12 is sound'],
        'wall_s': round(time.time() - t0, 2), 'violations': len(confirmed),
    }
    os.makedirs(V + '/evidence', exist_ok=True)
    json.dump(ev, open('%s/evidence/%s.json' % (V, prop), 'w'), indent=1)
    c = ev['coverage']
    print('%s %s: paths=%d asserts=%d (solver %d) queries=%d solver_s=%.1f wall=%.1f exhaustive=%s witnesses=%d/%d' % (prop, tier, ok, c['assertions_checked'], c['assertions_decided_by_solver'], c['queries_discharged'], c['solver_s'], ev['wall_s'], exhaustive, wit_ok, wit_ok + wit_bad))
    for k, v in sorted(errors.items())[:12]:
        print('  note: %s (%d)' % (k, v))
    if missing:
        print('  note: cover labels not reached: ' + ' '.join(missing))
    for j, rc, out in unconfirmed[:6]:
        print('  note: counterexample not reproduced natively (rc %d): %s at %s' % (rc, j['msg'], j['where']))
    for k in kf:
        if k['id'] in known_seen:
            print('KNOWN-FINDING: property=%s %s' % (prop, k['text']))
    if confirmed:
        for j, d in confirmed[:4]:
            print('  %s: %s at %s' % (j['kind'], j['msg'], j['where']))
            print('  inputs: ' + ' '.join('%s=%d' % (n, v) for n, v in j['inputs'][:60]))
            print('  native: ' + ' | '.join(j['native_output'].strip().split('\n')[:3])[:300])
        print('VIOLATION property=%s replay=%s' % (prop, confirmed[0][1]))
        return 1
    if ok == 0:
        print('nothing was explored: no answer')
        return 2
    return 0


if __name__ == '__main__':
    try:
        rc = main()
    except Exception as e:  # no answer is not an alarm
        import traceback
        traceback.print_exc()
        print('no answer: %s' % e)
        rc = 2
    sys.exit(rc)
