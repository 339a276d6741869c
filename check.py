#!/usr/bin/env python3
"""Driver: ./check.py PROPERTY [--tier quick|thorough]   or   ./check.py --build

Rebuilds, from /repo's current working tree, the LLVM IR of the harness crate linked with the
crates of /repo and the native replay binary; runs the symbolic executor over the entries of the
property; replays every counterexample (and a sample of the explored paths) natively; writes
evidence/<property>.json.  Exit 0 held, 1 violated, 2 no answer.
"""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time
V = os.path.dirname(os.path.abspath(__file__))
R = '/repo'
B = os.path.join(V, 'build')
H = os.path.join(V, 'harness')
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true')
ENV.pop('RUSTFLAGS', None)


def die(msg):
    print('ERROR ' + msg, flush=True)
    sys.exit(2)


def run(cmd, cwd=None, env=None, log=None, timeout=850):
    p = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if log:
        open(log, 'wb').write(p.stdout)
    if p.returncode:
        tail = p.stdout.decode(errors='replace')[-3000:]
        raise RuntimeError('%s failed (%d)\n%s' % (' '.join(cmd), p.returncode, tail))
    return p.stdout.decode(errors='replace')


def sources(root):
    out = []
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if x not in ('target', '.git', 'book', 'tests'))
        for f in sorted(fs):
            if f.endswith(('.rs', '.toml', '.lock', '.pest', '.json', '.smithy')):
                out.append(os.path.join(d, f))
    return out


def stamp(roots):
    h = hashlib.sha256()
    for r in roots:
        for f in sources(r):
            h.update(f.encode() + b'\0')
            h.update(open(f, 'rb').read() + b'\0')
    return h.hexdigest()


def build():
    """Returns (ll file, replay binary, engine binary, build seconds, stamp)."""
    os.makedirs(B, exist_ok=True)
    t0 = time.time()
    lock = open(os.path.join(B, 'lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    es, hs = stamp([os.path.join(V, 'engine')]), stamp([R, H])
    sf = os.path.join(B, 'stamp.json')
    try:
        old = json.load(open(sf))
    except Exception:
        old = {}
    eng = os.path.join(B, 'engine', 'release', 'symrs')
    ll = os.path.join(B, 'props.ll')
    rep = os.path.join(B, 'native', 'debug', 'replay')
    errs = []

    def engine():
        run(['cargo', 'build', '--release', '--offline', '--target-dir', os.path.join(B, 'engine')],
            cwd=os.path.join(V, 'engine'), log=os.path.join(B, 'engine.log'))

    def clean(td):
        # cargo decides by mtime: make it look again at everything that comes from /repo or here
        for pat in ('*atelier*', '*props*', '*replay*', '*symapi*'):
            for prof in ('debug', 'release'):
                for f in glob.glob(os.path.join(td, prof, '.fingerprint', pat)):
                    shutil.rmtree(f, ignore_errors=True)

    def ir():
        td = os.path.join(B, 'ir')
        clean(td)
        for f in glob.glob(os.path.join(td, 'release', 'deps', '*.bc')) + glob.glob(os.path.join(td, 'release', 'deps', 'props*')):
            os.unlink(f)
        e = dict(ENV, RUSTFLAGS='-C symbol-mangling-version=v0 -C save-temps')
        run(['cargo', 'rustc', '--offline', '--release', '--lib', '-p', 'props', '--crate-type', 'staticlib', '--target-dir', td],
            cwd=H, env=e, log=os.path.join(B, 'ir.log'))
        bc = glob.glob(os.path.join(td, 'release', 'deps', '*lto.after-restriction.bc'))
        if len(bc) != 1:
            raise RuntimeError('expected one LTO module, got %r' % bc)
        tools = os.path.join(run(['rustc', '--print', 'sysroot']).strip(), 'lib/rustlib/x86_64-unknown-linux-gnu/bin')
        tmp = os.path.join(B, 'l.bc')
        run([tools + '/opt', '-strip-debug',
             '-passes=function(sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>,simplifycfg)', bc[0], '-o', tmp])
        run([tools + '/llvm-dis', tmp, '-o', ll])
        os.unlink(tmp)
        for f in glob.glob(os.path.join(td, 'release', 'deps', '*.bc')) + glob.glob(os.path.join(td, 'release', 'deps', '*.o')):
            os.unlink(f)

    def native():
        td = os.path.join(B, 'native')
        clean(td)
        run(['cargo', 'build', '--offline', '-p', 'replay', '--target-dir', td], cwd=H, log=os.path.join(B, 'native.log'))

    def wrap(f):
        def g():
            try:
                f()
            except Exception as e:
                errs.append('%s: %s' % (f.__name__, e))
        return g
    todo = []
    if old.get('engine') != es or not os.path.exists(eng):
        todo.append(engine)
    if old.get('code') != hs or not (os.path.exists(ll) and os.path.exists(rep)):
        todo += [ir, native]
    if todo:
        if os.path.exists(sf):
            os.unlink(sf)
        ts = [threading.Thread(target=wrap(f)) for f in todo]
        [t.start() for t in ts]
        [t.join() for t in ts]
        if errs:
            die('build: ' + '\n'.join(errs))
        json.dump({'engine': es, 'code': hs}, open(sf, 'w'))
    fcntl.flock(lock, fcntl.LOCK_UN)
    return ll, rep, eng, time.time() - t0, hs


def replay(rep, entry, inputs, timeout=30):
    """Native run of one assignment: (outcome, lines)."""
    d = tempfile.mkdtemp(prefix='symrs-replay-')
    try:
        p = subprocess.run([rep, entry, d] + [str(x) for x in inputs], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, cwd=d, env={'PATH': '/usr/bin:/bin', 'RUST_BACKTRACE': '0'})
        out = p.stdout.decode(errors='replace').splitlines()
        if p.returncode == 0:
            return 'ok', out
        if p.returncode == 1 or p.returncode < 0:
            return 'fail', out + (['signal %d' % -p.returncode] if p.returncode < 0 else [])
        return 'exit%d' % p.returncode, out
    except subprocess.TimeoutExpired:
        return 'hang', ['did not finish in %d s' % timeout]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def replay_any(rep, entry, inputs):
    """As `replay`, but repeated: what depends on the random hash seeds of the process may need several runs."""
    t0 = time.time()
    for i in range(64):
        o, lines = replay(rep, entry, inputs)
        if o != 'ok' or time.time() - t0 > 20:
            break
    return o, lines


def main():
    if len(sys.argv) > 1 and sys.argv[1] == '--build':
        print('built in %.1f s' % build()[3])
        return 0
    if len(sys.argv) < 2:
        die('usage: check.py PROPERTY [--tier quick|thorough]')
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    spec = json.load(open(os.path.join(V, 'spec', 'checks.json')))['checks'][pid]
    reach = json.load(open(os.path.join(V, 'spec', 'reach.json')))
    learn = '--learn' in sys.argv
    known = {}
    for l in open(os.path.join(V, 'known_findings.jsonl')):
        l = l.strip()
        if l and not l.startswith('#'):
            k = json.loads(l)
            if k.get('status') == 'known' and k['property'] == pid:
                known[k['id']] = k
    ll, rep, eng, bs, st = build()
    entries = [e for e in spec['entries'] if tier == 'thorough' or e.get('tier', 'quick') == 'quick']
    if tier == 'quick':
        pass
    else:
        drop = {e['replaces'] for e in entries if 'replaces' in e}
        entries = [e for e in entries if e['entry'] not in drop]
    if '--only' in sys.argv:
        o = sys.argv[sys.argv.index('--only') + 1]
        entries = [e for e in entries if e['entry'] == o]
    work = tempfile.mkdtemp(prefix='symrs-')
    rpdir = os.path.join(V, 'evidence', 'replay')
    os.makedirs(rpdir, exist_ok=True)
    tot = dict(paths=0, done=0, assumed=0, checks_const=0, checks_solver=0, q_sat=0, q_unsat=0, q_unknown=0, fd_queries=0, fd_audited=0,
               insts=0, forks=0, solver_s=0.0)
    funcs, details, samples, problems, viol, knownhit = set(), [], [], [], [], {}
    traces = 0
    budget = float(spec.get('budget_' + tier, 840 if tier == 'quick' else 6 * 3600))
    try:
        for e in entries:
            name = e['entry']
            out = os.path.join(work, name)
            left = budget - (time.time() - t0)
            if left < 5:
                problems.append('%s: no time left' % name)
                break
            if viol:
                break
            cmd = [eng, '--ll', ll, '--entry', name, '--out', out, '--jobs', '8', '--timeout', str(int(left)),
                   '--audit', str(e.get('audit', 500 if tier == 'quick' else 20)), '--max-insts', str(e.get('max_insts', 400_000_000)), '--samples', str(e.get('samples', 6)),
                   '--sample-every', str(e.get('sample_every', 7))]
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode:
                problems.append('%s: engine exit %d: %s' % (name, p.returncode, p.stdout.decode(errors='replace')[-400:]))
                continue
            recs = []
            for l in open(out, errors='replace'):
                try:
                    recs.append(json.loads(l))
                except ValueError:
                    problems.append('%s: bad record %r' % (name, l[:200]))
            s = [r for r in recs if r['kind'] == 'summary'][0]
            for k in tot:
                tot[k] += s[k]
            funcs.update(s['functions'])
            labels = sorted({r['label'] for r in recs if r['kind'] == 'reach'})
            details.append({'entry': name, 'bounds': e.get('bounds', ''), 'paths': s['paths'], 'assertions': s['checks_const'] + s['checks_solver'],
                            'queries': s['q_sat'] + s['q_unsat'] + s['fd_queries'], 'solver_s': s['solver_s'], 'wall_s': s['wall_s'],
                            'reached': labels})
            print('%s: %d paths, %d assertions, %d z3 + %d fd queries, %.1f s' % (
                name, s['paths'], s['checks_const'] + s['checks_solver'], s['q_sat'] + s['q_unsat'], s['fd_queries'], s['wall_s']), flush=True)
            mine = []
            # counterexamples: replayed against the real code before they are reported
            for r in recs:
                if r['kind'] == 'violation':
                    if 'known' in r:
                        kid = r['known']
                        if kid not in knownhit:
                            o, lines = replay(rep, name, r['inputs'])
                            if kid not in known:
                                mine.append((r, ['finding %s is not listed' % kid] + lines))
                            elif any(x.startswith('known ' + kid) for x in lines):
                                knownhit[kid] = {'entry': name, 'inputs': r['inputs'], 'msg': r['msg']}
                            else:
                                problems.append('%s: finding %s did not replay (%s)' % (name, kid, o))
                        continue
                    o, lines = replay_any(rep, name, r['inputs'])
                    if o in ('fail', 'hang'):
                        mine.append((r, lines))
                    else:
                        problems.append('%s: counterexample did not replay natively (%s): %s' % (name, o, r['msg']))
                elif r['kind'] == 'incomplete':
                    o, lines = replay(rep, name, r['inputs'])
                    if o in ('fail', 'hang'):
                        mine.append((r, lines))
                    elif len(problems) < 20:
                        problems.append('%s: path not completed: %s [%s]' % (name, r['msg'], r.get('stack', '')[:300]))
            if mine:
                mine.sort(key=lambda x: 0 if x[0]['kind'] == 'violation' else 1)
                for r, lines in mine[:3]:
                    f = os.path.join(rpdir, '%s-%s-%d.json' % (pid, name, len(viol)))
                    json.dump({'property': pid, 'entry': name, 'message': r['msg'], 'stack': r.get('stack', ''), 'inputs': r['inputs'],
                               'native': lines, 'how': '%s %s SCRATCHDIR %s' % (rep, name, ' '.join(map(str, r['inputs'])))}, open(f, 'w'), indent=1)
                    viol.append((f, r['msg'], lines))
                continue
            if s['timeout']:
                problems.append('%s: not finished within the time limit (%d paths)' % (name, s['paths']))
            if s['exit'] != 0 or s['q_unknown'] or s['incomplete'] or s['done'] + s['assumed'] + s['known'] == 0:
                problems.append('%s: exit %s, unknown %d, incomplete %d, done %d' % (name, s['exit'], s['q_unknown'], s['incomplete'], s['done']))
            if s['violations'] and not mine:
                problems.append('%s: %d violations without a replay' % (name, s['violations']))
            if learn:
                reach[name] = labels
            else:
                miss = sorted(set(reach.get(name, ['<reach.json has no entry>'])) - set(labels))
                if miss:
                    problems.append('%s: vacuous: label(s) %s not reached' % (name, miss))
            if s['checks_const'] + s['checks_solver'] == 0 and not e.get('panic_only'):
                problems.append('%s: no assertion was evaluated' % name)
            # sampled paths: the same inputs through the compiled code give the same observations
            for r in recs:
                if r['kind'] == 'sample':
                    o, lines = replay(rep, name, r['inputs'])
                    obs = [x[4:] for x in lines if x.startswith('obs ')]
                    if o != 'ok' or (obs[0] if obs else '') != r['obs']:
                        problems.append('%s: sampled path disagrees with the native run: %s %s' % (name, o, lines[:2]))
                    else:
                        traces += 1
                        if len(samples) < 12:
                            samples.append({'entry': name, 'inputs': r['inputs'][:64]})
    finally:
        shutil.rmtree(work, ignore_errors=True)
    if learn:
        json.dump(reach, open(os.path.join(V, 'spec', 'reach.json'), 'w'), indent=0, sort_keys=True)
    own = sorted(f for f in funcs if re.search(r'\batelier_', f))
    lost = [k for k in known if k not in knownhit and tier in known[k].get('tiers', ['quick', 'thorough'])]
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': tot['paths'], 'transitions': tot['forks'], 'traces_validated_against_impl': traces, 'samples': samples,
            'evaluations': tot['checks_const'] + tot['checks_solver'],
            'paths_completed': tot['done'], 'paths_outside_assumptions': tot['assumed'],
            'assertions_decided_by_solver': tot['checks_solver'], 'assertions_decided_by_path_condition': tot['checks_const'],
            'queries': {'z3_sat': tot['q_sat'], 'z3_unsat': tot['q_unsat'], 'z3_unknown': tot['q_unknown'], 'finite_domain': tot['fd_queries'],
                        'finite_domain_put_to_z3_too': tot['fd_audited']},
            'solver_s': round(tot['solver_s'], 3), 'instructions': tot['insts'],
            'functions_encoded': own, 'functions_encoded_other_crates': len(funcs) - len(own),
            'entries': details, 'outside_the_bounds': spec.get('outside', ''),
        },
        'assumptions': spec.get('assumptions', []) + COMMON,
        'wall_s': round(time.time() - t0, 1), 'build_s': round(bs, 1), 'source_stamp': st,
        'violations': [{'replay': f, 'message': m, 'native': l[:4]} for f, m, l in viol],
        'known_findings': [dict(known[k], **v) for k, v in knownhit.items()],
    }
    if problems:
        ev['problems'] = problems
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(V, 'evidence', pid + '.json'), 'w'), indent=1)
    for k in sorted(knownhit):
        print('KNOWN-FINDING: property=%s %s' % (pid, known[k]['what']))
    if viol:
        for f, m, l in viol[:3]:
            print('  %s | %s' % (m, ' '.join(l)[:300]))
            print('VIOLATION property=%s replay=%s' % (pid, f), flush=True)
        return 1
    for k in lost:
        print('note: known finding %s did not occur' % k)
    if problems:
        seen = set()
        for p in problems:
            if p[:160] not in seen and len(seen) < 12:
                seen.add(p[:160])
                print('ERROR ' + p[:1200])
        return 2
    print('%s held: %d paths, %d assertions, %.1f s' % (pid, tot['paths'], tot['checks_const'] + tot['checks_solver'], time.time() - t0))
    return 0


COMMON = [
    'SipHash is replaced by a function of the length of the hashed text (all keys of one length collide), so a result that depends on hash values beyond the iteration order this induces is not explored',
    'allocation never fails; one thread; no environment variables set; the clock and the random source are fixed',
    'the IR is rustc stable output at opt-level 0 with overflow checks, simplified by opt (sroa, early-cse, simplifycfg, instcombine)',
]
if __name__ == '__main__':
    try:
        sys.exit(main())
    except RuntimeError as e:
        die(str(e))
