"""Command line of the checks: ./check <property> [--replay FILE] | --selftest"""
import hashlib, importlib, json, os, sys, time, traceback
from . import env

QUICK_RT, THOROUGH_RT = 25., 400.


def write_replay(prop, data):
    os.makedirs(os.path.join(env.OUT, 'replay'), exist_ok=True)
    s = json.dumps(data, sort_keys=True, default=str)
    path = os.path.join(env.OUT, 'replay', '%s-%s.json' % (prop, hashlib.sha1(s.encode()).hexdigest()[:10]))
    with open(path, 'w') as f:
        f.write(json.dumps(data, indent=1, default=str) + '\n')
    return os.path.relpath(path, env.VERIF)


def known():
    out = []
    p = os.path.join(env.VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('KNOWN-FINDING:'): out.append(l.strip())
    return out


def main(argv):
    env.setup()
    if argv and argv[0] == '--selftest':
        from . import selftest
        return selftest.main()
    prop = argv[0]
    from . import rtrun
    reg = rtrun.registry()
    if '--replay' in argv:
        data = json.load(open(argv[argv.index('--replay') + 1]))
        if data.get('case') is None:
            print(json.dumps(data, indent=1)); return 0
        rt = [r for r in reg[prop] if r.name == data['contract']][0]
        res = rtrun.run_case(rt, data['case'])
        print('replay of %s: %s' % (data['contract'], res))
        return 1 if res not in (None, 'skip') else 0
    t0 = time.time()
    thorough = env.TIER == 'thorough'
    for l in known():
        if 'property=%s ' % prop in l: print(l)
    rep = None
    try:
        pm = importlib.import_module('lcpv.proofs.' + prop.lower())
    except ModuleNotFoundError as e:
        if 'lcpv.proofs' not in str(e): raise
        pm = None
    viol = None; tail = ''
    if pm is not None:
        from . import verify
        rep = verify.run(pm, prop, thorough)
    stats, v = rtrun.campaign(prop, reg[prop], THOROUGH_RT if thorough else QUICK_RT, env.SEED)
    if v is not None:
        viol = dict(v, kind='run-time contract', failed_obligations=rep.failed_names() if rep else [],
                    verifier_output=rep.failed_output() if rep else None)
    elif rep is not None and rep.refuted():
        # refuted by the verifier: try to replay its counterexamples on the real code
        viol = rep.replayed(prop, reg[prop])
        if viol is None:
            viol = dict(property=prop, kind='failed obligation', failed_obligations=rep.failed_names(), verifier_output=rep.failed_output(), case=None)
            tail = ' no-failing-input-found'
    write_evidence(prop, rep, stats, viol, time.time() - t0, thorough)
    for s in stats:
        print('  run-time contract %-18s %6d cases (%d outside the precondition)' % (s['contract'], s['cases'], s['skipped']))
    if rep is not None: rep.show()
    if viol is not None:
        path = write_replay(prop, viol)
        print(str(viol.get('message') or viol.get('failed_obligations'))[:2000])
        print('VIOLATION property=%s replay=%s%s' % (prop, path, tail))
        return 1
    print('%s held (%.1fs)' % (prop, time.time() - t0))
    return 0


def write_evidence(prop, rep, stats, viol, wall, thorough):
    n = sum(s['cases'] for s in stats); nt = sum(s['cases'] - s['skipped'] for s in stats)
    rt = dict(evaluations=n, distinct_nontrivial=nt, rule='run-time contracts on the real code: randomly generated inputs inside the precondition (seeded); a case is non-trivial when it is not skipped by the precondition',
              samples=[x for s in stats for x in s.pop('samples')][:2] or ['none'], runtime_contracts=stats)
    lvl = 'exploration'; cov = dict(rt); assum = ['run-time contracts are checked on sampled inputs only (bounded stand-in, not counted as proved)']
    if rep is not None:
        cov.update(rep.coverage()); assum = rep.assumptions() + assum
        lvl = rep.level()
    d = dict(property=prop, tier='thorough' if thorough else 'quick', seed=env.SEED, level=lvl, coverage=cov, assumptions=assum, wall_s=round(wall, 2), violations=1 if viol else 0)
    os.makedirs(env.EVID, exist_ok=True)
    with open(os.path.join(env.EVID, prop + '.json'), 'w') as f:
        json.dump(d, f, indent=1, default=str)


if __name__ == '__main__':
    try:
        rc = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    os._exit(rc)
