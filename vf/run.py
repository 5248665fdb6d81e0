"""python -m vf.run CNN [--replay FILE] [--sub NAME]"""
import argparse, ast, importlib, json, os, shutil, sys, tempfile, time
from . import core

def load_known(pid):
    path = os.path.join(core.VERIF, 'known_findings.json')
    out = {}
    if os.path.exists(path):
        for f in json.load(open(path))['findings']:
            if f['property'] == pid and f['status'] == 'open':
                out[f['id']] = f
    return out

def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--sub')
    ap.add_argument('--fuzz-seconds', type=int, default=90)
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VF_JOBS', '8')))
    a = ap.parse_args(argv)
    t0 = time.time()
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    mod = importlib.import_module('vf.checks.' + a.property.lower())
    prop = mod.PROP
    known = load_known(a.property)
    root = tempfile.mkdtemp(prefix='vf-%s-' % a.property)
    if os.getuid() == 0:
        os.chmod(root, 0o755)
    try:
        if a.replay:
            return replay(prop, a, known, root)
        return run(prop, a, tier, known, root, t0)
    finally:
        shutil.rmtree(root, ignore_errors=True)

def replay(prop, a, known, root):
    d = json.load(open(a.replay))
    sub = [s for s in prop.subs if s.name == d['sub']][0]
    case = ast.literal_eval(d['case'])
    ctx = core.Ctx(root, known)
    os.chdir(root)
    try:
        core.run_case(sub, case, ctx)
    except core.HarnessError:
        raise
    except (Exception, core.CaseTimeout) as e:
        print('sub-check %s, case %s' % (sub.name, core.short(case, 2000)))
        print(core._describe(e))
        print('VIOLATION property=%s replay=%s' % (prop.pid, os.path.abspath(a.replay)))
        return 1
    print('the case passes')
    return 0

def run(prop, a, tier, known, root, t0):
    soft = t0 + (240 if tier == 'quick' else 3000)
    hard = t0 + (700 if tier == 'quick' else 4200)
    tasks = []
    for sub in prop.subs:
        if a.sub and sub.name != a.sub:
            continue
        n = sub.shards or (a.jobs if tier == "thorough" else min(a.jobs, max(1, sub.quick // 6)))
        for sh in range(n):
            def fn(scratch, sub=sub, sh=sh, n=n):
                return core.run_task(sub, tier, a.seed, sh, n, core.Ctx(scratch, known), soft)
            tasks.append(('%s/%d' % (sub.name, sh), fn))
        if tier == 'thorough' and sub.gen is not None and sub.fuzz:
            from . import fuzz
            def fn(scratch, sub=sub):
                return fuzz.run(prop, sub, a.seed, scratch, known, time.time() + 900, a.fuzz_seconds)
            tasks.append(('%s/atheris' % sub.name, fn))
    res = core.run_tasks(tasks, a.jobs, root, hard)
    tot = core.Stats()
    failures, harness, per = [], [], {}
    for (label, _), st in zip(tasks, res):
        if isinstance(st, Exception):
            harness.append(str(st))
            continue
        if st.harness:
            harness.append(st.harness)
        if st.failure:
            failures.append(st.failure)
        tot.evaluations += st.evaluations
        tot.truncated += st.truncated
        tot.nontrivial |= st.nontrivial
        tot.known_hits |= st.known_hits
        for k, v in st.labels.items():
            tot.labels[k] = tot.labels.get(k, 0) + v
        name = label.split('/')[0]
        p = per.setdefault(name, [0, 0])
        p[0] += st.evaluations
        p[1] += len(st.nontrivial)
        if len([s for s in tot.samples if s['sub'] == name]) < 1:
            tot.samples += st.samples[:1]
    ev = {
        'property': prop.pid, 'tier': tier, 'seed': a.seed, 'level': prop.level,
        'coverage': {
            'evaluations': tot.evaluations, 'distinct_nontrivial': len(tot.nontrivial),
            'rule': '; '.join('%s: %s' % (s.name, s.rule or 'every generated case counts') for s in prop.subs),
            'samples': tot.samples,
            'per_sub_check': {k: {'evaluations': v[0], 'nontrivial_before_merging_shards': v[1]} for k, v in per.items()},
            'classes': tot.labels,
            'skipped_for_time': tot.truncated,
            'known_findings_met': sorted(tot.known_hits),
        },
        'assumptions': prop.assumptions,
        'violations': len(failures), 'wall_s': round(time.time() - t0, 2),
    }
    os.makedirs(os.path.join(core.VERIF, 'evidence'), exist_ok=True)
    tmp = os.path.join(core.VERIF, 'evidence', '.%s.%d' % (prop.pid, os.getpid()))
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(core.VERIF, 'evidence', prop.pid + '.json'))
    for fid in sorted(known):
        print('KNOWN-FINDING: property=%s %s' % (prop.pid, known[fid]['what']))
    if failures:
        failures.sort(key=lambda f: len(f['case']))
        rd = os.path.join(core.VERIF, 'replays')
        os.makedirs(rd, exist_ok=True)
        seen = set()
        for f in failures:
            if f['sub'] in seen:
                continue
            seen.add(f['sub'])
            path = os.path.join(rd, '%s-%s.json' % (prop.pid, f['sub']))
            with open(path, 'w') as fh:
                json.dump(dict(f, property=prop.pid), fh, indent=1)
            print('%s %s' % (f['sub'], f['error']))
            print('  case: %s' % (f['case'] if len(f['case']) < 1500 else f['case'][:1500] + '...'))
            print('VIOLATION property=%s replay=%s' % (prop.pid, path))
        for h in harness:
            print('also: ' + h, file=sys.stderr)
        return 1
    if harness:
        for h in harness:
            print('CHECK ERROR: ' + h, file=sys.stderr)
        return 2
    print('%s held: %d cases, %d distinct non-trivial, %.1f s%s' % (
        prop.pid, tot.evaluations, len(tot.nontrivial), time.time() - t0,
        ' (%d cases skipped for time)' % tot.truncated if tot.truncated else ''))
    return 0

if __name__ == '__main__':
    sys.exit(main())
