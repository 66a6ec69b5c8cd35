import importlib
import json
import os
import sys
import time
import traceback

from vf import core, repo


def main(argv):
    started = time.time()
    check_id = argv[1]
    replay = argv[argv.index('--replay') + 1] if '--replay' in argv else None
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    repo.install()
    evidence = os.path.join(core.EVIDENCE, check_id + '.json')
    if os.path.exists(evidence) and not replay:
        os.remove(evidence)
    try:
        module = importlib.import_module('vf.checks.' + check_id.lower())
        parts = module.parts(tier)
        if hasattr(module, 'prepare'):
            module.prepare(tier)
    except Exception as e:
        if not core.blames_repo(e, repo.PKG):
            raise
        path = os.path.join(core.EVIDENCE, 'replay-{}.json'.format(check_id))
        if not replay:
            core.write_json(path, core.describe(core.Stage, 0, seed, core.Ctx(tier, seed), 'the code under test cannot be loaded: {!r}'.format(e),
                                                traceback.format_exc()))
        traceback.print_exc(file=sys.stdout)
        print('VIOLATION property={} replay={}'.format(check_id, replay or path))
        return 1
    scale = float(os.environ.get('VF_SCALE', 1))  # for trials of the checks themselves: a fraction of the cases
    if scale != 1:
        for part in parts:
            part.quick = max(1, int(part.quick * scale))
    if replay:
        return do_replay(module, parts, check_id, replay)
    workers = getattr(module, 'WORKERS', 8)
    wall = getattr(module, 'WALL', 240) if tier == 'quick' else getattr(module, 'WALL_THOROUGH', 1500)
    result = core.run_parts(parts, tier, seed, workers, wall, getattr(module, 'setup', None))

    lines = {name: len(found) for name, found in sorted(result['lines'].items())}
    coverage = {
        'evaluations': result['cases'],
        'distinct_nontrivial': len(result['hashes']),
        'rule': module.RULE,
        'samples': result['samples'][:4] or ['none'],
        'cases_per_family': result['parts'],
        'monitor_events': dict(sorted(result['events'].items())),
        'repo_lines_executed': lines,
    }
    violations = result['violations']
    doc = {'property': check_id, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': coverage,
           'assumptions': getattr(module, 'ASSUMPTIONS', []), 'wall_s': round(time.time() - started, 2),
           'violations': len(violations)}
    core.write_json(evidence, doc)
    if violations:
        v = violations[0]
        path = os.path.join(core.EVIDENCE, 'replay-{}.json'.format(check_id))
        core.write_json(path, v)
        print('{}: case {}#{}: {}'.format(check_id, v['part'], v['index'], v['message']))
        print('input: {}'.format(core.short(v['case'], 1500)).encode('ascii', 'backslashreplace').decode())
        if v['traceback']:
            print(core.short(v['traceback'], 3000).encode('ascii', 'backslashreplace').decode())
        print('VIOLATION property={} replay={}'.format(check_id, path))
        return 1
    if result['errors']:
        print('ERROR in {}:\n{}'.format(check_id, '\n'.join(result['errors'])), file=sys.stderr)
        return 2
    missing = [r for part in parts for r in part.required if not result['events'].get(r)]
    if missing:
        print('INCONCLUSIVE {}: the monitors saw none of {}'.format(check_id, missing), file=sys.stderr)
        return 2
    print('{}: held on {} cases ({} distinct non-trivial), {} monitor events, {:.1f} s'.format(
        check_id, result['cases'], len(result['hashes']), sum(result['events'].values()), time.time() - started))
    return 0


def do_replay(module, parts, check_id, path):
    with open(path, encoding='utf-8') as f:
        record = json.load(f)
    import shutil
    import tempfile
    part = next((p for p in parts if p.name == record['part']), core.Stage)
    ctx = core.Ctx(record['tier'], record['seed'])
    ctx.scratch = tempfile.mkdtemp(prefix='vf-replay-')
    try:
        setup = getattr(module, 'setup', None)
        if setup is not None:
            setup(ctx)
        violation = None if part is core.Stage else core.run_case(ctx, part, record['index'], record['seed'])
    finally:
        shutil.rmtree(ctx.scratch, ignore_errors=True)
    if violation:
        print(violation['message'].encode('ascii', 'backslashreplace').decode())
        print(violation['case'].encode('ascii', 'backslashreplace').decode())
        print(violation['traceback'])
        print('VIOLATION property={} replay={}'.format(check_id, path))
        return 1
    print('replay: no violation')
    return 0


if __name__ == '__main__':
    try:
        code = main(sys.argv)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    os._exit(code)
