"""Entry point of every check: ./check P01 [--tier quick|thorough]."""
import argparse
import hashlib
import json
import os
import re
import sys
import time

_T0 = time.time()

from . import boot, explore  # noqa: E402

EVID = os.path.join(boot.VERIF, 'evidence')
KNOWN = os.path.join(boot.VERIF, 'known-findings.txt')


def registry():
    from . import props
    return props.PROPS


def known(prop):
    """ Lines  finding: property=P00 scenario=NAME key=KEY [match=REGEX] -- what fails """
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r'finding: property=(\S+) scenario=(\S+) key=(\S+)(?: match=(\S+))? -- (.*)', line.strip())
            if m and m.group(1) == prop:
                out.append(dict(scenario=m.group(2), key=m.group(3), match=m.group(4), text=m.group(5)))
    return out


def matches(k, unit, key, msg):
    return re.fullmatch(k['scenario'], unit) and k['key'] == key and (not k['match'] or re.search(k['match'], msg))


def run(prop, tier, jobs, verbose=False, only=None, limit=None, all_viol=False):
    from .explore import real_time
    t0 = real_time()
    p = registry()[prop]
    units = p['units'](tier)
    if only:
        units = [u for u in units if re.search(only, u.name)]
    kn = known(prop)
    hit = {}

    def is_new(v):
        u, prefix, (key, msg) = v
        for k in kn:
            if matches(k, units[u].name, key, msg):
                hit.setdefault(k['text'], 0)
                hit[k['text']] += 1
                return False
        return True

    lim = limit or (p.get('limit', 240) if tier == 'quick' else p.get('limit_thorough', 780))
    st = explore.explore(units, jobs=jobs, limit_s=lim, stop_on_violation=not all_viol, is_new=is_new)
    viol = sorted(st.violations, key=lambda v: (len(v[1]), v[1]))
    status = 0
    for text in sorted(hit):
        print(f'KNOWN-FINDING: property={prop} {text}')
    if st.errors and not viol:
        for u, pre, tb in st.errors[:3]:
            print(f'ERROR property={prop} scenario={units[u].name if u is not None else None} prefix={pre}\n{tb}',
                  file=sys.stderr)
        status = 2
    if viol:
        status = 1
        seen = set()
        for u, pre, (key, msg) in viol:
            if (units[u].name, key) in seen or len(seen) >= (30 if all_viol else 3):
                continue
            seen.add((units[u].name, key))
            path = write_replay(prop, tier, units[u].name, pre, key, msg)
            print(f'VIOLATION property={prop} replay={path}')
            print(f'    scenario {units[u].name}: [{key}] {msg[:1500]}')
    n_out = sum(len(d.get('outcomes', ())) for d in st.unit_stats.values())
    cov = dict(
        states=len(st.states), transitions=st.transitions, traces_validated_against_impl=st.executions,
        samples=[dict(scenario=units[u].name, choices=list(pre)[-60:], case=s) for u, pre, s in st.samples[:12]],
        exhaustive=st.left == 0 and not viol and not st.errors,
        unexplored_frontier=st.left,
        distinct_outcomes=n_out,
        executions_by_deviations={str(k): v for k, v in sorted(st.by_cost.items())},
        scenarios={units[u].name: dict(executions=n, bound=units[u].budget or 'all choices',
                                       outcomes=len(st.unit_stats.get(u, {}).get('outcomes', ())))
                   for u, n in sorted(st.by_unit.items())},
        rule=p.get('rule', DEFAULT_RULE))
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1')), level=p.get('level', LEVEL),
              coverage=cov, wall_s=round(real_time() - t0, 2), violations=len(viol),
              assumptions=p.get('assumptions', ASSUME))
    if not only:
        os.makedirs(EVID, exist_ok=True)
        tmp = os.path.join(EVID, f'.{prop}.tmp')
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(tmp, os.path.join(EVID, f'{prop}.json'))
    print(f'{prop} {tier}: {len(units)} scenarios, {st.executions} executions, {len(st.states)} states, '
          f'{st.transitions} transitions, {n_out} outcomes, unexplored {st.left}, {real_time() - t0:.1f} s'
          + (f', {len(viol)} violations' if viol else ''))
    if verbose:
        for n, d in cov['scenarios'].items():
            print('   ', n, d)
    return status


LEVEL = 'model_checking'
DEFAULT_RULE = ('stateless model checking of the real code: every execution of every scenario within its bound on '
                'deviations (s: scheduling deviations, early timeouts; f: faults) is run; each is a trace of the '
                'implementation itself')
ASSUME = ['threads, processes, locks, pipes, manager proxies and the clock are the virtual ones of mc/virt.py',
          'deviation bounds, scenario alphabet and horizons as listed in coverage.scenarios',
          'matplotlib drawing and psutil are stand-ins; PyPy lacks sys.getsizeof, which is stubbed']


def write_replay(prop, tier, unit, prefix, key, msg):
    d = os.path.join(EVID, 'replay')
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha1(repr((unit, prefix, key)).encode()).hexdigest()[:10]
    path = os.path.join(d, f'{prop}-{h}.json')
    with open(path, 'w') as f:
        json.dump(dict(property=prop, tier=tier, scenario=unit, choices=list(prefix), key=key, message=msg,
                       how='./check --replay ' + path), f, indent=1)
    return path


def replay(path):
    r = json.load(open(path))
    units = [u for u in registry()[r['property']]['units'](r['tier']) if u.name == r['scenario']]
    out = units[0].run(tuple(r['choices']))
    for i, (n, pick, costs, label) in enumerate(out.trace):
        if pick:
            print(f'choice {i}: {label} -> option {pick} of {n}')
    for key, msg in out.violations:
        print(f'[{key}] {msg}')
    if any(k == r['key'] for k, _ in out.violations):
        print(f"VIOLATION property={r['property']} replay={path}")
        return 1
    print('not reproduced')
    return 0


def main():
    a = argparse.ArgumentParser()
    a.add_argument('props', nargs='*')
    a.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    a.add_argument('--jobs', type=int, default=int(os.environ.get('MC_JOBS', '0')) or min(8, os.cpu_count() or 1))
    a.add_argument('--replay')
    a.add_argument('--all', action='store_true')
    a.add_argument('--only')
    a.add_argument('--limit', type=float)
    a.add_argument('--all-violations', action='store_true')
    a.add_argument('-v', action='store_true')
    o = a.parse_args()
    if o.replay:
        sys.exit(replay(o.replay))
    rc = 0
    for p in (sorted(registry()) if o.all else o.props):
        r = run(p, o.tier, o.jobs, o.v, o.only, o.limit, o.all_violations)
        rc = max(rc, r) if r != 1 else (1 if rc in (0, 1) else rc)
        sys.stdout.flush()
    sys.exit(rc)


if __name__ == '__main__':
    main()
