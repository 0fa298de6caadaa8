"""python3 -m folxsa.run <property> [--unit UID] [--list]

Decides one property from the sources under /repo/folx (parsed, never imported or executed).
Exit 0: no obligation is violated.  Exit 1 + VIOLATION line: one is.  Exit 2: the analysis itself failed."""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import sys
import threading
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('FOLXSA_REPO', '/repo')
DEADLINE = float(os.environ.get('FOLXSA_DEADLINE', '720'))
_state = {}


class Res:
    """Picklable result of one unit."""

    def __init__(self, uid, n=0, ok=0, bad=(), und=(), reach=(), note='', wall=0.0):
        self.uid, self.n, self.ok, self.bad, self.und, self.reach, self.note, self.wall = uid, n, ok, list(bad), list(und), sorted(reach), note, wall


def run_unit(uid):
    t = time.time()
    mod, project = _state['mod'], _state['project']
    box = {}

    def body():
        try:
            o = mod.run_unit(project, uid)
            box['r'] = Res(uid, o.n, o.ok, [(i.part, i.msg, cond_text(i)) for i in o.bad], [(i.part, i.msg, cond_text(i)) for i in o.und], getattr(o, 'reach', ()))
        except Exception as e:          # the analysis of this unit failed: undecided, never a verdict
            tb = traceback.extract_tb(e.__traceback__)[-1]
            box['r'] = Res(uid, 1, 0, [], [('analysis', f'{type(e).__name__}: {e} ({os.path.basename(tb.filename)}:{tb.lineno})'[:300], '')], (), 'crash')
    # deep recursion of the interpreter needs a large stack
    th = threading.Thread(target=body)
    th.start()
    th.join()
    r = box.get('r') or Res(uid, 1, 0, [], [('analysis', 'no result', '')], (), 'crash')
    r.wall = time.time() - t
    return r


def cond_text(i):
    from .oracle import show_guard
    return '; '.join(c if isinstance(c, str) else show_guard(*c) for c in i.cond)


def known_findings():
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('KNOWN-FINDING:'):
                d = dict(x.split('=', 1) for x in line[len('KNOWN-FINDING:'):].split(' | ')[0].split() if '=' in x)
                rest = line.split(' | ')
                out.append({'property': d.get('property'), 'unit': rest[1].strip() if len(rest) > 1 else '', 'part': rest[2].strip() if len(rest) > 2 else '',
                            'msg': rest[3].strip() if len(rest) > 3 else '', 'text': rest[4].strip() if len(rest) > 4 else ''})
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--unit')
    ap.add_argument('--list', action='store_true')
    ap.add_argument('-j', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    sys.setrecursionlimit(12000)
    threading.stack_size(512 * 1024 * 1024)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    from .project import Project
    try:
        project = Project(REPO)
        mod = importlib.import_module(f'.checks.{a.prop.lower()}', 'folxsa')
        _state.update(mod=mod, project=project)
        units = mod.units(project)
    except SyntaxError as e:
        print(f'ANALYSIS-ERROR {a.prop}: cannot parse: {e}')
        sys.exit(2)
    except Exception as e:
        traceback.print_exc()
        print(f'ANALYSIS-ERROR {a.prop}: {e}')
        sys.exit(2)
    if a.list:
        print('\n'.join(units))
        return
    if a.unit:
        units = [u for u in units if a.unit in u]
    results = []
    if a.j <= 1 or len(units) == 1:
        results = [run_unit(u) for u in units]
    else:
        ctx = mp.get_context('fork')
        pool = ctx.Pool(a.j, maxtasksperchild=40)
        it = pool.imap_unordered(run_unit, units)
        done = set()
        try:
            for _ in units:
                left = DEADLINE - (time.time() - t0)
                r = it.next(timeout=max(left, 0.1))
                results.append(r)
                done.add(r.uid)
            pool.close()
        except mp.TimeoutError:
            for u in units:
                if u not in done:
                    results.append(Res(u, 1, 0, [], [('analysis', 'time limit', '')]))
        finally:
            pool.terminate()
    order = {u: i for i, u in enumerate(units)}
    results.sort(key=lambda r: order[r.uid])
    report(a, mod, project, results, tier, seed, t0)


def report(a, mod, project, results, tier, seed, t0):
    pid = a.prop
    known = [k for k in known_findings() if k['property'] == pid]
    n, ok = sum(r.n for r in results), sum(r.ok for r in results)
    reach = sorted({q for r in results for q in r.reach})
    viol, seen_known = [], []
    for r in results:
        for part, msg, cond in r.bad:
            k = next((k for k in known if k['unit'] == r.uid and k['part'] == part and (not k['msg'] or k['msg'] in msg)), None)
            if k is not None:
                seen_known.append((k, r, part, msg, cond))
            else:
                viol.append((r, part, msg, cond))
    und = [(r.uid, part, msg) for r in results for part, msg, _ in r.und]
    decided = sum(1 for r in results if r.ok or r.bad)
    print(f'{pid}: {len(results)} units analysed, {n} obligations, {ok} discharged, {len(und)} undecided, {len(reach)} functions of folx on analysed paths')
    need = getattr(mod, 'CONFIRMED', None)
    if need and not a.unit and decided < need:
        print(f'note: {decided} units decided, {need} were confirmed on the reference tree')
    if a.v or a.unit:
        for u in und:
            print('  undecided', *u)
    printed = set()
    for k, r, part, msg, cond in seen_known:
        t = (r.uid, part)
        if t not in printed:
            printed.add(t)
            print(f'KNOWN-FINDING: property={pid} {k["text"] or r.uid + ": " + msg}')
    ev = os.environ.get('FOLXSA_EVIDENCE') or os.path.join(HERE, 'evidence')
    os.makedirs(ev, exist_ok=True)
    replay = os.path.join(ev, f'{pid}.replay.txt')
    if viol:
        with open(replay, 'w') as f:
            for r, part, msg, cond in viol:
                f.write(f'rule: {getattr(mod, "RULE", pid)}\nunit: {r.uid}\npart: {part}\nfinding: {msg}\nwhen: {cond or "always"}\nconstructs on the path: {", ".join(r.reach)}\n'
                        f'again: cd {HERE} && python3 -m folxsa.run {pid} --unit \'{r.uid}\'\n\n')
    elif os.path.exists(replay):
        os.remove(replay)
    evidence = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'obligations': n, 'discharged': ok, 'units': len(results), 'units_decided': decided,
            'undecided': [' | '.join(u)[:300] for u in und[:40]], 'undecided_count': len(und),
            'functions_analysed': reach, 'source_digest': project.sha.hexdigest(),
            'rule': getattr(mod, 'RULE', ''), 'explanation': getattr(mod, 'EXPLANATION', (mod.__doc__ or '').strip()),
            'samples': [f'{r.uid}: {r.ok}/{r.n} obligations discharged' for r in results[:: max(1, len(results) // 12)]][:14],
            'known_findings_seen': sorted({r.uid + ' | ' + part for _, r, part, _, _ in seen_known}),
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(time.time() - t0, 3), 'violations': len(viol),
    }
    with open(os.path.join(ev, f'{pid}.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
    if viol:
        for r, part, msg, cond in viol[:8]:
            fl = [q for q in r.reach if not q.startswith('folx.api')][-6:]
            print(f'  {r.uid}: {part}: {msg}' + (f'\n     when {cond[:600]}' if cond else '') + (f'\n     on the path: {", ".join(r.reach[:40])}' if a.v or a.unit else ''))
        if len(viol) > 8:
            print(f'  ... and {len(viol) - 8} more, see {replay}')
        print(f'VIOLATION property={pid} replay={replay}')
        sys.exit(1)
    if decided == 0:
        print(f'ANALYSIS-ERROR {pid}: no obligation could be decided')
        sys.exit(2)


if __name__ == '__main__':
    main()
