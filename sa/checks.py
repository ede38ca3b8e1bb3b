"""property id -> check"""
import os
import time
import traceback
import flow
import checks_flow as CF

SPECMODS = ('spec_mod', 'spec_ntt', 'spec_misc', 'spec_rns', 'spec_rq', 'spec_poly', 'spec_bfv', 'spec_scale', 'spec_par', 'spec_pir')
LIMIT = {'quick': 60, 'thorough': 240}
BUDGET = {'quick': 420, 'thorough': 800}


def load():
    import importlib
    import spec
    here = os.path.dirname(os.path.abspath(__file__))
    for m in SPECMODS:
        if os.path.exists(os.path.join(here, m + '.py')):
            importlib.import_module(m)
    return spec


def specs_for(spec, pid):
    """specs of the property"""
    return [(n, s) for n, s in spec.SPECS.items() if pid in s.pids]


def graph(pid, floor=1):
    """value-graph check: every spec tagged with pid, plus the contracts those runs relied on"""
    def run(P, d, rep, tier):
        graph_run(pid, d, rep, tier)
        return rep.finish(floor=floor)
    return run


HARD = {'quick': 240, 'thorough': 600}


def one(spec, spec_mod, prog, sp, n, tier, conn):
    """analyse one spec (in a child process: verdicts do not depend on the order of the specs)"""
    try:
        o = spec.run_spec(prog, sp, spec_mod.setup, limit=max(LIMIT[tier], sp.limit))
        res = (o.proved, o.unk, o.bad, sorted(o.visited), sorted(o.contracts))
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        res = ([], [(n, 'analysis gave up: %s: %s (%s:%d)' % (type(e).__name__, str(e)[:200], os.path.basename(tb.filename), tb.lineno))], [], [], [])
    conn.send(res)
    conn.close()


def graph_run(pid, d, rep, tier):
    spec = load()
    import spec_mod
    from interp import Program
    import multiprocessing as mp
    from multiprocessing.connection import wait
    ctx = mp.get_context('fork')
    prog = Program(d)
    t0 = time.time()
    fns, used = set(), set()
    todo = specs_for(spec, pid)
    seen, running, results = {n for n, _ in todo}, {}, {}
    jobs = min(8, os.cpu_count() or 2)
    while todo or running:
        while todo and len(running) < jobs:
            n, sp = todo.pop(0)
            if sp.tier == 'thorough' and tier == 'quick':
                continue
            if time.time() - t0 > BUDGET[tier]:
                results[n] = ([], [(n, 'time budget of this tier used up')], [], [], [])
                continue
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=one, args=(spec, spec_mod, prog, sp, n, tier, w))
            p.start()
            w.close()
            running[r] = (n, p, time.time())
        if not running:
            continue
        for r in wait(list(running), timeout=1):
            n, p, _ = running.pop(r)
            try:
                res = r.recv()
            except EOFError:
                res = ([], [(n, 'the analysis of this function ended without a result')], [], [], [])
            p.join()
            r.close()
            results[n] = res
            for c in res[4]:
                used.add(c)
                for n2, s2 in spec.SPECS.items():
                    if s2.key == c and s2.contract is not None and n2 not in seen:
                        seen.add(n2)
                        todo.append((n2, s2))
        for r, (n, p, ts) in list(running.items()):
            if time.time() - ts > HARD[tier] or time.time() - t0 > BUDGET[tier] + HARD[tier]:
                p.kill()
                p.join()
                running.pop(r)
                results[n] = ([], [(n, 'time limit')], [], [], [])
    for n, sp in spec.SPECS.items():
        if n not in results:
            continue
        proved, unk, bad, vis, _ = results[n]
        for lab, how in proved:
            rep.ok(sp.key, lab, how)
        for lab, why in unk:
            rep.unk(sp.key, lab, why)
        for lab, why in bad:
            rep.bad(sp.key, lab, why)
        fns |= set(vis)
    rep.info['functions_analysed'] = sorted(fns)
    rep.info['contracts_used'] = sorted(used)
    rep.info['explanation'] = ('Each obligation compares the value graph extracted from the MIR of a function (all its inputs symbolic) '
                               'with the specified graph; contracts applied at call sites are re-verified in the same run.')


def p23(P, d, rep, tier):
    CF.server_side(P, rep)
    return rep.finish(floor=40)


def p24(P, d, rep, tier):
    CF.randomness_sources(P, rep)
    CF.seeds(P, rep)
    return rep.finish(floor=14)


REG = {'P23': p23, 'P24': p24}
FLOORS = {'P01': 30, 'P02': 5, 'P03': 10, 'P05': 30, 'P06': 6, 'P07': 12, 'P08': 10, 'P09': 60, 'P10': 10, 'P11': 80, 'P28': 20,
          'P12': 20, 'P13': 20, 'P14': 10, 'P15': 30, 'P16': 40, 'P17': 20, 'P18': 15, 'P19': 50, 'P20': 15, 'P21': 30, 'P22': 30}
for _p, _f in FLOORS.items():
    REG[_p] = graph(_p, _f)


def run(pid, d, rep, tier):
    return REG[pid](flow.Prog(d), d, rep, tier)
