"""check.py PROPERTY: decide one property on /repo's current sources.
exit 0: every obligation holds (or could only be explored in bounds, without a violation); exit 1: VIOLATION line"""
import sys, os, time, json, importlib, tempfile, shutil, traceback, re
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path[:0] = [HERE, os.path.join(VERIF, 'specs')]
sys.dont_write_bytecode = True
import multiprocessing as mp

SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick') or 'quick'
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'


def model_ints(V):
    """integers occurring in the verifier's counterexamples"""
    import z3
    out = set()
    for o in V.obls:
        if o.result == 'failed' and o.model is not None:
            try:
                for d in o.model.decls():
                    if d.arity() == 0:
                        v = o.model[d]
                        if z3.is_int_value(v):
                            n = v.as_long()
                            if -(1 << 63) <= n < (1 << 63):
                                out.add(n)
                # selected values (numbers held by argument objects)
                seen = set()
                stack = [o.goal] + list(o.state.pc)
                while stack:
                    t = stack.pop()
                    if t.get_id() in seen:
                        continue
                    seen.add(t.get_id())
                    if z3.is_app(t):
                        if t.decl().kind() == z3.Z3_OP_SELECT and t.sort() == z3.IntSort():
                            v = o.model.eval(t, model_completion=False)
                            if z3.is_int_value(v) and -(1 << 63) <= v.as_long() < (1 << 63):
                                out.add(v.as_long())
                        stack.extend(t.children())
            except Exception:
                pass
    return out


def summarise(V, beh, mode):
    import z3
    from dsl import demangle
    obl = [dict(name=o.name, where=o.where, kind=o.kind, result=o.result or 'not reached', secs=round(o.secs, 3)) for o in V.obls]
    bad = []
    for o in V.obls:
        if o.result == 'failed':
            m = ''
            if o.model is not None:
                try:
                    m = str(o.model)[:3000]
                except Exception:
                    m = '?'
            bad.append(dict(obligation=o.name, where=o.where, goal=str(o.goal)[:1500], model=m))
    consts = set()
    for f in V.touched:
        consts |= FCONST.get(str(f), set())
    return dict(key=beh.key, fn=beh.fn, name=beh.name, status=V.status, reason=V.reason, obls=obl, bad=bad[:3], paths=V.paths, secs=V.secs,
                touched=sorted(str(f) for f in V.touched), assumed=sorted(str(a) for a in V.assumed), loops=str(V.loops)[:500], mode=mode,
                ints=sorted(model_ints(V)), consts=sorted(consts), tb=getattr(V, 'tb', ''), loopn=len(V.loops) if hasattr(V.loops, '__len__') else 0)


FCONST = {}


def func_consts(prog):
    """integer constants compared against in each function (for the counterexample search)"""
    for M in prog.modules:
        for nm, f in M.funcs.items():
            s = set()
            for b in f.blocks.values():
                for ins in b:
                    if ins.op in ('icmp', 'switch', 'and', 'urem', 'srem', 'sdiv', 'udiv'):
                        for m in re.finditer(r'(?<![\w.%@"#])-?\d+', getattr(ins, 'text', '') or ''):
                            n = int(m.group())
                            if abs(n) > 2 and -(1 << 63) <= n < (1 << 63):
                                s.add(n)
            FCONST[nm] = s


def job(a):
    from dsl import run_beh
    i, unroll, budget, timeout = a
    b = BEHS[i]
    try:
        V = run_beh(PROG, REG, b, timeout=timeout, unroll=unroll, budget=budget)
        return i, summarise(V, b, 'unroll %d' % unroll if unroll else 'unbounded')
    except Exception as e:
        return i, dict(key=b.key, fn=b.fn, name=b.name, status='undecided', reason='internal: %r' % e, obls=[], bad=[], paths=0, secs=0, touched=[], assumed=[], loops='', mode='', ints=[], consts=[], tb=traceback.format_exc(), loopn=0)


def parallel(jobs, stop_at):
    """run jobs in worker processes; a worker that dies or overstays leaves its behaviours undecided"""
    res = {}
    if not jobs:
        return res
    pool = mp.Pool(8, maxtasksperchild=6)
    try:
        hs = [(j, pool.apply_async(job, (j,))) for j in jobs]
        for j, h in hs:
            left = stop_at - time.time()
            try:
                i, r = h.get(timeout=max(0.1, left))
                res[i] = r
            except mp.TimeoutError:
                b = BEHS[j[0]]
                res[j[0]] = dict(key=b.key, fn=b.fn, name=b.name, status='undecided', reason='time', obls=[], bad=[], paths=0, secs=j[2], touched=[], assumed=[], loops='', mode='', ints=[], consts=[], tb='', loopn=0)
    finally:
        pool.terminate()
        pool.join()
    return res


def known(pid):
    p = os.path.join(VERIF, 'known-findings.txt')
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r'finding: property=(\S+) match=(\S+) (.*)', l)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    global PROG, REG, BEHS
    pid = sys.argv[1]
    t0 = time.time()
    limit = 780 if TIER == 'quick' else 6000
    evdir = os.path.join(VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    rep = os.path.join(evdir, pid + '.replay')
    for suf in ('.txt', '.scm'):
        if os.path.exists(rep + suf):
            os.unlink(rep + suf)
    from extract import extract
    import conform
    scratch = tempfile.mkdtemp(prefix='pv-%s-' % pid)
    try:
        rc = run(pid, t0, limit, evdir, rep, scratch, extract, conform)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    return rc


def run(pid, t0, limit, evdir, rep, scratch, extract, conform):
    global PROG, REG, BEHS
    import concurrent.futures as cf
    tp = cf.ThreadPoolExecutor(1)
    fb = tp.submit(conform.build, scratch)
    PROG, err = extract()
    exe, berr = fb.result()
    tp.shutdown()
    if err or not exe:
        print('cannot build /repo: %s' % (str(err or berr)[:1500]))
        return 2
    from dsl import registrations
    REG = registrations(PROG)
    func_consts(PROG)
    mod = importlib.import_module(pid)
    BEHS = [b for b in mod.S_.behs if TIER == 'thorough' or not b.thorough]
    mp.set_start_method('fork')
    budget = getattr(mod, 'BUDGET', 90) if TIER == 'quick' else getattr(mod, 'BUDGET_THOROUGH', 900)
    timeout = 8000 if TIER == 'quick' else 60000
    jobs = [(i, b.opts.get('_unroll'), budget, timeout) for i, b in enumerate(BEHS)]
    jobs.sort(key=lambda j: -BEHS[j[0]].opts.get('_cost', 0))
    stop = t0 + limit * 0.6
    res = parallel(jobs, stop)
    # failed obligations are confirmed without loop summaries (bounded unrolling: no abstraction between state and goal)
    redo = [(i, 3, 60, 8000) for i in res if res[i]['status'] == 'failed' and not BEHS[i].opts.get('_unroll')]
    conf = parallel(redo, min(time.time() + 150, t0 + limit * 0.85))
    for i, r in conf.items():
        res[i]['confirm'] = r['status']
        res[i]['confirm_reason'] = r['reason']
        if r['status'] == 'failed':
            res[i]['confirm_bad'] = r['bad']
        res[i]['ints'] = sorted(set(res[i]['ints']) | set(r['ints']))
    for i in res:
        if res[i]['status'] == 'failed' and BEHS[i].opts.get('_unroll'):
            res[i]['confirm'] = 'failed'
    # undecided ones: bounded stand-in
    und = [(i, 3, 40, 6000) for i in res if res[i]['status'] == 'undecided' and not BEHS[i].opts.get('_unroll')]
    bnd = parallel(und, min(time.time() + 120, t0 + limit * 0.92))
    for i, r in bnd.items():
        res[i]['bounded'] = r['status']
        res[i]['bounded_reason'] = r['reason']
        if r['status'] == 'failed':
            res[i]['confirm_bad'] = r['bad']
            res[i]['ints'] = sorted(set(res[i]['ints']) | set(r['ints']))
    # ---- real runs
    ints = set()
    for i, r in res.items():
        if r['status'] == 'failed':
            ints |= set(r['ints'])
        for cst in r['consts']:
            ints |= {cst - 1, cst, cst + 1}
    ints = set(sorted(ints, key=lambda x: (abs(x), x))[:60])
    G = conform.Cases(SEED, TIER, ints)
    runs = []
    if hasattr(mod, 'conform'):
        mod.conform(G)
        runs = conform.run_cases(exe, G, scratch)
    badruns = [r for r in runs if not r[4]]
    kn = known(pid)
    seenk = []

    def listed(r):
        for k, txt in kn:
            if r[3] == k:
                if (k, txt) not in seenk:
                    seenk.append((k, txt))
                return True
        return False
    badruns = [r for r in badruns if not listed(r)]
    knownobl = {k for k, _ in kn}
    # ---- verdict
    failed = []
    undecided = []
    proved = []
    bounded = []
    for i, r in sorted(res.items()):
        if BEHS[i].opts.get('_unroll') and r['status'] == 'proved':
            bounded.append(r)
        elif r['status'] == 'proved':
            proved.append(r)
        elif r['status'] == 'failed' and r.get('confirm') == 'failed':
            failed.append(r)
        elif r['status'] == 'undecided' and r.get('bounded') == 'failed':
            failed.append(r)
        else:
            undecided.append(r)
    viol = None
    if failed or badruns:
        with open(rep + '.txt', 'w', encoding='utf-8', errors='replace') as h:
            for r in failed:
                h.write('FAILED OBLIGATION of %s\n  behaviour: %s\n  status: %s (%s)\n' % (r['fn'], r['name'], r['status'], r['reason']))
                for b in r.get('confirm_bad') or r['bad']:
                    h.write('  obligation: %s [%s]\n  goal: %s\n  verifier counterexample: %s\n' % (b['obligation'], b['where'], b['goal'], b['model']))
            for e, want, got, tag, ok in badruns[:40]:
                h.write('FAILING INPUT against the real interpreter\n  expression: %s\n  expected: %s\n  got: %s\n' % (e, want, got))
        if badruns:
            with open(rep + '.scm', 'w', encoding='latin1', errors='replace') as h:
                e, want, got, tag, ok = badruns[0]
                if e.lstrip().startswith('(') or '\n' not in e:
                    h.write('; expected: %s\n; got: %s\n' % (str(want).replace('\n', ' '), got.replace('\n', ' ')))
                    h.write(conform.PRELUDE + '\n'.join(G.defs) + '\n(write (safe (lambda () %s)))\n(newline)\n' % e)
        ob = failed[0]['reason'] if failed else 'bounded conformance run'
        what = ' obligation: %s / %s: %s' % (failed[0]['fn'], failed[0]['name'], ob) if failed else ' (bounded conformance run)'
        print('property %s broken:%s' % (pid, what))
        if badruns:
            print('  failing input: %s expected %s got %s' % (badruns[0][0][:300], str(badruns[0][1])[:200], badruns[0][2][:200]))
            viol = 'VIOLATION property=%s replay=%s' % (pid, os.path.relpath(rep + '.txt', VERIF))
        else:
            viol = 'VIOLATION property=%s replay=%s no-failing-input-found' % (pid, os.path.relpath(rep + '.txt', VERIF))
    for r in undecided:
        print('undecided: %s: %s%s' % (r['key'], r['reason'][:200], ' (bounded: %s)' % r.get('bounded', r.get('confirm')) ))
        if os.environ.get('PV_TB') and r['tb']:
            print(r['tb'])
    for k, txt in kn:
        if (k, txt) in seenk:
            print('KNOWN-FINDING: property=%s %s' % (pid, txt))
    # ---- evidence
    nobl = sum(len(r['obls']) for i, r in res.items() if not BEHS[i].opts.get('_unroll')) + sum(1 for r in undecided if not r['obls'])
    ndis = sum(1 for r in res.values() for o in r['obls'] if o['result'] == 'proved' and r in proved)
    assumed = sorted({a for r in res.values() for a in r['assumed']})
    touched = sorted({f for r in res.values() for f in r['touched']})
    from engine import STATS
    from dsl import demangle
    import z3
    nontriv = len({c[0] for c in G.cases if conform.normal(c)}) + len(G.prog)
    cov = dict(
        obligations=nobl, discharged=ndis, checker_cmd='python3-vt pv/check.py %s' % pid,
        trusted_base=['Z3 %s (SMT back end discharging every obligation)' % z3.get_version_string(), 'clang 18.1.3 front end (C++ to LLVM IR, optimisation passes mem2reg/sroa-style only)', 'pv/: IR reader, symbolic executor, loop summariser (this repository)'] + list(getattr(mod, 'TRUST', [])),
        back_end='z3 %s' % z3.get_version_string(), solver_wall_s=round(sum(o['secs'] for r in res.values() for o in r['obls']), 2),
        behaviours=len(BEHS), behaviours_proved=len(proved), behaviours_bounded=[dict(behaviour=r['key'], bound=r['mode']) for r in bounded],
        behaviours_undecided=[dict(behaviour=r['key'], reason=r['reason'][:300], bounded_unroll_3=r.get('bounded', r.get('confirm'))) for r in undecided],
        behaviours_failed=[dict(behaviour=r['key'], obligation=r['reason'][:300]) for r in failed],
        functions_under_contract=sorted({r['fn'] for r in res.values()}),
        functions_verified_through=[demangle(f) for f in touched],
        contracts=[dict(function=r['fn'], ensures=r['name'], obligations=len(r['obls']), paths=r['paths'], secs=round(r['secs'], 2), status=r['status']) for i, r in sorted(res.items())],
        assumptions=assumed + list(getattr(mod, 'ASSUME', [])) + ['heap objects are well-formed (type tag agrees with the payload; buffers have the size their length field says); allocation succeeds and returns fresh zero-initialised memory; no collection happens inside the function under contract'],
        evaluations=len(runs), distinct_nontrivial=nontriv, rule='bounded conformance runs (not counted as proof): Scheme expressions with arguments from a fixed pool, seeded random values and values from counterexamples and comparison constants of the code, run on the real interpreter against a Python oracle; non-trivial = contains a call; distinct by expression text',
        samples=[dict(expr=r[0][:300], expected=str(r[1])[:200], got=r[2][:200]) for r in runs[:: max(1, len(runs) // 8)]][:10] + [dict(function=r['fn'], ensures=r['name'], obligations=[o['name'] for o in r['obls']][:6]) for r in proved[:4]])
    level = getattr(mod, 'LEVEL', 'proof')
    if level == 'other':
        cov['explanation'] = getattr(mod, 'EXPLANATION', '')
    json.dump(dict(property=pid, tier=TIER, seed=SEED, level=level, coverage=cov, wall_s=round(time.time() - t0, 2), violations=1 if viol else 0, assumptions=cov['assumptions']), open(os.path.join(evdir, pid + '.json'), 'w'), indent=1)
    print('%s: %d behaviours, %d proved, %d bounded, %d undecided, %d failed; %d obligations, %d discharged; %d real runs, %d mismatches; %.1f s' % (
        pid, len(BEHS), len(proved), len(bounded), len(undecided), len(failed), nobl, ndis, len(runs), len(badruns), time.time() - t0))
    if viol:
        print(viol)
        return 1
    return 0


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
