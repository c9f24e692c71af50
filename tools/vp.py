#!/usr/bin/env python3
"""Contract verification driver: runs the proof units of a property against /repo's working tree.

  vp.py check PROP            run every unit of the property (quick or thorough: $VERIF_TIER or --tier)
  vp.py unit NAME...          run single units (development)
  vp.py replay FILE           re-run the native replay recorded in a replay file
  vp.py setup                 check that the tools are there

Exit: 0 every obligation discharged; 1 violation; 2 no answer (tool failure, missing function, time).
"""
import json, os, re, subprocess, sys, tempfile, shutil, time, resource, hashlib
import threading
from concurrent.futures import CancelledError, ThreadPoolExecutor, as_completed

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VP_REPO', '/repo')
sys.path.insert(0, HERE)
from units import UNITS, PROPS, COMMON_ASSUMPTIONS, TRUSTED_BASE  # noqa: E402

SDK_SRC = ['sdk.c', 'sdk_keys.c', 'sdk_fmt.c', 'mem.c', 'buffer.c', 'read.c', 'write.c', 'varint.c', 'bip32.c']
INC = ['-I', f'{VERIF}/sdk', '-I', f'{VERIF}/spec', '-I', f'{REPO}/src', '-include', f'{VERIF}/sdk/vp_defs.h']
CBMC_FLAGS = ['--unwinding-assertions', '--no-signed-overflow-check', '--no-undefined-shift-check', '--no-standard-checks',
              '--bounds-check', '--pointer-check', '--div-by-zero-check', '--pointer-primitive-check', '--object-bits', '12']
JOB_TIMEOUT = int(os.environ.get('VP_JOB_TIMEOUT', '300'))
TIER = os.environ.get('VERIF_TIER', 'quick')
JOBS = int(os.environ.get('VP_JOBS', '8'))
MEM_GB = 14


RUNNING = set()  # processes of the verifier
STOPPED = threading.Event()  # a violation is confirmed: nothing more is started


class NoAnswer(Exception):
    pass


def sh(cmd, timeout=None, cwd=None, ok=True):
    def lim():
        resource.setrlimit(resource.RLIMIT_AS, (MEM_GB << 30, MEM_GB << 30))
        os.setpgid(0, 0)
    if STOPPED.is_set():
        raise NoAnswer('stopped')
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=cwd, preexec_fn=lim)
    RUNNING.add(p)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        raise NoAnswer(f'time limit {timeout}s: ' + ' '.join(cmd[:3]))
    finally:
        RUNNING.discard(p)
    out = out.decode('utf8', 'replace')
    if ok and p.returncode != 0:
        raise NoAnswer(f'exit {p.returncode}: {" ".join(cmd)}\n{out[-3000:]}')
    return p.returncode, out


class Builder:
    """goto objects of the SDK stand-ins and of /repo's sources, compiled once per run."""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='vp.')
        self.objs = {}

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def obj(self, path):
        if path not in self.objs:
            o = os.path.join(self.dir, hashlib.md5(path.encode()).hexdigest() + '.o')
            sh(['goto-cc', '-DVP_CBMC', '-c', '-o', o] + INC + [path], timeout=120)
            self.objs[path] = o
        return self.objs[path]

    def prepare(self, names):
        paths = {f'{VERIF}/sdk/{s}' for s in SDK_SRC}
        for n in names:
            paths |= {f'{REPO}/src/{s}' for s in UNITS[n]['src']}
        for p in sorted(paths):
            if p not in self.objs:
                self.objs[p] = None
        def one(p):
            o = os.path.join(self.dir, hashlib.md5(p.encode()).hexdigest() + '.o')
            sh(['goto-cc', '-DVP_CBMC', '-c', '-o', o] + INC + [p], timeout=120)
            return p, o
        stopped = False
        with ThreadPoolExecutor(JOBS) as ex:
            for p, o in ex.map(one, [p for p in sorted(paths) if self.objs[p] is None]):
                self.objs[p] = o


class Defines(dict):
    def __missing__(self, k):
        return 0


def defs(case):
    return [f'-D{k}={v}' for k, v in case.items()]


def case_name(case):
    return ','.join(f'{k}={v}' for k, v in case.items()) or '-'


class LoopContractMismatch(Exception):
    """the loop no longer has the shape its contract was written for"""


class MissingBody(Exception):
    pass


DEFS = {}


def defining_source(f):
    """the /repo source file that defines f, if there is one"""
    if not DEFS:
        for root, _, files in os.walk(f'{REPO}/src'):
            for x in sorted(files):
                if x.endswith('.c'):
                    path = os.path.join(root, x)
                    for m in re.finditer(r'^[A-Za-z_][\w\s\*]*?\b(\w+)\s*\([^;{}]*\)\s*\{', open(path, errors='replace').read(), re.M):
                        DEFS.setdefault(m.group(1), os.path.relpath(path, f'{REPO}/src'))
    return DEFS.get(f)


def run_case(b, name, case, keep=None):
    """one proof: if the code calls into a source file the unit does not list, that file is added;
    if a loop does not fit its loop contract any more, the loop is checked up to a bound instead"""
    extra, loops = [], list(UNITS[name].get('loops', [None]))
    while True:
        try:
            return run_case1(b, name, case, keep, extra, loops[0] if loops else 'bounded')
        except LoopContractMismatch:
            loops = loops[1:]
        except MissingBody as e:
            new = sorted({defining_source(f) for f in e.args[0]} - {None} - set(extra))
            if not new or len(extra) > 6:
                raise NoAnswer(f'{name}: functions without a body or contract: {e.args[0]}')
            extra += new


def loop_contract(wd, a, nxt, entry, lc):
    """attach a loop contract kept outside the source (see goto-instrument --loop-contracts-file)"""
    f = lc['function']
    ids = []
    for e in json.loads(sh(['cbmc', a, '--show-loops', '--json-ui'], timeout=120)[1]):
        for l in e.get('loops', []):
            if l['name'].startswith(f + '.'):
                ids.append((int(l.get('sourceLocation', {}).get('line', 0)), l['name'].split('.')[-1]))
    if not ids:
        raise LoopContractMismatch()
    spec = dict(sources=[], functions=[{f: [dict(loop_id=min(ids)[1], invariants=lc['invariants'], decreases=lc['decreases'], assigns=lc['assigns'],
                                                 symbol_map=';'.join(f'{k},{v}' for k, v in lc['symbols'].items()))]}], output='stdout')
    json.dump(spec, open(f'{wd}/lc.json', 'w'))
    rc, out = sh(['goto-instrument', '--dfcc', entry, '--apply-loop-contracts', '--loop-contracts-file', f'{wd}/lc.json', a, nxt], timeout=300, ok=False)
    if rc != 0:
        raise LoopContractMismatch()


def run_case1(b, name, case, keep, extra, lc):
    """returns dict: obligations, failures[(prop, desc, loc, trace)], reach[(label, ok)], times"""
    u = UNITS[name]
    t0 = time.time()
    wd = tempfile.mkdtemp(dir=b.dir)
    h = f'{VERIF}/harness/{u["h"]}'
    triple = [] if u.get('enforce') else ['-DVP_TRIPLE']
    a = f'{wd}/a.gb'
    objs = [b.obj(f'{REPO}/src/{s}') for s in u['src'] + extra] + [b.obj(f'{VERIF}/sdk/{s}') for s in SDK_SRC]
    sh(['goto-cc', '-DVP_CBMC'] + triple + defs(case) + ['--function', u['entry'], '-o', a] + INC + [h] + objs, timeout=120)
    # every function body the proof inlines must be there
    rep = u.get('replace', [])
    nxt = f'{wd}/b.gb'
    for f, stub in u.get('stubs', {}).items():
        sh(['goto-instrument', '--replace-calls', f'{f}:{stub}', a, nxt], timeout=120)
        a, nxt = nxt, a
    # --drop-unused-functions would drop contract-only symbols, so only for plain runs
    if u.get('enforce'):
        cmd = ['goto-instrument', '--dfcc', u['entry'], '--enforce-contract', u['enforce']]
        for f in rep:
            cmd += ['--replace-call-with-contract', f]
        out = sh(cmd + [a, nxt], timeout=300)[1]
        a, nxt = nxt, a
    elif rep:
        cmd = ['goto-instrument', '--dfcc', u['entry']]
        for f in rep:
            cmd += ['--replace-call-with-contract', f]
        out = sh(cmd + [a, nxt], timeout=300)[1]
        a, nxt = nxt, a
    bounded = None
    if isinstance(lc, dict):
        loop_contract(wd, a, nxt, u['entry'], lc)
        a, nxt = nxt, a
    elif lc == 'bounded':
        bounded = u['bounded']
    unwind = u.get('unwind', 34)
    unwind = unwind(case) if callable(unwind) else unwind
    # loops of the harness and of the specification have constant bounds and end by themselves
    free = []
    out = sh(['cbmc', a, '--show-loops', '--json-ui'], timeout=120)[1]
    for e in json.loads(out):
        for l in e.get('loops', []):
            f = l.get('sourceLocation', {}).get('file', '')
            if f.startswith((f'{VERIF}/harness', f'{VERIF}/spec')) or os.path.basename(f) in ('sdk.c', 'sdk_keys.c', 'sdk_fmt.c'):
                free.append(l['name'])
            elif bounded and f.startswith(REPO):
                free.append(l['name'] + ':' + str(bounded))
    mem = u.get('mem')
    for attempt in range(3):
        uw = [l if ':' in l else f'{l}:100000' for l in free] + ['strlen.0:74', 'strncpy.0:74', 'snprintf.0:24', 'snprintf.1:24'] + ([f'{l}.0:{mem}' for l in ('memmove', 'memcpy', 'memcmp')] + [f'memmove.1:{mem}'] if mem else [])
        cmd = ['cbmc', a, '--json-ui', '--trace', '--unwind', str(unwind)] + (['--unwindset', ','.join(uw)] if uw else []) + ['--slice-formula', '--drop-unused-functions'] + [f for f in CBMC_FLAGS if not (bounded and f == '--unwinding-assertions')] + (['--no-unwinding-assertions'] if bounded else []) + ['--max-field-sensitivity-array-size', str(u.get('fs', 64))] + ([] if u.get('sat') == 'minisat' else ['--sat-solver', u.get('sat', 'cadical')]) + u.get('cbmc', [])
        if keep:
            print(' '.join(cmd), file=sys.stderr)
        rc, out = sh(cmd, timeout=u['timeout'](TIER) if 'timeout' in u else JOB_TIMEOUT, ok=False)
        try:
            js = json.loads(out)
        except ValueError:
            raise NoAnswer(f'{name}[{case_name(case)}]: verifier gave no result (exit {rc})\n{out[-300:]}')
        res = None
        msgs = []
        for e in js:
            if 'result' in e:
                res = e['result']
            if 'messageText' in e:
                msgs.append(e['messageText'])
        nobody = sorted({m.split('function ')[1].strip() for m in msgs if 'no body for function' in m})
        nobody = [f for f in nobody if not f.startswith(('nondet_', '__CPROVER')) and f not in u.get('havoc', [])]
        if res is None:
            raise NoAnswer(f'{name}[{case_name(case)}]: verifier gave no result (exit {rc})\n' + '\n'.join(msgs[-15:]))
        if nobody:
            raise MissingBody(nobody)
        if isinstance(lc, dict):
            # dfcc does not track locals of the stand-ins' own loops; a frame failure in the code means the contract does not fit
            frame = [r for r in res if r['status'] == 'FAILURE' and '.assigns.' in r['property'] or r['status'] == 'FAILURE' and '.loop_' in r['property']]
            local = [r for r in frame if r.get('sourceLocation', {}).get('file', '').startswith(f'{VERIF}/sdk') and
                     re.fullmatch(r'Check that (i|r|d|b|base|again|failed) is assignable', r['description'])]
            if len(frame) > len(local):
                raise LoopContractMismatch()
            res = [r for r in res if r not in local]
        unw = [r for r in res if r['status'] == 'FAILURE' and 'unwind' in r['property'] and 'unwinding assertion' in r['description']]
        rec = [r for r in res if r['status'] == 'FAILURE' and 'recursion unwinding' in r['description']]
        if unw or rec:
            unwind *= 3
            continue
        break
    else:
        raise NoAnswer(f'{name}[{case_name(case)}]: loop bound not reached: ' + unw[0]['property'])
    reach, fails, n, files = [], [], 0, set()
    for r in res:
        d = r['description']
        if d.startswith('REACH:'):
            label, _, only = d[6:].partition('@')
            if only and not eval(only, {'__builtins__': {}}, Defines(case)):
                continue
            reach.append((label, r['status'] != 'SUCCESS'))
            continue
        n += 1
        if r['status'] == 'FAILURE':
            fails.append((r['property'], d, r.get('sourceLocation', {}), r.get('trace', [])))
    # the verifier leaves what follows a failed memory safety obligation undecided
    bad = [r for r in res if r['status'] not in ('SUCCESS', 'FAILURE')]
    if bad and not fails:
        raise NoAnswer(f'{name}[{case_name(case)}]: undecided obligations, e.g. {bad[0]["property"]} {bad[0]["status"]}')
    st = sum(float(x) for x in re.findall(r'Runtime Solver: ([0-9.e+-]+)s', '\n'.join(msgs)))
    backend = next((m for m in msgs if 'Passing problem to' in m or 'Solving with' in m), 'SAT')
    if not keep:
        shutil.rmtree(wd, ignore_errors=True)
    return dict(unit=name, case=case, obligations=n, fails=fails, reach=reach, wall=time.time() - t0, solver=st, unwind=unwind, bounded=bounded, loop_contract=isinstance(lc, dict))


def trace_inputs(trace):
    q = []
    for s in trace:
        if s.get('stepType') == 'input':
            v = s.get('values', [{}])[0]
            b = v.get('binary')
            if b is not None:
                q.append((s['inputID'], int(b, 2)))
            else:
                d = str(v.get('data', '0'))
                q.append((s['inputID'], {'TRUE': 1, 'FALSE': 0}.get(d.upper(), 0) if not re.match(r'-?\d+', d) else int(re.match(r'-?\d+', d).group()) & (2**64 - 1)))
    return q


def native_replay(unit, case, inputs, workdir):
    """run the same harness on the real code, natively, with the counterexample's inputs"""
    u = UNITS[unit]
    inp = os.path.join(workdir, 'inputs')
    with open(inp, 'w') as f:
        for t, v in inputs:
            f.write(f'{t.replace(" ", "_")} {v}\n')
    exe = os.path.join(workdir, 'replay')
    cmd = ['gcc', '-g', '-O0', '-w', '-fsanitize=address', '-ffunction-sections', '-fdata-sections', '-Wl,--gc-sections',
           f'-DVP_ENTRY={u["entry"]}'] + defs(case) + INC + ['-o', exe, f'{VERIF}/harness/{u["h"]}', f'{VERIF}/sdk/replay.c'] + \
          [f'{REPO}/src/{s}' for s in u['src']] + [f'{VERIF}/sdk/{s}' for s in SDK_SRC if s != 'mem.c']
    rc, out = sh_nolim(cmd, 120)
    if rc != 0:
        return None, 'native build failed\n' + out[-1500:]
    rc, out = sh_nolim([exe, inp], 60)
    return rc, out


def sh_nolim(cmd, timeout):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode('utf8', 'replace')
    except subprocess.TimeoutExpired:
        return 124, 'timeout'


def closure(names):
    """units plus the units proving every contract they replace a call with"""
    seen, todo = [], list(names)
    prov = {UNITS[n].get('proves', UNITS[n].get('enforce')): n for n in UNITS}
    while todo:
        n = todo.pop(0)
        if n in seen:
            continue
        seen.append(n)
        for f in UNITS[n].get('replace', []) + list(UNITS[n].get('stubs', {})):
            if f in prov:
                todo.append(prov[f])
    return seen


def unit_cases(n, tier):
    u = UNITS[n]
    cs = u.get('quick', u.get('cases', [{}])) if tier == 'quick' else u.get('cases', [{}])
    return [c for c in cs if re.search(os.environ.get('VP_CASES', ''), case_name(c))]


def run_units(names, tier, verbose=True, stop=None):
    """stop(result): no further unit is started once it returns true"""
    b = Builder()
    results, errors = [], []
    try:
        b.prepare(names)
        jobs = []
        for n in names:
            for c in unit_cases(n, tier):
                jobs.append((UNITS[n].get('cost', 1), n, c))
        jobs.sort(key=lambda j: -j[0])
        stopped = False
        with ThreadPoolExecutor(JOBS) as ex:
            futs = {ex.submit(run_case, b, n, c): (n, c) for _, n, c in jobs}
            for f in as_completed(futs):
                n, c = futs[f]
                try:
                    r = f.result()
                    results.append(r)
                    # a bounded run may cut off the state a witness names
                    bad = [] if r['bounded'] else [l for l, ok in r['reach'] if not ok]
                    r['vacuous'] = bad
                    if verbose:
                        print(f'  {n}[{case_name(c)}]: {r["obligations"]} obligations, {len(r["fails"])} failed, '
                              f'reach {sum(1 for _, ok in r["reach"] if ok)}/{len(r["reach"])}, {r["wall"]:.1f}s', flush=True)
                        for p, d, loc, tr in r['fails'][:8]:
                            print(f'      FAILED {p}: {d} ({os.path.basename(loc.get("file", "?"))}:{loc.get("line", "?")})', flush=True)
                        if bad:
                            print('      UNREACHED', bad, flush=True)
                    if stop and not stopped and stop(r):
                        for g in futs:
                            g.cancel()
                        stopped = True
                        STOPPED.set()
                        for p in list(RUNNING):
                            if p.poll() is None:
                                os.killpg(p.pid, 9)
                except CancelledError:
                    pass
                except NoAnswer as e:
                    if stopped:
                        continue
                    errors.append((n, c, str(e)))
                    if verbose:
                        print(f'  {n}[{case_name(c)}]: NO ANSWER {e}', flush=True)
    except NoAnswer as e:
        errors.append(('build', {}, str(e)))
        print('  NO ANSWER', e)
    finally:
        b.close()
    return results, errors


def known_findings():
    out = []
    p = f'{VERIF}/known_findings.txt'
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) unit=(\S+) obligation="([^"]*)" (.*)', line.strip())
            if m:
                out.append(m.groups())
    return out


def check(prop, tier):
    t0 = time.time()
    P = PROPS[prop]
    names = closure(P['units'])
    edir = f'{VERIF}/evidence'
    os.makedirs(f'{edir}/replay', exist_ok=True)
    known = [k for k in known_findings() if k[0] == prop]
    viol, hits, confirmed, path0 = [], [], False, None

    def judge(r):
        """sorts out the failed obligations of a result and replays them until one fails natively"""
        nonlocal confirmed, path0
        for p, d, loc, tr in r['fails']:
            k = next((k for k in known if k[1] == r['unit'] and k[2] == d), None)
            if k:
                hits.append(k)
                continue
            i = len(viol)
            viol.append(p)
            if confirmed or i >= 12:
                continue
            wd = tempfile.mkdtemp(prefix='vpr.')
            inputs = trace_inputs(tr)
            try:
                nrc, nout = native_replay(r['unit'], r['case'], inputs, wd)
            except Exception as e:  # noqa
                nrc, nout = None, str(e)
            shutil.rmtree(wd, ignore_errors=True)
            good = nrc not in (None, 0, 77, 124)
            path = f'{edir}/replay/{prop}-{r["unit"]}-{i}.json'
            json.dump(dict(property=prop, unit=r['unit'], case=r['case'], obligation=p, description=d, location=loc,
                           native_replay='fails on the real code' if good else 'did not reproduce', native_exit=nrc,
                           native_output=nout[-4000:], inputs=inputs,
                           verifier_trace=[s for s in tr if s.get('stepType') in ('assignment', 'function-call', 'failure') and not s.get('hidden')][-400:]),
                      open(path, 'w'), indent=1)
            if path0 is None or good:
                confirmed, path0 = good, path
        return confirmed

    results, errors = run_units(names, tier, stop=judge)
    for k in sorted(set(hits)):
        print(f'KNOWN-FINDING: property={prop} {k[3]}')
    vac = [(r['unit'], r['vacuous']) for r in results if r.get('vacuous')]
    rc = 0
    if viol:
        rc = 1
        print(f'VIOLATION property={prop} replay={path0}' + ('' if confirmed else ' no-failing-input-found'))
    elif errors or vac:
        rc = 2
        for e in errors:
            print('NO ANSWER', e[0], case_name(e[1]), e[2][:600])
        for v in vac:
            print('VACUOUS', v)
    ob = sum(r['obligations'] for r in results)
    fl = sum(len(r['fails']) for r in results)
    contracts = sorted({f for n in names for f in UNITS[n].get('functions', [UNITS[n].get('enforce') or UNITS[n].get('proves') or n])})
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1')), level=P.get('level', 'proof'),
              coverage=dict(obligations=ob, discharged=ob - fl,
                            checker_cmd=f'goto-cc; goto-instrument --dfcc ... --enforce-contract F [--replace-call-with-contract G]; cbmc {" ".join(CBMC_FLAGS)}',
                            trusted_base=TRUSTED_BASE,
                            functions_under_contract=contracts,
                            units=[dict(unit=r['unit'], case=case_name(r['case']), mode='dfcc contract' if UNITS[r['unit']].get('enforce') else 'triple around the real call',
                                        obligations=r['obligations'], discharged=r['obligations'] - len(r['fails']),
                                        replaced_by_contract=UNITS[r['unit']].get('replace', []) + list(UNITS[r['unit']].get('stubs', {})),
                                        unwind=r['unwind'], solver_s=round(r['solver'], 2), wall_s=round(r['wall'], 2),
                                        **({'loop_contract': True} if r['loop_contract'] else {}),
                                        **({'bounded': f'at most {r["bounded"]} iterations of the loop'} if r['bounded'] else {}),
                                        reachable=[l for l, ok in r['reach'] if ok],
                                        **({'bounded_in_this_tier': UNITS[r['unit']]['quick_bound']} if tier == 'quick' and 'quick' in UNITS[r['unit']] else {})) for r in sorted(results, key=lambda r: (r['unit'], case_name(r['case'])))],
                            solver_s=round(sum(r['solver'] for r in results), 2), back_end='cbmc 6.11.0, CaDiCaL (bit-precise)',
                            undecided=[f'{e[0]}[{case_name(e[1])}]' for e in errors]),
              assumptions=COMMON_ASSUMPTIONS + P.get('assumptions', []),
              wall_s=round(time.time() - t0, 2), violations=len(viol))
    json.dump(ev, open(f'{edir}/{prop}.json', 'w'), indent=1)
    print(f'{prop}: {ob - fl}/{ob} obligations discharged over {len(results)} runs, {time.time() - t0:.1f}s, exit {rc}')
    return rc


def main():
    a = sys.argv[1:]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a:
        i = a.index('--tier')
        tier = a[i + 1]
        del a[i:i + 2]
    global TIER
    TIER = tier
    if a[0] == 'check':
        sys.exit(check(a[1], tier))
    if a[0] == 'unit':
        t = time.time()
        names = []
        for x in a[1:]:
            m = [n for n in UNITS if re.fullmatch(x, n)]
            names += m
        r, e = run_units(names, tier)
        print(f'total {time.time() - t:.1f}s')
        sys.exit(1 if any(x['fails'] for x in r) else 2 if e else 0)
    if a[0] == 'replay':
        j = json.load(open(a[1]))
        wd = tempfile.mkdtemp(prefix='vpr.')
        rc, out = native_replay(j['unit'], j['case'], j['inputs'], wd)
        shutil.rmtree(wd)
        print(out)
        print('exit', rc)
        sys.exit(0 if rc == 0 else 1)
    if a[0] == 'setup':
        for t in ('goto-cc', 'goto-instrument', 'cbmc', 'gcc'):
            if not shutil.which(t):
                print('missing', t)
                sys.exit(1)
        os.makedirs(f'{VERIF}/evidence/replay', exist_ok=True)
        print('tools present')


main()
