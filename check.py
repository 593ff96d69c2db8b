#!/usr/bin/env python3-vt
"""check.py PROPERTY [--tier quick|thorough]: verify every contract harness of one property against /repo.

Exit 0: every obligation generated from the current source was discharged (or, where the verifier could not
process changed code, the labelled bounded stand-in found nothing); 1: VIOLATION; 2: error of the check."""
import argparse
import hashlib
import json
import math
import multiprocessing as mp
import multiprocessing.pool
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.path.insert(0, HERE)
from registry import PROPS, UNITS  # noqa: E402

INCLUDES = ['common/simple_junit', 'common/math/geometry', 'common/math/arithmetic', 'common/status_monitor',
            'common/scenario_simulator_exception', 'common/get_parameter', 'common/agnocast_wrapper',
            'openscenario/openscenario_interpreter', 'openscenario/openscenario_preprocessor',
            'openscenario/openscenario_validator', 'test_runner/random_test_runner',
            'simulation/simple_sensor_simulator', 'simulation/simulation_interface',
            'simulation/behavior_tree_plugin', 'simulation/do_nothing_plugin', 'simulation/context_gamma_planner',
            'simulation/traffic_simulator', 'external/concealer', 'mock/cpp_mock_scenarios']
NATIVE_LIBS = ['-lpugixml', '-lyaml-cpp', '-lprotobuf', '-lboost_filesystem', '-lboost_json', '-lboost_system', '-lpthread', '-lzmq']


def log(*a):
    print(*a, flush=True)


class Broken(Exception):
    pass


def exporter():
    src = os.path.join(HERE, 'engine/exporter/export.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:12]
    d = os.path.join(HERE, 'build', 'exporter-' + h)
    exe = os.path.join(d, 'export')
    if not os.path.exists(exe):
        r = subprocess.run([os.path.join(HERE, 'engine/exporter/build.sh'), d], capture_output=True, text=True)
        if r.returncode:
            raise Broken('exporter does not build: ' + r.stderr[-2000:])
    return exe


_lock = threading.Lock()


def msgs(work):
    d = os.path.join(work, 'msgs')
    with _lock:
        if not os.path.isdir(d):
            sys.path.insert(0, os.path.join(HERE, 'standin'))
            import msggen
            msggen.generate(REPO, d)
    return d


def flags(unit, work, native=False):
    u = UNITS.get(unit, {})
    f = (['-DVERIF_PUBLIC_ONLY'] if unit in PUBLIC_ONLY else []) + u.get('flags', []) + ['-std=c++17', '-DBOOST_ALLOW_DEPRECATED_HEADERS', '-I' + os.path.join(HERE, 'engine/dsl')]
    if u.get('ros'):
        f += ['-I' + os.path.join(HERE, 'standin')]
        f += ['-I' + msgs(work)]
    f += ['-I' + REPO + '/' + i + '/include' for i in INCLUDES] + ['-I' + REPO]
    if u.get('ros') and not native and not u.get('real_eigen'):
        f += ['-I' + os.path.join(HERE, 'standin/eigen')]
    if u.get('boost_geometry') and not native:
        f += ['-I' + os.path.join(HERE, 'standin/boost_geometry')]
    if u.get('pugi') and not native:
        f += ['-I' + os.path.join(HERE, 'standin/pugi')]
    f += ['-I/usr/include/eigen3']
    if u.get('proto'):
        f += ['-I' + proto(work)]
    return f


def proto(work):
    d = os.path.join(work, 'proto')
    with _lock:
        if not os.path.isdir(d):
            sys.path.insert(0, os.path.join(HERE, 'standin'))
            import protogen
            protogen.generate(REPO, d)
    return d


PUBLIC_ONLY = set()  # units whose contracts on private members no longer compile


def export(unit, work):
    out = os.path.join(work, unit + '.json')

    def run():
        cmd = [exporter(), out, os.path.join(HERE, 'engine/follow.txt'), os.path.join(HERE, 'contracts', unit + '.cpp'),
               '--'] + flags(unit, work) + ['-resource-dir', '/usr/lib/llvm-18/lib/clang/18']
        return subprocess.run(cmd, capture_output=True, text=True)
    r = run()
    if r.returncode or not os.path.exists(out):
        # the representation may have been renamed: keep the contracts on the public interface
        if 'VERIF_PUBLIC_ONLY' in open(os.path.join(HERE, 'contracts', unit + '.cpp')).read():
            PUBLIC_ONLY.add(unit)
            first, r = r, run()
            if r.returncode or not os.path.exists(out):
                r = first
    if r.returncode or not os.path.exists(out):
        raise Broken(f'extraction of {unit} failed:\n' + '\n'.join(
            x for x in r.stderr.split('\n') if 'error' in x)[:3000])
    return out


def parse_opts(opts):
    o = {}
    for x in opts.split(','):
        if x:
            k, _, v = x.partition('=')
            o[k] = v or True
    return o


def run_harness(job):
    """verify one harness; runs in its own process"""
    path, unit, h, cfg = job
    sys.setrecursionlimit(40000)
    threading.stack_size(512 * 1024 * 1024)
    res = {}

    def go():
        res.update(_run_harness(path, unit, h, cfg))
    t = threading.Thread(target=go)
    t.start()
    t.join()
    return res


def _run_harness(path, unit, h, cfg):
    from prog import Prog
    from engine import Engine
    from values import Unsupported
    import models  # noqa
    t0 = time.time()
    E = None
    res = {'unit': unit, 'harness': h, 'status': 'ok', 'why': '', 'obls': [], 'covers': {}}
    try:
        p = Prog(path)
        if 'native' in parse_opts(p.harnesses[h][1]):
            raise Unsupported('a native harness: searched, not proved')
        E = Engine(p, h, parse_opts(p.harnesses[h][1]), cfg)
        E.deadline = min(t0 + cfg['limit'], cfg.get('until', t0 + 1e9))
        E.run()
    except Unsupported as x:
        res['status'], res['why'] = 'unsupported', str(x) + (' at ' + E.where() + ' ' + E.cur_loc() if E else '')
    except Exception as x:
        res['status'] = 'unsupported'
        res['why'] = 'internal: ' + ''.join(traceback.format_exception_only(type(x), x)).strip() + \
            (' at ' + E.where() + ' ' + E.cur_loc() if E else '') + ' ' + traceback.format_exc()[-600:]
    if E:
        for k, o in E.obls.items():
            res['obls'].append({'label': o.label, 'kind': o.kind, 'loc': o.loc, 'status': o.status, 'n': o.n,
                                'time': round(o.time, 3), 'backend': sorted(o.backend), 'tape': o.tape,
                                'detail': o.detail, 'bounded': bool(getattr(o, 'bounded', False))})
        res['covers'] = dict(E.covers)
        res['paths'] = E.paths
        res['queries'] = E.stats.queries
        res['solver_time'] = round(E.stats.time, 2)
        res['backends'] = dict(E.stats.backends)
        res['functions'] = sorted({n for n, _ in E.functions_run if not n.startswith('verif')})
        res['models'] = sorted(m for m in E.models_used if not m.startswith('verif::'))
        res['contracts'] = sorted(E.contracts_used)
        res['bounded'] = bool(E.bounded_hit)
        res['loops'] = {k: v for k, v in E.loop_reports.items()}
        res['axioms'] = sorted(E.uf_axioms_used)
        res['assumptions'] = sorted(E.assumptions)
        res['real'] = E.real
    res['wall'] = round(time.time() - t0, 2)
    return res


def hexs(s):
    return s.encode('latin-1', 'replace').hex()


def write_tape(tape, path):
    with open(path, 'w') as f:
        for kind, name, v in tape:
            if kind == 'bool':
                v = '1' if v else '0'
            elif kind == 'string':
                v = hexs(v if isinstance(v, str) else str(v))
            elif kind == 'double':
                v = repr(float(v)) if not (isinstance(v, float) and (math.isinf(v) or math.isnan(v))) else str(v)
            f.write(f'{kind}\t{name}\t{v}\n')


class Native:
    def __init__(self, unit, work):
        self.unit, self.work = unit, work
        self.exe = os.path.join(work, unit + '.native')
        self.err = None
        u = UNITS.get(unit, {})
        cmd = ['clang++', '-DVERIF_NATIVE', '-O1', '-g1', '-w', '-fsanitize=address,undefined',
               '-fno-sanitize=vptr' if u.get('novptr') else '-fno-sanitize=function',
               '-fno-sanitize-recover=all', '-o', self.exe] + flags(unit, work, True) + [
            os.path.join(HERE, 'contracts', unit + '.cpp'), os.path.join(HERE, 'engine/native/native.cpp')]
        if u.get('lax_link'):
            cmd += ['-no-pie', '-Wl,--unresolved-symbols=ignore-all']
        for s in u.get('native_sources', []):
            cmd.append(s.replace('$PROTO', os.path.join(work, 'proto')).replace('$REPO', REPO))
        r = subprocess.run(cmd + NATIVE_LIBS, capture_output=True, text=True)
        if r.returncode:
            self.err = r.stderr[-3000:]
        self.dict = os.path.join(work, unit + '.dict')
        try:
            d = json.load(open(os.path.join(work, unit + '.json')))
            strs, dbls, ints = set(), set(), set()

            def walk(x):
                if isinstance(x, dict):
                    if x.get('k') == 'Str' and isinstance(x.get('b'), list):
                        strs.add(bytes(c & 255 for c in x['b']).decode('latin1'))
                    if x.get('k') == 'Lit':
                        if 'f' in x:
                            dbls.add(float.fromhex(x['f']))
                        elif abs(int(x.get('i', 0))) > 3:
                            ints.add(int(x['i']))
                    for y in x.values():
                        walk(y)
                elif isinstance(x, list):
                    for y in x:
                        walk(y)
            walk(d['functions'])
            walk(d['vars'])
            for s in list(strs):
                if len(s) <= 200:
                    strs.update(w for w in re.findall(r'[A-Za-z_0-9]+', s) if len(w) > 1 and len(s) <= 40)
            with open(self.dict, 'w') as f:
                for s in sorted(strs):
                    f.write('s ' + s.encode('latin1', 'replace').hex() + '\n')
                for x in sorted(ints):
                    f.write('i %d\n' % x)
                for x in sorted(dbls):
                    f.write('d %r\n' % x)
        except Exception:
            open(self.dict, 'a').close()

    def run(self, args, timeout=120):
        if self.err:
            return None, 'native build failed: ' + self.err
        env = dict(os.environ, VERIF_DICT=self.dict, ASAN_OPTIONS='detect_leaks=0:detect_stack_use_after_return=0',
                   UBSAN_OPTIONS='print_stacktrace=0')
        try:
            r = subprocess.run([self.exe] + args, capture_output=True, text=True, errors='replace', env=env,
                               timeout=timeout, cwd=self.work)
        except subprocess.TimeoutExpired:
            return None, 'native run timed out'
        return r.returncode, (r.stdout + r.stderr)[-8000:]


def known_findings(prop):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            m = re.match(r'known: property=(\S+) harness=(\S+) label="([^"]*)" (.*)', line)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3), m.group(4)))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--harness')
    ap.add_argument('--keep', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    spec = PROPS[a.prop]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='verif-' + a.prop + '-')
    try:
        return check(a, spec, seed, t0, work)
    except Broken as x:
        log('ERROR', x)
        return 2
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)
        else:
            log('kept', work)


def check(a, spec, seed, t0, work):
    thorough = a.tier == 'thorough'
    exporter()
    cfg = {'verbose': a.v, 'timeout': 60 if thorough else 20, 'limit': 3000 if thorough else 400}
    if not thorough:
        cfg['until'] = t0 + 480
    units = spec['units']
    jobs = []
    with mp.pool.ThreadPool(8) as tp:
        paths = dict(zip(units, tp.map(lambda u: export(u, work), list(units))))
    from prog import Prog
    for u, names in units.items():
        p = Prog(paths[u])
        hs = list(p.harnesses) if names is None else names
        for h in hs:
            h, opt = h.rstrip('?'), h.endswith('?')
            if h not in p.harnesses:
                if u in PUBLIC_ONLY or opt:
                    continue
                raise Broken(f'harness {h} is not in {u}')
            if a.harness and h != a.harness:
                continue
            jobs.append((paths[u], u, h, cfg))
    if not jobs:
        raise Broken('no harness')
    with mp.Pool(min(8, len(jobs)), maxtasksperchild=1) as pool:
        results = pool.map(run_harness, jobs, chunksize=1)

    known = known_findings(a.prop)
    natives = {}

    def native(u):
        if u not in natives:
            natives[u] = Native(u, work)
        return natives[u]

    violations, standins, knowns = [], [], []
    for u in sorted(PUBLIC_ONLY & set(units)):
        standins.append((u, 'the contracts on private members do not compile any more', 'only those on the public interface were checked'))
    open_ = []
    for r in results:
        bad = [o for o in r['obls'] if o['status'] == 'failed']
        unk = [o for o in r['obls'] if o['status'] == 'unknown']
        missing = [c for c in expected_covers(r['unit'], r['harness']) if not r['covers'].get(c)]
        r['missing'] = missing
        tag = f"{r['unit']}:{r['harness']}"
        line = f"{tag}: {len(r['obls'])} obligations, {len(bad)} failed, {len(unk)} undecided, {r.get('paths', 0)} paths, {r.get('queries', 0)} queries, {r['wall']}s"
        if r['status'] != 'ok':
            line += ' -- not processed: ' + r['why']
        log(line)
        fresh = []
        for o in bad:
            hit = [k for k in known if k[0] == r['harness'] and k[1] == o['label']]
            if hit:
                knowns.append((r, o, hit[0]))
            else:
                fresh.append(o)
        if not fresh and not unk and r['status'] == 'ok':
            if not r['obls']:
                raise Broken(f'{tag} generated no obligation')
            if missing:
                fresh.append({'label': 'reachable: ' + ', '.join(missing), 'kind': 'cover', 'loc': '', 'tape': None,
                              'detail': 'the cases named are no longer reachable', 'status': 'failed'})
            else:
                continue
        open_.append({'r': r, 'fresh': fresh, 'unk': unk, 'tag': tag, 'confirmed': None, 'rc': None, 'out': ''})
    # something is not discharged: replay, then a bounded pass, then a search, on the real code
    if open_:
        with mp.pool.ThreadPool(4) as tp:
            tp.map(native, sorted({x['r']['unit'] for x in open_}))

        def replays(x):
            n = native(x['r']['unit'])
            for i, o in enumerate(x['fresh']):
                if o.get('tape') is None:
                    continue
                f = os.path.join(work, f"{x['r']['unit']}-{x['r']['harness']}-{i}.tape")
                write_tape(o['tape'], f)
                rc, out = n.run(['--replay', f, x['r']['harness']])
                o['replay_out'] = out
                if rc == 1:
                    x['confirmed'] = (o, out, open(f).read(), 'verifier counterexample replayed on the compiled code')
                    return
        with mp.pool.ThreadPool(8) as tp:
            tp.map(replays, open_)
        todo = [x for x in open_ if not x['confirmed'] and 'native harness' not in x['r']['why']]
        left = 620 - (time.time() - t0)
        if todo and (left > 60 or thorough):
            c = dict(cfg, bounded=4, limit=60, until=time.time() + (600 if thorough else min(left - 40, 120)))
            with mp.Pool(min(8, len(todo)), maxtasksperchild=1) as pool:
                bs = pool.map(run_harness, [(paths[x['r']['unit']], x['r']['unit'], x['r']['harness'], c) for x in todo], chunksize=1)

            def bounded(xb):
                x, b = xb
                n = native(x['r']['unit'])
                for i, o in enumerate(b['obls']):
                    if o['status'] == 'failed' and o.get('tape') is not None:
                        f = os.path.join(work, f"{x['r']['unit']}-{x['r']['harness']}-b{i}.tape")
                        write_tape(o['tape'], f)
                        rc, out = n.run(['--replay', f, x['r']['harness']])
                        if rc == 1:
                            x['confirmed'] = (o, out, open(f).read(), 'bounded counterexample replayed on the compiled code')
                            return
            with mp.pool.ThreadPool(8) as tp:
                tp.map(bounded, list(zip(todo, bs)))

        def search(x):
            r = x['r']
            secs = 60 if thorough else 25
            rc, out = native(r['unit']).run(['--search', r['harness'], str(seed), str(secs)], timeout=secs + 120)
            x['rc'], x['out'] = rc, out
            if rc == 1:
                lab = out.split('\n')[0].replace('FAILED ', '')
                if not any(k[0] == r['harness'] and k[1] == lab for k in known):
                    x['confirmed'] = ((x['fresh'] or x['unk'] or [{'label': lab, 'kind': 'search', 'loc': ''}])[0], out,
                                      out.split('TAPE\n')[-1].split('END')[0], 'failing input found on the compiled code')
            r['search'] = out[:300] if out else ''
        with mp.pool.ThreadPool(8) as tp:
            tp.map(search, [x for x in open_ if not x['confirmed']])
    for x in open_:
        r, fresh = x['r'], x['fresh']
        n = native(r['unit'])
        if x['confirmed']:
            o, out, tape, how = x['confirmed']
            violations.append((r, o, report(a.prop, r, o, out, tape, how), True))
        elif fresh:
            o = fresh[0]
            violations.append((r, o, report(a.prop, r, o, json.dumps(fresh, indent=1, default=str)[:20000], None,
                                            'obligation not discharged; no failing input found'), False))
        else:
            why = r['why'] or 'undecided: ' + ', '.join(o['label'] for o in x['unk'])
            if (x['rc'] != 0 and not (x['rc'] == 1 and known)) or n.err:
                log('ERROR', x['tag'], 'is undecided and the bounded stand-in gave no answer:', why, (x['out'] or '')[:500], (n.err or '')[:1500])
                raise Broken(x['tag'])
            standins.append((x['tag'], why, r.get('search', '').strip()))
    violations.sort(key=lambda v: not v[3])  # a confirmed one is worth reporting over an unconfirmed one
    write_evidence(a, spec, seed, results, violations, standins, knowns, time.time() - t0)
    for r, o, k in {k[1]: (r, o, k) for r, o, k in knowns}.values():
        log(f'KNOWN-FINDING: property={a.prop} {k[2]}')
    for tag, why, out in standins:
        log(f'BOUNDED-STAND-IN: {tag}: {why} -- {out}')
    for r, o, path, conf in violations:
        log(f"failed obligation: {r['unit']}:{r['harness']}: {o['label']} [{o['kind']}] {o.get('loc', '')}")
    for r, o, path, conf in violations[:1]:
        log(f'VIOLATION property={a.prop} replay={path}' + ('' if conf else ' no-failing-input-found'))
    return 1 if violations else 0


def expected_covers(unit, harness):
    """labels of the verif::cover calls in the text of a harness"""
    src = open(os.path.join(HERE, 'contracts', unit + '.cpp')).read()
    m = re.search(r'VERIF_HARNESS\(\s*' + harness + r'\s*,\s*"([^"]*)"', src)
    if not m:
        return []
    body = src[m.end():]
    nxt = re.search(r'\n(}|VERIF_HARNESS\()', body)
    if nxt:
        body = body[:nxt.start()]
    found = re.findall(r'verif::cover\("([^"]*)"\)', body) + re.findall(r'cover=([^,]*)', m.group(1))
    return list(dict.fromkeys(found))


def report(prop, r, o, out, tape, how):
    d = os.path.join(HERE, 'build', 'replay')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-{r['harness']}.txt")
    with open(path, 'w') as f:
        f.write(f"property: {prop}\nunit: contracts/{r['unit']}.cpp\nharness: {r['harness']}\n"
                f"failed obligation: {o['label']} [{o['kind']}] {o.get('loc', '')}\nhow: {how}\n"
                f"detail: {o.get('detail', '')}\n")
        if tape:
            f.write('input tape (kind, name, value; strings in hex):\n' + tape + '\n')
        f.write('output:\n' + str(out) + '\n')
    return path


TRUSTED = [
    'clang 18 front end and the exporter (engine/exporter/export.cpp): types, implicit conversions and overload resolution are clang\'s',
    'the verification-condition generator (engine/engine.py) and its contracts on library functions (engine/models.py; those used are listed)',
    'z3 4.x and cvc5 1.1.2']


def write_evidence(a, spec, seed, results, violations, standins, knowns, wall):
    obls = sum(len(r['obls']) for r in results)
    dis = sum(1 for r in results for o in r['obls'] if o['status'] == 'proved' and not o['bounded'])
    bnd = sum(1 for r in results for o in r['obls'] if o['status'] == 'proved' and o['bounded'])
    be = {}
    for r in results:
        for k, v in r.get('backends', {}).items():
            be[k] = be.get(k, 0) + v
    fns = sorted({f for r in results for f in r.get('functions', [])})
    mods = sorted({f for r in results for f in r.get('models', [])})
    assumptions = list(spec.get('assumptions', []))
    if any(r.get('real') for r in results):
        assumptions.append('double is treated as an exact real (no rounding, overflow, NaN or infinity) in: ' +
                           ', '.join(r['harness'] for r in results if r.get('real')))
    assumptions += sorted({x for r in results for x in r.get('axioms', [])} | {x for r in results for x in r.get('assumptions', [])})
    cs = sorted({c for r in results for c in r.get('contracts', [])})
    if cs:
        assumptions.append('contracts used in place of callee bodies: ' + ', '.join(cs))
    if mods:
        assumptions.append('assumed contracts on library functions: ' + ', '.join(mods))
    if bnd:
        assumptions.append(f'{bnd} obligations hold only within a stated bound: ' + ', '.join(
            f"{r['harness']}" for r in results if any(o['bounded'] for o in r['obls'])))
    for s in standins:
        assumptions.append('bounded stand-in (not proved): ' + ' -- '.join(s))
    ev = {
        'property': a.prop, 'tier': a.tier, 'seed': seed, 'level': spec.get('level', 'proof'),
        'coverage': {
            'obligations': obls, 'discharged': dis, 'checked_within_bound': bnd,
            'checker_cmd': f'python3-vt /verif/check.py {a.prop} --tier {a.tier}',
            'trusted_base': TRUSTED,
            'functions_under_contract': len(fns), 'functions': fns,
            'backend_queries': be, 'solver_s': round(sum(r.get('solver_time', 0) for r in results), 2),
            'harnesses': [{'unit': r['unit'], 'harness': r['harness'], 'obligations': len(r['obls']),
                           'paths': r.get('paths', 0), 'wall_s': r['wall'], 'status': r['status'],
                           'covers': r['covers'], 'loops': r.get('loops', {}),
                           'labels': [o['label'] + ('' if o['status'] == 'proved' else ' ' + o['status'].upper())
                                      for o in r['obls']][:200]} for r in results],
        },
        'assumptions': assumptions or ['none beyond the trusted base'],
        'wall_s': round(wall, 2),
        'violations': len(violations),
    }
    if knowns:
        ev['coverage']['known_findings'] = sorted({k[2] for _, _, k in knowns})
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', a.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)


if __name__ == '__main__':
    sys.exit(main())
