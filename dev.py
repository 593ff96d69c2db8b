#!/usr/bin/env python3-vt
"""dev.py UNIT [HARNESS...]: verify one unit, printing every obligation (development aid)"""
import sys, os, json, tempfile, multiprocessing as mp
import check
def main():
    args = [a for a in sys.argv[1:] if not a.startswith('-')]
    unit, names = args[0], args[1:]
    work = '/tmp/verif-dev'; os.makedirs(work, exist_ok=True)
    path = check.export(unit, work)
    from prog import Prog
    p = Prog(path)
    hs = [h for h in p.harnesses if not names or any(h.startswith(n) for n in names)]
    cfg = {'verbose': '-v' in sys.argv, 'timeout': 20, 'limit': 400}
    for a in sys.argv[1:]:
        if a.startswith('-b'): cfg['bounded'] = int(a[2:])
    nat = None
    with mp.Pool(min(8, len(hs)), maxtasksperchild=1) as pool:
        for r in pool.imap(check.run_harness, [(path, unit, h, cfg) for h in hs], chunksize=1):
            bad = [o for o in r['obls'] if o['status'] != 'proved']
            print(('ok  ' if not bad and r['status'] == 'ok' else 'FAIL'), r['harness'], f"{len(r['obls'])} obl {r.get('paths')} paths {r.get('queries')} q {r['wall']}s", r['covers'], r['why'] if r['status'] != 'ok' else '', 'BOUNDED' if r.get('bounded') else '', r.get('loops') or '')
            missing = [c for c in check.expected_covers(unit, r['harness']) if not r['covers'].get(c)]
            if missing: print('     MISSING COVERS', missing)
            for o in (r['obls'] if '-a' in sys.argv else bad):
                print('    ', o['status'], o['kind'], o['label'], o['loc'], o['time'], o['backend'], o['detail'])
                if o['tape'] is not None and o['status'] == 'failed':
                    print('        tape', [(n, v) for k, n, v in o['tape']])
                    if '-n' in sys.argv:
                        nat = nat or check.Native(unit, work)
                        check.write_tape(o['tape'], work + '/tape')
                        print('        native', nat.run(['--replay', work + '/tape', r['harness']])[1][:600])
            if '-s' in sys.argv:
                nat = nat or check.Native(unit, work)
                print('     search', nat.run(['--search', r['harness'], '1', '5'])[1][:1500])
main()
