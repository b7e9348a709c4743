"""One shard of a check: generate scenarios, drive symfit, write the trace.

usage: worker.py OUT.ndjson SPEC.json
SPEC: {"cases": [[scenario, seed], ...], "budget": seconds} or {"replay": [case...]}
"""
import json
import re, os, pickle, signal, subprocess, sys, time, zlib, traceback
import driver, gens

CASE_LIMIT = float(os.environ.get('CASE_LIMIT', '60'))


class Timeout(BaseException):
    pass


def on_alarm(*a):
    raise Timeout()


def run_case(sc):
    """drive one case; a hang is recorded as the outcome of the running event"""
    s = driver.Session(sc)
    signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_LIMIT)
    try:
        s.run()
    except Timeout:
        driver.hook.CTL.depth = 0
        driver.hook.stop()
        for e in sc['ev']:
            if 'obs' not in e and 'fresh' not in e:
                e['obs'] = {'err': 'Timeout', 'msg': ''}
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    sc['_blobs'] = s.blobs
    return s


def fresh(cases):
    """run the fresh-interpreter parts of all cases, away from the symbols made here"""
    jobs, slots = [], []
    for sc in cases:
        for b in sorted({e['fresh'] for e in sc['ev'] if 'fresh' in e}):
            ev = [e for e in sc['ev'] if e.get('fresh') == b]
            blob = sc['_blobs'].get(b)
            if blob is None:
                for e in ev:
                    e['obs'] = {'err': 'NoDump', 'msg': ''}
                continue
            jobs.append((blob, ev))
            slots.append(ev)
    if not jobs:
        return
    env = dict(os.environ, PYTHONHASHSEED=str(int(os.environ.get('PYTHONHASHSEED', '0') or 0) + 1001))
    code = "import sys,pickle,driver\n" \
           "sys.stdout.buffer.write(pickle.dumps(driver.run_fresh(pickle.load(sys.stdin.buffer))))"
    out = None
    try:
        p = subprocess.run([sys.executable, '-B', '-c', code], input=pickle.dumps(jobs), env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600)
        if p.returncode == 0:
            out = pickle.loads(p.stdout)
        else:
            sys.stderr.write(p.stderr.decode()[-2000:])
    except subprocess.TimeoutExpired:
        pass
    for i, ev in enumerate(slots):
        for k, e in enumerate(ev):
            e['obs'] = out[i][k]['obs'] if out else {'err': 'FreshProcess', 'msg': ''}


def main():
    out, spec = sys.argv[1], json.load(open(sys.argv[2]))
    t0 = time.time()
    cases = []
    if 'replay' in spec:
        for sc in spec['replay']:
            for e in sc['ev']:
                e.pop('obs', None)
            run_case(sc)
            cases.append(sc)
    else:
        for name, seed in spec['cases']:
            if time.time() - t0 > spec['budget']:
                break
            sc = gens.make(name, seed)
            if sc is None:
                continue
            run_case(sc)
            cases.append(sc)
    fresh(cases)
    with open(out, 'w') as f:
        for sc in cases:
            sc.pop('_blobs', None)
            # names outside ASCII: ~ and the code point, in the same order
            f.write(re.sub(r'\\u([0-9a-f]{4})', r'~\1', json.dumps(sc)) + '\n')


main()
