#!/usr/bin/env python3
"""C22: runs the Kani harnesses of serdecheck/ (CBMC decides them) and replays counterexamples natively."""
import os, re, subprocess, sys, json, time, threading
E = os.path.dirname(os.path.abspath(__file__))
D = E + '/serdecheck'
UNW = 'memcmp.0:21,_RINvNtCs8xvirJzNMvV_4core3ptr9drop_glueSNtNtCs6xMQmN1AWUs_5alloc6string6StringECs3GJ6w2eqr8A_3std.0:3'
SMALL = ['row_%d' % i for i in range(8)] + ['round_0', 'defaults']
MIDDLE = ['round_1', 'round_2']
HEAVY = ['missing_%s_%s_%s' % (k, o, n) for k in ('text', 'bytes', 'numbers') for o in ('forward', 'backward', 'mixed') for n in ('named', 'unnamed')]
QUICK = ['missing_text_forward_named', 'missing_text_mixed_unnamed', 'missing_bytes_backward_named', 'missing_numbers_mixed_named']


def env():
    e = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUSTC_WRAPPER='')
    for k in ('RUSTFLAGS', 'CARGO_TARGET_DIR', 'RUSTUP_TOOLCHAIN'):
        e.pop(k, None)
    return e


def kani(target, names, limit, extra, jobs):
    cmd = ['cargo', 'kani', '--target-dir', target]
    for n in names:
        cmd += ['--harness', 'proofs::' + n, '--exact'] if n is names[0] else ['--harness', 'proofs::' + n]
    cmd += ['-Z', 'unstable-options', '--harness-timeout', '%ds' % limit] + extra
    cmd += ['--cbmc-args', '--unwindset', UNW]
    try:
        r = subprocess.run(cmd, cwd=D, env=env(), capture_output=True, text=True, timeout=limit * (1 + len(names) // jobs) + 200)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired as e:
        o = e.stdout or b''
        return None, o.decode(errors='replace') if isinstance(o, bytes) else o


def parse(out, res):
    cur, who = {}, None
    for l in out.splitlines():
        m = re.match(r'(?:Thread (\d+): )?(.*)$', l)
        t, x = m.group(1), m.group(2)
        if t is not None:
            who = t
        m = re.match(r'Checking harness proofs::(\w+)', x)
        if m:
            cur[who] = m.group(1)
            res[m.group(1)] = {'status': 'no answer', 'checks': 0, 'time': 0.0}
            continue
        h = res.get(cur.get(who))
        if h is None:
            continue
        m = re.match(r' \*\* (\d+) of (\d+) failed', x)
        if m:
            h['failed'], h['checks'] = int(m.group(1)), int(m.group(2))
        m = re.match(r'VERIFICATION:- (\w+)', x)
        if m:
            h['status'] = m.group(1)
        m = re.match(r'Verification Time: ([\d.]+)', x)
        if m:
            h['time'] = float(m.group(1))
        if 'timed out' in x.lower():
            h['status'] = 'timeout'
        if 'unwinding assertion' in x:
            h['unwind'] = True


def run(target, tier, only=None):
    """-> (results per harness, error)"""
    t0 = time.time()
    quick = tier == 'quick'
    end = t0 + (800 if quick else 7200)
    jobs = 6
    res, err = {}, None
    heavy = QUICK if quick else HEAVY
    phases = [[only]] if only else [SMALL, MIDDLE + heavy]
    for names in phases:
        left = end - time.time()
        # stop at the first violation that was replayed
        if left < 60 or any(h.get('reproduced') for h in res.values()):
            for n in names:
                res[n] = {'status': 'not run', 'checks': 0, 'time': 0.0}
            continue
        rounds = -(-len(names) // jobs)
        limit = int(min(150 if names is SMALL else 560 if quick else 1500, (left - 30) / rounds))
        rc, out = kani(target, names, limit, ['-j', str(jobs), '--output-format=terse'], jobs)
        got = {}
        parse(out, got)
        if not got:
            err = 'kani did not run: ' + out[-3000:]
        for n in names:
            got.setdefault(n, {'status': 'no answer', 'checks': 0, 'time': 0.0})
        res.update(got)
        for n in sorted(names, key=lambda n: res[n]['time']):
            if res[n]['status'] == 'FAILED' and end - time.time() > 40:
                counterexample(target, n, res[n], int(min(400, end - time.time() - 20)))
                if res[n].get('reproduced'):
                    break
    for h in res.values():
        # one replayed violation is enough; the others are not looked at
        if h['status'] == 'FAILED' and 'tried' not in h:
            h['status'] = 'FAILED, not replayed'
    return res, err, time.time() - t0


def native(n, vals):
    e = env()
    e['RUSTUP_TOOLCHAIN'] = 'stable'
    t = os.path.join(E, 'target', 'serdecheck-native')
    b = subprocess.run(['cargo', 'build', '-q', '--offline', '--target-dir', t], cwd=D, env=e, capture_output=True, text=True)
    if b.returncode:
        return 9, b.stderr[-1500:]
    r = subprocess.run([t + '/debug/serdecheck', n] + [str(v) for v in vals], capture_output=True, text=True, timeout=60)
    return r.returncode, r.stdout + r.stderr[-1500:]


def counterexample(target, n, h, limit):
    h['tried'] = True
    rc, out = kani(target, [n], limit, ['-Z', 'concrete-playback', '--concrete-playback=print'], 1)
    for t in re.findall(r'let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n    \];', out, re.S):
        vals = [int(x) for x in re.findall(r'vec!\[(\d+)\]', t)]
        code, text = native(n, vals)
        h['vals'], h['native'], h['native_rc'] = vals, text, code
        # a check that fails or a panic
        if code in (1, 101):
            h['reproduced'] = True
            return
    h['unwind'] = h.get('unwind') or 'unwinding assertion' in ''.join(re.findall(r'Failed Checks:.*', out))
    h['failed_checks'] = re.findall(r'Failed Checks:.*', out)[:4]


if __name__ == '__main__':
    T = os.environ.get('VT_TARGET', E + '/target') + '/kani'
    print(json.dumps(run(T, sys.argv[1] if len(sys.argv) > 1 else 'quick', sys.argv[2] if len(sys.argv) > 2 else None), indent=1))
