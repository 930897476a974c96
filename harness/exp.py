"""Runs the experiments, one process per party, and records what they report.
   exp.py OUT DIR            (DIR holds exp_input, exp_mult and exp_check)"""
import json, os, random, re, signal, subprocess, sys, time

out = open(sys.argv[1], 'w')
exes = sys.argv[2]
seed = int(os.environ.get('VERIF_SEED', '1') or 1)
thorough = os.environ.get('VERIF_TIER') == 'thorough'
rnd = random.Random(seed)
BIG = 10 ** 9


def event(**k):
    out.write(json.dumps(k, separators=(',', ':')) + '\n')
    out.flush()


def start(x, n, i, m):
    return subprocess.Popen([os.path.join(exes, 'exp_' + x), str(n), str(i), str(m)], stdout=subprocess.PIPE,
                            stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL, start_new_session=True,
                            preexec_fn=lambda: __import__('resource').setrlimit(__import__('resource').RLIMIT_CORE, (0, 0)))


def stop(ps):
    for p in ps:
        if p.poll() is None:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
    for p in ps:
        p.wait()


def report(n, text):
    """id, sent and received from the communication summary (-1: it says something else)."""
    sent, recv, pid = [0] * n, [0] * n, -1
    parts = re.split(r'^communication summary for ', text, flags=re.M)
    if len(parts) != 2:
        return dict(id=-1, sent=[-1] * n, recv=[-1] * n)
    lines = parts[1].split('\n')
    m = re.fullmatch(r'(\d+):', lines[0])
    pid = int(m.group(1)) if m else -1
    for ln in lines[1:]:
        m = re.fullmatch(r'(sent/received to/from|sent to|received from) (\d+): (\d+)(?:/(\d+))? bytes', ln)
        if not m:
            continue
        j = int(m.group(2))
        a, b = int(m.group(3)), int(m.group(4)) if m.group(4) else None
        if j >= n or max(a, b or 0) > BIG:
            return dict(id=-1, sent=[-1] * n, recv=[-1] * n)
        if m.group(1).startswith('sent/'):
            sent[j] += a
            recv[j] += b if b is not None else -1
        elif m.group(1) == 'sent to':
            sent[j] += a
        else:
            recv[j] += a
    return dict(id=pid, sent=sent, recv=recv)


def run(x, n, m):
    order = list(range(n))
    kind = rnd.randrange(4)
    if kind == 1:
        order.reverse()
    elif kind > 1:
        rnd.shuffle(order)
    late = rnd.randrange(n) if rnd.random() < 0.3 else None
    ps = [None] * n
    for i in order:
        if kind == 3:
            time.sleep(rnd.random() * 0.03)
        if i != late:
            ps[i] = start(x, n, i, m)
    if late is not None:
        time.sleep(0.2 + rnd.random() * 0.3)
        ps[late] = start(x, n, late, m)
    limit = time.time() + (90 if n <= 12 else 180 if n <= 14 else 700 if thorough else 180)
    res = []
    for p in ps:
        try:
            text = p.communicate(timeout=max(0.1, limit - time.time()))[0].decode('latin-1')
            res.append(dict(rc=p.returncode, **report(n, text)))
        except subprocess.TimeoutExpired:
            res.append(dict(rc=1000, id=-1, sent=[0] * n, recv=[0] * n))
            limit = 0
    stop(ps)
    if limit == 0 and n >= 15 and not thorough:
        return True                      # a slow machine: no verdict
    event(e='run', x=x, n=n, m=m, p=res)
    return all(r['rc'] == 0 for r in res)


LIMIT = dict(input=1000000, mult=100000, check=100000)


def good(x, n, i, m):
    return 4 <= n <= 16 and i < n and m < LIMIT[x]


def alone(x, n, i, m):
    p = start(x, n, i, m)
    try:
        p.wait(0.5 if good(x, n, i, m) else 30)
    except subprocess.TimeoutExpired:
        pass
    rc = p.poll()
    stop([p])
    text = p.stdout.read().decode('latin-1')
    p.stdout.close()
    outcome = 'runs' if rc is None or rc == 0 else 'refused'
    if outcome == 'refused' and 'communication summary' in text:
        outcome = 'ran'
    event(e='alone', x=x, n=min(n, BIG), id=min(i, BIG), m=min(m, BIG), outcome=outcome)


def main():
    runs = []
    for x in ('input', 'mult', 'check'):
        for n in range(4, 15 if not thorough else 17):
            work = [rnd.choice([1, 2, 3, 5])]
            if n <= 12:
                work += [0, 1 + rnd.randrange(60)]
            if n <= 7:
                work += [1 + rnd.randrange(1000), rnd.choice([255, 256, 257, 1024])]
            for m in work:
                runs.append((x, n, m))
        runs.append((x, 4, LIMIT[x] - 1))
    if not thorough:
        runs += [('input', 15, 4), ('input', 16, 3), ('check', 15, 1)]
    else:
        runs += [(x, n, 1 + rnd.randrange(300)) for x in ('input', 'mult', 'check') for n in range(4, 11) for _ in range(6)]
    for r in runs:
        if not run(*r):
            break
    else:
        some = (0, 1, 2, 3, 17, 18, 32, 255, 2 ** 32 + 4, 2 ** 63)
        for x in ('input', 'mult', 'check'):
            for n in some:
                alone(x, n, 0, 5)
            for n in range(4, 17):
                alone(x, n, n, 5)
                if n in (4, 5, 15, 16):
                    alone(x, n, n - 1, 5)
            for i in (4, 5, 16, 255, 2 ** 32, 2 ** 32 + 1, 2 ** 63):
                alone(x, 4, i, 5)
            for m in (LIMIT[x], LIMIT[x] + 1, 2 * LIMIT[x], 2 ** 32, 2 ** 32 + 5, 2 ** 63):
                alone(x, 4, 0, m)
            alone(x, 16, 1, LIMIT[x] - 1 if x == 'input' else 100)
    event(e='end')


main()
