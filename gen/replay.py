"""`run.py replay FILE`: builds one program again against the current working tree and repeats the violation."""
import json, os, re, shutil, subprocess, sys
import run


class Stored:
    def __init__(self, j):
        self.name, self.j = j['prog'], j

    def rs(self):
        return self.j['source']

    def sx(self):
        return self.j.get('descriptor', '')


def main(path):
    j = json.load(open(path))
    print(j['text'])
    kind = j['kind']
    if kind == 'died':
        print('A shard of programs died; run the check again: python3 run.py %s %s' % (j['property'], j['tier']))
        print(j['stderr'])
        return 1
    if kind == 'derive':
        print('%s\n(about what the compiler prints; run the check again: python3 run.py %s %s)' % (j.get('source') or j['message'], j['property'], j['tier']))
        return 1
    print('--- declaration\n%s\n---' % j['source'])
    import checks
    if kind in ('accepted', 'accident') or kind == 'compile' and 'edition' not in j:
        left, bad, _ = checks.typecheck('replay', [Stored(j)])
        if kind == 'accepted':
            print('still accepted' if left else 'now rejected')
            return 1 if left else 0
        for n, (p, msg, rendered) in bad.items():
            print(rendered or msg)
        if kind == 'accident':
            return 1 if any(checks.ACCIDENT.search(b[2]) for b in bad.values()) else 0
        return 1 if bad else 0
    p = Stored(j)
    features, prelude = j.get('features', ''), checks.prelude(j.get('prelude'))
    d = run.crate('replay', features, 1, j.get('edition', '2021'))
    sh = run.shards([p], 1, prelude)
    run.write(os.path.join(d, 'src', 's0.rs'), sh[0][0])
    run.fresh_target()
    bad = run.build(d, sh)
    if bad:
        print(list(bad.values())[0][2])
        return 1
    if kind == 'compile':
        print('(it compiles now)')
        return 0
    exe = os.path.join(d, 'replay-bin')
    shutil.copy2(os.path.join(run.TARGET, 'debug', 's0'), exe)
    rep = os.path.join(d, 'report.json')
    r = subprocess.run([exe, rep, '--only', j['prog'], str(j['entry']), ','.join(j['knobs']), j['input']], env=run.env(), timeout=300)
    out = json.load(open(rep)) if os.path.exists(rep) else {}
    for v in out.get('violations', []):
        print('%s: expected %s, got %s' % (v['what'], v['expected'], v['got']))
    if r.returncode == 0:
        print('(this prefix agrees with the model now; if the violation is about several executions, run the check again)')
    return 0 if r.returncode == 0 else 1
