#!/usr/bin/env python3
"""Driver of the checks: `run.py <property> [quick|thorough]`, `run.py replay <file>`, `run.py setup`.

Generates the programs of a property, builds them against nom-derive's working tree, explores them,
writes evidence/<property>.json, and prints VIOLATION lines."""
import hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'gen'))
REPO = os.environ.get('VERIF_REPO', '/repo')
WORK = os.environ.get('VERIF_WORK', os.path.join(HERE, '.work'))
EVID = os.environ.get('VERIF_EVIDENCE', os.path.join(HERE, 'evidence'))
TARGET = os.path.join(WORK, 'target')
NSHARD = 8
BATCH = 10000       # programs compiled at once
MAXVIOL = 8


class Broken(Exception):
    """the check itself cannot give an answer"""


def env():
    e = dict(os.environ)
    e.setdefault('HOME', '/root')
    for k in ('RUSTFLAGS', 'CARGO_TARGET_DIR', 'CARGO_BUILD_RUSTFLAGS', 'RUSTC_WRAPPER', 'TRYBUILD',
              'CARGO_ENCODED_RUSTFLAGS', 'CARGO_INCREMENTAL', 'CARGO_PROFILE_DEV_DEBUG'):
        e.pop(k, None)
    tc = '1.88.0-x86_64-unknown-linux-gnu'
    home = e.get('RUSTUP_HOME', os.path.join(e['HOME'], '.rustup'))
    if os.path.isdir(os.path.join(home, 'toolchains', tc)):
        e['RUSTUP_TOOLCHAIN'] = tc
    cb = os.path.join(e.get('CARGO_HOME', os.path.join(e['HOME'], '.cargo')), 'bin')
    e['PATH'] = cb + ':' + e.get('PATH', '/usr/bin:/bin')
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_TERM_COLOR'] = 'never'
    e['CARGO_TARGET_DIR'] = TARGET
    e['RUST_BACKTRACE'] = '0'
    return e


def tree_hash():
    h = hashlib.sha256()
    for base in ('src', 'nom-derive-impl', 'Cargo.toml'):
        p = os.path.join(REPO, base)
        files = [p] if os.path.isfile(p) else sorted(
            os.path.join(d, f) for d, dn, fs in os.walk(p) if '/target' not in d for f in fs)
        for f in files:
            h.update(f.encode() + b'\0')
            with open(f, 'rb') as fd:
                h.update(fd.read())
            h.update(b'\0')
    return h.hexdigest()


def fresh_target():
    """make sure that nom-derive is rebuilt from the current content of the working tree"""
    os.makedirs(TARGET, exist_ok=True)
    stamp = os.path.join(TARGET, 'verif-tree-hash')
    h = tree_hash()
    old = open(stamp).read() if os.path.exists(stamp) else None
    if old != h:
        for prof in ('debug',):
            d = os.path.join(TARGET, prof)
            for sub in ('.fingerprint', 'deps', 'incremental', 'build'):
                dd = os.path.join(d, sub)
                if os.path.isdir(dd):
                    for n in os.listdir(dd):
                        if re.match(r'(lib)?(nom[-_]derive|harness|s\d)', n):
                            q = os.path.join(dd, n)
                            if os.path.isdir(q):
                                shutil.rmtree(q)
                            else:
                                os.unlink(q)
        with open(stamp, 'w') as fd:
            fd.write(h)
    return h


def write(path, s):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path) and open(path).read() == s:
        return
    with open(path, 'w') as fd:
        fd.write(s)


CARGO = '''[package]
name = "{name}"
version = "0.0.0"
edition = "{edition}"
autobins = false

[workspace]

[dependencies]
nom-derive = {{ path = "{repo}"{features} }}
engine = {{ path = "{engine}" }}

[profile.dev]
debug = 0
incremental = false
opt-level = 0
overflow-checks = true
debug-assertions = true

[profile.dev.package.engine]
opt-level = 3
[profile.dev.package.nom]
opt-level = 1
{bins}
'''


def crate(dirname, features='', nshard=NSHARD, edition='2021'):
    d = os.path.join(WORK, dirname)
    name = 'harness_' + re.sub(r'\W', '_', dirname).lower()
    bins = ''.join('\n[[bin]]\nname = "s%d"\npath = "src/s%d.rs"\n' % (k, k) for k in range(nshard))
    write(os.path.join(d, 'Cargo.toml'),
          CARGO.format(name=name, repo=REPO, engine=os.path.join(HERE, 'engine'), features=features, bins=bins, edition=edition))
    lock = os.path.join(d, 'Cargo.lock')
    if not os.path.exists(lock):
        # (a package name of its own: cargo would otherwise take the programs of one crate for those of another)
        s = open(os.path.join(HERE, 'gen', 'harness.lock')).read()
        write(lock, s.replace('name = "harness"', 'name = "%s"' % name))
    return d


def once(progs):
    names = [p.name for p in progs]
    dup = {x for x in names if names.count(x) > 1} if len(set(names)) != len(names) else set()
    if dup:
        raise Broken('duplicate program names %s' % sorted(dup)[:5])


def shards(progs, n, prelude=None):
    """distribute programs; returns [(source text, [(first line, last line, prog)], programs)]"""
    once(progs)
    pre = open(os.path.join(HERE, 'gen', 'prelude.rs')).read() if prelude is None else prelude
    if 'pub fn finw' not in pre:
        pre += open(os.path.join(HERE, 'engine', 'rt.rs')).read()
    out = []
    for k in range(n):
        mine = progs[k::n]
        text, ranges = [pre], []
        line = pre.count('\n') + 1
        desc = []
        for p in mine:
            t = p.rs()
            ranges.append((line, line + t.count('\n') - 1, p))
            text.append(t)
            line += t.count('\n')
            desc.append(p.sx())
        text.append('static DESC: &str = r####"\n%s\n"####;\n' % '\n'.join(desc))
        text.append('static TABLE: &[(&str, engine::explore::ImplFn)] = &[\n%s];\n' %
                    ''.join('    ("%s", %s::run),\n' % (p.name, p.name) for p in mine))
        text.append('fn main() { engine::explore::main(DESC, TABLE) }\n')
        out.append((''.join(text), ranges, mine))
    return out


def root_span(sp, files):
    """position of a diagnostic in one of the generated files"""
    while sp is not None:
        if os.path.basename(sp['file_name']) in files:
            return os.path.basename(sp['file_name']), sp['line_start']
        sp = (sp.get('expansion') or {}).get('span')
    return None


def cargo(d, args, timeout=800):
    r = subprocess.run(['cargo'] + args, cwd=d, env=env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       timeout=timeout)
    return r.returncode, r.stdout.decode(errors='replace'), r.stderr.decode(errors='replace')


def diagnostics(out):
    for l in out.splitlines():
        if l.startswith('{'):
            m = json.loads(l)
            if m.get('reason') == 'compiler-message':
                yield m


def build(d, sh, cmd='build'):
    """returns {} or {program: error} if programs do not compile"""
    rc, out, err = cargo(d, [cmd, '--offline', '--bins', '--message-format=json'])
    if rc == 0:
        return {}
    bad = {}
    other = []
    files = {'s%d.rs' % k: k for k in range(len(sh))}
    for m in diagnostics(out):
        msg = m['message']
        if msg['level'] != 'error' or msg['message'].startswith('aborting due'):
            continue
        if m['target']['name'] not in ('s%d' % k for k in range(len(sh))):
            other.append((m['target']['name'], msg['message']))
            continue
        pos = None
        for sp in sorted(msg['spans'], key=lambda s: not s['is_primary']):
            pos = root_span(sp, files)
            if pos:
                break
        hit = None
        if pos:
            for a, b, p in sh[files[pos[0]]][1]:
                if a <= pos[1] <= b:
                    hit = p
        if hit is None:
            other.append((m['target']['name'], msg['message']))
        else:
            bad.setdefault(hit.name, (hit, msg['message'], msg.get('rendered') or ''))
    if not bad:
        raise Broken('build failed: %s %s' % (other[:3], err[-2000:]))
    return bad


def run_shards(d, sh, tag, timeout):
    def one(k):
        rep = os.path.join(d, 'report-%s-%d.json' % (tag, k))
        for x in (rep, rep + '.stdout'):
            if os.path.exists(x):
                os.unlink(x)
        t = time.time()
        try:
            r = subprocess.run([os.path.join(d, 'bin-%s-s%d' % (tag, k)), rep], stdout=subprocess.DEVNULL,
                               stderr=subprocess.PIPE, timeout=timeout, env=env())
        except subprocess.TimeoutExpired:
            raise Broken('exploration did not finish in %d s' % timeout)
        if os.path.exists(rep + '.stdout'):
            os.unlink(rep + '.stdout')
        if not os.path.exists(rep):
            # the process died: which program was it?
            return {'died': r.returncode, 'stderr': r.stderr.decode(errors='replace')[-1500:], 'k': k}
        j = json.load(open(rep))
        j['rc'] = r.returncode
        return j
    with ThreadPoolExecutor(NSHARD) as ex:
        return list(ex.map(one, range(len(sh))))


def stash_bins(d, tag, n):
    """binaries have the same names for all properties: keep them"""
    for k in range(n):
        src = os.path.join(TARGET, 'debug', 's%d' % k)
        dst = os.path.join(d, 'bin-%s-s%d' % (tag, k))
        if os.path.exists(dst):
            os.unlink(dst)
        os.rename(src, dst) if False else shutil.copy2(src, dst)


ENTRY = ['parse', 'parse_be', 'parse_le']


class Result:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, programs=0, executions=0,
                        classes={}, max_depth=0, samples=[])
        self.violations = []      # dicts with 'key', 'text', 'data'
        self.assumptions = []
        self.exhaustive = True

    def add(self, j, progs, d, tag):
        c = self.cov
        c['states'] += j['states']
        c['transitions'] += j['transitions']
        c['traces_validated_against_impl'] += j['traces']
        c['programs'] += j['programs']
        c['executions'] += j['execs']
        for k in ('pairs', 'reader_runs', 'reader_steps', 'model_steps'):
            c[k] = c.get(k, 0) + j[k]
        for k in ('max_depth', 'max_alloc'):
            c[k] = max(c.get(k, 0), j[k])
        c['distinct_outcomes'] = c.get('distinct_outcomes', 0) + j['distinct_outcomes']
        for k, v in j['classes'].items():
            c['classes'][k] = c['classes'].get(k, 0) + v
        if len(c['samples']) < 5:
            c['samples'] += j['samples'][:5 - len(c['samples'])]

    def violation(self, key, text, data):
        self.violations.append(dict(key=key, text=text, data=data))


def explore(res, progs, dirname=None, features='', prelude=None, nshard=NSHARD, timeout=700, edition='2021', prename=None):
    """generate, build and explore programs"""
    progs = list(progs)
    if len(progs) > BATCH:
        # (the compiler needs memory for all programs of a crate at once)
        n = -(-len(progs) // BATCH)
        once(progs)
        for k in range(n):
            explore(res, progs[k::n], dirname, features, prelude, nshard, timeout, edition, prename)
            if res.violations:
                res.cov['not_explored'] = '%d of %d batches' % (n - 1 - k, n)
                return
        return
    dirname = dirname or '%s-%s' % (res.prop, res.tier)
    d = crate(dirname, features, nshard, edition)
    conf = dict(features=features, edition=edition, prelude=prename)
    nshard = min(nshard, max(1, len(progs)))
    sh = shards(progs, nshard, prelude)
    for k, (text, _, _) in enumerate(sh):
        write(os.path.join(d, 'src', 's%d.rs' % k), text)
    for k in range(len(sh), NSHARD):
        write(os.path.join(d, 'src', 's%d.rs' % k), 'fn main() {}\n')
    fresh_target()
    t = time.time()
    bad = build(d, sh)
    rounds = 0
    while bad:
        for n, (p, msg, rendered) in sorted(bad.items()):
            res.violation('%s:compile' % n, 'program %s does not compile: %s' % (n, msg),
                          dict(conf, kind='compile', prog=n, source=p.rs(), descriptor=p.sx(), message=rendered))
        rounds += 1
        if rounds > 3:
            res.cov['not_explored'] = 'programs do not compile'
            return
        progs = [p for p in progs if p.name not in bad]
        if not progs:
            return
        sh = shards(progs, nshard, prelude)
        for k, (text, _, _) in enumerate(sh):
            write(os.path.join(d, 'src', 's%d.rs' % k), text)
        bad = build(d, sh)
    res.cov['build_s'] = round(res.cov.get('build_s', 0) + time.time() - t, 1)
    tag = res.tier
    stash_bins(d, tag, nshard)
    t = time.time()
    reports = run_shards(d, sh, tag, timeout)
    res.cov['explore_s'] = round(res.cov.get('explore_s', 0) + time.time() - t, 1)
    errors = []
    for k, j in enumerate(reports):
        if 'died' in j:
            if j['died'] == 3:
                raise Broken('engine error: %s' % j['stderr'])
            res.violation('shard%d:died' % k, 'process died with status %s while parsing: %s' % (j['died'], j['stderr'][-300:]),
                          dict(kind='died', shard=k, stderr=j['stderr']))
            continue
        if 'hang' not in j and j['programs'] != len(sh[k][2]):
            raise Broken('shard %d explored %d programs of %d' % (k, j['programs'], len(sh[k][2])))
        if 'hang' not in j:
            res.add(j, progs, d, tag)
            errors += j['errors']
        byname = {p.name: p for p in sh[k][2]}
        for v in j['violations']:
            p = byname[v['prog']]
            text = '%s: program %s, %s(%s)%s: expected %s, got %s' % (
                v['what'], v['prog'], ENTRY[v['entry']], v['input'] or 'empty input',
                (' with knobs [%s]' % ','.join(v['knobs'])) if v['knobs'] else '', v['expected'], v['got'])
            res.violation('%s:%s:%s:%s:%s' % (v['prog'], ENTRY[v['entry']], ','.join(v['knobs']), v['input'], v['what']), text,
                          dict(v, kind='explore', source=p.rs(), descriptor=p.sx(), note=p.note, **conf))
    if errors:
        raise Broken('engine: %s' % errors[:5])


def known_findings():
    path = os.path.join(HERE, 'known_findings.txt')
    l = []
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line.strip())
            if m:
                l.append(m.groups())
    return l


def finish(res, start):
    """evidence, VIOLATION lines, exit status"""
    prop = res.prop
    kf = [(k, text) for p, k, text in known_findings() if p == prop]
    new = []
    seen = set()
    for v in res.violations:
        hit = [k for k, text in kf if k == v['key']]
        if hit:
            seen.add(hit[0])
        else:
            new.append(v)
    for k, text in kf:
        print('KNOWN-FINDING: property=%s %s%s' % (prop, text, '' if k in seen else ' (not observed in this run)'))
    rdir = os.path.join(WORK, 'replay')
    os.makedirs(rdir, exist_ok=True)
    for n in os.listdir(rdir):
        if n.startswith(prop + '-'):
            os.unlink(os.path.join(rdir, n))
    new.sort(key=lambda v: (len(v['data'].get('input', '')), v['key']))
    for k, v in enumerate(new[:MAXVIOL]):
        path = os.path.join(rdir, '%s-%d.json' % (prop, k))
        data = dict(v['data'])
        data.update(property=prop, tier=res.tier, text=v['text'],
                    replay='python3 %s replay %s' % (os.path.join(HERE, 'run.py'), path))
        with open(path, 'w') as fd:
            json.dump(data, fd, indent=1)
        print(v['text'][:600])
        print('VIOLATION property=%s replay=%s' % (prop, path))
    if os.environ.get('VERIF_ALL'):
        for v in new:
            print('ALL', v['key'], v['text'][:300])
    if len(new) > MAXVIOL:
        print('(%d more violations)' % (len(new) - MAXVIOL))
    res.cov['exhaustive'] = res.exhaustive
    ev = dict(property=prop, tier=res.tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='model_checking',
              coverage=res.cov, assumptions=res.assumptions, wall_s=round(time.time() - start, 2),
              violations=len(new))
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop + '.json'), 'w') as fd:
        json.dump(ev, fd, indent=1)
    c = res.cov
    print('%s %s: %s; %d programs, %d states, %d transitions, %d executions, %s distinct outcomes, %.1f s' % (
        prop, res.tier, 'VIOLATED' if new else 'held', c['programs'], c['states'], c['transitions'],
        c['executions'], c.get('distinct_outcomes'), time.time() - start))
    return 1 if new else 0


def main():
    start = time.time()
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == 'replay':
        import replay
        return replay.main(sys.argv[2])
    if sys.argv[1] == 'setup':
        import checks
        return checks.setup()
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    import checks
    res = Result(prop, tier)
    try:
        checks.CHECKS[prop](res)
        if not res.violations and res.cov['states'] == 0:
            raise Broken('nothing explored')
        return finish(res, start)
    except Broken as e:
        if res.violations:
            # something was found before the check got stuck: report it
            return finish(res, start)
        print('BROKEN %s: %s' % (prop, e))
        return 2


if __name__ == '__main__':
    sys.modules['run'] = sys.modules['__main__']
    sys.exit(main())
