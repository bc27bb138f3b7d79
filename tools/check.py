#!/usr/bin/env python3
"""Decides one property: builds the driver from /repo's working tree, records what the library does in
scenarios, and has TLC validate the records against the specification.   check.py PROPERTY quick|thorough"""
import glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('DELYNOI_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
TLA = '/opt/veriftools/tla'
JARS = TLA + '/tla2tools.jar:' + TLA + '/CommunityModules-deps.jar'
SHARDS = 8
sys.path.insert(0, HERE)


class Broken(Exception):
    """The machinery failed: an error exit, and no verdict."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


# --------------------------------------------------------------------------- building

def sources():
    lib = sorted(glob.glob(REPO + '/delynoi/src/**/*.cpp', recursive=True) + glob.glob(REPO + '/lib/utilities/src/**/*.cpp', recursive=True))
    # a .cpp file that another source includes is not compiled on its own
    included = set()
    for f in lib:
        for m in re.findall(r'#\s*include\s*[<"]([^">]+\.cpp)[">]', open(f, errors='replace').read()):
            included.add(os.path.basename(m))
    return [f for f in lib if os.path.basename(f) not in included]


def tree_key():
    h = hashlib.sha256()
    files = [f for d in ('delynoi/src', 'delynoi/include', 'lib/utilities') for f in glob.glob('%s/%s/**/*' % (REPO, d), recursive=True)]
    files += glob.glob(VERIF + '/driver/*')
    for f in sorted(files):
        if os.path.isfile(f) and re.search(r'\.(c|cpp|h|hpp|cc|hh)$', f):
            h.update(f.encode() + b'\0' + open(f, 'rb').read() + b'\0')
    return h.hexdigest()[:20]


def build():
    """The driver, linked with the library as it is in the working tree."""
    root = os.path.join(VERIF, '.build')
    out = os.path.join(root, tree_key())
    if os.path.exists(out + '/driver'):
        return out + '/driver'
    os.makedirs(root, exist_ok=True)
    old = sorted((d for d in glob.glob(root + '/*') if os.path.isdir(d) and not d.endswith('/classes')), key=os.path.getmtime)
    for d in old[:-6]:
        shutil.rmtree(d, ignore_errors=True)
    tmp = tempfile.mkdtemp(prefix='b', dir=root)
    inc = ['-I%s/delynoi/include' % REPO, '-I%s/lib/utilities/include' % REPO]
    jobs = []
    cs = glob.glob(REPO + '/delynoi/include/delynoi/voronoi/lib/*.c') + glob.glob(REPO + '/delynoi/src/**/*.c', recursive=True)
    for f in cs:
        jobs.append((['gcc', '-O1', '-w', '-DTRILIBRARY', '-DANSI_DECLARATORS', '-c', f], f))
    for f in sorted(sources(), key=lambda f: -os.path.getsize(f)) + glob.glob(VERIF + '/driver/*.cpp'):
        jobs.append((['g++', '-std=gnu++11', '-O1', '-w'] + inc + ['-c', f], f))
    objs = []

    def one(i):
        cmd, f = jobs[i]
        o = '%s/%03d_%s.o' % (tmp, i, os.path.basename(f))
        r = run(cmd + ['-o', o])
        return (o, r)
    with ThreadPoolExecutor(SHARDS) as ex:
        for (o, r), (cmd, f) in zip(ex.map(one, range(len(jobs))), jobs):
            if r.returncode:
                shutil.rmtree(tmp, ignore_errors=True)
                raise Broken('does not compile: %s\n%s' % (f, r.stdout[-3000:]))
            objs.append(o)
    r = run(['g++', '-o', tmp + '/driver'] + objs + ['-lm'])
    if r.returncode:
        shutil.rmtree(tmp, ignore_errors=True)
        raise Broken('does not link\n' + r.stdout[-3000:])
    for o in objs:
        os.remove(o)
    try:
        os.rename(tmp, out)
    except OSError:                      # somebody else built it meanwhile
        shutil.rmtree(tmp, ignore_errors=True)
    return out + '/driver'


def classes():
    """The evaluation of module Exact with unbounded integers."""
    src = os.path.join(SPEC, 'Exact.java')
    out = os.path.join(VERIF, '.build', 'classes', hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16])
    if not os.path.exists(out + '/Exact.class'):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = tempfile.mkdtemp(dir=os.path.dirname(out))
        r = run(['javac', '-cp', JARS, '-d', tmp, src])
        if r.returncode:
            raise Broken('javac\n' + r.stdout)
        try:
            os.rename(tmp, out)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    return out


# --------------------------------------------------------------------------- TLC

def tlc(cls, work, module, cfg=None, env=None, workers=1, timeout=800, extra=(), mem='2500m'):
    """Runs TLC on a copy of the specification; returns its output and exit code."""
    d = tempfile.mkdtemp(dir=work)
    for f in glob.glob(SPEC + '/*.tla') + glob.glob(SPEC + '/*.cfg'):
        shutil.copy(f, d)
    e = dict(os.environ)
    e.update(env or {})
    e.pop('JAVA_TOOL_OPTIONS', None)
    cmd = ['java', '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC', '-Xss64m', '-Xmx' + mem, '-Djava.io.tmpdir=' + d, '-cp', cls + ':' + JARS,
           'tlc2.TLC', '-workers', str(workers), '-noGenerateSpecTE', '-metadir', d + '/md', '-config', (cfg or module) + '.cfg'] + list(extra) + [module + '.tla']
    try:
        r = run(cmd, cwd=d, env=e, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Broken('TLC took more than %d s on %s' % (timeout, module))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return r.stdout, r.returncode


FAULT = re.compile(r'^"FAULT\|([^|]*)\|([^|]*)\|(.*)"$', re.M)


class Validation:
    def __init__(self):
        self.faults, self.events, self.states, self.scenarios = set(), 0, 0, 0
        self.kinds = {}


def validate(driver, cls, work, prop, scenarios, cpu=10, trace_module='Trace', depth=0):
    """Records the scenarios and validates the record; returns a Validation."""
    v = Validation()
    d = tempfile.mkdtemp(dir=work)
    home = d + '/home'
    os.mkdir(home)
    with open(d + '/s', 'w') as f:
        for s in scenarios:
            f.write('\n'.join(s) + '\n')
    e = dict(os.environ, HOME=home)
    r = run([driver, d + '/s', d + '/t', str(cpu)], env=e, cwd=home)
    if r.returncode:
        raise Broken('driver: exit %d\n%s' % (r.returncode, r.stdout[-2000:]))
    lines = open(d + '/t', errors='replace').read().splitlines()
    for l in lines:
        m = re.match(r'\{"e":"(\w+)"', l)
        k = m.group(1) if m else '?'
        v.kinds[k] = v.kinds.get(k, 0) + 1
    v.events = len(lines)
    v.scenarios = v.kinds.get('begin', 0)
    out, rc = tlc(cls, work, trace_module, env={'TRACE': d + '/t', 'CHECKS': prop})
    for s, p, t in FAULT.findall(out):
        v.faults.add((s, p, t))
    m = re.search(r'(\d+) states generated', out)
    v.states = int(m.group(1)) if m else 0
    shutil.rmtree(d, ignore_errors=True)
    accepted = 'Model checking completed. No error has been found' in out and rc == 0
    rejected = 'Postcondition Accepted' in out and 'is false' in out
    if accepted and v.kinds.get('stopped'):
        log('a scenario uses what it did not make')
    if accepted and not v.faults or rejected and v.faults:
        return v
    # TLC could not evaluate an event: what was recorded is nothing the specification speaks about.
    m = re.findall(r'scn = "([^"]*)"', out)
    if not m or 'Error' not in out or depth > 40 or 'OutOfMemory' in out or 'StackOverflow' in out:
        raise Broken('TLC: exit %d\n%s' % (rc, out[-4000:]))
    bad = m[-1]
    ids = [s[0].split()[1] for s in scenarios]
    at = ids.index(bad) if bad in ids else None
    if at is None:
        raise Broken('TLC: exit %d\n%s' % (rc, out[-4000:]))
    if os.environ.get('DEBUG'):
        log(out[-6000:])
    v.faults.add((bad, prop, 'recorded behaviour that the specification can not interpret: ' + ' '.join(
        x for x in re.findall(r'(?:Attempted|The exception was|evaluating)[^\n]*', out)[:2])[:160]))
    if len(scenarios) > at + 1 and depth < 5:
        w = validate(driver, cls, work, prop, scenarios[at + 1:], cpu, trace_module, depth + 1)
        v.faults |= w.faults
        v.events = v.events
        v.states += w.states
    return v


SCEN = re.compile(r'^"SCEN\|(.*)"$', re.M)


def model(cls, work, models, name, cfg, workers=1):
    """TLC checks a model exhaustively; returns the scenarios that the model prints, in a fixed order."""
    t = time.time()
    out, rc = tlc(cls, work, name, cfg=cfg, workers=workers, timeout=780, mem='3g')
    if rc != 0 or 'No error has been found' not in out:
        raise Broken('the model %s/%s does not check\n%s' % (name, cfg, out[-4000:]))
    m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
    scen = sorted(set(SCEN.findall(out)))
    models.append({'module': name, 'config': cfg, 'distinct_states': int(m.group(2)), 'generated': int(m.group(1)),
                   'scenarios': len(scen), 'wall_s': round(time.time() - t, 1)})
    return scen


# --------------------------------------------------------------------------- the check

def findings(prop):
    """Known findings: lines 'KNOWN property=<id> scenario=<regex> text=<regex>'."""
    out = []
    f = VERIF + '/known_findings.txt'
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r'KNOWN property=(\w+) scenario=(\S+) text=(.*)$', l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    if sys.argv[1] == '--setup':
        build(), classes()
        return 0
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'))
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    import suites
    work = tempfile.mkdtemp(prefix='delynoi-verif-')
    try:
        driver, cls = build(), classes()
        log('built in %.1f s' % (time.time() - t0))
        # design level: TLC explores the models of the algorithms exhaustively
        models = []
        with ThreadPoolExecutor(4) as ex:
            list(ex.map(lambda m: model(cls, work, models, *m), suites.models(prop, tier)))
            explored = list(ex.map(lambda m: model(cls, work, models, *m[:2]), suites.explorations(prop, tier)))
        mstates, mtrans = sum(m['distinct_states'] for m in models), sum(m['generated'] for m in models)
        scen = suites.scenarios(prop, tier, seed, explored)
        n = len(scen)
        log('%d scenarios (%.1f s)' % (n, time.time() - t0))
        # shards of limited length, eight at a time
        per = max(1, min(150, (n + SHARDS - 1) // SHARDS))
        count = (n + per - 1) // per
        shards = [scen[k::count] for k in range(count)]
        faults, states, events, traces, kinds = set(), 0, 0, 0, {}
        with ThreadPoolExecutor(SHARDS) as ex:
            for v in ex.map(lambda s: validate(driver, cls, work, prop, s), shards):
                faults |= v.faults
                states += v.states
                events += v.events
                traces += v.scenarios
                for k, c in v.kinds.items():
                    kinds[k] = kinds.get(k, 0) + c
        byid = {s[0].split()[1]: s for s in scen}
        assert len(byid) == n, 'scenario names are not unique'
        known = findings(prop)
        bad, shown = [], set()
        for sid, p, text in sorted(faults):
            if p != prop:
                continue
            if any(re.fullmatch(a, sid) and re.search(b, text) for a, b in known):
                if (sid, text) not in shown:
                    shown.add((sid, text))
                    print('KNOWN-FINDING: property=%s scenario %s: %s' % (prop, sid, text))
                continue
            bad.append((sid, text))
        confirmed = []
        for sid, text in bad[:40]:
            if len(confirmed) >= 5:
                break
            if prop in suites.RANDOM or any(p == prop and not any(re.fullmatch(a, sid) and re.search(b, t) for a, b in known) for _ in range(2) for _, p, t in validate(driver, cls, work, prop, [byid[sid]]).faults):
                confirmed.append((sid, text))
            elif len(bad) == 1:
                log('scenario %s: %s was not confirmed by itself' % (sid, text))
        if bad and not confirmed:
            raise Broken('a rejection was not repeated: %s' % bad[:3])
        ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'wall_s': round(time.time() - t0, 1),
              'coverage': {'states': mstates + states, 'transitions': mtrans + events, 'traces_validated_against_impl': traces,
                           'events_by_kind': kinds, 'models': models, 'repo_tree': tree_key(),
                           'samples': [scen[i][:12] for i in sorted({0, n // 3, 2 * n // 3, n - 1})] if n else [],
                           'violations': len(confirmed)}}
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        with open('%s/evidence/%s.json' % (VERIF, prop), 'w') as f:
            json.dump(ev, f, indent=1)
        for sid, text in confirmed:
            rd = VERIF + '/evidence/replay'
            os.makedirs(rd, exist_ok=True)
            path = '%s/%s-%s.s' % (rd, prop, sid)
            with open(path, 'w') as f:
                f.write('# %s: %s\n' % (prop, text) + '\n'.join(byid[sid]) + '\n')
            print('scenario %s: %s' % (sid, text))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        log('%d traces, %d events, %.1f s' % (traces, events, time.time() - t0))
        return 1 if confirmed else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    try:
        sys.stdout.flush()
        sys.exit(main())
    except Broken as e:
        log('ERROR: %s' % e)
        sys.exit(2)
