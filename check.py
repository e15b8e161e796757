#!/usr/bin/env python3
"""Decides one property: check.py PROPERTY

Builds the executor from /repo's working tree, lets TLC enumerate programs from
the specification (Gen.tla, MC.tla) and the random drivers make histories, runs
them on the real library, and lets TLC check every recorded run against the
specification (Trace.tla, Wide.tla). A mismatch in the scope of the property is
confirmed by running it again and reported as a violation.
"""
import concurrent.futures, json, os, random, re, shutil, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(HERE, 'spec')
sys.path.insert(0, os.path.join(HERE, 'tools'))
import scopes

JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
if '--thorough' in sys.argv:
    TIER = 'thorough'
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
JOBS = int(os.environ.get('VERIF_JOBS', '8'))
START = time.time()
BUDGET = float(os.environ.get('VERIF_BUDGET', '600' if TIER == 'quick' else '3000'))


class Broken(Exception):
    """the check itself failed"""


def log(*a):
    print('[%6.1fs]' % (time.time() - START), *a, flush=True)


MODULES = {'': ('Trace.tla', 'Trace.cfg'), 'strict': ('Trace.tla', 'TraceStrict.cfg'),
           'wide': ('wide/WTrace.tla', 'WTrace.cfg')}
JVMS = threading.Semaphore(JOBS)


def tlc(work, module, config, env, name, timeout=800, args=(), heap='3g', workers='1'):
    """module may lie in a directory of its own (wide/WTrace.tla), which comes before spec/"""
    meta = os.path.join(work, 'md.' + name)
    home, module = os.path.split(os.path.join(SPEC, module))
    cmd = ['java', '-DTLA-Library=' + SPEC, '-Djava.io.tmpdir=' + work, '-XX:+UseSerialGC', '-XX:TieredStopAtLevel=' + ('1' if TIER == 'quick' and 'wide' not in name and 'huge' not in name else '4'), '-Xss64m', '-Xmx' + heap, '-cp', JAR, 'tlc2.TLC',
           '-config', config, '-workers', workers, '-metadir', meta, '-noGenerateSpecTE', *args, module]
    for attempt in (1, 2):
        shutil.rmtree(meta, ignore_errors=True)
        logf = os.path.join(work, name + '.log')
        with JVMS, open(logf, 'w') as f:
            try:
                rc = subprocess.run(cmd, cwd=home, env=dict(os.environ, **env), stdout=f,
                                    stderr=subprocess.STDOUT, timeout=timeout).returncode
            except subprocess.TimeoutExpired:
                rc = -1
        text = open(logf, errors='replace').read()
        shutil.rmtree(meta, ignore_errors=True)
        if rc == 0:
            return text
    raise Broken('TLC failed on %s (%s):\n%s' % (module, name, text[-3000:]))


# ---------------------------------------------------------------- the stages
class Stage:
    """programs -> executor -> trace check"""

    def __init__(self, ctx, kind, what, **kw):
        self.ctx, self.kind, self.what, self.kw = ctx, kind, what, kw
        self.name = kind + '_' + what + (str(kw['depth']) if 'depth' in kw else '') + ('_%s' % kw['part'] if 'part' in kw else '')
        self.mism, self.events, self.histories, self.stats = [], 0, 0, {}
        self.gen_states = self.gen_trans = self.behaviours = 0
        self.sample = None
        self.flavour = 'wide' if what == 'wide' else 'strict' if kind == 'known' else ''
        self.wide = self.flavour == 'wide'

    def path(self, ext):
        return os.path.join(self.ctx.work, self.name + ext)

    def generate(self):
        """write the commands; needs no executor"""
        env = dict(SUITE=self.what, TIER=TIER, SEED=str(SEED), OUT=self.path('.json'))
        if self.kind == 'gen':
            tlc(self.ctx.work, 'Gen.tla', 'Gen.cfg', env, 'g.' + self.name)
            progs = (json.loads(l) for l in open(self.path('.json')))
            self.write(progs)
        elif self.kind in ('mc', 'sim', 'engine'):
            if self.kind == 'engine':
                module, cfg, args = 'Strided.tla' if self.what.startswith('Strided') else 'Engine.tla', self.what + '.cfg', ()
            else:
                module, cfg, args = 'MC.tla', 'MC.cfg', ()
                env.update(MENU=self.what, DEPTH=str(self.kw['depth']), RANDOM='yes' if self.kind == 'sim' else 'no')
                if self.kind == 'sim':
                    args = ('-simulate', 'num=%d' % self.kw['n'], '-depth', str(self.kw['depth'] + 5), '-seed',
                            str(SEED * 1000 + self.kw.get('part', 0)))
            text = tlc(self.ctx.work, module, cfg, env, 'g.' + self.name, args=args)
            progs = [json.loads(m.group(1).replace('\\"', '"')) for m in re.finditer(r'^"PROG (.*)"$', text, re.M)]
            st = re.findall(r'(\d+) states generated, (\d+) distinct states found', text)
            if st:
                self.gen_trans, self.gen_states = int(st[-1][0]), int(st[-1][1])
            else:
                st = re.findall(r'The number of states generated: (\d+)', text)
                self.gen_trans = self.gen_states = int(st[-1])
            if not progs:
                raise Broken('no behaviours from ' + self.name)
            self.behaviours = len(progs)
            k = self.kw.get('sample', 0)
            if k and len(progs) > k:
                progs.sort()
                random.Random(SEED).shuffle(progs)
                progs = progs[:k]
            self.write(progs)
        elif self.kind == 'known':
            shutil.copy(os.path.join(HERE, 'known', self.what + '.cmds'), self.path('.cmds'))

    def write(self, progs):
        with open(self.path('.cmds'), 'w') as o:
            for p in progs:
                for c in p:
                    o.write(' '.join(map(str, c)) + '\n')

    def execute(self):
        if self.kind == 'rand':
            n = self.kw['n']
            seed = SEED * 1000 + self.kw.get('part', 0)
            cmd = ['wrand' if self.wide else 'rand', self.what, str(seed), str(n), self.path('.nd')]
        else:
            cmd = ['wrun' if self.wide else 'run', self.path('.cmds'), self.path('.nd')]
        self.ctx.run_exec(cmd)

    def validate(self):
        self.mism, self.stats = self.ctx.trace(self.path('.nd'), self.name, self.flavour)
        self.events = self.stats.get('lines', 0)
        self.histories = self.stats.get('histories', 0)
        with open(self.path('.nd.cmds')) as f:
            s = []
            for line in f:
                if line.strip() == 'begin' and len(s) > 4:
                    break
                s.append(line.strip())
                if len(s) > 60:
                    break
        self.sample = {'stage': self.name, 'program': s[:40]}

    def run_all(self):
        self.execute()
        self.validate()
        return self


class Context:
    def __init__(self, prop):
        self.prop = prop
        base = os.path.join(HERE, 'out')
        os.makedirs(base, exist_ok=True)
        self.work = tempfile.mkdtemp(prefix=prop + '.', dir=base)
        self.exe = os.path.join(self.work, 'exec')

    def build(self):
        r = subprocess.run([os.path.join(HERE, 'harness', 'build.sh'), self.work], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=600)
        if r.returncode != 0:
            raise Broken('build failed:\n' + r.stdout[-3000:])

    def run_exec(self, args):
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=8000:abort_on_error=0:exitcode=77:malloc_fill_byte=165:max_malloc_fill_size=268435456')
        r = subprocess.run([self.exe, *args], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=1500)
        if r.returncode != 0:
            raise Broken('executor failed: %s\n%s' % (args, r.stdout.decode(errors='replace')[-2000:]))

    def trace(self, nd, name, flavour=''):
        """check a recorded run; a long one in pieces"""
        hist = 0
        pieces, cur, n = [], [], 0
        limit = 2500 if name.endswith('huge') else 60000 if flavour == 'wide' else 250000 if name.endswith('size') else 4000000        # bytes
        with open(nd) as f:
            for i, line in enumerate(f):
                if line.startswith('{"o":"begin"'):
                    hist += 1
                    if n >= limit:
                        pieces.append(cur)
                        cur, n = [], 0
                cur.append((i, line))
                n += len(line) + (0 if flavour == 'wide' else 300)
        pieces.append(cur)
        mism, done = [], 0
        vals = [0, 0]

        def piece(k):
            fn = '%s.p%d' % (nd, k)
            lines = [l for _, l in pieces[k]]
            if not lines[-1].startswith('{"o":"end"'):
                lines.append('{"o":"end","ok":1,"ch":[]}\n')
            with open(fn, 'w') as f:
                f.writelines(lines)
            text = tlc(self.work, *MODULES[flavour], {'TRACE': fn}, 't.%s.p%d' % (name, k))
            m = re.search(r'^"DONE (\d+) (\d+) (\d+)"$', text, re.M)
            if not m or int(m.group(1)) != len(lines):
                raise Broken('the trace was not read to its end: %s piece %d\n%s' % (name, k, text[-2000:]))
            out = []
            for j in re.finditer(r'^"MISMATCH (.*)"$', text, re.M):
                d = json.loads(j.group(1).replace('\\"', '"'))
                d['line'] = pieces[k][d['l'] - 1][0]
                out.append(d)
            os.unlink(fn)
            return out, int(m.group(2)), int(m.group(3))

        for r in self.pool.map(piece, range(len(pieces))) if len(pieces) > 1 else [piece(0)]:
            mism += r[0]
            vals[0] += r[1]
            vals[1] += r[2]
        return mism, dict(lines=sum(len(p) for p in pieces), histories=hist, determined=vals[0], open=vals[1])


def history_at(cmdfile, line):
    """the commands from the last begin to the given line"""
    with open(cmdfile) as f:
        lines = [l.rstrip('\n') for l in f]
    b = line
    while b > 0 and lines[b] != 'begin':
        b -= 1
    return lines[b:line + 1]


def gradients_at(nd, line):
    """the number of the history the line is in, and the gradients seen after it"""
    n, seen = 0, {}
    with open(nd) as f:
        for i, text in enumerate(f):
            e = json.loads(text)
            if e['o'] == 'begin':
                n, seen = n + 1, {}
            for c in e['ch']:
                seen[str(c['h'])] = list(zip(c['gv'], c['gf'])) if c['g'] else None
            if i == line:
                break
    return n, {h: [a + b / 1e6 for a, b in g] for h, g in sorted(seen.items()) if g}


def signature(m):
    return (m['o'], tuple(sorted({x[1] for x in m['d']})))


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    if len(args) != 1 or args[0] not in scopes.PROPS:
        print('usage: check.py PROPERTY [--thorough]')
        return 2
    prop = args[0]
    ctx = Context(prop)
    ctx.pool = concurrent.futures.ThreadPoolExecutor(JOBS)       # TLC runs on pieces
    try:
        return decide(prop, ctx)
    finally:
        ctx.pool.shutdown(wait=False, cancel_futures=True)
        if os.environ.get('VERIF_KEEP') != '1':
            shutil.rmtree(ctx.work, ignore_errors=True)


def decide(prop, ctx):
    spec = scopes.PROPS[prop]
    stages = []
    for s in scopes.stages(prop, TIER):
        kw = dict(s)
        kind, what = kw.pop('kind'), kw.pop('what')
        stages.append(Stage(ctx, kind, what, **kw))
    log('%s %s seed %d: %d stages' % (prop, TIER, SEED, len(stages)))
    outer = concurrent.futures.ThreadPoolExecutor(JOBS)
    fb = outer.submit(ctx.build)

    def go(st):
        st.generate()
        fb.result()
        return st.run_all()

    slow = ('huge', 'deep', 'size', 'slice', 'wide')              # first
    stages.sort(key=lambda st: slow.index(st.what) if st.what in slow else len(slow))
    futures = [outer.submit(go, st) for st in stages]
    errors = []
    for st, f in zip(stages, futures):
        try:
            f.result()
            log('%-22s %6d calls in %5d histories, %d determined / %d open observations, %d mismatches' %
                (st.name, st.events, st.histories, st.stats.get('determined', 0), st.stats.get('open', 0), len(st.mism)))
        except Exception as e:            # a broken stage must not hide the others
            errors.append((st, e))
            log('ERROR in', st.name, str(e)[-1500:])
    outer.shutdown()

    # ---- violations
    found, seen, outside, known = [], {}, 0, []
    for st in stages:
        for m in st.mism:
            if st.kind == 'known':
                k = scopes.known(prop, st.what, *gradients_at(st.path('.nd'), m['line']))
                if k:
                    known.append(k)
                    continue
            if not scopes.relevant(prop, st.kind + ':' + st.what, m):
                outside += 1
                continue
            sg = signature(m)
            seen[sg] = seen.get(sg, 0) + 1
            if seen[sg] <= 2 and len(found) < 12:
                found.append((st, m))
    confirmed = []
    for st, m in found:
        rep = confirm(ctx, prop, st, m, len(confirmed))
        if rep:
            confirmed.append((st, m, rep))
            if len(confirmed) >= 3:
                break
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, k))

    write_evidence(prop, spec, stages, confirmed, outside)
    for st, m, rep in confirmed:
        log('mismatch in %s: %s differs in %s' % (st.name, m['o'], sorted({x[1] for x in m['d']})))
        print('VIOLATION property=%s replay=%s' % (prop, rep), flush=True)
    if confirmed:
        return 1
    if errors:
        return 2
    if found:
        log('a mismatch was not repeated by a second run:', [(s.name, m) for s, m in found][:3])
        return 2
    log('%s held on everything explored' % prop)
    return 0


def confirm(ctx, prop, st, m, k):
    """run the history alone, else the whole stage, once more; returns the replay file"""
    cmds = history_at(st.path('.nd.cmds'), m['line'])
    keep = os.path.join(HERE, 'out', 'replay')
    os.makedirs(keep, exist_ok=True)
    rep = os.path.join(keep, '%s-%d.cmds' % (prop, k + 1))
    tmp = os.path.join(ctx.work, 'confirm%d' % k)

    def again(lines):
        with open(tmp + '.cmds', 'w') as f:
            f.write('\n'.join(l for l in lines if l != '?') + '\n')
        ctx.run_exec(['wrun' if st.wide else 'run', tmp + '.cmds', tmp + '.nd'])
        mm, _ = ctx.trace(tmp + '.nd', 'confirm%d' % k, st.flavour)
        return [x for x in mm if scopes.relevant(prop, st.kind + ':' + st.what, x)]

    if cmds and cmds[0] == 'begin':
        r = again(cmds)
        if r:
            save(rep, prop, st, r[0], cmds)
            return rep
    with open(st.path('.nd.cmds')) as f:
        lines = [l.rstrip('\n') for l in f][:m['line'] + 1]
    r = again(lines)
    if r:
        save(rep, prop, st, r[0], lines)
        return rep
    return None


def save(rep, prop, st, m, cmds):
    with open(rep, 'w') as f:
        f.write('# %s: call %s differs from the specification in %s (handle, aspect), stage %s\n' %
                (prop, m['o'], json.dumps(m['d']), st.name))
        f.write('# replay with %s FILE\n' % os.path.join(HERE, 'replay.sh'))
        f.write('\n'.join(cmds) + '\n')


def write_evidence(prop, spec, stages, confirmed, outside):
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    cov = dict(
        states=sum(s.gen_states for s in stages) + sum(s.events for s in stages),
        transitions=sum(s.gen_trans for s in stages) + sum(max(0, s.events - s.histories) for s in stages),
        traces_validated_against_impl=sum(s.histories for s in stages),
        calls_validated=sum(s.events for s in stages),
        observations_determined_by_the_model=sum(s.stats.get('determined', 0) for s in stages),
        observations_left_open=sum(s.stats.get('open', 0) for s in stages),
        mismatches_outside_the_scope_of_this_property=outside,
        stages={s.name: dict(calls=s.events, histories=s.histories, model_states=s.gen_states, model_behaviours=s.behaviours,
                             determined=s.stats.get('determined', 0)) for s in stages},
        samples=[s.sample for s in stages if s.sample][:4])
    ev = dict(property=prop, tier=TIER, seed=SEED, level='model_checking', coverage=cov,
              assumptions=scopes.ASSUMPTIONS, wall_s=round(time.time() - START, 2), violations=len(confirmed))
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)


if __name__ == '__main__':
    try:
        sys.exit(main())
    except Broken as e:
        print('ERROR:', e)
        sys.exit(2)
