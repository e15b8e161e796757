"""Which programs decide a property, and which mismatches break it."""
import json, os

GRAD = {'grad', 'gradpresence', 'graddtype', 'gradshape'}
VIEW = {'slice', 'pos', 'assign', 'transpose', 'reshape', 'reshapeas', 'detach', 'badslice', 'tslice'}
COPY = {'clone', 'cont', 'type', 'cat', 'gcopy', 'ghold'}
ARITH = {'add', 'sub', 'mul', 'div', 'neg', 'pos'}
CMP = {'lt', 'gt', 'le', 'ge', 'eq', 'ne', 'all'}
RED = {'sum', 'mean', 'abs', 'max', 'min'}
CTOR = {'lit', 'init', 'ragged', 'tree', 'scal', 'zeros', 'ones', 'sized', 'zlike', 'olike', 'rlike', 'randn', 'fulli',
        'fulld', 'eye', 'randstat'}
CALL = {'accepts', 'rejects', 'crash', 'outcome'}
VALUE = {'value', 'shape', 'dtype', 'numel', 'missing', 'unexpected', 'answer', 'crash', 'rejects', 'accepts', 'outcome'}
LAYOUT = {'contig', 'stride', 'numel', 'shape', 'dtype', 'answer'}

ASSUMPTIONS = [
    'numbers outside 2^30, or that double rounding would blur beyond the stated error bound, are left open by INNC.tla; '
    'wide integers are decided by spec/wide',
    'the recorded picture of a tensor is taken with the public queries of the library after every call',
    'a compiler (clang, address sanitizer, -O0) that translates the library faithfully; TLC and its Json module',
]


DIFF = ARITH | RED | COPY | VIEW | {'gcopy'}


def relevant(prop, stage, m):
    """whether the mismatch m, found in the stage, breaks the property

    m: o the call, d the set of (handle, aspect), tg the handles the call may change, ok 0 if it threw
    """
    o = m['o']
    asp = {x[1] for x in m['d']}
    tg = set(m.get('tg', []))
    other = any(x[0] not in tg and x[0] != 0 for x in m['d'])     # another tensor than the target is affected
    crash = 'crash' in asp
    if prop == 'C01':
        return (o in ('back', 'gcopy', 'ghold', 'deep') and asp & (GRAD | CALL | {'value', 'answer', 'shape', 'dtype'})) \
            or (o in DIFF and 'rg' in asp) or (stage == 'gen:bgrad')
    if prop == 'C02':
        return bool(asp & (GRAD | {'rt'})) or (o in ('back', 'zerog', 'setrt', 'gcopy', 'ghold', 'soak', 'deep') and asp & (VALUE | {'answer'}))
    if prop == 'C03':
        return 'rg' in asp or (o in ('setrg', 'type', 'back', 'iadd', 'detach') and asp & CALL) or (o == 'back' and asp & GRAD)
    if prop == 'C04':
        return bool(asp & CALL) or o in ('badslice', 'tslice', 'ragged') or m.get('ok') == 0 or stage.endswith(':err')
    if prop == 'C05':
        return o in ('slice', 'badslice', 'tslice') or stage == 'gen:slice'
    if prop == 'C06':
        return crash or (o == 'iadd' and bool(asp & VALUE)) or (o in VIEW | COPY and bool(asp & VALUE)) or (other and 'value' in asp)
    if prop == 'C07':
        return o in ('transpose', 'reshape', 'reshapeas', 'cont', 'clone', 'detach') or 'contig' in asp
    if prop == 'C08':
        return o in ARITH or stage in ('gen:broadcast',) and (crash or 'value' in asp)
    if prop == 'C09':
        return 'dtype' in asp or 'graddtype' in asp or o == 'type' or (stage in ('gen:types', 'gen:mixed')) \
            or (o in ARITH | RED | CMP | CTOR | {'iadd', 'cat'} and bool(asp & VALUE))
    if prop == 'C10':
        return o in CMP
    if prop == 'C11':
        return o in RED or stage == 'gen:reduce'
    if prop == 'C12':
        return o == 'cat' or stage == 'gen:cat'
    if prop == 'C13':
        return o in CTOR or stage == 'gen:ctor'
    if prop == 'C14':
        return stage.startswith('gen:layout') or o in ARITH | CMP | RED | COPY | VIEW | {'back', 'iadd', 'show'} | {'zlike', 'olike', 'rlike'}
    if prop == 'C15':
        return crash or o in ('mem', 'soak', 'deep', 'rel') or (o in ('drop', 'assign', 'begin') and asp) or stage == 'rand:life'
    if prop == 'C16':
        return stage.endswith(':wide') or 'value' in asp or 'answer' in asp
    if prop == 'C17':
        return o == 'iadd'
    if prop == 'C18':
        return o in ('back', 'deep') or bool(asp & GRAD)
    if prop == 'C19':
        return o == 'show' or bool(asp & {'contig', 'stride', 'numel', 'dim', 'shape', 'dtype', 'answer'}) \
            or (o in CTOR | VIEW | COPY and bool(asp & VALUE))
    raise KeyError(prop)


def S(kind, what, **kw):
    return dict(kind=kind, what=what, **kw)


def gen(*names):
    return [S('gen', n) for n in names]


def rand(n, *names):
    return [S('rand', p, n=n) for p in names]


def mc(menu, depth, sample):
    return [S('mc', menu, depth=depth, sample=sample)]


def sim(menu, depth, n):
    return [S('sim', menu, depth=depth, n=n)]


KNOWN = [S('known', 'reuse')]
ENGINE = [S('engine', 'Engine', sample=700)]
FLAGS = [S('engine', 'EngineFlags', sample=900)]
VIEWS = [S('engine', 'Strided')]

# quick stages; thorough runs the full domains of Gen, replays all behaviours and multiplies the random histories
PROPS = {
    'C01': KNOWN + FLAGS + gen('grads', 'deep', 'bgrad', 'layout', 'reduce', 'mixed', 'cat', 'size', 'huge') + mc('dag', 3, 700) + sim('mix', 9, 250)
    + rand(400, 'graph', 'dag') + rand(150, 'large'),
    'C02': KNOWN + gen('passes', 'grads', 'deep', 'mixed', 'layout') + mc('life', 4, 1000) + sim('life', 9, 300) + rand(350, 'train', 'life', 'graph', 'dag'),
    'C03': FLAGS + gen('grads', 'types', 'mixed', 'layout', 'cat') + mc('life', 4, 600) + mc('err', 2, 500) + rand(350, 'graph', 'dag', 'err', 'arith', 'view'),
    'C04': gen('text', 'reshape', 'broadcast', 'cat', 'slice', 'types', 'ctor', 'literal') + mc('err', 2, 900) + sim('err', 9, 300) + rand(600, 'err')
    + rand(250, 'view', 'arith', 'graph'),
    'C05': VIEWS + gen('text', 'slice', 'size', 'layout', 'huge') + rand(350, 'view', 'view5', 'err'),
    'C06': VIEWS + gen('wide', 'layout', 'size', 'reshape', 'ctor') + mc('view', 4, 900) + sim('view', 9, 300) + rand(400, 'view', 'view5', 'life', 'arith'),
    'C07': VIEWS + gen('wide', 'reshape', 'layout', 'size', 'huge') + mc('view', 4, 500) + rand(350, 'view', 'view5', 'large'),
    'C08': gen('wide', 'broadcast', 'bgrad', 'types', 'ieee', 'layout', 'size', 'huge') + sim('mix', 9, 200) + rand(350, 'arith', 'arithbig') + rand(150, 'large'),
    'C09': gen('wide', 'types', 'mixed', 'ieee', 'cat', 'reduce', 'ctor', 'broadcast') + rand(400, 'arith', 'arithbig', 'view', 'graph'),
    'C10': gen('broadcast', 'types', 'ieee', 'reduce', 'layout', 'size', 'huge') + rand(500, 'arith', 'arithbig') + gen('wide'),
    'C11': gen('reduce', 'ieee', 'layout', 'types', 'size', 'huge') + rand(500, 'reduce', 'arith') + rand(150, 'large') + gen('wide'),
    'C12': gen('wide', 'cat', 'layout', 'types', 'size', 'huge') + rand(450, 'reduce', 'graph', 'arith'),
    'C13': gen('ctor', 'literal', 'layout', 'stat', 'size', 'wide') + rand(600, 'ctor', 'arith'),
    'C14': VIEWS + gen('wide', 'layout', 'reduce', 'bgrad', 'cat', 'reshape', 'size') + sim('mix', 9, 200) + rand(350, 'reduce', 'graph', 'view'),
    'C15': gen('grads', 'deep', 'size', 'cat', 'ctor', 'literal') + mc('life', 4, 500) + sim('life', 9, 300) + rand(450, 'life', 'view', 'err') + rand(300, 'train', 'graph'),
    'C16': gen('wide', 'types', 'ctor') + rand(500, 'arithbig', 'wide'),
    'C17': VIEWS + gen('wide', 'broadcast', 'layout', 'types', 'size', 'huge') + mc('view', 4, 500) + sim('view', 9, 200) + rand(450, 'view', 'view5', 'arith'),
    'C18': KNOWN + ENGINE + gen('passes', 'grads', 'deep', 'layout') + mc('life', 4, 600) + sim('mix', 9, 200) + rand(400, 'graph', 'dag', 'train', 'life'),
    'C19': VIEWS + gen('ctor', 'slice', 'reshape', 'layout', 'size', 'huge', 'wide') + mc('view', 4, 400) + rand(350, 'view', 'view5', 'ctor'),
}

# programs that exercise most of the library are run for every property: what breaks it may only show there
BROAD = ('layout', 'types', 'mixed', 'cat', 'reduce', 'reshape', 'size', 'bgrad', 'ctor', 'slice', 'broadcast', 'ieee')
for _p, _st in PROPS.items():
    _st += [x for x in gen(*BROAD) if x['what'] not in [y['what'] for y in _st if y['kind'] == 'gen']]


def stages(prop, tier):
    out = []
    for s in PROPS[prop]:
        s = dict(s)
        if tier == 'thorough' and s['kind'] in ('rand', 'sim'):
            for part in range(6):
                out.append(dict(s, part=part, n=s['n'] * 2))
        elif tier == 'thorough':
            if s['kind'] == 'mc':
                s['sample'] = 12000
                if s['what'] == 'life':
                    s['depth'] = 5
            if s['kind'] == 'engine':
                s['sample'] = 0
                if s['what'] == 'Strided':
                    s['what'] = 'StridedBig'
            out.append(s)
        else:
            out.append(s)
    return out


def known(prop, what, history, grads):
    """the known finding that says exactly this, if there is one"""
    for line in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'known-findings.txt')):
        if line.startswith('known: '):
            head, text = line[7:].strip().split(' -- ', 1)
            f = dict(x.split('=', 1) for x in head.split())
            if f['property'] == prop and f['history'] == 'known/%s.cmds#%d' % (what, history) \
                    and json.loads(f['gradients']) == grads:
                return '%s: %s' % (f['history'], text)
    return None
