"""C17: G-code blocks form the continuous tool path the program describes."""
import io
import os
import re
import math
import types
import shutil
import tempfile
import itertools
import numpy as np
from fractions import Fraction as F
from .. import env, expr
from ..expr import R, lift, liftb, band, bor, bnot, topo
from ..env import quiet, omg_modules, sym_modules, NumpyProxy, MathProxy
from ..decide import decide, same
import omgtools as omg
from omgtools.gui import gcode_block as gb, gcode_reader as gr

INFO = dict(
    explanation='the real parser, reader and block classes read program texts whose numbers stand for symbols; the blocks are compared by z3 with an independent reading of '
                'the text (coordinates that persist, centre offsets, skipped lines).  The sampled coordinates of arcs are decided for any start, centre offset and end on the circle: '
                'on the circle, first and last point, sense of rotation, at most one turn, height.  Splitting into parts, connection points, shifting and scaling are compared in the same way',
    bounds=['one line after any previous position: every type, every set of present words, six layouts; by induction over the lines programs of any length',
            'whole files: 12 texts of up to 8 lines (with sub-files, comments, blank lines, unsupported lines), every value of each number',
            'arcs: radius 0.01 to 100 mm, offsets and positions within 100 mm'],
    outside=['modal lines without a G word, numbers in exponent notation, arcs outside the XY plane, arcs given by radius word', 'floating-point rounding of the angle of the end point',
             'feed rate and spindle words (nothing reads them)'],
    stubs=['tkinter (no window)', 'input() and the file in memory'], assumptions=['the end of an arc lies on the circle of its start'])


class Book(object):
    """numbers in a text that stand for terms"""

    def __init__(self, val=None):
        self.val, self.at, self.n = val, {}, 0

    def __call__(self, name):
        if self.val is not None:
            return repr(float(self.val(name)))
        return self.put(R.var(name))

    def put(self, term):
        self.n += 1
        s = '%d.0625' % (7000 + self.n)
        self.at[s] = term
        return s

    def read(self, s):
        s = s.strip()
        neg = s.startswith('-')
        t = s.lstrip('+-')
        if t in self.at:
            return -self.at[t] if neg else self.at[t]
        return float(s)


BOOK = [None]


class _Num(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (float, R))

    def __call__(cls, x=0.):
        if isinstance(x, R):
            return x
        return BOOK[0].read(x) if isinstance(x, str) else float(x)


class Num(float, metaclass=_Num):
    pass


class _Str(type):
    def __instancecheck__(cls, o):
        return isinstance(o, str)

    def __call__(cls, x='', *a):
        return BOOK[0].put(x) if isinstance(x, R) else str(x, *a)


class Str(str, metaclass=_Str):
    pass


class Trig(NumpyProxy):
    """angles are symbols; what is known about them is listed by facts()"""

    def __init__(self):
        NumpyProxy.__init__(self)
        self.pi = R.var('pi')
        self.angles = {}

    def arctan2(self, y, x):
        if not (isinstance(x, R) or isinstance(y, R)):
            return np.arctan2(y, x)
        y, x = lift(y), lift(x)
        if (y.id, x.id) not in self.angles:
            self.angles[y.id, x.id] = (R.var('angle%d' % len(self.angles)), y, x)
        return self.angles[y.id, x.id][0]

    def facts(self):
        pi = self.pi
        out = [pi > F(314159, 100000), pi < F(314160, 100000)]
        for a, y, x in self.angles.values():
            out += [a > -pi, a <= pi]
        return out


def patches(px=None):
    t = sym_modules(omg_modules(), numpy=px is None)
    if px is not None:
        mx = MathProxy(px)
        for m in omg_modules():
            t += [(m, n, px if v is np else mx) for n, v in list(m.__dict__.items()) if v is np or v is math]
    for m in (gb, gr):
        t += [(m, 'float', Num), (m, 'str', Str)]
    return t


def window():
    w = types.SimpleNamespace(withdraw=lambda *a: None)
    return [(gr, 'tk', types.SimpleNamespace(Tk=lambda *a, **k: w)), (gr, 'tkfiledialog', None)]


# ------------------------------------------------- what the text says

def meaning(lines, num, start=None):
    """moves (type, start, end, centre) of a program, read independently"""
    p, out = start, []
    for line in lines:
        line = re.sub(r'\([^)]*\)', ' ', line).strip()
        ws = line.split()
        kinds = [w for w in ws if w in ('G00', 'G01', 'G02', 'G03')]
        if not kinds:
            continue
        d = {w[0]: num(w[1:]) for w in ws if w[0] in 'XYZIJK'}
        if p is None:
            p = [d.get(c, 0.) for c in 'XYZ'] if kinds[0] == 'G00' else [0., 0., 0.]
        q = [d.get(c, p[k]) for k, c in enumerate('XYZ')]
        out.append((kinds[0], list(p), q, [p[0] + d.get('I', 0.), p[1] + d.get('J', 0.)]))
        p = q
    return out


# ------------------------------------------------- one line

LAYOUT = {'plain': '%(G)s %(words)s', 'number': 'N40 %(G)s %(words)s', 'reverse': '%(G)s %(swords)s', 'extra': 'N7 G17 %(G)s %(words)s F1200 S3000 M08',
          'last': '%(words)s %(G)s', 'comment': '%(G)s %(words)s (MOVE TO X5 Y3 AND Z)', 'inner': '%(G)s (X-slot, KEEP) %(words)s (JIG)'}


def text(layout, G, names, bk):
    ws = ['%s%s' % (n, bk(n)) for n in names]
    return LAYOUT[layout] % dict(G=G, words=' '.join(ws), swords=' '.join(reversed(ws)))


def one(layout, G, names, first, bk):
    prev = None if first else gb.generate_gcodeblock('G01 X%s Y%s Z%s' % (bk('px'), bk('py'), bk('pz')), 1, None)
    line = text(layout, G, names, bk)
    return line, prev, gb.generate_gcodeblock(line, 2, prev)


def agrees(b, move, arc=True):
    """claims: the block is this move"""
    G, p, q, c = move
    out = [('type', [], liftb(b.type == G)), ('start', [], same(b.start, p)), ('end', [], same(b.end, q)),
           ('coordinates', [], same([b.X0, b.Y0, b.Z0, b.X1, b.Y1, b.Z1], p + q))]
    if G in ('G02', 'G03'):
        r = lift(b.radius)
        out += [('centre', [], same(b.center[:2], c)),
                ('radius', [], band(r >= 0, r * r == (lift(c[0]) - p[0]) ** 2 + (lift(c[1]) - p[1]) ** 2))]
    return out


def near(a, b, tol=1e-9):
    return len(a) == len(b) and all(abs(x - y) <= tol * (1 + abs(y)) for x, y in zip(a, b))


def agrees_real(b, move):
    G, p, q, c = move
    bad = []
    if b.type != G:
        return ['type %s instead of %s' % (b.type, G)]
    if not near(b.start, p) or not near([b.X0, b.Y0, b.Z0], p):
        bad.append('start %r instead of %r' % (b.start, p))
    if not near(b.end, q) or not near([b.X1, b.Y1, b.Z1], q):
        bad.append('end %r instead of %r' % (b.end, q))
    if G in ('G02', 'G03'):
        if not near(b.center[:2], c):
            bad.append('centre %r instead of %r' % (b.center[:2], c))
        if not near([b.radius], [math.hypot(c[0] - p[0], c[1] - p[1])]):
            bad.append('radius %r' % b.radius)
    return bad


def sets(G):
    for n in range(4):
        for a in itertools.combinations('XYZ', n):
            if G < 'G02':
                yield ''.join(a)
            else:
                for o in ('I', 'J', 'IJ', 'IJK'):
                    yield ''.join(a) + o


def bounds(names, lim=100):
    return [c for n in names for c in (R.var(n) >= -lim, R.var(n) <= lim)]


ALL = ['px', 'py', 'pz', 'X', 'Y', 'Z', 'I', 'J', 'K']


def task_line(t, layout, G):
    seen = 0
    for names in sets(G):
        if layout not in ('plain', 'reverse') and len(names) not in (2, 4, 5):
            continue
        for first in (False, True):
            bk = Book()

            def run():
                BOOK[0] = bk
                return one(layout, G, names, first, bk)

            def claims(res):
                line, prev, b = res
                if b is None:
                    return [('a supported line is a block', [], liftb(False))]
                want = meaning([line], bk.read, None if first else [R.var('px'), R.var('py'), R.var('pz')])
                out = agrees(b, want[0])
                if G < 'G02':
                    co = b.get_coordinates()
                    out.append(('drawn from start to end', [], same(sum([list(c) for c in co], []), want[0][1] + want[0][2])))
                return out
            decide(t, 'line:%s:%s:%s:%s' % (layout, G, names or 'none', 'first' if first else 'next'), bounds(ALL), run, claims, 'line', extra=[layout, G, names, first], patches=patches())
            seen += 1
    t.reach(seen > 3, 'lines')


def task_skip(t):
    for line in ('G04 X%s', 'M03 S%s', 'G40 X%s', 'N5 T1', '(G01 X3 Y4)', 'G90', '', '(note) (G01 X3)'):
        bk = Book()

        def run():
            BOOK[0] = bk
            return gb.generate_gcodeblock(line % bk('X') if '%s' in line else line, 1, None)
        decide(t, 'skip:%s' % line.replace(' ', '_').replace('%s', ''), bounds(['X']), run, lambda b: [('an unsupported line is no block', [], liftb(b is None))], 'skip', extra=[line], patches=patches())


def valuer(case):
    m = case['model']
    return lambda n: m.get(n, 0.)


def replay_line(case):
    layout, G, names, first = case['extra']
    val = valuer(case)
    with env.unpatched(), quiet():
        try:
            line, prev, b = one(layout, G, names, first, Book(val))
        except Exception as e:
            return False, 'layout %s, %s with words %s: %r' % (layout, G, names, e)
        if b is None:
            return False, '%s is not read as a block' % line
        want = meaning([line], float, None if first else [val('px'), val('py'), val('pz')])[0]
        bad = agrees_real(b, want)
        if G < 'G02' and not near(sum([list(c) for c in b.get_coordinates()], []), want[1] + want[2]):
            bad.append('drawn %r' % b.get_coordinates())
    return not bad, '%s after %r: %s' % (line, None if prev is None else prev.end, '; '.join(bad))


def replay_skip(case):
    line = case['extra'][0]
    line = line % repr(valuer(case)('X')) if '%s' in line else line
    with env.unpatched(), quiet():
        try:
            b = gb.generate_gcodeblock(line, 1, None)
        except Exception as e:
            return False, '%s: %r' % (line, e)
    return b is None, '%s is read as a block' % line


# ------------------------------------------------- coordinates of an arc

def arc_line(G, case, bk):
    ws = {'level': 'XYIJ', 'climb': 'XYZIJ', 'full': 'IJ', 'onlyI': 'XYI', 'onlyJ': 'XYJ'}[case]
    prev = gb.generate_gcodeblock('G01 X%s Y%s Z%s' % (bk('px'), bk('py'), bk('pz')), 1, None)
    line = '%s %s' % (G, ' '.join('%s%s' % (w, bk(w)) for w in ws))
    return line, gb.generate_gcodeblock(line, 2, prev)


def task_arc(t, G, case):
    px = Trig()
    v = {n: R.var(n) for n in ALL}
    p = [v['px'], v['py'], v['pz']]
    off = [R.const(0) if case == 'onlyJ' else v['I'], R.const(0) if case == 'onlyI' else v['J']]
    c = [p[0] + off[0], p[1] + off[1]]
    q = list(p) if case == 'full' else [v['X'], v['Y'], v['Z'] if case == 'climb' else p[2]]
    rr = off[0] * off[0] + off[1] * off[1]
    asm = bounds(ALL) + [rr >= F(1, 10000), rr <= 10000] + px.facts()[:2]
    if case != 'full':
        asm += [(q[0] - c[0]) ** 2 + (q[1] - c[1]) ** 2 == rr, bor(q[0] - p[0] > F(1, 1000), p[0] - q[0] > F(1, 1000), q[1] - p[1] > F(1, 1000), p[1] - q[1] > F(1, 1000))]
    bk = Book()
    sg = -1 if G == 'G02' else 1
    pi = px.pi
    where = {}

    def run():
        BOOK[0] = bk
        px.angles.clear()
        line, b = arc_line(G, case, bk)
        return b, b.get_coordinates(), list(px.angles.values())

    def claims(res):
        b, co, ang = res
        facts = px.facts()
        rad = lift(b.radius)
        args = []
        for x in co:
            u = {n.args[1].id: n.args[1] for w in x[:2] for n in topo([lift(w)]) if n.op == 'f' and n.args[0] in ('cos', 'sin')}
            if len(u) != 1:
                raise expr.Unsupported('a point of the arc with %d angles' % len(u))
            args.append(list(u.values())[0])
        cos, sin = [expr.fun('cos', a) for a in args], [expr.fun('sin', a) for a in args]
        turn = [(args[k + 1] - args[k]) * sg for k in range(len(co) - 1)]
        out = [('radius', [], band(rad >= 0, rad * rad == rr)), ('enough points', [], liftb(len(co) >= 10))]
        out += [('every point on the circle at its angle', [], band(*[w for k in range(len(co)) for w in (lift(co[k][0]) - c[0] == rad * cos[k], lift(co[k][1]) - c[1] == rad * sin[k])]))]
        out += [('turns in the commanded direction', facts, band(*[x > 0 for x in turn])), ('in small steps', facts, band(*[x < pi / 2 for x in turn])),
                ('at most one turn', facts, (args[-1] - args[0]) * sg <= 2 * pi)]
        if case == 'full':
            out.append(('a complete turn', facts, (args[-1] - args[0]) * sg == 2 * pi))
        for what, a, pt, x in (('first point is the start', args[0], p, co[0]), ('last point is the end', args[-1], q, co[-1])):
            # the angle is that of pt seen from the centre, up to whole turns
            ok = []
            for s, y, w in ang:
                ok.append(band(y == pt[1] - c[1], w == pt[0] - c[0], bor(*[a == s + 2 * k * pi for k in (-2, -1, 0, 1, 2)])))
            out.append((what, facts, bor(*ok) if ok else liftb(False)))
        z = [lift(x[2]) for x in co]
        out += [('height from start to end', [], band(z[0] == p[2], z[-1] == q[2])),
                ('height never turns back', [], bor(band(*[z[k + 1] >= z[k] for k in range(len(z) - 1)]), band(*[z[k + 1] <= z[k] for k in range(len(z) - 1)])))]
        where['n'] = where.get('n', 0) + 1
        return out
    decide(t, 'arc:%s:%s' % (G, case), asm, run, claims, 'arc', extra=[G, case], patches=patches(px), normal=True)
    t.reach(where.get('n', 0) >= (1 if case == 'full' else 2), 'arc: wrap-around and not')


def replay_arc(case):
    G, what = case['extra']
    val = valuer(case)
    m = dict(case['model'])
    p = [m.get('px', 0.), m.get('py', 0.), m.get('pz', 0.)]
    off = [0. if what == 'onlyJ' else m.get('I', 0.), 0. if what == 'onlyI' else m.get('J', 0.)]
    r = math.hypot(*off)
    if r < 1e-3:
        return None, 'no circle'
    c = [p[0] + off[0], p[1] + off[1]]
    sg = -1. if G == 'G02' else 1.
    a0 = math.atan2(-off[1], -off[0])
    if what == 'full':
        sweep = 2 * math.pi
    else:
        # put the end exactly on the circle
        a1 = math.atan2(m.get('Y', 0.) - c[1], m.get('X', 0.) - c[0])
        m['X'], m['Y'] = c[0] + r * math.cos(a1), c[1] + r * math.sin(a1)
        sweep = (sg * (a1 - a0)) % (2 * math.pi)
        if min(sweep, 2 * math.pi - sweep) < 1e-6:
            return None, 'start and end coincide'
    q = p if what == 'full' else [m['X'], m['Y'], m.get('Z', 0.) if what == 'climb' else p[2]]
    with env.unpatched(), quiet():
        try:
            line, b = arc_line(G, what, Book(lambda n: m.get(n, 0.)))
            co = b.get_coordinates()
        except Exception as e:
            return False, '%s arc %s, %r: %r' % (G, what, m, e)
        co = [[float(x) for x in y] for y in co]
    bad = []
    if any(abs(math.hypot(x[0] - c[0], x[1] - c[1]) - r) > 1e-6 * (1 + r) for x in co):
        bad.append('points off the circle')
    if not near(co[0], p, 1e-6):
        bad.append('first point %r' % co[0])
    if not near(co[-1], q, 1e-6):
        bad.append('last point %r instead of %r' % (co[-1], q))
    th = [math.atan2(x[1] - c[1], x[0] - c[0]) for x in co]
    steps = [(sg * (b2 - b1) + math.pi) % (2 * math.pi) - math.pi for b1, b2 in zip(th, th[1:])]
    if min(steps) <= -1e-9 or (r > 1e-2 and abs(sum(steps) - sweep) > 1e-5):
        bad.append('turned over %r instead of %r' % (sum(steps), sweep))
    dz = [y[2] - x[2] for x, y in zip(co, co[1:])]
    if min(dz) < -1e-9 and max(dz) > 1e-9:
        bad.append('height turns back')
    return not bad, '%s after %r: %s' % (line, p, '; '.join(bad))


# ------------------------------------------------- whole files

FILES = {
    'lines': ['G00 X{a} Y{b}', 'G01 X{c}', 'G01 Y{d}', 'G01 X{e} Y{b}'],
    'rest': ['G00 X{a} Y{b}', 'G01 X{c}', 'G01 X{c} Y{b}', 'G01 X{a}'],
    'noise': ['%% header', '(G01 X9 Y9)', '', 'N10 G00 X{a} Y{b} Z{c}', 'M03 S3000', 'N20 G01 X{d} (KEEP X9 AND Y9)', '   ', 'N30 T1 M06', 'N40 G02 X{a} I{e}', 'M30'],
    'depth': ['G00 X{a} Y{b} Z{c}', 'G01 Z{d}', 'G01 X{e}', 'G03 X{a} Y{b} I{f} J{g}', 'G01 Z{c}'],
    'engage': ['G01 X{a}', 'G01 Z{d}', 'G01 X{e}', 'G01 Z{f}', 'G01 Y{g}'],
    'twice': ['G01 Z{a}', 'G01 Z{b}', 'G01 X{c}'],
    'circle': ['G00 X{a} Y{b}', 'G02 I{c} J{d}', 'G01 X{e}'],
    'climb': ['G00 X{a} Y{b} Z{c}', 'G02 X{d} Y{e} Z{f} I{g}', 'G01 X{a} Y{b} Z{c}'],
    'nostart': ['G01 X{a} Y{b}', 'G00 X{c} Z{d}', 'G03 X{a} J{e}'],
    'dropped': ['G00 X{a}', 'G00 X{b}', 'G00 X{a}', 'G01 Y{c}'],
}
SUB = {
    'subs': (['N10 L part1.nc', 'N20 L part2.nc', 'M30'], {'part1.nc': ['G00 X{a} Y{b}', '', 'N5 G01 X{c}'], 'part2.nc': ['G01 Y{d}', '(G01 X9)', 'M30', 'G02 X{e} I{f} J{g}']}),
    'main_and_sub': (['G00 X{a} Y{b}', 'G01 X{c}', 'N20 L part1.nc'], {'part1.nc': ['N5 G01 Y{d}', 'G01 X{e} Y{f}']}),
}


def fill(lines, bk, memo):
    def put(m):
        n = m.group(1)
        if n not in memo:
            memo[n] = bk(n)
        return memo[n]
    return [re.sub(r'\{(\w)\}', put, l) for l in lines]


def texts(name, bk):
    memo = {}
    if name in FILES:
        return fill(FILES[name], bk, memo), {}
    main, subs = SUB[name]
    return fill(main, bk, memo), {k: fill(v, bk, memo) for k, v in subs.items()}


def flat(main, subs):
    """the lines of the moves, sub-files after the main file in the order they are named"""
    order = [w for l in main for w in l.split() if w.endswith('.nc')]
    return [l for l in main] + [l for f in order for l in subs[f]]


def through(folder, main, subs, eol='\n'):
    """the real reader on real files in a scratch folder"""
    os.makedirs(os.path.join(folder, 'subfiles'), exist_ok=True)
    for name, lines in [('main.nc', main)] + [(os.path.join('subfiles', k), v) for k, v in subs.items()]:
        with open(os.path.join(folder, name), 'w', newline='') as f:
            f.write(eol.join(lines) + eol)
    r = gr.GCodeReader()
    r.load_file(os.path.join(folder, 'main.nc'))
    try:
        r.read()
    finally:
        r.file.close()
    r.create_blocks()
    blocks = list(r.get_gcode())
    parts = r.get_block_division(r.get_gcode())
    conn = None
    if blocks:
        r.get_connections()
        conn = r.connections
    return blocks, parts, conn


class Scratch(object):
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='omgv_c17_')
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d)


def still(m):
    return band(*[lift(x) == lift(y) for x, y in zip(m[1], m[2])])


def is_block(b, m):
    return band(liftb(b.type == m[0]), *([g for _, _, g in agrees(b, m)[1:]] if b.type == m[0] else []))


def flat_part(b):
    return bor(liftb(b.type not in ('G00', 'G01')), lift(b.Z0) == lift(b.Z1))


def program_claims(res, moves):
    blocks, parts, conn = res
    n, out = len(blocks), []
    must = [i for i, m in enumerate(moves) if m[0] in ('G02', 'G03')]
    alts = []
    for keep in itertools.combinations(range(len(moves)), n):
        if set(must) <= set(keep):
            alts.append(band(*[is_block(b, moves[i]) for b, i in zip(blocks, keep)] + [still(moves[i]) for i in range(len(moves)) if i not in keep]))
    out.append(('blocks are the moves of the program without the ones that stay', [], bor(*alts) if alts else liftb(False)))
    out.append(('no block without movement', [], band(*[bnot(still((b.type, b.start, b.end))) for b in blocks if b.type in ('G00', 'G01')])))
    out.append(('each block starts where the previous one ends', [], band(*[same(b.start, a.end) for a, b in zip(blocks, blocks[1:])])))
    joined = [b for p in parts for b in p]
    out.append(('parts keep every block once and in order', [], liftb(len(joined) == n and all(a is b for a, b in zip(joined, blocks)))))
    out.append(('no empty part', [], liftb(all(len(p) > 0 for p in parts))))
    out.append(('a part is one z-movement or has none', [], band(*[bor(liftb(len(p) == 1), band(*[flat_part(b) for b in p])) for p in parts if p])))
    out.append(('a z-movement separates parts', [], band(*[bor(bnot(flat_part(p[-1])), bnot(flat_part(q[0]))) for p, q in zip(parts, parts[1:]) if p and q])))
    if blocks:
        pts = [b.start for b in blocks] + [blocks[-1].end, blocks[0].start]
        out.append(('connection points', [], band(liftb(len(conn) == len(pts)), *[same(a, b) for a, b in zip(conn, pts)])))
    return out


NAMES = 'abcdefg'


def task_file(t, name):
    bk = Book()
    main, subs = texts(name, bk)
    with Scratch() as d:
        def run():
            BOOK[0] = bk
            return through(d, main, subs, '\r\n' if name in ('noise', 'subs') else '\n')

        def claims(res):
            return program_claims(res, meaning(flat(main, subs), bk.read))
        seen = decide(t, 'file:%s' % name, bounds(NAMES), run, claims, 'file', extra=[name], patches=patches() + window(), tag=lambda r: (len(r[0]), len(r[1])))
    t.reach(len(seen) >= 2, 'file: with and without moves that stay')


def replay_file(case):
    name = case['extra'][0]
    main, subs = texts(name, Book(valuer(case)))
    with env.unpatched(), quiet(), Scratch() as d, env.patched(window()):
        try:
            res = through(d, main, subs, '\r\n' if name in ('noise', 'subs') else '\n')
        except Exception as e:
            return False, 'reading %r: %r' % (main, e)
        want = [m for m in meaning(flat(main, subs), float) if m[0] in ('G02', 'G03') or m[1] != m[2]]
        blocks, parts, conn = res
        bad = ['%d blocks instead of %d' % (len(blocks), len(want))] if len(blocks) != len(want) else []
        for b, m in zip(blocks, want):
            bad += agrees_real(b, m)
        bad += [w for w, _, g in program_claims(res, [])[1:] if not bool(g)]
    return not bad, '%r: %s' % (main, '; '.join(bad))


# ------------------------------------------------- shifting and scaling

SHIFT = {
    'path': ['G00 X{a} Y{b} Z{c}', 'G01 X{d}', 'G01 Y{e} Z{f}', 'G02 X{a} Y{b} I{g} J{h}'],
    'words': ['(TITLE)', 'N10 G00 X{a} Y{b}', 'N20 G03 X{c} I{d}', 'N30 G01 Y{e} (NOTE)', 'M30'],
}


class Memory(object):
    """files of the conversion, in memory"""

    def __init__(self, lines):
        self.data = {}
        self.first = io.BytesIO(('\n'.join(lines) + '\n').encode())
        self.first.name = '/nowhere/part.nc'

    def open(self, name, mode='r', *a, **k):
        mem = self
        if 'w' in mode:
            f = io.StringIO()
            keep = f.close

            def close():
                mem.data[name] = f.getvalue()
                keep()
            f.close = close
            return f
        s = self.data[name]
        return io.BytesIO(s.encode()) if 'b' in mode else io.StringIO(s)


def converted(lines, answers):
    mem = Memory(lines)
    ask = list(answers)
    with env.patched(window() + [(gr, 'open', mem.open), (gr, 'input', lambda *a: ask.pop(0))]):
        r = gr.GCodeReader()
        r.file = mem.first
        r.convert()
        r.read()
        r.create_blocks()
    return list(r.get_gcode())


def shifted(moves, off, sc):
    f = lambda p: [sc * (p[0] - off[0]), sc * (p[1] - off[1])] + list(p[2:])
    return [(G, f(p), f(q), f(c)) for G, p, q, c in moves]


def task_shift(t, name):
    bk = Book()
    lines = fill(SHIFT[name], bk, {})
    ans = ['yes', '%s,%s' % (bk('dx'), bk('dy')), bk('s')]
    off, sc = [R.var('dx'), R.var('dy')], R.var('s')
    asm = bounds(NAMES + 'h') + bounds(['dx', 'dy']) + [sc >= F(1, 10), sc <= 10]
    for i, l in enumerate(['a', 'b', 'd', 'e', 'c']):  # no move that stays
        asm += [abs(R.var(l) - R.var(m)) >= F(1, 100) for m in ['a', 'b', 'd', 'e', 'c'][:i]]

    def run():
        BOOK[0] = bk
        return converted(lines, ans)

    def claims(blocks):
        want = shifted(meaning(lines, bk.read), off, sc)
        want = [m for k, m in enumerate(want) if k]
        out = [('number of blocks', [], liftb(len(blocks) == len(want)))]
        return out + [('block %d: %s' % (k, w), a, g) for k, (b, m) in enumerate(zip(blocks, want)) for w, a, g in agrees(b, m)]
    decide(t, 'shift:%s' % name, asm, run, claims, 'shift', extra=[name], patches=patches(), normal=True)


def replay_shift(case):
    name = case['extra'][0]
    val = valuer(case)
    m = case['model']
    sc = m.get('s', 1.)
    lines = fill(SHIFT[name], Book(val), {})
    off = [val('dx'), val('dy')]
    with env.unpatched(), quiet():
        try:
            blocks = converted(lines, ['yes', '%r,%r' % tuple(off), repr(sc)])
        except Exception as e:
            return False, 'shifting %r: %r' % (lines, e)
    want = shifted(meaning(lines, float), off, sc)[1:]
    bad = ['%d blocks instead of %d' % (len(blocks), len(want))] if len(blocks) != len(want) else []
    for b, w in zip(blocks, want):
        bad += agrees_real(b, w)
    return not bad, 'shift %r scale %r of %r: %s' % (off, sc, lines, '; '.join(bad))


def tasks(tier, seed):
    out = [('skip', ('skip',))]
    out += [('line:%s:%s' % (l, G), ('line', l, G)) for l in LAYOUT for G in ('G00', 'G01', 'G02', 'G03')]
    out += [('arc:%s:%s' % (G, c), ('arc', G, c)) for G in ('G02', 'G03') for c in ('level', 'climb', 'full', 'onlyI', 'onlyJ')]
    out += [('file:%s' % n, ('file', n)) for n in list(FILES) + list(SUB)]
    out += [('shift:%s' % n, ('shift', n)) for n in SHIFT]
    return out
