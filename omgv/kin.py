"""Oracle kinematics and geometry: where each vehicle model is, as piecewise polynomials of its declared splines; shapes as convex
hulls of points plus a radius.  Written from the model equations, not from the code."""
import math
import numpy as np
from .rows import FPW, ONE, cst, fmul, fadd
from .expr import R


class Pose(object):
    """pos: curves; tg: curve of tan(theta/2) or None; off: distance from pos to the body origin along the heading;
    links: curves that must be <= 0, which tie pos to the motion of the model (with a documented deviation)"""

    def __init__(self, pos, tg=None, off=0., margin=0., links=(), true=None):
        self.pos, self.tg, self.off, self.margin, self.links = pos, tg, off, margin, list(links)
        self.true = true or pos


def eval0(curve, u):
    """value of the curve at parameter u (a polynomial within the first piece, or a number)"""
    if not isinstance(u, dict):
        return curve.at(u)
    l, h, c = curve.p[0]
    w = fadd({m: v / (h - l) for m, v in u.items()}, cst(-l / (h - l)))
    w1 = fadd(ONE, w, -1.)
    cur = list(c)
    while len(cur) > 1:
        cur = [fadd(fmul(cur[i], w1), fmul(cur[i + 1], w)) for i in range(len(cur) - 1)]
    return cur[0]


def integral(d, T, x0, u0):
    """x0 + T * int_{u0} d"""
    I = d.integ()
    return (I - eval0(I, u0)) * T + x0


def pose(P, veh, T, u0, seg=0, splines=None, start=None):
    """P: rows.Prob; T: polynomial of the horizon time; u0: t/T; returns a Pose"""
    n = type(veh).__name__
    S = splines if splines is not None else P.vehicle_splines(veh, seg)
    par = lambda name: [P.f(x) for x in P.M.q[(veh, name)].ravel('F')]
    if n in ('Holonomic', 'Quadrotor', 'Holonomic3D', 'SimpleQuadrotor3D', 'Holonomic1D', 'Tool'):
        return Pose(S[:3] if n in ('Holonomic3D', 'SimpleQuadrotor3D', 'Tool') else S[:2])
    if n == 'HolonomicOrient':
        return Pose(S[:2], S[2])
    if n in ('Dubins', 'Bicycle', 'AGV'):
        v, g = S
        p0 = par('pos0') if start is None else start
        x = integral(v * (1. - g * g), T, p0[0], u0)
        y = integral(v * g * 2., T, p0[1], u0)
        if veh.options.get('substitution'):
            xs = [integral(P.spline(veh, k)[0], T, p, u0) for k, p in zip(('dx', 'dy'), p0)]
            return Pose(xs, g, links=[c * s - 1.001e-3 for a, b in zip(xs, (x, y)) for c in [a - b] for s in (1., -1.)], true=[x, y])
        return Pose([x, y], g)
    if n == 'Quadrotor3D':
        f, a, b = S
        acc = [f * (1. - a * a) * b * 2., f * (b * b + 1.) * a * -2., f * (1. - a * a) * (1. - b * b) - veh.g]
        p0, d0 = par('pos0'), par('dpos0')
        tw = lambda q, k: integral(integral(q, T, d0[k], u0), T, p0[k], u0)
        x = [tw(q, k) for k, q in enumerate(acc)]
        if veh.options.get('substitution'):
            xs = [tw(P.spline(veh, nm)[0], k) for k, nm in enumerate(('ddx', 'ddy', 'ddz'))]
            return Pose(xs, links=[c * s - 1.001e-3 for u, w in zip(xs, x) for c in [u - w] for s in (1., -1.)], true=x)
        return Pose(x)
    if n == 'Trailer':
        lead = pose(P, veh.lead_veh, T, u0, splines=S[1:])
        return Pose(lead.pos, S[0], -veh.l_hitch)
    raise KeyError(n)


def shape(s):
    """(points, radius): the shape is the convex hull of the points, grown by the radius"""
    n = type(s).__name__
    if n in ('Circle', 'Cylinder'):
        return [(0., 0.)], s.radius
    if n == 'Sphere':
        return [(0., 0., 0.)], s.radius
    if n in ('Rectangle', 'Square', 'UFO'):
        w, h = s.width / 2., s.height / 2.
        c, d = math.cos(s.orientation), math.sin(s.orientation)
        return [(c * x - d * y, d * x + c * y) for x, y in ((w, h), (-w, h), (-w, -h), (w, -h))], 0.
    if n == 'Beam':
        c, d = math.cos(s.orientation), math.sin(s.orientation)
        return [(c * x, d * x) for x in (s.width / 2., -s.width / 2.)], s.height / 2.
    if n in ('Cuboid', 'Cube'):
        return [(x, y, z) for x in (-s.width / 2, s.width / 2) for y in (-s.depth / 2, s.depth / 2) for z in (-s.height / 2, s.height / 2)], 0.
    v = getattr(s, 'my_vertices', None)
    if v is None:
        v = s.vertices
    return [tuple(float(x) for x in v[:, k]) for k in range(v.shape[1])], 0.


def body(ps, pt):
    """(coordinates, weight): the world position of body point pt is coordinates/weight; weight > 0"""
    if ps.tg is None or (not any(pt) and not ps.off):
        return [x + c for x, c in zip(ps.pos, list(pt) + [0.] * (len(ps.pos) - len(pt)))], None
    g = ps.tg
    w = g * g + 1.
    c, s = 1. - g * g, g * 2.
    px, py = pt[0] + ps.off, pt[1]
    return [ps.pos[0] * w + c * px - s * py, ps.pos[1] * w + s * px + c * py], w


def obstacle_path(i, n_dim, T, u0, t=None, breaks=(0., 1.), pre=None):
    """centre of obstacle i over the horizon: from x at the current time, velocity v and acceleration a.
    parameter tau in [0,1] is at time s = tau*T - u0*T after now; pre: extra time before this segment"""
    from .fpoly import to_f
    B = list(breaks)
    tau = FPW([(a, b, [cst(a), cst(b)]) for a, b in zip(B[:-1], B[1:])])
    s = tau * T - (fmul(u0, T) if isinstance(u0, dict) else {m: c * u0 for m, c in T.items()})
    if pre is not None:
        s = s + pre
    out = []
    for k in range(n_dim):
        x, v, a = (to_f(R.var('%s%d_%d' % (nm, i, k)), {}) for nm in ('ox', 'ov', 'oa'))
        out.append(s * v + s * s * a * 0.5 + x)
    return out
