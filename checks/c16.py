from vlib.harness import Scenario
import numpy as np
BOUNDS = 'all real angles, all unit axes; array arguments of length 2'
OUTSIDE = 'floating-point rounding; array lengths above 2'
EXPLANATION = 'coord.rot_m, eq2top_m and top2eq_m executed on symbolic angles (cosine/sine pairs on the unit circle) and a symbolic unit axis.'

def mm(a, b): return [[sum(a[i][k] * b[k][j] for k in range(3)) for j in range(3)] for i in range(3)]
def tr(a): return [[a[j][i] for j in range(3)] for i in range(3)]
def det(m): return (m[0][0]*(m[1][1]*m[2][2]-m[1][2]*m[2][1]) - m[0][1]*(m[1][0]*m[2][2]-m[1][2]*m[2][0]) + m[0][2]*(m[1][0]*m[2][1]-m[1][1]*m[2][0]))
def mv(a, v): return [sum(a[i][k] * v[k] for k in range(3)) for i in range(3)]
I3 = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
def cross(a, b): return [a[1]*b[2]-a[2]*b[1], a[2]*b[0]-a[0]*b[2], a[0]*b[1]-a[1]*b[0]]

def eq2top(M, V, ck):
    H, d = V.angle('H'), V.angle('d')
    m = M.coord.eq2top_m(H, d)
    ck.shape(m, (3, 3), 'one matrix for scalar angles')
    ck.eq(mm(m, tr(m)), I3, 'the equatorial-to-topocentric matrix is orthonormal')
    ck.eq(det(m), 1, 'its determinant is one')
    np_ = M.np
    cH, sH, cd, sd = np_.cos(H), np_.sin(H), np_.cos(d), np_.sin(d)
    # direction at hour angle H and declination d (hour angle grows westward)
    ck.eq(mv(m, [cd*cH, -cd*sH, sd]), [0, 0, 1], 'the direction at that hour angle and declination maps to straight up')
    # the celestial pole appears due north at an altitude of the declination argument
    ck.eq(mv(m, [0, 0, 1]), [0, cd, sd], 'the celestial pole maps to north at the pole altitude')
    ck.eq(mv(m, [sH, cH, 0]), [1, 0, 0], 'east is the direction six hours after the meridian')

def inverse(M, V, ck):
    H, d = V.angle('H'), V.angle('d')
    a, b = M.coord.eq2top_m(H, d), M.coord.top2eq_m(H, d)
    ck.shape(b, (3, 3), 'one inverse matrix for scalar angles')
    ck.eq(mm(a, b), I3, 'topocentric-to-equatorial inverts equatorial-to-topocentric')
    ck.eq(mm(b, a), I3, 'equatorial-to-topocentric inverts topocentric-to-equatorial')
    ck.eq(b, tr(a), 'the inverse is the transpose')

def arrays(M, V, ck):
    H, d = V.angles('H', (2,)), V.angles('d', (2,))
    for f, n in ((M.coord.eq2top_m, 'eq2top'), (M.coord.top2eq_m, 'top2eq')):
        m = f(H, d)
        ck.shape(m, (2, 3, 3), n + ' of arrays gives a stack')
        for k in range(2): ck.eq(m[k], f(H[k], d[k]), n + ' of arrays stacks the scalar results')

def rot(M, V, ck):
    a = V.angle('a'); u = V.unit('u')
    m = M.coord.rot_m(a, u)
    ck.shape(m, (3, 3), 'one rotation matrix')
    ck.eq(mm(m, tr(m)), I3, 'a rotation is orthonormal')
    ck.eq(det(m), 1, 'a rotation has determinant one')
    ck.eq(mv(m, u), list(u), 'a rotation leaves its axis fixed')
    np_ = M.np
    p = V.array('p', (3,), -10, 10)
    dot = sum(u[i] * p[i] for i in range(3)); cr = cross(u, p)
    c, s = np_.cos(a), np_.sin(a)
    ck.eq(mv(m, p), [p[i]*c + cr[i]*s + u[i]*dot*(1-c) for i in range(3)], 'rotation is counter-clockwise about the axis (right-hand rule)')

def compose(M, V, ck):
    a, b = V.angle('a'), V.angle('b'); u = V.unit('u')
    f = M.coord.rot_m
    ck.eq(mm(f(a, u), f(b, u)), f(a + b, u), 'rotations about one axis compose by adding angles')
    ck.eq(mm(f(a, u), f(-a, u)), I3, 'the opposite rotation undoes a rotation')

def rotarr(M, V, ck):
    a = V.angles('a', (2,)); us = [V.unit('u'), V.unit('w')]
    u = V.arr([list(x) for x in us])
    m = M.coord.rot_m(a, u)
    ck.shape(m, (2, 3, 3), 'a stack of rotations')
    for k in range(2): ck.eq(m[k], M.coord.rot_m(a[k], us[k]), 'array arguments give the stack of the scalar results')
    m = M.coord.rot_m(a, us[0]) if False else M.coord.rot_m(a, V.arr([list(us[0]), list(us[0])]))
    for k in range(2): ck.eq(m[k], M.coord.rot_m(a[k], us[0]), 'one axis with several angles')

SCENARIOS = [Scenario('eq2top', eq2top), Scenario('inverse', inverse), Scenario('arrays', arrays), Scenario('rot', rot),
             Scenario('compose', compose), Scenario('rotarr', rotarr)]
