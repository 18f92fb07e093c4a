from vlib.harness import Scenario
from checks.common import *
BOUNDS = 'any Julian date 2400000 to 2500000, any sequence of up to three time settings, arrays of 2 antennas'
OUTSIDE = 'the calendar arithmetic and sidereal time inside ephem'
EXPLANATION = 'Time setters executed with symbolic dates; sidereal time is an arbitrary function of the date.'

def convert(M, V, ck):
    t = V.real('t', 2400000, 2500000)
    e = M.phs.juldate2ephem(t)
    ck.eq(e - 0, t - 2415020, 'internal date is the Julian date minus a fixed offset', tol=1e-12)
    ck.eq(M.phs.ephem2juldate(e), t, 'Julian date to internal date and back', tol=1e-12)
    u = V.real('u', -15000, 85000)
    ck.eq(M.phs.juldate2ephem(M.phs.ephem2juldate(u)) - 0, u, 'internal date to Julian date and back', tol=1e-9)

def lst_matrix(M, aa):
    l = aa.sidereal_time(); c, s = M.np.cos(l), M.np.sin(l)
    return [[c, s, 0], [-s, c, 0], [0, 0, 1]]

def settime(M, V, ck):
    mod = V.choose('mod', ['phs', 'amp'])
    m = getattr(M, mod)
    B = m.Beam(V.arr([0.1, 0.2]))
    P = pos(V, 2)
    aa = m.AntennaArray((V.angle('lat', -1.5, 1.5), V.angle('long', -3, 3)), [m.Antenna(p[0], p[1], p[2], B) for p in P])
    for k in range(2):
        t = V.real('t%d' % k, 2450000, 2460000)
        how = V.choose('how%d' % k, ['jul', 'ephem'])
        if how == 'jul': aa.set_jultime(t)
        else: aa.set_ephemtime(M.phs.juldate2ephem(t))
        ck.eq(aa.get_jultime(), t, 'the time reads back as the Julian date that was set', tol=1e-12)
        ck.eq(aa.date - 0, t - 2415020, 'the date is set', tol=1e-12); ck.eq(aa.epoch - 0, t - 2415020, 'the epoch is set', tol=1e-12)
        b = [P[1][q] - P[0][q] for q in range(3)]
        ck.eq(aa.get_baseline(0, 1, 'e'), mv(lst_matrix(M, aa), b), 'projections use the time just set', tol=1e-6)
        s = source(M, V, name='s%d' % k, mod=mod); s.compute(aa)
        V.assume(s.alt > 0.01)
        h = aa.sidereal_time() - s.ra; np_ = M.np
        w = np_.cos(s.dec)*np_.cos(h)*b[0] - np_.cos(s.dec)*np_.sin(h)*b[1] + np_.sin(s.dec)*b[2]
        ck.eq(aa.get_baseline(0, 1, s)[2], w, 'projection towards a source uses the time just set')

def recompute(M, V, ck):
    """A source computed again follows the new time."""
    aa, f, P, o = phs_array(M, V)
    s = source(M, V)
    for k in range(2):
        aa.set_jultime(V.real('T%d' % k, 2450000, 2460000)); s.compute(aa)
        V.assume(s.alt > 0.01)
        b = [P[1][q] - P[0][q] for q in range(3)]
        h = aa.sidereal_time() - s.ra; np_ = M.np
        w = np_.cos(s.dec)*np_.cos(h)*b[0] - np_.cos(s.dec)*np_.sin(h)*b[1] + np_.sin(s.dec)*b[2]
        ck.eq(aa.get_baseline(0, 1, s)[2], w, 'a source computed again follows the new time')

def simcache(M, V, ck):
    m = M.amp
    B = m.Beam(V.arr([0.1, 0.2])); P = pos(V, 2)
    aa = m.AntennaArray((V.angle('lat', -1.5, 1.5), V.angle('long', -3, 3)), [m.Antenna(p[0], p[1], p[2], B) for p in P])
    aa.set_active_pol('xx')
    aa.set_jultime(V.real('t0', 2450000, 2460000))
    ck.raises(RuntimeError, lambda: aa.sim(0, 1), 'simulating before source positions are given is refused')
    x = V.arr([[1.0], [0.0], [0.0]])
    aa.sim_cache(x, jys=V.arr([[1.0, 1.0]]))
    aa.sim(0, 1)
    t1 = V.real('t1', 2450000, 2460000)
    how = V.choose('how', ['jul', 'ephem'])
    if how == 'jul': aa.set_jultime(t1)
    else: aa.set_ephemtime(M.phs.juldate2ephem(t1))
    ck.raises(RuntimeError, lambda: aa.sim(0, 1), 'simulating after a time change (%s) requires new source positions' % how)
    np_ = M.np; l, la = aa.sidereal_time(), aa.lat
    u = V.unit('u')
    # topocentric direction of an equatorial vector at the new time
    c, s = np_.cos(l), np_.sin(l); cl, sl = np_.cos(la), np_.sin(la)
    e = -s*u[0] + c*u[1]; r = c*u[0] + s*u[1]
    top = [e, -sl*r + cl*u[2], cl*r + sl*u[2]]
    ck.eq(np_.dot(aa.eq2top_m, u), top, 'the sky matrix follows the time set (%s)' % how)

def zenith(M, V, ck):
    """The zenith projection follows the latitude when the array is updated."""
    aa, f, P, o = phs_array(M, V)
    la = V.angle('lat2', -1.5, 1.5)
    aa.lat = la; aa.update()
    b = [P[1][q] - P[0][q] for q in range(3)]; np_ = M.np
    ck.eq(aa.get_baseline(0, 1, 'z'), [b[1], -np_.sin(la)*b[0] + np_.cos(la)*b[2], np_.cos(la)*b[0] + np_.sin(la)*b[2]], 'zenith projection follows a new latitude')

def moved(M, V, ck):
    """Setting the time, the same one or another, uses the place the array has now."""
    mod = V.choose('mod', ['phs', 'amp']); m = getattr(M, mod); B = m.Beam(V.arr([0.1, 0.2])); P = pos(V, 2)
    aa = m.AntennaArray((V.angle('lat', -1.5, 1.5), V.angle('long', -3, 3)), [m.Antenna(p[0], p[1], p[2], B) for p in P])
    t = V.real('t', 2450000, 2460000); aa.set_jultime(t)
    aa.long = V.angle('long2', -3, 3); la = V.angle('lat2', -1.5, 1.5); aa.lat = la
    t2 = V.choose('again', [t, V.real('t2', 2450000, 2460000)]); how = V.choose('how', ['jul', 'ephem', 'now'])
    aa.update()
    if how == 'jul': aa.set_jultime(t2)
    elif how == 'ephem': aa.set_ephemtime(M.phs.juldate2ephem(t2))
    else: aa.set_jultime()
    b = [P[1][q] - P[0][q] for q in range(3)]; np_ = M.np
    ck.eq(aa.get_baseline(0, 1, 'e'), mv(lst_matrix(M, aa), b), 'projections use the present time and place', tol=1e-6)
    ck.eq(aa.get_baseline(0, 1, 'z'), [b[1], -np_.sin(la)*b[0] + np_.cos(la)*b[2], np_.cos(la)*b[0] + np_.sin(la)*b[2]], 'zenith projection uses the present place')
    if mod == 'amp':
        u = V.unit('u'); l = aa.sidereal_time(); c, s, cl, sl = np_.cos(l), np_.sin(l), np_.cos(la), np_.sin(la)
        e = -s*u[0] + c*u[1]; r = c*u[0] + s*u[1]
        ck.eq(np_.dot(aa.eq2top_m, u), [e, -sl*r + cl*u[2], cl*r + sl*u[2]], 'the sky matrix uses the present time and place')

SCENARIOS = [Scenario(g.__name__, g, stubs=STUBS) for g in (convert, settime, recompute, simcache, zenith, moved)]
