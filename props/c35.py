"""C35: sun position, day events and irradiation."""
import datetime as dt, calendar
from math import sin, cos, tan, asin, acos, atan2, radians, degrees, pi, exp, isnan
import fluids
from fluids.atmosphere import solar_position, sunrise_sunset, solar_irradiation, earthsun_distance
from fluids.optional import spa as live, irradiance as irr
from props.ref import spa as frozen
from vf.core import *

P = Prop('C35', rule='Moments from year 100 to 5900 (the low-precision astronomical model is used 1900-2100), every latitude and longitude incl. poles, equator and date line, every whole-minute time zone offset within +-14 h, elevations -400..9000 m. Non-trivial: distinct moments and places; night-time irradiation cases are trivial.',
         assumptions=['a frozen copy of the published Solar Position Algorithm (tables and formulas) is the exact reference; Meeus low-precision formulas are the independent one (0.02 degrees)',
                      'moments are whole seconds: the implementation ignores fractions of a second'])
AU = 149597870691.
EPOCH = dt.datetime(1970, 1, 1)
T0, T1 = calendar.timegm((100, 1, 1, 0, 0, 0)), calendar.timegm((5900, 1, 1, 0, 0, 0))
M0, M1 = calendar.timegm((1900, 1, 2, 0, 0, 0)), calendar.timegm((2099, 12, 30, 0, 0, 0))
NOW = ints(M0, M1)
TIME = ints(T0, T1) | NOW
LAT, LON = inear(uf(-90, 90), [0., 90., -90., 66.5, 23.44], 6), inear(uf(-180, 180), [0., 180., -180.], 6)
def moment(t, off=None):
    m = EPOCH + dt.timedelta(seconds=t)
    if off is None: return m
    return m.replace(tzinfo=dt.timezone.utc).astimezone(dt.timezone(dt.timedelta(minutes=off)))
def dtx(t): m = moment(t); return frozen.calculate_deltat(m.year, m.month)
OFF = opt(ints(-14*60, 14*60))
def angdiff(a, b): return (a - b + 180) % 360 - 180
@P.sub(rec(t=TIME, lat=LAT, lon=LON, off=OFF, Z=opt(uf(-400, 9000)), T=opt(uf(220, 325)), Pr=opt(uf(2e4, 1.1e5)), ar=opt(uf(0, 1))), n=500, thorough=8000)
def position(ctx, t, lat, lon, off, Z, T, Pr, ar):
    kw = {k: v for k, v in dict(Z=Z, T=T, P=Pr, atmos_refract=ar).items() if v is not None}
    got = solar_position(moment(t, off), lat, lon, **kw)
    w = frozen.solar_position(t, lat, lon, 0. if Z is None else Z, (101325. if Pr is None else Pr)/100, (298.15 if T is None else T) - 273.15, dtx(t), .5667 if ar is None else ar)
    w[-1] *= 60
    for n, a, b in zip(['apparent zenith', 'zenith', 'apparent altitude', 'altitude'], got, w): close(a, b, 0, 1e-7, n)
    close(got[5], w[5], 0, 1e-4, 'equation of time')
    if sin(radians(w[1])) > 1e-6 and abs(lat) < 89.999: ensure(abs(angdiff(got[4], w[4])) < 1e-7/sin(radians(w[1])), 'azimuth %r, reference %r' % (got[4], w[4]))
    close(got[0] + got[2], 90, 0, 1e-10, 'apparent zenith and altitude'); close(got[1] + got[3], 90, 0, 1e-10, 'zenith and altitude')
    ensure(0 <= got[4] <= 360, 'azimuth %r' % got[4]); ensure(got[2] >= got[3] - 1e-12, 'refraction lowers the sun')
    ctx.label('zoned' if off is not None else 'naive UTC'); ctx.label('day' if got[3] > 0 else 'night')
def meeus(t, lat, lon):
    """Low precision sun (Meeus, Astronomical Algorithms ch. 25 and 28), degrees."""
    jd = t/86400 + 2440587.5; T = (jd + 60/86400 - 2451545)/36525
    L0 = 280.46646 + 36000.76983*T + .0003032*T*T; M = radians(357.52911 + 35999.05029*T - .0001537*T*T); e = .016708634 - .000042037*T
    C = (1.914602 - .004817*T)*sin(M) + (.019993 - .000101*T)*sin(2*M) + .000289*sin(3*M)
    R = 1.000001018*(1 - e*e)/(1 + e*cos(M + radians(C)))
    om = radians(125.04 - 1934.136*T); lam = radians(L0 + C - .00569 - .00478*sin(om)); eps = radians(23.439291 - .0130042*T + .00256*cos(om))
    ra = atan2(cos(eps)*sin(lam), cos(lam)); dec = asin(sin(eps)*sin(lam))
    g = 280.46061837 + 360.98564736629*(jd - 2451545); H = radians(g + lon) - ra; la = radians(lat)
    v = (cos(dec)*sin(H), cos(dec)*cos(H), sin(dec))
    alt = asin(max(-1, min(1, sin(la)*sin(dec) + cos(la)*cos(dec)*cos(H))))
    az = (degrees(atan2(sin(H), cos(H)*sin(la) - tan(dec)*cos(la))) + 180) % 360
    eot = angdiff(L0 - .0057183, degrees(ra) ) *240   # seconds, before nutation
    return degrees(alt) - 8.794/3600*cos(alt), az, R, eot
@P.sub(rec(t=NOW, lat=LAT, lon=LON, off=OFF), n=400, thorough=6000)
def independent(ctx, t, lat, lon, off):
    m = moment(t, off); got = solar_position(m, lat, lon)
    alt, az, R, eot = meeus(t, lat, lon)
    close(got[3], alt, 0, .02, 'altitude of the sun')
    if sin(radians(got[1])) > .01 and abs(lat) < 89.9: ensure(abs(angdiff(got[4], az))*sin(radians(got[1])) < .02, 'azimuth %r, independent model %r' % (got[4], az))
    close(earthsun_distance(m)/AU, R, 0, 2.5e-4, 'distance to the sun'); close(got[5], eot, 0, 8, 'equation of time')
@P.sub(rec(t=TIME, us=ints(0, 999999), off=OFF), n=200, thorough=2000)
def nutation_and_day(ctx, t, us, off):
    """the separate nutation functions and the day number from a calendar date agree with the ones the solar position uses"""
    m = moment(t); jd = live.julian_day_dt(m.year, m.month, m.day, m.hour, m.minute, m.second, us)
    close(jd, (t + us/1e6)/86400 + 2440587.5, 0, 3e-9, 'Julian day of a date'); close(live.julian_day(t), t/86400 + 2440587.5, 0, 3e-9, 'Julian day of a time')
    jc = frozen.julian_ephemeris_century(frozen.julian_ephemeris_day(frozen.julian_day(t), dtx(t)))
    x = [getattr(frozen, n)(jc) for n in ('mean_elongation', 'mean_anomaly_sun', 'mean_anomaly_moon', 'moon_argument_latitude', 'moon_ascending_longitude')]
    w = frozen.longitude_obliquity_nutation(jc, *x); got = live.longitude_obliquity_nutation(jc, *x)
    closes(got, w, 1e-9, 1e-12, 'nutation'); close(live.longitude_nutation(jc, *x), w[0], 1e-9, 1e-12, 'nutation in longitude'); close(live.obliquity_nutation(jc, *x), w[1], 1e-9, 1e-12, 'nutation in obliquity')
    ctx.nontrivial(True)
@P.sub(rec(t=TIME, off=OFF), n=200, thorough=2000)
def distance(ctx, t, off):
    w = frozen.earthsun_distance(t, dtx(t))*AU
    close(earthsun_distance(moment(t, off)), w, 2e-9, 0, 'earth-sun distance')
    ensure(.97*AU < w < 1.03*AU, 'distance %r' % w)
@P.sub(rec(t=TIME, lat=LAT, lon=LON, o1=ints(-840, 840), o2=ints(-840, 840)), n=200, thorough=2000)
def zones(ctx, t, lat, lon, o1, o2):
    a, b, c = (solar_position(m, lat, lon) for m in (moment(t), moment(t, o1), moment(t, o2)))
    ensure(list(a) == list(b) == list(c), 'the same instant in other zones: %r %r %r' % (a, b, c))
    if o1 == o2: ctx.trivial()
DT = [(-1e9, -500, lambda y: -20 + 32*((y - 1820)/100)**2), (-500, 500, lambda y: poly(y/100, 10583.6, -1014.41, 33.78311, -5.952053, -.1798452, .022174192, .0090316521)),
      (500, 1600, lambda y: poly((y - 1000)/100, 1574.2, -556.01, 71.23472, .319781, -.8503463, -.005050998, .0083572073)), (1600, 1700, lambda y: poly(y - 1600, 120, -.9808, -.01532, 1/7129)),
      (1700, 1800, lambda y: poly(y - 1700, 8.83, .1603, -.0059285, .00013336, -1/1174000)), (1800, 1860, lambda y: poly(y - 1800, 13.72, -.332447, .0068612, .0041116, -.00037436, .0000121272, -.0000001699, .000000000875)),
      (1860, 1900, lambda y: poly(y - 1860, 7.62, .5737, -.251754, .01680668, -.0004473624, 1/233174)), (1900, 1920, lambda y: poly(y - 1900, -2.79, 1.494119, -.0598939, .0061966, -.000197)),
      (1920, 1941, lambda y: poly(y - 1920, 21.20, .84493, -.0761, .0020936)), (1941, 1961, lambda y: poly(y - 1950, 29.07, .407, -1/233, 1/2547)), (1961, 1986, lambda y: poly(y - 1975, 45.45, 1.067, -1/260, -1/718)),
      (1986, 2005, lambda y: poly(y - 2000, 63.86, .3345, -.060374, .0017275, .000651814, .00002373599)), (2005, 2050, lambda y: poly(y - 2000, 62.92, .32217, .005589)),
      (2050, 2150, lambda y: -20 + 32*((y - 1820)/100)**2 - .5628*(2150 - y)), (2150, 1e9, lambda y: -20 + 32*((y - 1820)/100)**2)]
def poly(x, *c): return sum(k*x**i for i, k in enumerate(c))
@P.sub(rec(year=ints(-1900, 3000) | pick(*[int(a) + d for a, _, _ in DT[1:] for d in (-1, 0, 1)]), month=ints(1, 12)), n=500)
def delta_t(ctx, year, month):
    f = [f for a, b, f in DT if a <= year < b][0]
    close(live.calculate_deltat(year, month), f(year + (month - .5)/12), 1e-10, 1e-9, 'delta T in %d-%d' % (year, month))
def alt_at(t, lat, lon):
    """Geocentric geometric altitude of the sun's centre from the frozen reference, fractions of a second included."""
    v, al, de = frozen.solar_position(t, 0, 0, 0, 0, 0, dtx(int(t)), 0, sst=True)
    H = radians(v + lon - al); return degrees(asin(sin(radians(lat))*sin(radians(de)) + cos(radians(lat))*cos(radians(de))*cos(H))), degrees(H)
def secs(m):
    if m.tzinfo is not None: m = m.astimezone(dt.timezone.utc).replace(tzinfo=None)
    return (m - EPOCH).total_seconds()
@P.sub(rec(day=ints(M0//86400, M1//86400), sec=ints(0, 86399), lat=inear(uf(-58, 58), [0.], 6), lon=LON, off=OFF, known=False), n=300, thorough=5000)
def events(ctx, day, sec, lat, lon, off, known):
    m = moment(day*86400 + sec, off)
    rise, set_, tr = sunrise_sunset(m, lat, lon)
    r, s, n = map(secs, (rise, set_, tr))
    # the UTC day the events are reported for
    want_day = day
    if not known and off is not None:
        other = (day*86400 + sec + 2*60*off)//86400     # known finding: the offset is added where it should be removed
        if abs(n - frozen.transit_sunrise_sunset(other*86400, lat, lon, dtx(other*86400))[0]) < 1: want_day = other
    w = frozen.transit_sunrise_sunset(want_day*86400, lat, lon, dtx(want_day*86400))
    ensure(w[0] - 1e-3 <= n <= w[0] + 1e-3, 'transit %r for UTC day %d, expected %r' % (tr, want_day, w[0])); close(r, w[1], 0, 1e-3, 'sunrise'); close(s, w[2], 0, 1e-3, 'sunset')
    ensure((rise.tzinfo is None) == (off is None), 'time zone of the answer')
    if off is not None: ensure(rise.utcoffset() == m.utcoffset(), 'time zone of the answer')
    ensure(-60 <= n - want_day*86400 < 86400 + 60, 'transit outside of the day')
    ensure(r < n < s, 'sunrise, transit and sunset out of order')
    for what, x in (('sunrise', r), ('sunset', s)):
        f = x - want_day*86400
        inside = 300 < f < 86100
        ctx.label('event on the UTC day' if inside else 'event on a neighbouring UTC day')
        # known finding: an event falling on a neighbouring UTC day is computed with the declination of one day off
        close(alt_at(x, lat, lon)[0], -.8333, 0, .01 if inside or known else .45, 'altitude of the sun at %s' % what)
    ensure(abs(angdiff(alt_at(n, lat, lon)[1], 0)) < .01, 'hour angle %r at transit' % alt_at(n, lat, lon)[1])
    ensure(alt_at(r + 600, lat, lon)[0] > alt_at(r - 600, lat, lon)[0], 'the sun does not rise at sunrise'); ensure(alt_at(s + 600, lat, lon)[0] < alt_at(s - 600, lat, lon)[0], 'the sun does not set at sunset')
    ctx.label('zoned' if off is not None else 'naive')
def ineichen(z, am, tl, h, I0):
    if isnan(am): return 0., 0., 0.
    cz = max(cos(radians(z)), 0.); f1, f2 = exp(-h/8000), exp(-h/1250)
    ghi = (5.09e-5*h + .868)*I0*cz*exp(-(3.92e-5*h + .0387)*am*(f1 + f2*(tl - 1)))*exp(.01*am**1.8)
    b = max(I0*(.664 + .163/f1)*exp(-.09*am*(tl - 1)), 0.)
    b2 = ghi*min((1 - (.1 - .2*exp(-tl))/(.1 + .882/f1))/cz, 1e20) if cz > 0 else 0.
    dni = min(b, b2); return ghi, dni, ghi - dni*cz
@P.sub(rec(t=NOW, lat=LAT, lon=LON, off=OFF, Z=uf(0, 5000, (0.,)), tilt=inear(uf(0, 180), [0., 90., 41.], 6), az=inear(uf(0, 360), [180., 0.], 6), T=uf(230, 320), Pr=uf(5e4, 1.05e5), I0=opt(uf(1300, 1400)), alb=opt(uf(0, 1)), tl=uf(1, 8), aim=pick(False, False, True), cached=pick(False, False, True), noon=pick(True, True, False)), n=500, thorough=6000)
def irradiation(ctx, t, lat, lon, off, Z, tilt, az, T, Pr, I0, alb, tl, aim, cached, noon):
    if noon: t = int(t//86400*86400 + (43200 - 240*lon + (t % 86400 - 43200)*.4) % 86400)
    m = moment(t, off); kw = {k: v for k, v in dict(solar_constant=I0, albedo=alb).items() if v is not None}
    pos = solar_position(m, lat, lon, Z, T, Pr)
    if aim: tilt, az = pos[0], pos[4]
    if cached: kw['cache'] = {'apparent_zenith': pos[0], 'zenith': pos[1], 'azimuth': pos[4]}
    g = solar_irradiation(lat, lon, Z, m, tilt, az, T=T, P=Pr, linke_turbidity=tl, **kw)
    tot, direct, diff, sky, ground = g
    close(tot, direct + diff, 1e-12, 1e-12, 'total'); close(diff, sky + ground, 1e-12, 1e-12, 'diffuse')
    z = pos[0]; k = 6.07995 + 90 - z
    am = 1/(cos(radians(z)) + .50572*k**-1.6364)*Pr/101325 if k > 0 else float('nan')
    ghi, dni, dhi = ineichen(z, am, tl, Z, I0 or 1366.1)
    ct = cos(radians(tilt)); inc = ct*cos(radians(z)) + sin(radians(tilt))*sin(radians(z))*cos(radians(pos[4] - az))
    close(direct, max(dni*inc, 0), 1e-7, 2e-7*(1 + dni), 'direct'); close(sky, dhi*(1 + ct)/2, 1e-9, 1e-9*(1 + ghi), 'sky diffuse'); close(ground, ghi*(.25 if alb is None else alb)*(1 - ct)/2, 1e-9, 1e-9*(1 + ghi), 'ground diffuse')
    if ghi == 0: ctx.trivial(); ctx.label('night')
    else: ctx.label('facing the sun' if aim else 'day')
@P.sub(rec(m=pick('', 'nope', 'kastenyoung', 'simple2'), t=NOW, lat=LAT), n=20)
def bad_model(ctx, m, t, lat):
    raises(ValueError, solar_irradiation, latitude=lat, longitude=0., Z=0., moment=moment(t), surface_tilt=0., surface_azimuth=0., T=300., P=1e5, linke_turbidity=3., airmass_model=m, what='airmass model %r' % m)
@P.sub(rec(day=ints(1, 365), day2=ints(1, 365), year=ints(1950, 2090), I0=uf(1300, 1400), zen=uf(0, 85), tl=uf(1, 8), Z=uf(0, 3000), known=False), n=150, thorough=2000)
def earth_position(ctx, day, day2, year, I0, zen, tl, Z, known):
    """Spencer's series for the extraterrestrial irradiance; known finding: solar_irradiation computes it and then uses the bare solar constant"""
    def spencer(d):
        B = 2*math.pi/365*(d - 1); return 1.00011 + .034221*cos(B) + .00128*sin(B) + .000719*cos(2*B) + .000077*sin(2*B)
    d1, d2 = (dt.datetime(year, 1, 1, 12) + dt.timedelta(days=d - 1) for d in (day, day2))
    if not known:
        import fluids.atmosphere
        f = getattr(fluids.atmosphere, '_get_extra_radiation_shim', None)
        if f is None: ctx.trivial(); return
        close(f(day, solar_constant=I0), I0*spencer(day), 1e-9, 0, 'extraterrestrial irradiance for a day number'); close(f(d2, solar_constant=I0), I0*spencer(day2), 1e-9, 0, 'extraterrestrial irradiance for a date')
        ctx.label('early' if day < 183 else 'late'); return
    pos = dict(apparent_zenith=zen, zenith=zen, azimuth=180.)
    a, b = (solar_irradiation(40., 0., Z, m, 30., 180., T=290., P=1e5, linke_turbidity=tl, solar_constant=I0, cache=dict(pos))[0] for m in (d1, d2))
    close(a/b, spencer(day)/spencer(day2), 2e-3, 0, 'irradiation on day %d over that on day %d with the sun at the same place in the sky' % (day, day2))
