"""C36: weather records, station statistics, station search and degree days."""
import os, tempfile, datetime as dt, calendar, shutil, random, gzip
from collections import defaultdict
import fluids, fluids.design_climate as dcm
from fluids.design_climate import (heating_degree_days, cooling_degree_days, gsod_day_parser, StationDataGSOD, IntegratedSurfaceDatabaseStation,
                                   get_closest_station, get_stations, get_station_count, get_latlongs, get_station_year_text, gsod_fields)
from vf.core import *

P = Prop('C36', rule='Daily records in the fixed-width GSOD layout with every field present, flagged or missing, years 1929-2024; files of whole years with gaps; query points over the globe and on the equator and prime meridian. Non-trivial: a record with at least one missing or flagged field, a statistic over data with gaps, a query whose nearest station does not qualify.',
         assumptions=['the station list shipped in fluids/data is read independently; (0, 0) is a placeholder for an unknown position', 'nearest means the smallest difference in (latitude, longitude), as implemented'])
MILE, INCH, KNOT = 1609.344, .0254, 1852/3600
F2K = lambda f: (f + 459.67)/1.8
# field, width, decimals, missing marker, factor to SI, generator in tenths or hundredths
FL = {'TEMP': ('9999.9', F2K), 'DEWP': ('9999.9', F2K), 'SLP': ('9999.9', lambda v: v*100), 'STP': ('9999.9', lambda v: v*100), 'VISIB': ('999.9', lambda v: v*MILE),
      'WDSP': ('999.9', lambda v: v*KNOT), 'MXSPD': ('999.9', lambda v: v*KNOT), 'GUST': ('999.9', lambda v: v*KNOT), 'MAX': ('9999.9', F2K), 'MIN': ('9999.9', F2K),
      'PRCP': ('99.99', lambda v: v*INCH), 'SNDP': ('999.9', lambda v: v*INCH)}
def line_of(usaf, wban, date, v, c, ind, maxflag='', minflag='', pflag=''):
    """One record, by the column positions of the published layout."""
    f = lambda n, w, p: (FL[n][0] if v[n] is None else '%.*f' % (p, v[n])).rjust(w)
    s = '%-6s %-5s  %s  ' % (usaf, wban, date)
    for n, gap in (('TEMP', 2), ('DEWP', 2), ('SLP', 2), ('STP', 2)): s += f(n, 6, 1) + ' %2d' % c[n] + ' '*gap
    for n in ('VISIB', 'WDSP'): s += f(n, 5, 1) + ' %2d' % c[n] + '  '
    s += f('MXSPD', 5, 1) + '  ' + f('GUST', 5, 1) + '  ' + f('MAX', 6, 1) + (maxflag or ' ') + ' ' + f('MIN', 6, 1) + (minflag or ' ') + ' ' + f('PRCP', 5, 2) + (pflag or ' ') + ' ' + f('SNDP', 5, 1) + '  ' + ind
    return s
tenth = lambda a, b: ints(int(a*10), int(b*10)).map(lambda i: i/10)
TMP = tenth(-110., 130.)
PRS = opt(tenth(850, 1080) | tenth(990, 1005) | pick([999.9, 999.8, 1000.0, 99.9]))
DAYS = ints(0, 35000)
CNT = ints(4, 24)
REC = dict(day=DAYS, TEMP=opt(TMP), DEWP=opt(TMP), SLP=PRS, STP=PRS, VISIB=opt(tenth(0, 99)), WDSP=opt(tenth(0, 99.9)), MXSPD=opt(tenth(0, 150)), GUST=opt(tenth(0, 200)),
           MAX=opt(TMP), MIN=opt(TMP), PRCP=opt(ints(0, 2500).map(lambda i: i/100)), SNDP=opt(tenth(0, 99.9)), counts=flist(CNT, 6, 6), bits=ints(0, 63), mf=pick(['', '*']), nf=pick(['', '*']), pf=pick([''] + list('ABCDEFGHI')),
           ident=pick([['712650', '99999'], ['724050', '13743'], ['A00001', '00001']]), crlf=pick([True, False]))
def record(k):
    d = dt.date(1929, 1, 1) + dt.timedelta(days=k['day'])
    c = dict(zip(['TEMP', 'DEWP', 'SLP', 'STP', 'VISIB', 'WDSP'], k['counts'])); v = {n: k[n] for n in FL}
    for n in c: c[n] = 0 if v[n] is None else c[n]
    ind = format(k['bits'], '06b')
    return d, v, c, ind, line_of(k['ident'][0], k['ident'][1], d.strftime('%Y%m%d'), v, c, ind, k['mf'] if v['MAX'] is not None else '', k['nf'] if v['MIN'] is not None else '', k['pf'] if v['PRCP'] is not None else '')
@P.sub(rec(si=pick([True, False]), dtm=pick([True, False]), **REC), n=1200, thorough=20000)
def parse_day(ctx, si, dtm, **k):
    d, v, c, ind, line = record(k)
    if k['crlf']: line += '\n'
    got = gsod_day_parser(line, SI=si, to_datetime=dtm)
    ensure(got.DATE == (dt.datetime(d.year, d.month, d.day) if dtm else d.strftime('%Y%m%d')), 'date %r' % (got.DATE,))
    for n in FL:
        w = v[n]; g = getattr(got, n)
        if w is None: ensure(g is None, '%s is marked missing but parsed as %r' % (n, g))
        else:
            ensure(g is not None, '%s = %r was parsed as missing' % (n, w))
            close(g, FL[n][1](w) if si else w, 1e-12, 1e-12, n)
    for n in c: ensure(getattr(got, n + '_COUNT') == c[n] and type(getattr(got, n + '_COUNT')) is int, n + '_COUNT')
    for n, b in zip(['fog', 'rain', 'snow_ice', 'hail', 'thunder', 'tornado'], ind): ensure(getattr(got, n) is (b == '1'), 'indicator ' + n)
    if not (any(v[n] is None for n in FL) or k['mf'] or k['nf'] or k['pf']): ctx.trivial()
    ctx.label('SI' if si else 'as written')
YEARS = ints(1930, 2023)
def build(seed, y0, ny, density, missing):
    """Records of ny years: {date: (TEMP, WDSP)} and the text of each year's file."""
    r = random.Random(seed); data = {}; text = {}
    for y in range(y0, y0 + ny):
        out = ['STN--- WBAN   YEARMODA    TEMP       DEWP      SLP        STP       VISIB      WDSP     MXSPD   GUST    MAX     MIN   PRCP   SNDP   FRSHTT']
        dens = [density if r.random() < .6 else r.choice([1., 1., .7, .75]) for _ in range(12)]
        for doy in range(366 if calendar.isleap(y) else 365):
            d = dt.date(y, 1, 1) + dt.timedelta(days=doy)
            if r.random() > dens[d.month - 1]: continue
            v = {n: None for n in FL}; c = {n: 0 for n in FL}
            if r.random() > missing: v['TEMP'] = round(r.uniform(-40, 110), 1); c['TEMP'] = r.randint(4, 24)
            if r.random() > missing: v['WDSP'] = round(r.uniform(0, 40), 1); c['WDSP'] = r.randint(4, 24)
            data[d] = (v['TEMP'], v['WDSP']); out.append(line_of('712650', '99999', d.strftime('%Y%m%d'), v, c, '000000'))
        text[y] = '\n'.join(out) + '\n'
    return data, text
def averages(data, col, conv, lo, hi, mind, years):
    yearly = {}
    for y in years:
        if lo is not None and y < lo or hi is not None and y > hi: continue
        row = []
        for m in range(1, 13):
            vals = [conv(v[col]) for d, v in data.items() if d.year == y and d.month == m and v[col] is not None]
            row.append(sum(vals)/len(vals) if vals and len(vals) >= mind else None)
        yearly[y] = row
    means = []
    for m in range(12):
        vals = [row[m] for row in yearly.values() if row[m] is not None]
        means.append(sum(vals)/len(vals) if vals else None)
    return means, yearly
@P.sub(rec(seed=ints(0, 10**6), y0=YEARS, ny=ints(1, 4), density=uf(.6, 1.), missing=pick([0., .1, .3]), lo=opt(ints(-1, 3)), hi=opt(ints(0, 4)), mind=pick([1, 5, 10, 20, 23, 25]), m0=ints(1, 12), m1=ints(1, 12)), n=60, thorough=800)
def station_statistics(ctx, seed, y0, ny, density, missing, lo, hi, mind, m0, m1):
    data, text = build(seed, y0, ny, density, missing)
    years = range(y0, y0 + ny); lo = None if lo is None else y0 + lo; hi = None if hi is None else y0 + hi
    d = tempfile.mkdtemp(prefix='vf_c36_')
    try:
        for y, t in text.items():
            os.makedirs(os.path.join(d, str(y)))
            with open(os.path.join(d, str(y), '712650-99999.op'), 'w') as f: f.write(t)
        st = IntegratedSurfaceDatabaseStation('712650', None, 'X', 'CA', None, None, 50., -110., 100., int('%d%02d01' % (y0, m0)), int('%d%02d28' % (y0 + ny - 1, m1)) if ny > 1 or m1 > m0 else int('%d1231' % y0))
        sd = StationDataGSOD(st, data_dir_override=d)
        ensure(get_station_year_text(712650, None, y0, data_dir_override=d) == text[y0], 'text of a year')
    finally: shutil.rmtree(d)
    ensure(list(sd.year_range) == list(years), 'years')
    for day, v in data.items():
        p = sd.parsed_data[day.year][day.timetuple().tm_yday - 1]
        ensure(p is not None and p.DATE.date() == day, 'record of %s' % day)
    n = sum(1 for y in years for p in sd.parsed_data[y] if p is not None); ensure(n == len(data), '%d records, %d written' % (n, len(data)))
    kw = {}
    if lo is not None: kw['older_year'] = lo
    if hi is not None: kw['newer_year'] = hi
    done = 0
    for col, conv, f in ((0, F2K, sd.month_average_temperature), (1, lambda v: v*KNOT, sd.month_average_windspeed)):
        means, yearly = averages(data, col, conv, lo, hi, mind, years)
        if None in means: ctx.label('a month without data'); continue
        done += 1
        got, goty = f(include_yearly=True, minimum_days=mind, **kw); alone = f(minimum_days=mind, **kw)
        closes(got, means, 1e-12, what='monthly means'); ensure(alone == got, 'means alone')
        ensure(set(goty) == set(yearly), 'years in the yearly table %r, %r' % (sorted(goty), sorted(yearly)))
        for y in yearly:
            for a, b in zip(goty[y], yearly[y]):
                ensure((a is None) == (b is None), 'months with enough days in %d: %r, %r' % (y, goty[y], yearly[y]))
                if b is not None: close(a, b, 1e-12, what='mean of a month')
        if col == 0:
            c, w = sd.coldest_month(minimum_days=mind, **kw), sd.warmest_month(minimum_days=mind, **kw)
            close(means[c], min(means), 1e-12, what='coldest month'); close(means[w], max(means), 1e-12, what='warmest month')
            if abs(sorted(means)[0] - sorted(means)[1]) > 1e-6: ensure(c == means.index(min(means)), 'coldest month')
    if not done: ctx.trivial()
@P.sub(rec(usaf=pick('712650', '007018', '010010', 'A00001', '724050', '999999'), wban=pick('99999', '13743', '00001', '03017'), as_int=pick(True, False), year=YEARS, seed=ints(0, 10**6), state=pick('absent', 'absent', 'cached', 'failed', 'empty'), fails=ints(0, 2)), n=60, thorough=600)
def download(ctx, usaf, wban, as_int, year, seed, state, fails):
    """the file of a year is asked for under the identifiers by which the database lists the station, kept as served, and asked for again only after a failure"""
    text = build(seed, year, 1, .7, .1)[1][year]; asked = []
    class Served:
        def read(self): return gzip.compress(text.encode())
    def serve(url, *a, **k):
        asked.append(url)
        if len(asked) <= fails: raise OSError('no answer')
        return Served()
    W = int(usaf) if as_int and usaf.isdigit() else usaf; B = int(wban) if as_int else wban
    if usaf == '999999' and as_int: W = None
    if wban == '99999' and as_int: B = None
    d = tempfile.mkdtemp(prefix='vf_c36_'); keep = dcm.urlopen
    try:
        dcm.urlopen = serve
        if state != 'absent':
            os.makedirs(os.path.join(d, str(year)))
            with open(os.path.join(d, str(year), usaf + '-' + wban + '.op'), 'w') as f: f.write({'cached': text, 'failed': 'Exception', 'empty': ''}[state])
        if state == 'cached': fails = 0
        for _ in range(fails): raises(ValueError, get_station_year_text, W, B, year, data_dir_override=d)
        for _ in range(3): ensure(get_station_year_text(W, B, year, data_dir_override=d) == text, 'text of the year')
        ensure(len(asked) == (0 if state == 'cached' else fails + 1), '%d requests', len(asked))
        for u in asked: ensure(u.endswith('/%d/%s-%s-%d.op.gz' % (year, usaf, wban, year)), 'asked for %s', u)
    finally: dcm.urlopen = keep; shutil.rmtree(d)
    if state == 'cached' and not fails: ctx.trivial()
    ctx.label(state)
def independent_list():
    rows = []
    with open(os.path.join(os.path.dirname(fluids.__file__), 'data', 'isd-history-cleaned.tsv')) as f:
        for l in f:
            c = l.rstrip('\n').split('\t')
            if c[6] == '' or c[7] == '' or (float(c[6]) == 0 and float(c[7]) == 0): continue
            rows.append((float(c[6]), float(c[7]), int(float(c[10])), c))
    return rows
ROWS = independent_list()
import numpy as np
LL = np.array([r[:2] for r in ROWS]); ENDS = np.array([r[2] for r in ROWS])
LAT = inear(uf(-90, 90), [0., 90., -90.], 4); LON = inear(uf(-180, 180), [0., 180., -180.], 4)
NEARST = ints(0, len(ROWS) - 1)
@P.sub(rec(lat=LAT, lon=LON, near=opt(NEARST), special=opt(pick([i for i, r in enumerate(ROWS) if r[0] == 0 or r[1] == 0])), jit=uf(-.5, .5), date=pick([None, 0, 19500101, 20000101, 20140000, 20200101, 20241101]) | ints(19400101, 20241210), mm=pick([None, 1, 2, 10, 100, 1000])), n=600, thorough=10000)
def closest_station(ctx, lat, lon, near, special, jit, date, mm):
    if special is not None: near = special
    if near is not None: lat, lon = max(-90, min(90, LL[near][0] + jit)), max(-180, min(180, LL[near][1] - jit))
    lat, lon = float(lat), float(lon); kw = {}
    if date is not None: kw['minumum_recent_data'] = date
    if mm is not None: kw['match_max'] = mm
    m = 20140000 if date is None else date
    dist = np.hypot(LL[:, 0] - lat, LL[:, 1] - lon); ok = ENDS > m
    if not ok.any(): raises(ValueError, get_closest_station, lat, lon, **kw); return
    s = get_closest_station(lat, lon, **kw); best = dist[ok].min()
    ensure(s.END > m, 'station ends %r, wanted data after %r' % (s.END, m))
    close(np.hypot(s.LAT - lat, s.LON - lon), best, 1e-12, 1e-12, 'distance of the station found')
    if dist.min() == best: ctx.trivial()
@P.sub(rec(date=ints(20241206, 20991231), lat=LAT, lon=LON), n=5, thorough=20)
def no_station(ctx, date, lat, lon):
    if (ENDS > date).any(): return
    raises(ValueError, get_closest_station, lat, lon, date)
@P.sub(rec(i=NEARST, special=opt(pick([i for i, r in enumerate(ROWS) if r[0] == 0 or r[1] == 0]))), n=300, thorough=4000)
def station_list(ctx, i, special):
    i = i if special is None else special
    st = get_stations(); ensure(len(st) == get_station_count() == len(get_latlongs()) == len(ROWS), '%d stations listed, %d in the data' % (len(st), len(ROWS)))
    s, c = st[i], ROWS[i][3]
    num = lambda x: None if x == '' or float(x) == 99999 else float(x)
    txt = lambda x: None if x in ('', '99999') else x
    for a, w in (('NAME', txt(c[2])), ('CTRY', c[3] or None), ('ST', c[4] or None), ('ICAO', c[5] or None), ('LAT', float(c[6])), ('LON', float(c[7])), ('ELEV', num(c[8])), ('BEGIN', int(float(c[9]))), ('END', int(float(c[10]))), ('WBAN', txt(c[1]))):
        g = getattr(s, a)
        if a in ('CTRY', 'ST', 'ICAO', 'NAME') and not isinstance(g, str) and g is not None: continue
        ensure(g == w or (a == 'ELEV' and g is not None and w is not None and abs(g - w) < 1e-9), '%s of station %d: %r, the data has %r' % (a, i, g, w))
    ensure(str(s.USAF) == c[0] or s.USAF == (int(c[0]) if c[0].isdigit() else c[0]), 'USAF %r, %r' % (s.USAF, c[0]))
    ensure(tuple(get_latlongs()[i]) == ROWS[i][:2], 'coordinates')
TK = inear(uf(150, 350), [291.4833333333333, 283.15], 5)
@P.sub(rec(T=TK, Tb=opt(TK), tr=opt(pick([True, False]))), n=500, thorough=5000)
def degree_days(ctx, T, Tb, tr):
    kw = {}
    if Tb is not None: kw['T_base'] = Tb
    if tr is not None: kw['truncate'] = tr
    h, c = T - (291.4833333333333 if Tb is None else Tb), (283.15 if Tb is None else Tb) - T
    if tr is not False: h, c = max(h, 0.), max(c, 0.)
    close(heating_degree_days(T, **kw), h, 1e-13, 1e-12, 'heating degree days'); close(cooling_degree_days(T, **kw), c, 1e-13, 1e-12, 'cooling degree days')
    ctx.label('default base' if Tb is None else 'given base')
STN = rec(usaf=pick('712650', '007018', '010010', 'A00001', '724050', '999999'), wban=pick('99999', '13743', '00001', '03017'), name=pick('CALGARY INTL CS', 'CENTRAL COLORADO REGIONAL AP', 'ST. JOHN\'S, WEST', 'X', ''), ctry=pick('US', 'CA', 'NO', 'UK', ''), st=pick('', 'CO', 'VA'), icao=pick('', 'KBUF', 'CYYC'), lat=opt(ints(-90000, 90000)), lon=opt(ints(-180000, 180000)), zero=pick(False, False, False, True), elev=opt(ints(-3000, 50000)), begin=ints(1930, 2000), years=ints(0, 24))
from hypothesis import strategies as hs
@P.sub(rec(s=hs.lists(STN, min_size=3, max_size=12)), n=100, thorough=1000)
def refreshed_list(ctx, s):
    """the list of stations as published, cleaned and loaded: every located station, with what was published on it"""
    t = tempfile.mkdtemp(); keep = {k: getattr(dcm, k) for k in ('folder', '_stations', '_latlongs', '_station_count', '_kd_tree')}
    try:
        want = []; p = os.path.join(t, 'isd-history.csv')
        with open(p, 'w') as f:
            f.write('"USAF","WBAN","STATION NAME","CTRY","STATE","ICAO","LAT","LON","ELEV(M)","BEGIN","END"\n')
            for q in s:
                la, lo = (0, 0) if q['zero'] else (q['lat'], q['lon']); b, e = q['begin']*10000 + 101, (q['begin'] + q['years'])*10000 + 1231
                f.write(','.join('"%s"' % v for v in (q['usaf'], q['wban'], q['name'], q['ctry'], q['st'], q['icao'], '' if la is None else '%+07.3f' % (la/1000), '' if lo is None else '%+08.3f' % (lo/1000), '' if q['elev'] is None else '%+07.1f' % (q['elev']/10), b, e)) + '\n')
                if la is not None and lo is not None and (la or lo): want.append((q, la/1000, lo/1000, b, e))
        if not want: raise SkipCase
        dcm.get_clean_isd_history(dest=os.path.join(t, 'isd-history-cleaned.tsv'), url=p)
        dcm.folder = t; dcm._stations = dcm._latlongs = dcm._station_count = dcm._kd_tree = None
        got = get_stations(); ensure(len(got) == len(want) == get_station_count() == len(get_latlongs()), '%d stations of %d loaded', len(got), len(want))
        for g, (q, la, lo, b, e) in zip(got, want):
            close(g.LAT, la, 1e-12, 1e-12, 'latitude'); close(g.LON, lo, 1e-12, 1e-12, 'longitude'); ensure((g.BEGIN, g.END) == (b, e), 'period of record')
            ensure(g.USAF == (None if q['usaf'] == '99999' else int(q['usaf']) if q['usaf'].isdigit() else q['usaf']), 'USAF %r', g.USAF); ensure(g.WBAN == (None if q['wban'] == '99999' else q['wban']), 'WBAN %r', g.WBAN)
            for a, v in (('NAME', q['name']), ('CTRY', q['ctry']), ('ST', q['st']), ('ICAO', q['icao'])): ensure(getattr(g, a) == (v or None), '%s %r', a, getattr(g, a))
            ensure((g.ELEV is None) == (q['elev'] is None) and (g.ELEV is None or abs(g.ELEV - q['elev']/10) < 1e-9), 'elevation %r', g.ELEV)
        q, la, lo, b, e = want[0]; z = get_closest_station(la, lo, 0); close(np.hypot(z.LAT - la, z.LON - lo), 0, 0, 1e-9, 'nearest of the new list')
        ctx.nontrivial(len(want) < len(s))
    finally:
        for k, v in keep.items(): setattr(dcm, k, v)
        shutil.rmtree(t)
ADDR = pick('Houston, TX', 'Fredericton, NB', 'Colombia', '02138', '2138', '1000', '1e3', '1000.0', '0x10', "O'Fallon; DROP TABLE geopy; --", 'Zürich', ' Zürich', 'zürich', '', '77001', '77001-2345', '-5', '1 000')
class Geocoder:
    def __init__(self): self.asked = []
    def geocode(self, a): self.asked.append(a); i = abs(hash_of(a)); return type('L', (), dict(latitude=(i % 180001)/1000 - 90, longitude=(i//7 % 360001)/1000 - 180))()
def hash_of(a): return int.from_bytes(__import__('hashlib').md5(a.encode()).digest()[:6], 'big')
@P.sub(rec(ops=hs.lists(hs.tuples(ADDR, pick('ask', 'ask', 'ask', 'reopen', 'offline')).map(list), min_size=2, max_size=12), broken=pick(False, False, False, True)), n=100, thorough=1000)
def geocoding(ctx, ops, broken):
    """each address keeps its own coordinates, asked for once, over restarts and without the service"""
    t = tempfile.mkdtemp(); keep = {k: getattr(dcm, k) for k in ('geolocator', 'simple_geopy_cache', 'geolocator_disk_cache_loc')}; g = Geocoder(); known = []
    try:
        dcm.geolocator_disk_cache_loc = os.path.join(t, 'no', 'such') if broken else os.path.join(t, 'cache.sqlite3'); dcm.simple_geopy_cache = None; off = 0
        for a, op in ops:
            if op == 'reopen':
                if dcm.simple_geopy_cache is not None: dcm.simple_geopy_cache.connection.close()
                dcm.simple_geopy_cache = None
            if op == 'offline' and a not in known: continue
            dcm.geolocator = g; n = len(g.asked); w = Geocoder().geocode(a); got = dcm.geocode(a)
            ensure(tuple(got) == (w.latitude, w.longitude), '%r located at %r, the service says %r', a, got, (w.latitude, w.longitude))
            ensure(broken or g.asked[n:] == ([] if a in known else [a]), 'service asked %r for %r', g.asked[n:], a)
            off += a in known
            if a not in known: known.append(a)
        ctx.nontrivial(len(known) > 1 and off > 0)
    finally:
        if dcm.simple_geopy_cache is not None: dcm.simple_geopy_cache.connection.close()
        for k, v in keep.items(): setattr(dcm, k, v)
        shutil.rmtree(t)
