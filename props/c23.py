"""C23: exchanger, coil, tower and shape geometry: attributes derived from any sufficient specification satisfy the geometry."""
from math import *
from fluids import geometry as g
from vf.core import *
from vf.solids import integ
import numpy as np
P = Prop('C23', rule='Dimensions over three decades, every pair of sufficient specifications, counts 1..60, tube pitch angles 5..85 degrees and the named ones. Non-trivial: all cases (no degenerate dimensions are drawn) except rejected specifications.')
# --- helical coil
@P.sub(rec(Dt=lf(.002, .2), k=lf(1.05, 50.), N=lf(.5, 60.), pr=lf(1.01, 20.), vert=pick('N,pitch', 'N,H', 'N,H_total', 'H,pitch', 'H_total,pitch'), dia=pick('Do', 'Do_total'), Di=opt(uf(.3, .97))), n=300)
def helical(ctx, Dt, k, N, pr, vert, dia, Di):
    Do, pitch = Dt*k, Dt*pr; H = N*pitch; v = dict(N=N, pitch=pitch, H=H, H_total=H + Dt, Do=Do, Do_total=Do + Dt)
    c = g.HelicalCoil(Dt=Dt, **{x: v[x] for x in vert.split(',') + [dia]}, **({'Di': Di*Dt} if Di else {}))
    for n, w in dict(v, Dt=Dt).items(): close(getattr(c, n), w, 1e-9, what=n)
    # the centre line of a helix: length by integration of its parametrisation
    L = N*integ(lambda t: np.hypot(pi*Do, pitch) + 0*t, 0., 1.)
    close(c.tube_length, L, 1e-9, what='tube_length'); close(c.tube_circumference, pi*Do, 1e-9, what='circumference of one turn')
    close(tan(c.helix_angle), pitch/(pi*Do), 1e-9, what='helix angle'); close(c.tube_length*sin(c.helix_angle), H, 1e-8, what='rise along the tube')
    close(c.curvature, Dt/Do/(1 + 4*pi**2*(pitch/(pi*Do))**2), 1e-9, what='curvature')
    close(c.surface_area, pi*Dt*L, 1e-9, what='surface area'); close(c.total_inlet_area, pi/4*Dt**2, 1e-9, what='total inlet area'); close(c.total_volume, pi/4*Dt**2*L, 1e-9, what='total volume')
    if Di:
        d = Di*Dt; close(c.Di, d, 1e-12, what='Di')
        close(c.inner_surface_area, pi*d*L, 1e-9, what='inner surface'); close(c.inlet_area, pi/4*d*d, 1e-9, what='inlet area'); close(c.inner_volume, pi/4*d*d*L, 1e-9, what='inner volume')
        close(c.annulus_area, pi/4*(Dt**2 - d*d), 1e-8, what='annulus area'); close(c.annulus_volume, c.total_volume - c.inner_volume, 1e-8, what='annulus volume')
    ctx.nontrivial(True)
@P.sub(rec(Dt=lf(.002, .2), N=lf(2., 60.), x=uf(.05, .95), which=pick(range(6))), n=120)
def helical_rejects(ctx, Dt, N, x, which):
    bad = [dict(H=N*Dt*x, N=N, Do=9*Dt), dict(H=N*Dt, pitch=x*Dt, Do=9*Dt), dict(H=4*N*Dt, N=N, Do=x*Dt), dict(H=4*N*Dt, N=N), dict(N=N, Do=9*Dt), dict(H_total=N*Dt*x + Dt, N=N, Do_total=9*Dt)][which]
    raises(ValueError, g.HelicalCoil, Dt=Dt, what='%r' % bad, **bad); ctx.nontrivial(True)
# --- plate exchanger
@P.sub(rec(a=lf(1e-4, 1e-2), gam=lf(.05, 2.), b1=uf(5., 85.), b2=opt(uf(5., 85.)), width=opt(lf(.05, 3.)), length=opt(lf(.1, 5.)), d=opt(lf(.01, .3)), plates=opt(ints(3, 400)), th=opt(lf(1e-4, 1e-2))), n=300)
def plate(ctx, a, gam, b1, b2, width, length, d, plates, th):
    wl = 4*a/gam
    kw = dict(chevron_angle=b1) if b2 is None else dict(chevron_angles=(b1, b2))
    for n, v in (('width', width), ('length', length), ('d_port', d), ('plates', plates), ('thickness', th)):
        if v is not None: kw[n] = v
    e = g.PlateExchanger(amplitude=a, wavelength=wl, **kw)
    # arc length of one wave over its projection
    phi = integ(lambda t: np.sqrt(1 + (2*pi*a/wl*np.cos(2*pi*t))**2), 0., .25)*4
    close(e.plate_enlargement_factor, phi, 1e-9, what='enlargement factor'); close(g.plate_enlargement_factor(a, wl), phi, 1e-9, what='enlargement factor function'); ensure(e.plate_enlargement_factor > 1, 'enlargement below 1')
    ident = 'L%sA%sB%s-%s' % (round(wl*1000, 2), round(a*1000, 2), b1, b1 if b2 is None else b2); ensure(e.plate_exchanger_identifier == ident, 'identifier %s, expected %s', e.plate_exchanger_identifier, ident)
    want = dict(amplitude=a, a=a, b=2*a, wavelength=wl, pitch=wl, gamma=gam, plate_corrugation_aspect_ratio=gam, D_eq=4*a, D_hydraulic=4*a/phi)
    beta = b1 if b2 is None else (b1 + b2)/2; want.update(chevron_angle=beta, beta=beta, inclination_angle=90 - beta)
    if width: want.update(width=width, A_channel_flow=2*a*width)
    if length: want.update(length=length)
    if width and length:
        want.update(A_plate_surface=width*length*phi)
        if plates: want.update(A_heat_transfer=width*length*phi*(plates - 2))
    if d: want.update(d_port=d)
    if d and length: want.update(length_port=length + d)
    if plates: want.update(plates=plates, channels=plates - 1, channels_per_fluid=(plates - 1)/2)
    if th: want.update(thickness=th)
    for n, w in want.items(): close(getattr(e, n), w, 1e-9, what=n)
    ensure(tuple(e.chevron_angles) == ((b1, b1) if b2 is None else (b1, b2)), 'chevron angles %r', e.chevron_angles); ctx.nontrivial(True)
# --- fins
fins = dict(h=lf(.002, .05), tr=uf(.01, .3), sr=lf(.1, 3.), length=opt(lf(.05, 3.)), width=opt(lf(.05, 3.)), layers=opt(ints(1, 80)), pt=opt(lf(1e-4, 1e-2)))
def overall(e, s, h, length, width, layers, pt, per_fin):
    close(e.fin_count, 1/s, 1e-9, what='fin density')
    if pt: close(e.layer_thickness, h + pt, 1e-9, what='layer thickness')
    if length and width:
        n = round(width/s, 0); ensure(abs(e.layer_fin_count - n) <= (1 if abs(width/s % 1 - .5) < 1e-6 else 0), 'fins per layer %r of %r', e.layer_fin_count, width/s); n = e.layer_fin_count
        close(e.A_HX_layer, n*per_fin*length, 1e-9, what='area per layer')
        if layers:
            close(e.A_HX, layers*n*per_fin*length, 1e-9, what='area')
            if pt:
                H = layers*(h + pt) + pt; close(e.height, H, 1e-9, what='stack height'); close(e.volume, H*length*width, 1e-9, what='volume'); close(e.A_specific_HX, layers*n*per_fin*length/(H*length*width), 1e-9, what='specific area')
    for n, v in (('length', length), ('L', length), ('width', width), ('W', width), ('layers', layers), ('plate_thickness', pt)): ensure(getattr(e, n) == v, '%s is %r, given %r', n, getattr(e, n), v)
@P.sub(rec(**fins), n=200)
def rectangular_fin(ctx, h, tr, sr, length, width, layers, pt):
    s = h*sr; t = tr*min(s, h); e = g.RectangularFinExchanger(h, t, s, length, width, layers, pt)
    A, Pm = (s - t)*(h - t), 2*(s + h - 2*t)
    for n, w in dict(fin_height=h, fin_thickness=t, fin_spacing=s, channel_height=h - t, channel_width=s - t, A_channel=A, P_channel=Pm, Dh=4*A/Pm, blockage_ratio=A/(s*h)).items(): close(getattr(e, n), w, 1e-9, what=n)
    overall(e, s, h, length, width, layers, pt, Pm); ctx.nontrivial(True)
@P.sub(rec(lr=lf(.1, 10.), **fins), n=200)
def offset_strip_fin(ctx, h, tr, sr, length, width, layers, pt, lr):
    s = h*sr; t = tr*min(s, h)*.9; l = lr*h; e = g.RectangularOffsetStripFinExchanger(l, h, t, s, length, width, layers, pt)
    A, Pm = (s - t)*(h - t), 2*(s + h - 2*t)
    S = 2*(l*(h - t) + l*(s - t) + t*(h - t)) + t*(s - 2*t)
    for n, w in dict(fin_length=l, fin_height=h, fin_thickness=t, fin_spacing=s, A_channel=A, P_channel=Pm, A=S, Dh=4*l*A/S, Dh_Kays_London=4*A/Pm, alpha=s/h, delta=t/l, gamma=t/s,
                     blockage_ratio_Kim=1 - A/(s*h), Dh_Joshi_Webb=2*l*(h - t)*(s - 2*t)/(l*(h - t) + l*(s - t) + t*(h - t)), blockage_ratio=2*t/s*(1 - t/h) + t/h*(1 - 2*t/s)).items(): close(getattr(e, n), w, 1e-9, 1e-15, what=n)
    overall(e, s, h, length, width, layers, pt, Pm); ctx.nontrivial(True)
# --- cooling tower
@P.sub(rec(D=lf(5., 150.), H=lf(10., 250.), hi=uf(.02, .3), rt=uf(.3, .9), ht=uf(.5, .95), ro=uf(1.01, 1.5), how=pick('inlet', 'inlet+throat', 'base+throat'), dh=pick(True, False), u=uf(0., 1.)), n=300)
def tower(ctx, D, H, hi, rt, ht, ro, how, dh, u):
    """the shell is the hyperboloid through the throat and the given diameters"""
    Dt = D*rt if how != 'inlet' else .63*D; Ht = 2/3*H if dh else ht*H; Hi = hi*H; Do = Dt*ro
    kw = dict(H_inlet=Hi, D_outlet=Do, H_outlet=H)
    if not dh: kw['H_throat'] = Ht
    if how != 'inlet': kw['D_throat'] = Dt
    kw['D_base' if how == 'base+throat' else 'D_inlet'] = D
    t = g.HyperbolicCoolingTower(**kw)
    z0 = 0. if how == 'base+throat' else Hi
    def want(z):     # (d/Dt)^2 - ((z - Ht)/b)^2 = 1
        ref, zr = (D, z0) if z <= Ht else (Do, H)
        return Dt*sqrt(1 + ((z - Ht)/(zr - Ht))**2*((ref/Dt)**2 - 1))
    z = u*H; close(t.diameter(z), want(z), 1e-9, what='diameter at height')
    for zz, n in ((0., 'D_base'), (Hi, 'D_inlet'), (H, 'D_outlet'), (Ht, 'D_throat')):
        close(getattr(t, n), want(zz), 1e-9, what=n); close(t.diameter(zz), want(zz), 1e-9, what='diameter at ' + n)
    close(t.H_throat, Ht, 1e-12, what='H_throat'); close(t.H_inlet, Hi, 1e-12, what='H_inlet'); close(t.H_outlet, H, 1e-12, what='H_outlet'); ctx.nontrivial(True)
@P.sub(rec(D=lf(5., 150.), which=pick(0, 1)), n=20)
def tower_rejects(ctx, D, which):
    raises(ValueError, g.HyperbolicCoolingTower, H_inlet=.1*D, D_outlet=D, H_outlet=2*D, what='missing diameters', **[{}, dict(D_throat=.7*D)][which])
# --- tube bank pitch
@P.sub(rec(angle=inear(uf(5., 85.), [30., 45., 60.]), pitch=lf(.005, .5), pair=pick('angle,pitch', 'angle,pitch_normal', 'angle,pitch_parallel', 'pitch,pitch_normal', 'pitch,pitch_parallel', 'pitch_parallel,pitch_normal', 'angle', 'pitch', '')), n=250)
def pitch_solver(ctx, angle, pitch, pair):
    v = dict(angle=angle, pitch=pitch, pitch_parallel=pitch*cos(radians(angle)), pitch_normal=pitch*sin(radians(angle)))
    kw = {n: v[n] for n in pair.split(',') if n}
    if len(kw) < 2: raises(ValueError, g.pitch_angle_solver, what=pair, **kw); ctx.trivial(); return
    closes(g.pitch_angle_solver(**kw), (angle, pitch, v['pitch_parallel'], v['pitch_normal']), 1e-9, what=pair); ctx.nontrivial(True)
# --- air cooler
@P.sub(rec(rows=ints(1, 12), passes=ints(1, 6), per_row=ints(1, 80), L=lf(.5, 20.), D=lf(.008, .08), tfr=uf(.02, .6), angle=pick(30., 45., 60., 90., 37., 30, 60), pr=uf(2.2, 4.), how=pick('angle,pitch', 'angle,normal', 'parallel,normal', 'ratio'), fin=pick('d', 'h'), fr=uf(.1, .5), dens=lf(100., 700.), den=pick('density', 'interval'), bays=ints(1, 4), bpb=ints(1, 4), fans=ints(1, 3), corb=pick(False, True), tt=opt(uf(.02, .2)), fan=opt(lf(.5, 6.))), n=300)
def air_cooler(ctx, rows, passes, per_row, L, D, tfr, angle, pr, how, fin, fr, dens, den, bays, bpb, fans, corb, tt, fan):
    pitch = pr*D; pn, pp = pitch*sin(radians(angle)), pitch*cos(radians(angle)); fh = fr*D; fd = D + 2*fh; tf = tfr/dens
    if how == 'angle,normal' or how == 'parallel,normal':
        kw = dict(pitch_normal=pn); kw.update(dict(angle=angle) if how[0] == 'a' else dict(pitch_parallel=pp))
    elif how == 'ratio': kw = dict(pitch_ratio=pr, angle=angle)
    else: kw = dict(angle=angle, pitch=pitch)
    kw.update({'fin_diameter': fd} if fin == 'd' else {'fin_height': fh}); kw.update({'fin_density': dens} if den == 'density' else {'fin_interval': 1/dens})
    if tt: kw['tube_thickness'] = tt*D
    if fan: kw['fan_diameter'] = fan
    e = g.AirCooledExchanger(tube_rows=rows, tube_passes=passes, tubes_per_row=per_row, tube_length=L, tube_diameter=D, fin_thickness=tf, parallel_bays=bays, bundles_per_bay=bpb, fans_per_bay=fans, corbels=corb, **kw)
    nb = rows*per_row; nbay = nb*bpb; n = nbay*bays
    A1 = pi*D*L; show = A1*(1 - tf*dens); af = pi/2*(fd**2 - D**2) + pi*fd*tf; fin1 = dens*L*af
    diag = sqrt(pp**2 + (pn/2)**2); free = D + 2*dens*fh*tf
    amin = min(2*(diag - free), pn - free)*per_row*L; face = pn*L*(per_row + (.5 if corb else 1))
    want = dict(angle=angle, pitch=pitch, pitch_ratio=pr, pitch_normal=pn, pitch_parallel=pp, pitch_diagonal=diag, fin_height=fh, fin_diameter=fd, fin_density=dens, fin_interval=1/dens, bare_length=1/dens - tf,
                tubes_per_bundle=nb, tubes_per_bay=nbay, tubes=n, A_bare_tube_per_tube=A1, A_bare_tube_per_row=A1*per_row, A_bare_tube_per_bundle=A1*nb, A_bare_tube_per_bay=A1*nbay, A_bare_tube=A1*n,
                A_tube_showing_per_tube=show, A_tube_showing_per_row=show*per_row, A_tube_showing_per_bundle=show*nb, A_tube_showing_per_bay=show*nbay, A_tube_showing=show*n, A_per_fin=af,
                A_fin_per_tube=fin1, A_fin_per_row=fin1*per_row, A_fin_per_bundle=fin1*nb, A_fin_per_bay=fin1*nbay, A_fin=fin1*n, A_per_tube=show + fin1, A_per_row=(show + fin1)*per_row, A_per_bundle=(show + fin1)*nb,
                A_per_bay=(show + fin1)*nbay, A=(show + fin1)*n, A_increase=(show + fin1)/A1, A_min_per_bundle=amin, A_min_per_bay=amin*bpb, A_min=amin*bpb*bays, A_face_per_bundle=face, A_face_per_bay=face*bpb, A_face=face*bpb*bays,
                flow_area_contraction_ratio=amin/face, channels=nb/passes if rows % passes == 0 else per_row)
    if tt:
        d = D*(1 - 2*tt); a = pi/4*d*d
        want.update(Di=d, A_tube_flow=a, A_tube_flow_per_row=a*per_row, A_tube_flow_per_bundle=a*nb, A_tube_flow_per_bay=a*nbay, A_tube_flow_total=a*n, tube_volume_per_tube=a*L, tube_volume_per_row=a*L*per_row, tube_volume_per_bundle=a*L*nb, tube_volume_per_bay=a*L*nbay, tube_volume=a*L*n)
    for k, w in want.items(): close(getattr(e, k), w, 1e-8, 1e-13, what=k)
    again = eval(repr(e), vars(g)); ensure(hash(again) == hash(again) and isinstance(hash(e), int), 'hash of an unchanged exchanger differs')
    if hash(eval(repr(again), vars(g))) != hash(again) and repr(eval(repr(again), vars(g))) == repr(again): fail('objects of the same text have different hashes')
    for k in want: close(getattr(again, k), getattr(e, k), 1e-8, 1e-13, what=k + ' of the object rebuilt from its text')
    if how != 'parallel,normal' and angle != 37.: ensure(e.pitch_str == {30: 'triangular', 45: 'rotated square', 60: 'rotated triangular', 90: 'square'}[int(angle)], 'layout name %r at %r degrees', e.pitch_str, angle)
    ctx.nontrivial(True); ctx.label(how)
@P.sub(rec(D=lf(.008, .08), which=pick(range(4))), n=40)
def air_cooler_rejects(ctx, D, which):
    ok = dict(tube_rows=4, tube_passes=4, tubes_per_row=56, tube_length=10., tube_diameter=D, fin_thickness=.0003, angle=30, pitch=2.5*D, fin_diameter=2*D, fin_density=400.)
    if which == 0: del ok['fin_diameter']
    elif which == 1: del ok['fin_density']
    elif which == 2: del ok['pitch']
    else: ok['pitch_ratio'] = 2.5
    raises(ValueError, g.AirCooledExchanger, what='specification %d' % which, **ok)
# --- shapes
@P.sub(rec(D=lf(.001, 50.), L=lf(.001, 50.), u=uf(.05, .95), holes=flist(rec(d=uf(.01, .15), n=ints(1, 4)), 0, 4), s=lf(1., 6.)), n=250)
def shapes(ctx, D, L, u, holes, s):
    V, A = pi/4*D*D*L, pi*D*L + pi/2*D*D
    close(g.V_cylinder(D, L), V, 1e-11, what='V_cylinder'); close(g.A_cylinder(D, L), A, 1e-11, what='A_cylinder')
    d = u*D
    close(g.V_hollow_cylinder(Di=d, Do=D, L=L), V - pi/4*d*d*L, 1e-9, what='V_hollow_cylinder'); close(g.A_hollow_cylinder(Di=d, Do=D, L=L), pi*L*(D + d) + pi/2*(D*D - d*d), 1e-9, what='A_hollow_cylinder')
    hl = [(x['d']*D, x['n']) for x in holes]
    close(g.V_multiple_hole_cylinder(D, L, hl), V - sum(n*pi/4*x*x*L for x, n in hl), 1e-9, what='V_multiple_hole_cylinder')
    close(g.A_multiple_hole_cylinder(D, L, hl), A + sum(n*(pi*x*L - pi/2*x*x) for x, n in hl), 1e-9, what='A_multiple_hole_cylinder')
    Asph = pi*(6*V/pi)**(2/3.); close(g.sphericity(A=A, V=V), Asph/A, 1e-10, what='sphericity'); ensure(g.sphericity(A=A, V=V) <= 1, 'sphericity above 1'); close(g.sphericity(A=pi*D*D, V=pi/6*D**3), 1., 1e-12, what='sphericity of a sphere')
    close(g.aspect_ratio(Dmin=d, Dmax=D), u, 1e-10, what='aspect_ratio'); close(g.circularity(A=pi/4*D*D, P=pi*D*s), 1/s**2, 1e-10, what='circularity'); ctx.nontrivial(True)
