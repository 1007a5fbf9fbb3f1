"""Aerodynamic stiffness and damping = work of the piston-theory pressure"""
import numpy as np
import common as C
import ref
from harness import R, dense

LEVEL = 'exploration'
RULE = ('product of models x flows x (coefficients given, or derived from Mach number, air density and speed) x boundary flag sets '
        'with free and with restrained edges x lengths x radii x partial domains along and across the flow x series sizes x numbers of integration points x embeddings, all entries; '
        'non-trivial: reference not zero')
GEOS = [(1.3, .7), (.6, 1.9), (1., 1.)]
RADII = (.9, 2.3)
SHAPES = [(4, 5), (5, 4), (1, 1), (2, 3), (3, 2), (1, 6), (6, 1), (7, 4), (4, 7), (2, 9), (9, 2), (8, 8)]
AIR = [dict(beta=.7), dict(beta=.7, gamma=.3), dict(beta=0., gamma=.3), dict(Mach=1.5, rho_air=.8, V=1.7), dict(Mach=1, rho_air=.8, V=1.7), dict(Mach=1.0, rho_air=.8, V=1.7),
       dict(Mach=2**.5, rho_air=1.2, V=.6), dict(Mach=3.7, rho_air=.4, V=2.2), dict(Mach=2, rho_air=1, V=3), dict(beta=.9, Mach=3., rho_air=5., V=4.), dict(beta=1, gamma=2)]


def jobs(tier, seed):
    out = []
    for mod in C.MODELS:
        for flow in ('x', 'y', 'X', 'Y'):
            for g in GEOS:
                for part in range(2) if flow in 'xy' or g is GEOS[0] else ():
                    out.append(('flags', (mod, flow, g, part)))
                if flow in 'xy':
                    out.append(('shapes', (mod, flow, g)))
                    out.append(('coefs', (mod, flow, g)))
                    out.append(('embeds', (mod, flow, g)))
    for mod in C.MODELS:
        for g in GEOS:
            out.append(('damping', (mod, g)))
        out.append(('errors', (mod,)))
    if tier != 'quick':
        for mod in C.MODELS:
            for flow in 'xy':
                for m in range(1, 13):
                    out.append(('allshapes', (mod, flow, m)))
    return out


def restrained(fl, flow):
    f = flow.lower()
    return dict(fl, **{f + '1w': 0., f + '2w': 0.})


def coefs_of(air, r, flow):
    """documented beta and gamma"""
    if air.get('beta') is not None:
        be, ga = air['beta'], air.get('gamma') or 0.
    else:
        M = air['Mach'] if air['Mach'] != 1 else 1.0001
        be = air['rho_air']*air['V']**2/np.sqrt(M**2 - 1)
        ga = be/(2*r*np.sqrt(M**2 - 1)) if r else 0.
    return be, ga if flow.lower() == 'x' else 0.


def expected(R0, be, ga, flow):
    d = 'w' + flow.lower()
    S = abs(be)*R0_abs(R0, 'w', d) + abs(ga)*R0_abs(R0, 'w', 'w')
    return be*R0.q('w', d) - ga*R0.q('w', 'w'), S


def R0_abs(R0, a, b):
    A, B = abs(R0.o[a]), abs(R0.o[b])
    K = (A*R0.W[:, None]).T@B
    return K + K.T


def one(r, mod, flow, g, sh, fl, air, rad, key, nxy=None, strip=None, emb=None, rtol=1e-9, flags_as_given=False):
    s = C.shell(mod, *g, *sh, r=rad, lam=C.laminates()[4], flags=fl)
    s.flow = flow
    s.nx, s.ny = nxy or (ref.npts_exact(sh[0]), ref.npts_exact(sh[1]))
    for k, v in air.items():
        setattr(s, k, v)
    if strip:
        if strip[0] in ('y', 'xy'):
            s.y1, s.y2 = strip[1]*s.b, strip[2]*s.b
        if strip[0] in ('x', 'xy'):
            s.x1, s.x2 = strip[1]*s.a, strip[2]*s.a
    R0 = ref.Ref(ref.Geo.of(s, partial=True))
    be, ga = coefs_of(air, rad, flow)
    E, S = expected(R0, be, ga, flow)
    n = E.shape[0]
    S = S + 1e-3*S.max() + 1e-30
    nm = '%s/%s' % (mod[:3], flow.lower())
    if emb is None:
        r.close(key, dense(s.calc_kA()), E, S, rtol, fkey='kA/' + nm)
    else:
        r0, extra = emb
        for size in (n + r0 + extra, '+%d' % (r0 + extra)):
            got = dense(s.calc_kA(size=size, row0=r0, col0=r0))
            r.close(key + (str(size),), got, C.embed(E, n + r0 + extra, r0), S.max(), rtol, fkey='kA-embed/' + nm)
            up = dense(s.calc_kA(size=size, row0=r0, col0=r0, finalize=False))
            r.close(key + (str(size), 'upper'), up, C.embed(E, n + r0 + extra, r0), S.max(), rtol, fkey='kA-upper/' + nm)
    for k in ('beta', 'gamma', 'Mach', 'V', 'rho_air'):
        if k in air and getattr(s, k) != air[k]:
            r.fail('changed/' + k, '%s changed from %r to %r' % (k, air[k], getattr(s, k)))
    if 'beta' not in air and (s.beta is not None or s.gamma is not None):
        r.fail('changed/derived', 'derived coefficients were stored')
    return s, R0


def flags(mod, flow, g, part):
    r = R()
    for fi, (fn, fl) in enumerate(C.all_flagsets()):
        if fi % 2 != part:
            continue
        for air in AIR[:4]:
            for rad in RADII if mod == C.CYL else (None, 1.7):
                for strip in (None, ('y', .1, .45), ('x', .3, 1.), ('xy', .15, .8)):
                    one(r, mod, flow, g, (4, 5), fl, air, rad, (mod, flow, g, fn, str(air), rad, strip), strip=strip)
    return r


def shapes(mod, flow, g):
    r = R()
    for sh in SHAPES:
        for fn, fl in C.all_flagsets(False):
            for nxy in (None, (9, 10), (13, 8)):
                if nxy and (nxy[0] < ref.npts_exact(sh[0]) or nxy[1] < ref.npts_exact(sh[1])):
                    continue
                one(r, mod, flow, g, sh, fl, AIR[1], RADII[0], (mod, flow, g, sh, fn, nxy), nxy=nxy)
    return r


def allshapes(mod, flow, m):
    r = R()
    for n in range(1, 13):
        for fn, fl in C.all_flagsets(False):
            one(r, mod, flow, GEOS[0], (m, n), fl, AIR[3], RADII[0], (mod, flow, m, n, fn), strip=('xy', .2, .7))
    return r


def coefs(mod, flow, g):
    r = R()
    for air in AIR:
        for rad in RADII if mod == C.CYL else (None, 0., .9):
            s, R0 = one(r, mod, flow, g, (4, 4), restrained(C.flags_distinct(3), flow), air, rad, (mod, flow, g, str(air), rad))
            # the compiled closed-form slope matrices
            from panels import modelDB
            mt = modelDB.db[mod]['matrices']
            n = R0.g.size
            if flow == 'x':
                U = dense(mt.fkAx(.6, 0., s, n, 0, 0))
            else:
                U = dense(mt.fkAy(.6, s, n, 0, 0))
            E, S = expected(R0, .6, 0., flow)
            r.close((mod, flow, g, str(air), rad, 'closed'), np.triu(U), np.triu(E), S + 1e-3*S.max(), 1e-9, fkey='kA-closed/%s/%s' % (mod[:3], flow))
    return r


def embeds(mod, flow, g):
    r = R()
    for sh in ((3, 4), (4, 2), (1, 3)):
        for r0 in (0, 3, 14, 27):
            for extra in (0, 1, 7):
                for air in (AIR[1], AIR[3]):
                    one(r, mod, flow, g, sh, C.flags_distinct(7), air, RADII[1], (mod, flow, g, sh, r0, extra, str(air)), emb=(r0, extra))
    return r


def damping(mod, g):
    r = R()
    for sh in SHAPES:
        for fn, fl in C.all_flagsets(sh == (4, 5)):
            for mu in (.8, 0., -1.3, 2):
                s = C.shell(mod, *g, *sh, r=RADII[0] if mod == C.CYL else None, flags=fl)
                R0 = ref.Ref(ref.Geo.of(s))
                E = -1j*mu*R0.q('w', 'w')
                S = abs(mu)*R0_abs(R0, 'w', 'w')
                S = S + 1e-3*S.max() + 1e-30
                r.close((mod, g, sh, fn, mu), dense(s.calc_cA(mu)), E, S, 1e-9, fkey='cA/' + mod[:3])
                n = E.shape[0]
                for size in (n + 5, '+5'):
                    r.close((mod, g, sh, fn, mu, str(size)), dense(s.calc_cA(mu, size=size)), C.embed(E, n + 5, 0), S.max(), 1e-9, fkey='cA-embed/' + mod[:3])
                    U = dense(s.calc_cA(mu, size=size, finalize=False))
                    r.close((mod, g, sh, fn, mu, str(size), 'u'), np.triu(U), np.triu(C.embed(E, n + 5, 0)), S.max(), 1e-9, fkey='cA-embed/' + mod[:3])
    return r


def errors(mod):
    """an undefined or subsonic flow is refused, with nothing stored"""
    r = R()
    for air in (dict(Mach=None), dict(Mach=.5, rho_air=1., V=1.), dict(Mach=.999999, rho_air=1., V=1.), dict(Mach=0, rho_air=1., V=1.)):
        for flow in 'xy':
            s = C.shell(mod, 1., 1., 2, 2, r=.9)
            s.flow = flow
            for k, v in air.items():
                setattr(s, k, v)
            r.case((mod, flow, str(air)))
            try:
                s.calc_kA()
                r.fail('errors/mach', 'Mach %r was accepted' % air['Mach'])
            except ValueError:
                pass
    for flow in ('z', 'xy', ''):
        s = C.shell(mod, 1., 1., 2, 2, r=.9)
        s.flow, s.beta = flow, 1.
        r.case((mod, flow))
        try:
            s.calc_kA()
            r.fail('errors/flow', 'flow %r was accepted' % flow)
        except ValueError:
            pass
        if s.beta != 1. or s.gamma is not None:
            r.fail('errors/stored', 'coefficients changed by a refused calculation')
    return r
