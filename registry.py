"""Jobs per property."""
PROPS = {}


def prop(pid, jobs, bounds, outside='', assumptions=()):
    PROPS[pid] = dict(jobs=jobs, bounds=bounds, outside=outside,
                      assumptions=list(assumptions) + COMMON)


COMMON = [
    'logging and text formatting (fmt) are empty stubs; exception messages '
    'are not modelled',
    'memory allocation never fails',
    'clang 18 -O0 bitcode after sroa/early-cse/simplifycfg represents the '
    'program (assertions enabled, as in the default build)',
]


def J(h, entry, args=(), **kw):
    return dict(h=h, entry=entry, args=tuple(args), **kw)


# ---------------------------------------------------------------- plotting
_plot = []
for t in range(6):
    for lim, bl in ((0, 0), (3, 1), (1, 0), (2, 1)):
        _plot.append(J('plot.cpp', 'vp_plot', (t, lim, bl, 1),
                       tier='quick' if (lim, bl) in ((0, 0), (3, 1))
                       else 'thorough'))
_plot += [J('plot.cpp', 'vp_plot', (t, 0, 1, 2), tier='quick' if t in (1, 5)
            else 'thorough') for t in range(6)]
prop('P01', _plot,
     'maps of 3 cells, two visited, 1 or 2 planes; all six map data types; '
     'every datum/found answer, every limit and blank value (64 bit limits: '
     '32 bit range)',
     'larger maps (cells are plotted independently of each other)')


# ----------------------------------------------------------------- extrema
prop('P02',
     [J('extrema.cpp', 'vp_extrema', (t, op),
        tier='quick' if op < 8 else 'thorough')
      for t in range(6) for op in range(9)],
     'up to 3 values per sequence (5 in the thorough tier), every value, all '
     'numeric types of the maps',
     'longer sequences')

# ---------------------------------------------------------------- spheroid
REAL = ['real arithmetic: rounding is not modelled; sin, cos, atan ... obey '
        'their addition theorems and ranges']


def R(h, entry, args=(), **kw):
    return J(h, entry, args, dom='real', **kw)


_S = 'spheroid.cpp'
prop('P03',
     [R(_S, 'vp_radius'), R(_S, 'vp_graphic'), R(_S, 'vp_curvature'),
      J(_S, 'vp_construct')],
     '0 < polar <= equatorial <= 1000 and equatorial <= 20 polar; every '
     'latitude (planetographic conversions: cosine above 0.001)',
     'rounding; the poles themselves for planetographic conversion', REAL)
prop('P04',
     [R(_S, 'vp_mu'), R(_S, 'vp_mu0'), R(_S, 'vp_phase')],
     'radii as P03; observer range between the equatorial radius and 100000; '
     'every latitude and longitude', 'rounding', REAL)
prop('P05',
     [R(_S, 'vp_intersect', (h,), feas_ms=5000) for h in range(3)]
     + [R(_S, 'vp_miss')],
     'radii as P03, direction components and distance within +-1000, '
     'intersections whose reduced latitude has a cosine above 0.01',
     'rounding; a start exactly on the surface', REAL)
