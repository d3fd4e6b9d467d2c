"""Statements of the properties; mkmanifest.py writes properties.jsonl and
MANIFEST.json from them."""
P = []


def p(id, title, statement, text, why, files, mech, over=('inputs',),
      observe=(), note='', na=None, state=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=list(over), text=text),
                  why_tests_cant=why, files=files, mech=mech,
                  observe=list(observe), note=note, na=na, state=list(state)))


p('P01', 'Map cells hold the clipped physical datum or the blank value',
  'When a map plane is plotted, every visited cell whose source image yields '
  'a datum that lies within the requested minimum and maximum and within the '
  'range of the map data type holds that datum converted to the map type; '
  'every other cell holds the blank value (NaN for floating point maps, the '
  'requested or default blank integer, else zero).  Cells of one plane never '
  'change because of another plane, and nothing outside the map is written.',
  'every datum, found/not-found answer, minimum, maximum and blank value, for '
  'all six map data types and any plane of a multi-plane map',
  'Tests plot one fixed value image in one or two data types; the interesting '
  'values are limits at the type boundaries, NaN and infinite data.',
  ['lib/marc/MapFactory.h', 'lib/marc/MapFactory_t.cpp',
   'lib/marc/Map_traits.h', 'lib/marc/plot_info.h', 'lib/marc/extrema.h'],
  [('MapFactory::make_map, plot', 'lib/marc/MapFactory_t.cpp'),
   ('Map_traits::empty_value', 'lib/marc/Map_traits.h'),
   ('extrema::in_range', 'lib/marc/extrema.h')],
  over=('inputs', 'configurations'))

p('P02', 'Extrema tracking is exact and order independent',
  'After any sequence of updates with data other than NaN a pair of extrema '
  'holds exactly the smallest and largest of them, independent of their order '
  'and of merging partial results, and is unset until something was seen.  '
  'Limits that are NaN, or a minimum above the maximum, are refused; limits '
  'are clipped to what the map data type can hold; and the range test accepts '
  'a datum iff it lies inside both limits.',
  'every sequence of values up to the bound, in every numeric type',
  'Tests update with a handful of constants.',
  ['lib/marc/extrema.h', 'lib/marc/Map_traits.h'],
  [('extrema::update, in_range, set_minimum, set_maximum',
    'lib/marc/extrema.h'), ('clip', 'lib/marc/Map_traits.h')],
  over=('inputs', 'histories'))

p('P03', 'Oblate spheroid shape: radius, latitudes and curvature',
  'For any oblate body the radius returned for a planetocentric latitude '
  'reaches exactly the surface of the ellipsoid with the given equatorial and '
  'polar radii; conversions between planetocentric and planetographic '
  'latitude follow the direction of the surface normal and invert each '
  'other; the radii of curvature, eccentricity and flattening belong to that '
  'same ellipsoid.  Radii are accepted iff both are positive and the '
  'equatorial one is not the smaller.',
  'every pair of radii and every latitude (real arithmetic); every floating '
  'point pair of radii for acceptance',
  'Tests check Jupiter-like constants at a few latitudes, with tolerance.',
  ['lib/marc/OblateSpheroid.cpp', 'lib/marc/OblateSpheroid.h',
   'lib/marc/Validate.h', 'lib/marc/BodyData.h'],
  [('centric_radius, graphic_latitude, centric_latitude, N, M',
    'lib/marc/OblateSpheroid.cpp')])

p('P04', 'Emission, incidence and phase cosines match the true geometry',
  'For every surface point, observer and sun position the cosine of the '
  'emission angle is that between the outward surface normal and the '
  'direction to the observer at its finite range, the cosine of the incidence '
  'angle is that between the normal and the direction to the sun, and the '
  'cosine of the phase angle is that between the directions to sun and '
  'observer.',
  'every radii, latitude and longitude of point, observer and sun, and every '
  'observer range outside the body (real arithmetic)',
  'Tests evaluate a few fixed geometries where symmetric mistakes cancel.',
  ['lib/marc/OblateSpheroid.cpp'],
  [('mu, mu0, cos_phase', 'lib/marc/OblateSpheroid.cpp')])

p('P05', 'Line of sight intersection finds the nearest surface point',
  'A line of sight that meets the body, tangentially or on either side of '
  'the starting point, yields the latitude and longitude of the intersection '
  'nearest to the starting point; a line that misses it, or one without '
  'direction, is reported as such and yields no coordinates.',
  'every radii, starting point outside the body and direction (real '
  'arithmetic)',
  'No unit test intersects a line with the body for more than a few fixed '
  'vectors.',
  ['lib/marc/OblateSpheroid.cpp', 'lib/marc/Mathematics.h'],
  [('ellipse_intersection', 'lib/marc/OblateSpheroid.cpp'),
   ('quadratic_roots', 'lib/marc/Mathematics.h')])
