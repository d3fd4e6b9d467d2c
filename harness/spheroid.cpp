// Geometry of the oblate spheroid (real arithmetic).
#include "vp.h"
#include "marc/OblateSpheroid.h"
#include <cmath>
#include <stdexcept>

namespace {

constexpr double pi = 3.14159265358979323846;
constexpr double tol = 1e-7;

struct Radii { double a, c; };

Radii radii()
{
    Radii r;
    r.a = vp_double("eq_rad");
    r.c = vp_double("pol_rad");
    vp_assume(r.c > 0);
    vp_assume(r.c <= r.a);
    vp_assume(r.a <= 1000);
    vp_assume(r.a <= 20 * r.c);
    return r;
}

double latitude(char const * n) { return vp_angle(n, -pi / 2, pi / 2); }

// strictly between the poles
double open_latitude(char const * n)
{
    double const l = latitude(n);
    vp_assume(std::cos(l) > 0.001);
    return l;
}

}

VP_HARNESS(vp_radius)()
{
    auto const r = radii();
    MaRC::OblateSpheroid o(true, r.a, r.c);
    double const lat = latitude("lat");
    double const R = o.centric_radius(lat);
    double const x = R * std::cos(lat), z = R * std::sin(lat);
    vp_assert(vp_eq(x * x * r.c * r.c + z * z * r.a * r.a,
                    r.a * r.a * r.c * r.c, tol),
              "the centric radius reaches the surface");
    vp_assert(R > 0, "the radius is positive");
    vp_out("R", R);
}

VP_HARNESS(vp_graphic)()
{
    auto const r = radii();
    MaRC::OblateSpheroid o(true, r.a, r.c);
    double const lat = open_latitude("lat");
    double const g = o.graphic_latitude(lat);
    // surface normal of x^2/a^2 + z^2/c^2 = 1 at that latitude
    double const nx = std::cos(lat) / (r.a * r.a);
    double const nz = std::sin(lat) / (r.c * r.c);
    vp_assert(vp_eq(nx * std::sin(g), nz * std::cos(g), tol),
              "graphic latitude is the direction of the surface normal");
    vp_assert(std::cos(g) > 0, "graphic latitude stays between the poles");
    vp_assert(vp_angle_eq(o.centric_latitude(g), lat, tol),
              "centric latitude inverts graphic latitude");
    double const k = o.centric_latitude(lat);
    vp_assert(vp_angle_eq(o.graphic_latitude(k), lat, tol),
              "graphic latitude inverts centric latitude");
    vp_out("g", g);
}

namespace {

struct V { double x, y, z; };
double dot(V a, V b) { return a.x * b.x + a.y * b.y + a.z * b.z; }

V direction(double lat, double lon)
{
    return { std::cos(lat) * std::cos(lon), std::cos(lat) * std::sin(lon),
             std::sin(lat) };
}

double longitude(char const * n) { return vp_angle(n, -2 * pi, 2 * pi); }

// Surface point, unit normal, distance
struct Surface
{
    V p, n;
    Surface(Radii r, double lat, double lon)
    {
        V const d = direction(lat, lon);
        double const c = std::cos(lat), s = std::sin(lat);
        double const R =
            r.a * r.c / std::sqrt(r.c * r.c * c * c + r.a * r.a * s * s);
        p = { R * d.x, R * d.y, R * d.z };
        double const k = std::sqrt(r.c * r.c * r.c * r.c * c * c
                                   + r.a * r.a * r.a * r.a * s * s);
        n = { r.c * r.c * d.x / k, r.c * r.c * d.y / k, r.a * r.a * d.z / k };
    }
};

}

VP_HARNESS(vp_mu)()
{
    auto const r = radii();
    MaRC::OblateSpheroid o(true, r.a, r.c);
    double const olat = latitude("olat"), olon = longitude("olon");
    double const lat = open_latitude("lat"), lon = longitude("lon");
    double const range = vp_double("range");
    vp_assume(range > r.a);
    vp_assume(range < 100000);

    Surface const s(r, lat, lon);
    V const od = direction(olat, olon);
    V const ray = { range * od.x - s.p.x, range * od.y - s.p.y,
                    range * od.z - s.p.z };
    double const dist = std::sqrt(dot(ray, ray));
    vp_assume(dist > 0);      // follows from range > radius
    double const mu = o.mu(olat, olon, lat, lon, range);
    vp_assert(vp_eq(mu * dist, dot(s.n, ray), tol),
              "mu is the cosine between surface normal and observer");
    vp_out("mu", mu);
}

VP_HARNESS(vp_mu0)()
{
    auto const r = radii();
    MaRC::OblateSpheroid o(true, r.a, r.c);
    double const slat = latitude("slat"), slon = longitude("slon");
    double const lat = open_latitude("lat"), lon = longitude("lon");
    Surface const s(r, lat, lon);
    double const mu0 = o.mu0(slat, slon, lat, lon);
    vp_assert(vp_eq(mu0, dot(s.n, direction(slat, slon)), tol),
              "mu0 is the cosine between surface normal and sun");
    vp_out("mu0", mu0);
}

VP_HARNESS(vp_phase)()
{
    auto const r = radii();
    MaRC::OblateSpheroid o(true, r.a, r.c);
    double const olat = latitude("olat"), olon = longitude("olon");
    double const slat = latitude("slat"), slon = longitude("slon");
    double const lat = open_latitude("lat"), lon = longitude("lon");
    double const range = vp_double("range");
    vp_assume(range > r.a);
    vp_assume(range < 100000);
    Surface const s(r, lat, lon);
    V const od = direction(olat, olon);
    V const ray = { range * od.x - s.p.x, range * od.y - s.p.y,
                    range * od.z - s.p.z };
    double const dist = std::sqrt(dot(ray, ray));
    vp_assume(dist > 0);      // follows from range > radius
    double const c = o.cos_phase(olat, olon, slat, slon, lat, lon, range);
    vp_assert(vp_eq(c * dist, dot(direction(slat, slon), ray), tol),
              "cos_phase is the cosine between sun and observer");
    vp_out("phase", c);
}

VP_HARNESS(vp_curvature)()
{
    auto const r = radii();
    MaRC::OblateSpheroid o(true, r.a, r.c);
    double const lat = open_latitude("lat");
    Surface const s(r, lat, 0);
    // N is the distance along the normal from the surface to the axis:
    // p - N n lies on the axis;  M = c^2 N^3 / a^4
    double const N = o.N(lat), M = o.M(lat);
    vp_assert(vp_eq(s.p.x, N * s.n.x, tol),
              "N reaches from the surface to the axis");
    vp_assert(vp_eq(M * r.a * r.a * r.a * r.a, r.c * r.c * N * N * N, tol),
              "M is the meridional radius of curvature");
    vp_assert(vp_eq(o.first_eccentricity() * o.first_eccentricity(),
                    1 - r.c * r.c / (r.a * r.a), tol)
              && vp_eq(o.flattening(), 1 - r.c / r.a, tol)
              && o.eq_rad() == r.a && o.pol_rad() == r.c,
              "eccentricity and flattening");
    vp_out("N", N);
}

// Lines that meet the body.  Every such line is written as v + k d with v the
// observer and the point of intersection at k = dist; that point is
// parametrised by its reduced latitude and longitude.
// how: 0 body ahead, 1 body behind, 2 tangent line
VP_HARNESS(vp_intersect)(int how)
{
    auto const r = radii();
    MaRC::OblateSpheroid o(true, r.a, r.c);
    double const beta = latitude("beta"), lambda = longitude("lambda");
    vp_assume(std::cos(beta) > 0.01);       // poles have no longitude
    double const h = r.a * std::cos(beta);
    V const p = { h * std::sin(lambda), -h * std::cos(lambda),
                  r.c * std::sin(beta) };
    MaRC::DVector v, d;
    d[0] = vp_double("dx"); d[1] = vp_double("dy"); d[2] = vp_double("dz");
    double const k = vp_double("k");
    for (int i = 0; i < 3; ++i) {
        vp_assume(d[i] <= 1000);
        vp_assume(d[i] >= -1000);
    }
    vp_assume(k <= 1000);
    vp_assume(k >= -1000);
    // twice the slope of the quadric along the line
    double const S = r.c * r.c * (p.x * d[0] + p.y * d[1])
        + r.a * r.a * p.z * d[2];
    vp_hint_square(S);
    if (how == 0) {
        vp_assume(k > 0);
        vp_assume(S < 0);
    } else if (how == 1) {
        vp_assume(k < 0);
        vp_assume(S > 0);
    } else {
        vp_assume(k > 0);
        vp_assume(d[0] == r.a * std::cos(lambda));
        vp_assume(d[1] == r.a * std::sin(lambda));
        d[0] = r.a * std::cos(lambda);
        d[1] = r.a * std::sin(lambda);
        d[2] = 0;
    }
    v[0] = p.x - k * d[0];
    v[1] = p.y - k * d[1];
    v[2] = p.z - k * d[2];

    double lat = 9, lon = 9;
    int const rc = o.ellipse_intersection(v, d, lat, lon);
    vp_outi("rc", rc);
    vp_assert(rc == 0, "a line that meets the body is reported");
    vp_assert(vp_eq(h * std::sin(lat), p.z * std::cos(lat), tol)
              && std::cos(lat) > 0,
              "latitude of the intersection nearest to the observer");
    vp_assert(vp_angle_eq(lon, lambda, tol),
              "longitude of the intersection nearest to the observer");
    vp_reach("hit");
}

VP_HARNESS(vp_miss)()
{
    auto const r = radii();
    MaRC::OblateSpheroid o(true, r.a, r.c);
    MaRC::DVector v, d;
    v[0] = vp_double("vx"); v[1] = vp_double("vy"); v[2] = vp_double("vz");
    d[0] = vp_double("dx"); d[1] = vp_double("dy"); d[2] = vp_double("dz");
    double const aa = r.a * r.a, cc = r.c * r.c;
    double const C = cc * (v[0] * v[0] + v[1] * v[1]) + aa * v[2] * v[2]
        - aa * cc;
    double const B = cc * (v[0] * d[0] + v[1] * d[1]) + aa * v[2] * d[2];
    double const A = cc * (d[0] * d[0] + d[1] * d[1]) + aa * d[2] * d[2];
    double lat = 9, lon = 9;
    if (vp_bool("null")) {
        for (int i = 0; i < 3; ++i) d[i] = 0;
        vp_assert(o.ellipse_intersection(v, d, lat, lon) == -1,
                  "a line without direction is reported as bad input");
        vp_reach("bad");
    } else {
        vp_assume(A > 0);
        vp_assume(B * B - A * C < 0);
        vp_assert(o.ellipse_intersection(v, d, lat, lon) == 1,
                  "a line that misses the body is reported as a miss");
        vp_reach("miss");
    }
    vp_assert(lat == 9 && lon == 9, "no coordinates without an intersection");
}

// Constructor arguments (any floating point values).
VP_HARNESS(vp_construct)()
{
    double const a = vp_double("eq_rad"), c = vp_double("pol_rad");
    bool const prograde = vp_bool("prograde");
    bool threw = false;
    try {
        MaRC::OblateSpheroid o(prograde, a, c);
        vp_assert(o.eq_rad() == a && o.pol_rad() == c
                  && o.prograde() == prograde,
                  "a body keeps its parameters");
    } catch (std::invalid_argument const &) { threw = true; }
    bool const good = vp_and(vp_and(a > 0, c > 0), a >= c);
    vp_assert(threw == !good,
              "radii are accepted iff positive with equatorial >= polar");
    vp_reach(threw ? "refused" : "accepted");
}
