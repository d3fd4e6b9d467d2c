// Bookkeeping of data extrema.
#include "vp.h"
#include "marc/extrema.h"
#include <cmath>
#include <limits>
#include <stdexcept>
#include <type_traits>
#include <utility>

namespace {

template <typename T> T any(char const *);
template <> std::uint8_t any<std::uint8_t>(char const * n) { return vp_u8(n); }
template <> std::int16_t any<std::int16_t>(char const * n) { return vp_u16(n); }
template <> std::int32_t any<std::int32_t>(char const * n) { return vp_u32(n); }
template <> std::int64_t any<std::int64_t>(char const * n) { return vp_u64(n); }
template <> float any<float>(char const * n) { return vp_float(n); }
template <> double any<double>(char const * n) { return vp_double(n); }

template <typename T>
bool isnan_(T v) { return std::is_floating_point<T>::value && v != v; }

// Is t the extremum that value v (not NaN) stands for in type T, i.e. v
// limited to the range of T and converted?
template <typename T>
bool clipped(T t, double v)
{
    using lim = std::numeric_limits<T>;
    if (std::is_same<T, double>::value)
        return t == v;
    if (v <= static_cast<double>(lim::lowest()))
        return t == lim::lowest();
    if (v >= static_cast<double>(lim::max()))
        return t == lim::max();
    return t == static_cast<T>(v);
}

// Setting limits from doubles: NaN refused without a change, others clipped.
template <typename T>
void set(int dir)
{
    MaRC::extrema<T> e;
    double const v = vp_double("v");
    bool const first = vp_bool("first");
    bool threw = false;
    if (first) {        // an earlier limit must survive a refused one
        if (dir) e.maximum(7); else e.minimum(7);
    }
    try {
        if (dir) e.maximum(v); else e.minimum(v);
    } catch (std::invalid_argument const &) { threw = true; }
    vp_assert(threw == (v != v), "a limit is refused iff it is NaN");
    auto const & got  = dir ? e.maximum() : e.minimum();
    auto const & other = dir ? e.minimum() : e.maximum();
    vp_assert(!other, "setting one limit leaves the other unset");
    if (threw) {
        vp_assert(first ? (got && *got == T(7)) : !got,
                  "a refused limit changes nothing");
        vp_reach("refused");
    } else {
        vp_assert(got && clipped<T>(*got, v),
                  "a limit is clipped to the range of the data type");
        vp_assert(!e.is_valid(), "a single limit is not a valid pair");
        vp_reach("set");
    }
}

// Constructing both limits.
template <typename T>
void pair()
{
    double const lo = vp_double("lo"), hi = vp_double("hi");
    bool threw = false;
    MaRC::extrema<T> e;
    try {
        MaRC::extrema<T> x(lo, hi);
        e = x;
    } catch (std::invalid_argument const &) { threw = true; }
    if (vp_or(lo != lo, hi != hi)) {
        vp_assert(threw, "NaN limits are refused");
        vp_reach("nan");
        return;
    }
    if (threw) {
        vp_assert(lo > hi, "limits are refused only if out of order");
        vp_reach("order");
    } else {
        vp_assert(e.minimum() && e.maximum()
                  && clipped<T>(*e.minimum(), lo)
                  && clipped<T>(*e.maximum(), hi),
                  "both limits are clipped to the range of the data type");
        vp_assert(*e.minimum() <= *e.maximum() && e.is_valid(),
                  "constructed limits are ordered");
        vp_reach("made");
    }
}

template <typename T>
MaRC::extrema<T> some(char const * n, bool & hmin, bool & hmax, T & mn, T & mx)
{
    MaRC::extrema<T> e;
    hmin = hmax = false;
    int const k = vp_choice(n, 4);
    if (k & 1) {
        mn = any<T>("min");
        vp_assume(!isnan_(mn));
        // set exactly, without going through double
        MaRC::extrema<T> f;
        f.update(mn);
        hmin = true;
        if (k & 2) {
            mx = any<T>("max");
            vp_assume(mn <= mx);
            f.update(mx);
            hmax = true;
            e = f;
        } else {
            e.minimum(mn);
            vp_assume(e.minimum() == mn);
        }
    } else if (k & 2) {
        mx = any<T>("max");
        vp_assume(!isnan_(mx));
        e.maximum(mx);
        vp_assume(e.maximum() == mx);
        hmax = true;
    }
    return e;
}

// Accumulating data: least and greatest, whatever the order.
template <typename T>
void fold(int n)
{
    MaRC::extrema<T> e;
    vp_assert(!e.minimum() && !e.maximum() && !e.is_valid(),
              "no extrema at first");
    T lo{}, hi{};
    for (int i = 0; i < n; ++i) {
        T const d = any<T>("d");
        vp_assume(!isnan_(d));
        e.update(d);
        lo = i && !(d < lo) ? lo : d;
        hi = i && !(d > hi) ? hi : d;
        vp_assert(e.minimum() && e.maximum() && *e.minimum() == lo
                  && *e.maximum() == hi,
                  "extrema are the least and greatest datum");
        vp_assert(e.is_valid(), "accumulated extrema are ordered");
    }
    e.reset();
    vp_assert(!e.minimum() && !e.maximum(), "reset forgets the extrema");
    vp_reach("fold");
}

// Merging one pair of extrema into another.
template <typename T>
void merge()
{
    bool h1, h2, g1, g2;
    T a1{}, a2{}, b1{}, b2{};
    auto a = some<T>("ka", h1, h2, a1, a2);
    auto const b = some<T>("kb", g1, g2, b1, b2);
    a.update(b);
    auto const & mn = a.minimum();
    auto const & mx = a.maximum();
    vp_assert(mn.has_value() == (h1 || g1),
              "merged minimum known iff known in either");
    vp_assert(mx.has_value() == (h2 || g2),
              "merged maximum known iff known in either");
    if (h1 && g1) vp_assert(*mn == (b1 < a1 ? b1 : a1), "merged minimum is the lesser");
    else if (h1)  vp_assert(*mn == a1, "merged minimum is the known one");
    else if (g1)  vp_assert(*mn == b1, "merged minimum is the known one");
    if (h2 && g2) vp_assert(*mx == (b2 > a2 ? b2 : a2), "merged maximum is the greater");
    else if (h2)  vp_assert(*mx == a2, "merged maximum is the known one");
    else if (g2)  vp_assert(*mx == b2, "merged maximum is the known one");
    vp_reach("merge");
}

// Range test against limits.
template <typename T>
void range()
{
    bool h1, h2;
    T mn{}, mx{};
    auto const e = some<T>("k", h1, h2, mn, mx);
    vp_assume(h1 && h2);
    T const v = any<T>("v");
    vp_assert(e.in_range(v) == vp_and(v >= mn, v <= mx),
              "in range iff between the limits");
    vp_reach("range");
}

// Copy, conversion, assignment and swap.
template <typename T, typename U>
void convert()
{
    bool h1, h2, g1, g2;
    U a1{}, a2{};
    T b1{}, b2{};
    auto const a = some<U>("ka", h1, h2, a1, a2);
    auto b = some<T>("kb", g1, g2, b1, b2);
    MaRC::extrema<T> c(a);
    vp_assert(c.minimum().has_value() == h1 && c.maximum().has_value() == h2,
              "conversion keeps what is known");
    if (h1) vp_assert(clipped<T>(*c.minimum(), double(a1)), "conversion clips the minimum");
    if (h2) vp_assert(clipped<T>(*c.maximum(), double(a2)), "conversion clips the maximum");
    MaRC::extrema<T> d(b);
    using std::swap;
    swap(c, d);
    vp_assert(c.minimum().has_value() == g1 && c.maximum().has_value() == g2
              && d.minimum().has_value() == h1 && d.maximum().has_value() == h2,
              "swap exchanges what is known");
    if (g1) vp_assert(*c.minimum() == b1, "swap exchanges minima");
    if (g2) vp_assert(*c.maximum() == b2, "swap exchanges maxima");
    b = MaRC::extrema<T>(a);
    vp_assert(b.minimum().has_value() == h1 && b.maximum().has_value() == h2,
              "assignment replaces what is known");
    if (h1) vp_assert(clipped<T>(*b.minimum(), double(a1)), "assignment clips the minimum");
    if (h2) vp_assert(clipped<T>(*b.maximum(), double(a2)), "assignment clips the maximum");
    vp_reach("convert");
}

template <typename T>
void go(int op)
{
    switch (op) {
    case 0: return set<T>(0);
    case 1: return set<T>(1);
    case 2: return pair<T>();
    case 3: return fold<T>(3);
    case 4: return merge<T>();
    case 5: return range<T>();
    case 6: return convert<T, double>();
    case 7: return convert<T, std::int32_t>();
    case 8: return fold<T>(5);
    }
}

}

VP_HARNESS(vp_extrema)(int type, int op)
{
    switch (type) {
    case 0: return go<std::uint8_t>(op);
    case 1: return go<std::int16_t>(op);
    case 2: return go<std::int32_t>(op);
    case 3: return go<std::int64_t>(op);
    case 4: return go<float>(op);
    default: return go<double>(op);
    }
}
