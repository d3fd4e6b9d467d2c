// Map plotting: which value every cell of a map ends up with.
#include "vp.h"
#include "marc/MapFactory.h"
#include "marc/SourceImage.h"
#include "marc/plot_info.h"
#include "marc/Observer.h"
#include <cmath>
#include <limits>
#include <memory>
#include <stdexcept>
#include <type_traits>
#include <vector>

namespace {

constexpr int maxcells = 4;

// Source whose answers are arbitrary.
struct Source : MaRC::SourceImage
{
    mutable int calls = 0;
    mutable double datum[maxcells];
    mutable bool found[maxcells];
    bool read_data(double, double, double & data) const override
    {
        double const d = vp_double("datum");
        bool const f = vp_bool("found");
        datum[calls] = d;
        found[calls] = f;
        ++calls;
        data = d;       // a source may touch its result although it fails
        return f;
    }
};

// Projection visiting the given cells.
struct Factory : MaRC::MapFactory
{
    int n = 0;
    std::size_t visit[maxcells];
    char const * projection_name() const override { return "vp"; }
    void plot_map(std::size_t, std::size_t, plot_type const & plot)
        const override
    {
        for (int i = 0; i < n; ++i)
            plot(0.25, 0.5, visit[i]);
    }
    void plot_grid(std::size_t, std::size_t, double, double,
                   grid_type &) const override {}
};

struct Log
{
    int notes = 0;
    std::size_t size[2 * maxcells + 4];
    std::size_t count[2 * maxcells + 4];
    int resets = 0;
    int notes_at_reset = -1;
};

struct Observer : MaRC::Progress::Observer
{
    Log & log;
    explicit Observer(Log & l) : log(l) {}
    void notify(std::size_t s, std::size_t c) override
    {
        log.size[log.notes] = s;
        log.count[log.notes] = c;
        ++log.notes;
    }
    void reset() override { ++log.resets; log.notes_at_reset = log.notes; }
};

template <typename T> struct bits_of { using type = uint64_t; };

template <typename T>
bool same(T a, T b)
{
    if (std::is_floating_point<T>::value)
        return vp_or(a == b, vp_and(a != a, b != b));
    return a == b;
}

template <typename T>
T any();
template <> std::uint8_t any<std::uint8_t>() { return vp_u8("lim"); }
template <> std::int16_t any<std::int16_t>() { return vp_u16("lim"); }
template <> std::int32_t any<std::int32_t>() { return vp_u32("lim"); }
template <> std::int64_t any<std::int64_t>()
{
    // bound: 32-bit range, exactly representable as double
    return static_cast<std::int32_t>(vp_u32("lim"));
}
template <> float any<float>() { float f = vp_float("lim"); vp_assume(std::fabs(f) <= std::numeric_limits<float>::max()); return f; }
template <> double any<double>() { double f = vp_double("lim"); vp_assume(std::fabs(f) <= std::numeric_limits<double>::max()); return f; }

template <typename T>
void plot(int limits, int blanks, int planes)
{
    using lim = std::numeric_limits<T>;
    constexpr bool integral = std::is_integral<T>::value;

    // limits: 0 none, 1 minimum, 2 maximum, 3 both
    MaRC::extrema<T> ex;
    T lo = lim::lowest(), hi = lim::max();
    if (limits & 1) { lo = any<T>(); ex.minimum(lo); }
    if (limits & 2) { hi = any<T>(); ex.maximum(hi); }
    if (limits == 3) vp_assume(lo <= hi);

    MaRC::blank_type blank;
    std::int64_t b = 0;
    if (blanks) {
        b = vp_u64("blank");
        blank = b;
    }

    // 3 cells; 0 and 2 are visited (in reverse order), 1 never is.
    Source src;
    Factory fac;
    fac.n = 2;
    fac.visit[0] = 2;
    fac.visit[1] = 0;
    MaRC::plot_info<T> info(3, 1, blank);
    Log log;
    info.notifier().subscribe(std::make_unique<Observer>(log));

    bool const fits =
        !integral || !blanks ||
        vp_and(b >= (integral ? static_cast<std::int64_t>(lim::lowest()) : 0),
               b <= (integral ? static_cast<std::int64_t>(lim::max()) : 0));

    T expect_min{}, expect_max{};
    bool any_plotted = false;

    for (int plane = 0; plane < planes; ++plane) {
        src.calls = 0;
        log = Log();
        std::vector<T> map;
        try {
            map = fac.make_map<T>(src, ex, info);
        } catch (std::invalid_argument const &) {
            vp_assert(!fits, "a map is refused only if the blank value does "
                             "not fit the map's data type");
            vp_reach("refused");
            return;
        }
        vp_assert(fits, "a blank value that does not fit is refused");

        vp_assert(map.size() == 3, "map size is samples x lines");

        T empty = integral ? T() : lim::quiet_NaN();
        if (integral && blanks) empty = static_cast<T>(b);

        vp_assert(src.calls == 2, "the source is asked once per visited cell");
        vp_assert(same<T>(map[1], empty), "an unvisited cell is blank");

        static constexpr int order[] = { 2, 0 };
        for (int i = 0; i < 2; ++i) {
            T const cell = map[order[i]];
            double const d = src.datum[i];
            bool ok = vp_and(src.found[i], vp_and(d >= lo, d <= hi));
            if (integral)   // the greatest 64 bit integer is rounded up
                ok = vp_and(ok, d < std::ldexp(1.0, lim::digits));
            if (ok) {
                T const t = static_cast<T>(d);
                vp_assert(same<T>(cell, t),
                          "found data within limits is plotted");
                if (!any_plotted || t < expect_min) expect_min = t;
                if (!any_plotted || t > expect_max) expect_max = t;
                any_plotted = true;
                vp_reach("plotted");
            } else {
                vp_assert(same<T>(cell, empty),
                          "missing or out-of-limits data leaves the cell blank");
                vp_reach("blank");
            }
        }

        vp_assert(info.data_mapped() == any_plotted,
                  "data_mapped iff some datum was plotted");
        if (any_plotted) {
            vp_assert(same<T>(*info.minimum(), expect_min),
                      "reported minimum is the least plotted value");
            vp_assert(same<T>(*info.maximum(), expect_max),
                      "reported maximum is the greatest plotted value");
        } else {
            vp_assert(!info.minimum() && !info.maximum(),
                      "no extrema without data");
        }

        // progress
        vp_assert(log.notes == 3 && log.resets == 1
                  && log.notes_at_reset == 3,
                  "one progress report per visited cell, then completion and reset");
        for (int i = 0; i < 3; ++i)
            vp_assert(log.size[i] == 3
                      && log.count[i] == (i < 2 ? i + 1u : 3u),
                      "progress counts rise by one and end at the map size");
    }
    vp_reach("done");
}

}

// type: 0 uint8 1 int16 2 int32 3 int64 4 float 5 double
VP_HARNESS(vp_plot)(int type, int limits, int blanks, int planes)
{
    switch (type) {
    case 0: return plot<std::uint8_t>(limits, blanks, planes);
    case 1: return plot<std::int16_t>(limits, blanks, planes);
    case 2: return plot<std::int32_t>(limits, blanks, planes);
    case 3: return plot<std::int64_t>(limits, blanks, planes);
    case 4: return plot<float>(limits, blanks, planes);
    default: return plot<double>(limits, blanks, planes);
    }
}
