// Native implementation of the harness API: inputs come from a replay file
// with lines "<name> <kind> <value>" (values: hex floats / decimal integers).
#include "vp.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <dlfcn.h>
#include <unistd.h>
#include <vector>
#include <cmath>

namespace {
    std::map<std::string, std::string> inputs;
    std::map<std::string, int> seen;

    std::string const & get(char const * name, bool & ok)
    {
        int const n = seen[name]++;
        std::string k(name);
        if (n) k += "#" + std::to_string(n);
        auto i = inputs.find(k);
        static std::string const none("0");
        ok = i != inputs.end();
        if (!ok) {
            std::printf("NOINPUT %s\n", k.c_str());
            return none;
        }
        return i->second;
    }
    uint64_t geti(char const * n)
    { bool ok; return std::strtoull(get(n, ok).c_str(), nullptr, 0); }
}

extern "C" {
double vp_double(char const * n)
{ bool ok; return std::strtod(get(n, ok).c_str(), nullptr); }
float vp_float(char const * n)
{ bool ok; return std::strtof(get(n, ok).c_str(), nullptr); }
uint8_t vp_u8(char const * n) { return geti(n); }
uint16_t vp_u16(char const * n) { return geti(n); }
uint32_t vp_u32(char const * n) { return geti(n); }
uint64_t vp_u64(char const * n) { return geti(n); }
bool vp_bool(char const * n) { return geti(n) != 0; }
int vp_choice(char const * n, int) { return geti(n); }
double vp_angle(char const * n, double, double) { return vp_double(n); }
bool vp_eq(double a, double b, double tol)
{
    return a == b || std::fabs(a - b)
        <= tol * std::fmax(1.0, std::fmax(std::fabs(a), std::fabs(b)));
}
bool vp_angle_eq(double a, double b, double tol)
{ return std::fabs(std::remainder(a - b, 2 * M_PI)) <= tol; }
bool vp_le(double a, double b, double tol)
{ return a <= b + tol * std::fmax(1.0, std::fabs(b)); }
void vp_hint_square(double) {}
void vp_assume(bool c)
{
    if (!c) { std::printf("ASSUME-FAILED\n"); std::fflush(stdout); _exit(11); }
}
void vp_assert(bool c, char const * l)
{
    if (!c) { std::printf("ASSERT-FAILED %s\n", l); std::fflush(stdout); _exit(10); }
}
void vp_fail(char const * l) { vp_assert(false, l); }
void vp_reach(char const * l) { std::printf("REACH %s\n", l); }
void vp_out(char const * n, double v) { std::printf("OUT %s %a\n", n, v); }
void vp_outi(char const * n, uint64_t v)
{ std::printf("OUTI %s %llu\n", n, (unsigned long long) v); }
int vp_symbolic() { return 0; }
bool vp_and(bool a, bool b) { return a && b; }
bool vp_or(bool a, bool b) { return a || b; }
}

int main(int argc, char ** argv)
{
    // replay <file> <entry> <int args...>
    if (argc < 3) return 2;
    std::FILE * f = std::fopen(argv[1], "r");
    if (!f) return 2;
    char line[4096];
    while (std::fgets(line, sizeof line, f)) {
        char n[1024], k[64], v[1024];
        if (line[0] == '#') continue;
        if (std::sscanf(line, "%1023s %63s %1023s", n, k, v) == 3)
            inputs[n] = v;
    }
    std::fclose(f);
    void * p = dlsym(RTLD_DEFAULT, argv[2]);
    if (!p) { std::fprintf(stderr, "no entry %s\n", argv[2]); return 2; }
    int a[4] = {0, 0, 0, 0};
    for (int i = 3; i < argc && i < 7; ++i) a[i - 3] = std::atoi(argv[i]);
    reinterpret_cast<void (*)(int, int, int, int)>(p)(a[0], a[1], a[2], a[3]);
    std::printf("END\n");
    std::fflush(stdout);
    _exit(0);
}
