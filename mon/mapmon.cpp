// Drives the real map factories with a recording source image and a recording
// progress observer.
#include "line.h"
#include <marc/OblateSpheroid.h>
#include <marc/SimpleCylindrical.h>
#include <marc/Mercator.h>
#include <marc/PolarStereographic.h>
#include <marc/Orthographic.h>
#include <marc/SourceImage.h>
#include <marc/MapFactory.h>
#include <marc/plot_info.h>
#include <marc/extrema.h>
#include <cstdint>

using namespace MaRC;

struct Rng {
    std::uint64_t s;
    std::uint64_t next() { s += 0x9e3779b97f4a7c15ull; auto z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
    double uni() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
};

struct Event { double lat, lon; bool ok; double v; };

class Source final : public SourceImage {
public:
    Source(std::uint64_t seed, double span, double lo, double hi, int mode) : r{seed}, span_(span), lo_(lo), hi_(hi), mode_(mode) {}
    bool read_data(double lat, double lon, double & data) const override {
        Event e{lat, lon, true, 0};
        double const p = r.uni();
        double x = (r.uni() * 2 - 1) * span_;
        if (mode_ == 1) e.ok = false;
        else if (p < 0.15) e.ok = false;
        else if (p < 0.20) x = std::numeric_limits<double>::quiet_NaN();
        else if (p < 0.22) x = std::numeric_limits<double>::infinity();
        else if (p < 0.24) x = -std::numeric_limits<double>::infinity();
        else if (p < 0.27) x = lo_;
        else if (p < 0.30) x = hi_;
        else if (p < 0.32) x = std::nextafter(lo_, -1e308);
        else if (p < 0.34) x = std::nextafter(hi_, 1e308);
        else if (p < 0.36) x = 1e300 * (r.uni() < .5 ? -1 : 1);
        else if (p < 0.40) x = std::floor(x);
        if (mode_ == 2) { e.ok = true; x = double(events.size() + 1); }
        e.v = x;
        events.push_back(e);
        if (e.ok) data = x;
        return e.ok;
    }
    bool read_data(double lat, double lon, double & data, double & w, bool) const override { w = 1; return read_data(lat, lon, data); }
    mutable std::vector<Event> events;
    mutable Rng r;
    double span_, lo_, hi_;
    int mode_;
};

struct Note { bool reset; std::size_t size, count; };
class Obs final : public Progress::Observer {
public:
    explicit Obs(std::vector<Note> & l) : log(l) {}
    void notify(std::size_t a, std::size_t b) override { log.push_back({false, a, b}); }
    void reset() override { log.push_back({true, 0, 0}); }
    std::vector<Note> & log;
};

static std::unique_ptr<MapFactory> factory(Req & r) {
    bool const pro = r.i() != 0;
    double const a = r.d(), c = r.d();
    auto b = std::make_shared<OblateSpheroid>(pro, a, c);
    auto const k = r.s();
    if (k == "S") { double l = r.d(), h = r.d(), o = r.d(), p = r.d(); bool g = r.i(); return std::make_unique<SimpleCylindrical>(b, l, h, o, p, g); }
    if (k == "M") return std::make_unique<Mercator>(b);
    if (k == "P") { double m = r.d(); bool n = r.i(); return std::make_unique<PolarStereographic>(b, m, n); }
    double la = r.d(), lo = r.d(), pa = r.d(), km = r.d();
    auto const ck = r.s();
    double x = r.d(), y = r.d();
    OrthographicCenter oc(ck == "C" ? CENTER_GIVEN : ck == "L" ? LAT_LON_GIVEN : DEFAULT, x, y);
    return std::make_unique<Orthographic>(b, la, lo, pa, km, oc);
}

template <typename T> static void putT(T x) { if (std::is_integral<T>::value) put((long long)x); else put(double(x)); }

template <typename T> static void map(Req & r, MapFactory const & f) {
    std::size_t S = r.i(), N = r.i();
    auto const bl = r.s(); auto const lo = r.s(); auto const hi = r.s();
    double const span = r.d(); std::uint64_t seed = r.i(); int planes = r.i();
    int const nobs = r.i();
    blank_type blank;
    if (bl != "-") blank = std::strtoll(bl.c_str(), nullptr, 10);
    extrema<T> ex;
    double l = -span / 2, h = span / 2;
    if (lo != "-") { l = std::strtod(lo.c_str(), nullptr); ex.minimum(l); }
    if (hi != "-") { h = std::strtod(hi.c_str(), nullptr); ex.maximum(h); }
    plot_info<T> info(S, N, blank);
    std::vector<std::vector<Note>> logs(nobs);
    for (int i = 0; i < nobs; ++i) info.notifier().subscribe(std::make_unique<Obs>(logs[i]));
    put(planes);
    for (int p = 0; p < planes; ++p) {
        int const mode = r.i();
        Source src(seed + 77 * p, span, l, h, mode);
        auto const m = f.make_map<T>(src, ex, info);
        put(src.events.size());
        for (auto const & e : src.events) { put(e.ok); put(e.v); }
        put(m.size());
        for (auto const & x : m) putT<T>(x);
        put(info.data_mapped());
        putT<T>(info.minimum() ? *info.minimum() : T(0)); putT<T>(info.maximum() ? *info.maximum() : T(0));
        put(nobs);
        for (auto & g : logs) {
            // compact trace: number of events, and whether the trace obeys the protocol so far is decided offline
            put(g.size());
            for (auto const & n : g) { put(n.reset); put(n.size); put(n.count); }
            g.clear();
        }
    }
}

static void handle(Req & r) {
    auto const o = r.op();
    if (o == "map") {
        auto const t = r.s();
        auto f = factory(r);
        if (t == "u8") map<std::uint8_t>(r, *f); else if (t == "i16") map<std::int16_t>(r, *f);
        else if (t == "i32") map<std::int32_t>(r, *f); else if (t == "i64") map<std::int64_t>(r, *f);
        else if (t == "f") map<float>(r, *f); else map<double>(r, *f);
    } else if (o == "grid") {
        auto f = factory(r);
        std::size_t S = r.i(), N = r.i(); double a = r.d(), b = r.d();
        auto g = f->make_grid(S, N, a, b);
        put(g.size());
        std::string s; char const * hex = "0123456789abcdef";
        for (auto x : g) { s += hex[x >> 4]; s += hex[x & 15]; }
        std::fprintf(ans, "g%s", s.c_str());
    } else if (o == "coords") {
        // where the factory plots: every call, in order, as a value that identifies it
        auto f = factory(r);
        std::size_t S = r.i(), N = r.i();
        plot_info<double> info(S, N);
        Source src(1, 1, 0, 0, 2);
        auto m = f->make_map<double>(src, extrema<double>(), info);
        put(src.events.size());
        for (auto const & e : src.events) { put(e.lat); put(e.lon); }
        for (auto const & x : m) put(x);
    } else { std::fprintf(stderr, "unknown op %s\n", o.c_str()); std::exit(3); }
}
int main() { return serve(handle); }
