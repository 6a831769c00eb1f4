// FITS input and output of the program, called directly.
#include "line.h"
#include "FITS_file.h"
#include "FITS_image.h"
#include "FITS_traits.h"
#include <vector>
#include <optional>
#include <memory>
using namespace MaRC;

static void hex(std::string const & s) {
    std::fputc('s', ans);
    for (unsigned char c : s) std::fprintf(ans, "%02x", c);
    std::fputc(' ', ans);
}
template <typename T> static void opt(std::optional<T> const & o) {
    put(bool(o));
    put(o ? double(*o) : 0.0);
}

template <typename T> static void out(Req & r) {
    // out T path S N planes text blank|- lo|- hi|- (size seed)*
    std::string path = r.s();
    std::size_t S = r.i(), N = r.i(), P = r.i();
    std::string text = r.s(), bl = r.s(), lo = r.s(), hi = r.s();
    FITS::output_file f(path.c_str());
    auto im = f.make_image(FITS::traits<T>::bitpix, S, N, P, nullptr);
    if (text != "-") { im->author(text); im->origin(text + "o"); im->object(text + "b"); im->comment(text + "c"); im->history(text + "h"); }
    if (bl != "-") im->template blank<T>(static_cast<FITS::longlong_type>(std::strtoll(bl.c_str(), nullptr, 10)));
    while (r.more()) {
        std::size_t n = r.i();
        unsigned long long seed = r.i();
        std::vector<T> v(n);
        for (std::size_t j = 0; j < n; ++j) { seed = seed * 6364136223846793005ULL + 1442695040888963407ULL; v[j] = static_cast<T>((seed >> 40) % 200); }
        put(im->template write<std::vector<T>>(v));
    }
    if (lo != "-") im->template datamin<T>(static_cast<T>(std::strtod(lo.c_str(), nullptr)));
    if (hi != "-") im->template datamax<T>(static_cast<T>(std::strtod(hi.c_str(), nullptr)));
}

static void handle(Req & r) {
    auto const o = r.op();
    if (o == "read") {
        FITS::input_file f(r.s().c_str());
        std::vector<double> v; std::size_t S = 0, N = 0;
        f.read(v, S, N);
        put(S); put(N); put(v.size());
        for (double x : v) put(x);
    } else if (o == "keys") {
        FITS::input_file f(r.s().c_str());
        put(f.bitpix()); put(f.naxis());
        hex(f.author()); hex(f.bunit()); hex(f.date_obs()); hex(f.instrument()); hex(f.object()); hex(f.observer());
        hex(f.origin()); hex(f.reference()); hex(f.telescope());
        opt(f.blank()); opt(f.bscale()); opt(f.bzero()); opt(f.datamin()); opt(f.datamax()); opt(f.equinox());
    } else if (o == "out") {
        auto const t = r.s();
        if (t == "u8") out<FITS::byte_type>(r); else if (t == "i16") out<FITS::short_type>(r);
        else if (t == "i32") out<FITS::long_type>(r); else if (t == "i64") out<FITS::longlong_type>(r);
        else if (t == "f") out<FITS::float_type>(r); else out<FITS::double_type>(r);
    } else { std::fprintf(stderr, "unknown op %s\n", o.c_str()); std::exit(3); }
}
int main() { return serve(handle); }
