// Executes requests against the real geometry and mathematics code.
#include "line.h"
#include <marc/OblateSpheroid.h>
#include <marc/ViewingGeometry.h>
#include <marc/GLLGeometricCorrection.h>
#include <marc/NullGeometricCorrection.h>
#include <marc/Mathematics.h>
#include <marc/root_find.h>
#include <marc/Geometry.h>
#include <marc/Vector.h>
#include <marc/Matrix.h>
#include <marc/extrema.h>
#include <marc/scale_and_offset.h>
#include <marc/utility.h>
#include <marc/Validate.h>
#include <cstdint>

using namespace MaRC;

static std::shared_ptr<OblateSpheroid> body(Req & r) {
    bool const pro = r.i() != 0;
    double const a = r.d();
    double const c = r.d();
    return std::make_shared<OblateSpheroid>(pro, a, c);
}

static std::unique_ptr<ViewingGeometry> vg;

static void view(Req & r) {
    vg.reset();
    auto b = body(r);
    auto g = std::make_unique<ViewingGeometry>(b);
    std::size_t S = 0, N = 0;
    while (r.more()) {
        auto const k = r.s();
        if (k == "sub") { double a = r.d(), o = r.d(); g->sub_observ(a, o); }
        else if (k == "sun") { double a = r.d(), o = r.d(); g->sub_solar(a, o); }
        else if (k == "rng") g->range(r.d());
        else if (k == "pa") g->position_angle(r.d());
        else if (k == "kmpp") g->km_per_pixel(r.d());
        else if (k == "arcsec") g->arcsec_per_pixel(r.d());
        else if (k == "lens") { double f = r.d(), s = r.d(); g->focal_length(f); g->scale(s); }
        else if (k == "center") { double s = r.d(), l = r.d(); g->body_center(s, l); }
        else if (k == "llc") { double s = r.d(), l = r.d(); g->lat_lon_center(s, l); }
        else if (k == "oa") { double s = r.d(), l = r.d(); g->optical_axis(s, l); }
        else if (k == "emi") g->emi_ang_limit(r.d());
        else if (k == "term") g->use_terminator(r.i() != 0);
        else if (k == "gll") g->geometric_correction(std::make_unique<GLLGeometricCorrection>(r.i()));
        else if (k == "size") { S = r.i(); N = r.i(); }
        else { std::fprintf(stderr, "unknown key %s\n", k.c_str()); std::exit(3); }
    }
    g->finalize_setup(S, N);
    vg = std::move(g);
}

template <typename T> static void so(Req & r) {
    double lo = r.d(), hi = r.d(), s = -12345, o = -12345;
    bool const ok = scale_and_offset<T>(lo, hi, s, o);
    put(ok); put(s); put(o);
}

template <typename T> static void ex(Req & r) {
    // a history of operations on three extrema objects
    extrema<T> e[3];
    while (r.more()) {
        auto const k = r.s();
        if (k == "u") { int a = r.i(); e[a].update(static_cast<T>(r.d())); }
        else if (k == "m") { int a = r.i(), b = r.i(); e[a].update(e[b]); }
        else if (k == "r") { int a = r.i(); e[a].reset(); }
        else if (k == "c") { int a = r.i(), b = r.i(); extrema<T> t(e[b]); e[a] = t; }
        else if (k == "v") { int a = r.i(), b = r.i(); extrema<T> t(e[b]); e[a] = std::move(t); }
        else if (k == "s") { int a = r.i(), b = r.i(); if (a != b) e[a].swap(e[b]); }
        else if (k == "lo") { int a = r.i(); e[a].minimum(static_cast<T>(r.d())); }
        else if (k == "hi") { int a = r.i(); e[a].maximum(static_cast<T>(r.d())); }
        else if (k == "D") { int a = r.i(); double lo = r.d(), hi = r.d(); extrema<double> t(lo, hi); e[a] = extrema<T>(t); }
        else if (k == "d") { int a = r.i(); double lo = r.d(), hi = r.d(); extrema<double> t;
            if (lo == lo) t.minimum(lo);
            if (hi == hi) t.maximum(hi);
            e[a] = extrema<T>(t); }
        else if (k == "q") {
            int a = r.i();
            auto const x = static_cast<T>(r.d());
            put(e[a].is_valid()); put(bool(e[a].minimum())); put(bool(e[a].maximum()));
            put(e[a].minimum() ? double(*e[a].minimum()) : 0.0);
            put(e[a].maximum() ? double(*e[a].maximum()) : 0.0);
            put(e[a].minimum() && e[a].maximum() ? int(e[a].in_range(x)) : -1);
        }
    }
}

template <std::size_t R, std::size_t C> static Matrix<double, R, C> mat(Req & r) {
    Matrix<double, R, C> m;
    for (std::size_t i = 0; i < R; ++i) for (std::size_t j = 0; j < C; ++j) m(i, j) = r.d();
    return m;
}
template <std::size_t R, std::size_t C> static void putm(Matrix<double, R, C> const & m) {
    for (std::size_t i = 0; i < R; ++i) for (std::size_t j = 0; j < C; ++j) put(double(m(i, j)));
}
template <std::size_t N> static Vector<double, N> vec(Req & r) {
    Vector<double, N> v;
    for (std::size_t i = 0; i < N; ++i) v[i] = r.d();
    return v;
}
template <std::size_t N> static void putv(Vector<double, N> const & v) {
    for (std::size_t i = 0; i < N; ++i) put(double(v[i]));
}
template <std::size_t N> static void mag(Req & r) {
    auto v = vec<N>(r);
    put(v.magnitude());
    auto u = v;
    u.to_unit_vector();
    putv(u);
    // elements by checked index
    bool same = true;
    Vector<double, N> const & c = v;
    for (std::size_t i = 0; i < N; ++i) same = same && v.at(i) == v[i] && c.at(i) == v[i];
    put(same);
    for (int k = 0; k < 2; ++k) {
        bool all = true;
        for (std::size_t i : { N, N + 1, std::size_t(-1) })
            try { if (k) (void) v.at(i); else (void) c.at(i); all = false; } catch (std::out_of_range const &) {}
        put(all);
    }
}

static void handle(Req & r) {
    auto const o = r.op();
    if (o == "body") { auto b = body(r); put(b->eq_rad()); put(b->pol_rad()); put(b->flattening());
        put(b->first_eccentricity()); put(b->prograde()); }
    else if (o == "radius") { auto b = body(r); put(b->centric_radius(r.d())); }
    else if (o == "centric") { auto b = body(r); put(b->centric_latitude(r.d())); }
    else if (o == "graphic") { auto b = body(r); put(b->graphic_latitude(r.d())); }
    else if (o == "MN") { auto b = body(r); double l = r.d(); put(b->M(l)); put(b->N(l)); }
    else if (o == "mu") { auto b = body(r); double a = r.d(), c = r.d(), d = r.d(), e = r.d(), f = r.d();
        put(b->mu(a, c, d, e, f)); }
    else if (o == "mu0") { auto b = body(r); double a = r.d(), c = r.d(), d = r.d(), e = r.d(); put(b->mu0(a, c, d, e)); }
    else if (o == "phase") { auto b = body(r);
        double a = r.d(), c = r.d(), d = r.d(), e = r.d(), f = r.d(), g = r.d(), h = r.d();
        put(b->cos_phase(a, c, d, e, f, g, h)); }
    else if (o == "ell") { auto b = body(r); auto v = vec<3>(r); auto d = vec<3>(r);
        double lat = -1234, lon = -1234; int rc = b->ellipse_intersection(v, d, lat, lon); put(rc); put(lat); put(lon); }
    else if (o == "quad") { double a = r.d(), b = r.d(), c = r.d(); std::pair<double, double> p(-1234, -1234);
        bool ok = quadratic_roots(a, b, c, p); put(ok); put(p.first); put(p.second); }
    else if (o == "sgn") { double x = r.d(); put(sgn(x)); put(signum(x)); }
    else if (o == "rot") { auto ax = r.s(); double g = r.d(); auto v = vec<3>(r); DVector q;
        DMatrix m;
        if (ax == "x") { Geometry::RotX(g, v, q); m = Geometry::RotXMatrix(g); }
        else if (ax == "y") { Geometry::RotY(g, v, q); m = Geometry::RotYMatrix(g); }
        else { Geometry::RotZ(g, v, q); m = Geometry::RotZMatrix(g); }
        putv(q); putm(m); DVector z(m * v); putv(z); DVector y(transpose(m) * z); putv(y); }
    else if (o == "mul") { auto a = mat<2, 3>(r); auto b = mat<3, 4>(r); putm(Matrix<double, 2, 4>(a * b)); }
    else if (o == "mops") { auto a = mat<2, 3>(r); auto b = mat<2, 3>(r); double x = r.d();
        putm(Matrix<double, 2, 3>(a + b)); putm(Matrix<double, 2, 3>(a - b)); putm(Matrix<double, 2, 3>(a * x));
        putm(Matrix<double, 2, 3>(x * a)); putm(Matrix<double, 3, 2>(transpose(a))); put(a == b); put(a != b);
        auto const & ca = a; bool same = true, out = true;
        for (std::size_t i = 0; i < 2; ++i) for (std::size_t j = 0; j < 3; ++j) same = same && a.at(i, j) == a(i, j) && ca.at(i, j) == a(i, j);
        std::size_t const bad[][2] = { { 2, 0 }, { 0, 3 }, { 2, 3 }, { std::size_t(-1), 0 }, { 1, std::size_t(-1) } };
        for (auto const & x : bad) {
            try { (void) a.at(x[0], x[1]); out = false; } catch (std::out_of_range const &) {}
            try { (void) ca.at(x[0], x[1]); out = false; } catch (std::out_of_range const &) {}
        }
        put(same); put(out); }
    else if (o == "vops") { auto a = vec<3>(r); auto b = vec<3>(r); double x = r.d();
        putv(Vector<double, 3>(a + b)); putv(Vector<double, 3>(a - b)); putv(Vector<double, 3>(a * x));
        putv(Vector<double, 3>(x * a)); put(double(dot_product(a, b))); put(a == b); put(a != b); }
    else if (o == "mag1") mag<1>(r);
    else if (o == "mag2") mag<2>(r);
    else if (o == "mag3") mag<3>(r);
    else if (o == "mag5") mag<5>(r);
    else if (o == "root") {
        // root of f(x) = y in a bracket; f(x) = s*(x-c) + k*(x-c)^3 + t*atan(w*(x-c)) + e*expm1((x-c)/h), all monotone
        int mode = r.i();
        double y = r.d(), lo = r.d(), hi = r.d(), c = r.d(), s = r.d(), k = r.d(), t = r.d(), w = r.d(), e = r.d(), h = r.d();
        double up = r.more() ? r.d() : 0;      // f(x) + up = y + up
        long long n = 0; double mn = 1e300, mx = -1e300;
        auto f = [&](double x) { ++n; mn = std::min(mn, x); mx = std::max(mx, x);
            double z = x - c; return s * z + k * z * z * z + t * std::atan(w * z) + e * std::expm1(z / h) + up; };
        if (mode == 2) y = f(lo); else if (mode == 3) y = f(hi);
        n = 0;
        double x = mode ? root_find(y, lo, hi, f) : root_find(y, lo, f);
        put(x); put(n); put(mn); put(mx);
    }
    else if (o == "gll") { long long S = r.i(); double l = r.d(), s = r.d(); GLLGeometricCorrection g(S);
        double a = l, b = s; g.object_to_image(a, b); put(a); put(b); g.image_to_object(a, b); put(a); put(b);
        a = l; b = s; g.image_to_object(a, b); put(a); put(b); g.object_to_image(a, b); put(a); put(b); }
    else if (o == "so") { auto t = r.s();
        if (t == "u8") so<std::uint8_t>(r); else if (t == "i16") so<std::int16_t>(r); else if (t == "i32") so<std::int32_t>(r);
        else if (t == "i64") so<std::int64_t>(r); else if (t == "f") so<float>(r); else so<double>(r); }
    else if (o == "ex") { auto t = r.s();
        if (t == "u8") ex<std::uint8_t>(r); else if (t == "i16") ex<std::int16_t>(r); else if (t == "i32") ex<std::int32_t>(r);
        else if (t == "f") ex<float>(r); else ex<double>(r); }
    else if (o == "inv") { int how = r.i(); std::size_t S = r.i(), N = r.i(); std::vector<double> v;
        while (r.more()) v.push_back(r.d());
        if (how & 1) invert_samples(v, S, N);
        if (how & 2) invert_lines(v, S, N);
        for (double x : v) put(x); }
    else if (o == "val") { auto t = r.s(); double x = r.d();
        put(t == "lat" ? validate_latitude(x) : t == "lon" ? validate_longitude(x) : validate_position_angle(x)); }
    else if (o == "view") { view(r); put(1); }
    else if (!vg && (o == "l2p" || o == "p2l" || o == "vis" || o == "mask")) std::fprintf(ans, "NOVIEW");
    else if (o == "l2p") { double a = r.d(), b = r.d(), x = -1234, z = -1234; bool ok = vg->latlon2pix(a, b, x, z);
        put(ok); put(x); put(z); }
    else if (o == "p2l") { double a = r.d(), b = r.d(), x = -1234, z = -1234; bool ok = vg->pix2latlon(a, b, x, z);
        put(ok); put(x); put(z); }
    else if (o == "vis") { double a = r.d(), b = r.d(); put(vg->is_visible(a, b)); }
    else if (o == "mask") { std::size_t S = r.i(), N = r.i(); for (bool x : vg->body_mask(S, N)) std::fputc(x ? '1' : '0', ans); }
    else { std::fprintf(stderr, "unknown op %s\n", o.c_str()); std::exit(3); }
}

int main() { return serve(handle); }
