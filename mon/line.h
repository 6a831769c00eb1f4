// One request per input line, one answer per output line; numbers are C hexadecimal floats.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <iostream>
#include <limits>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <unistd.h>

// the answers; the code under test may log on stdout
inline std::FILE * ans = nullptr;

struct Req {
    std::vector<std::string> t;
    std::size_t p = 1;
    explicit Req(std::string const & s) {
        std::istringstream i(s);
        std::string w;
        while (i >> w) t.push_back(w);
    }
    std::string op() const { return t.empty() ? "" : t[0]; }
    bool more() const { return p < t.size(); }
    std::string s() {
        if (p >= t.size()) { std::fprintf(stderr, "short request %s\n", t.empty() ? "" : t[0].c_str()); std::exit(3); }
        return t[p++];
    }
    double d() { return std::strtod(s().c_str(), nullptr); }
    long long i() { return std::strtoll(s().c_str(), nullptr, 10); }
};
inline void put(double x) { std::fprintf(ans, "%a ", x); }
inline void put(long long x) { std::fprintf(ans, "%lld ", x); }
inline void put(int x) { std::fprintf(ans, "%d ", x); }
inline void put(bool x) { std::fprintf(ans, "%d ", int(x)); }
inline void put(std::size_t x) { std::fprintf(ans, "%zu ", x); }

template <typename F> int serve(F handle) {
    std::string line;
    ans = fdopen(dup(1), "w");
    dup2(2, 1);
    std::setvbuf(ans, nullptr, _IOLBF, 1 << 16);
    while (std::getline(std::cin, line)) {
        Req r(line);
        if (r.op().empty()) { std::fprintf(ans, "\n"); continue; }
        try {
            handle(r);
        } catch (std::exception const & e) {
            std::string w(e.what());
            for (auto & c : w) if (c == '\n') c = ' ';
            std::fprintf(ans, "EXC %s", w.c_str());
        }
        std::fprintf(ans, "\n");
    }
    std::fflush(ans);
    return 0;
}
