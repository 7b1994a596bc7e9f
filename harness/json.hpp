#pragma once
// Minimal JSON emission and the length-prefixed command protocol shared by the harnesses.
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <iostream>
#include <sstream>
#include <string>
#include <string_view>
#include <unistd.h>

namespace hv {

inline std::string esc(std::string_view s) {
    std::string o = "\"";
    char b[8];
    for (unsigned char c : s) {
        if (c == '"' or c == '\\') { o += '\\'; o += char(c); }
        else if (c < 0x20 or c >= 0x7f) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += char(c);
    }
    return o + '"';
}
inline std::string num(double d) {
    if (std::isnan(d)) return "\"nan\"";
    if (std::isinf(d)) return d > 0 ? "\"inf\"" : "\"-inf\"";
    char b[40]; snprintf(b, sizeof b, "%.17g", d);
    std::string s(b);
    if (s.find_first_of(".e") == std::string::npos) s += ".0";
    return s;
}

/** Reads "CMD LEN\n<LEN bytes>\n"; false at end of input. */
inline bool read_cmd(std::istream &in, std::string &cmd, std::string &body) {
    std::size_t len;
    if (not (in >> cmd >> len)) return false;
    in.get();
    body.resize(len);
    in.read(body.data(), std::streamsize(len));
    in.get();
    return bool(in);
}

/** All harness output goes here (fd dup'ed from stdout), so the code under test may print to std::cout freely. */
inline FILE *out_file() {
    static FILE *f = [] { int fd = dup(1); return fdopen(fd, "w"); }();
    return f;
}
inline void emit(const std::string &line) { fputs(line.c_str(), out_file()); fputc('\n', out_file()); fflush(out_file()); }

struct Capture {   // captures std::cout and std::cerr
    std::ostringstream o, e;
    std::streambuf *so, *se;
    Capture() : so(std::cout.rdbuf(o.rdbuf())), se(std::cerr.rdbuf(e.rdbuf())) {}
    ~Capture() { std::cout.rdbuf(so); std::cerr.rdbuf(se); }
};

}
