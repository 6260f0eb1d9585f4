// Support for the C++ drivers: journal, reporting, exhaustive choice exploration.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
#include <vector>
namespace vp {
inline char *jmem() {
    static char *m = [] {
        char const *p = getenv("VP_JOURNAL");
        if (!p) return static_cast<char *>(nullptr);
        int fd = open(p, O_RDWR);
        if (fd < 0) return static_cast<char *>(nullptr);
        void *x = mmap(nullptr, 1 << 14, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        return x == MAP_FAILED ? nullptr : static_cast<char *>(x);
    }();
    return m;
}
struct State {
    std::string cur;
    long n = 0, execs = 0, trans = 0, nontrivial = 0;
    std::set<uint64_t> states;
    std::set<std::string> keys;
    int samples = 0;
};
inline State &st() { static State s; return s; }
inline void journal(std::string const &t) {
    auto &s = st();
    s.cur = t;
    ++s.n;
    if (char *m = jmem()) { int k = snprintf(m, 8000, "%ld\n%s", s.n, t.c_str()); m[k < 8000 ? k : 7999] = 0; }
}
inline std::string esc(std::string const &s) {
    std::string r;
    for (char c : s) r += c == '\n' ? std::string(" / ") : std::string(1, c == '|' ? '!' : c);
    return r;
}
inline void fail(std::string const &key, std::string const &desc) {
    if (st().keys.insert(key).second && st().keys.size() < 60) {
        printf("VIOL %s|%s [%s]\n", esc(key).c_str(), esc(desc).substr(0, 900).c_str(), esc(st().cur).c_str());
        fflush(stdout);
    }
}
inline bool check(bool c, std::string const &key, std::string const &desc = "") { if (!c) fail(key, desc); return c; }
template <class T> std::string str(T const &x) { std::ostringstream o; o << x; return o.str(); }
template <class A, class B> bool eq(A const &got, B const &want, std::string const &key, std::string const &desc = "") {
    if (!(got == want)) { fail(key, desc + ": got " + str(got) + ", expected " + str(want)); return false; }
    return true;
}
inline void state(std::string const &s) {
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
    st().states.insert(h);
}
inline void sample(std::string const &s) { if (st().samples++ < 4) printf("SAMPLE %s\n", esc(s).c_str()); }
inline bool thorough() { char const *t = getenv("VP_TIER"); return t && !strcmp(t, "thorough"); }
inline int done() {
    auto &s = st();
    printf("COV execs=%ld transitions=%ld nontrivial=%ld nstates=%zu\nDONE\n", s.execs, s.trans, s.nontrivial, s.states.size());
    fflush(stdout);
    _exit(0);
}
// ---- choices
struct Choices {
    std::vector<int> prefix;
    std::vector<std::pair<int, int>> path;
    int operator()(int n) {
        int c = path.size() < prefix.size() ? prefix[path.size()] : 0;
        if (c >= n) { fail("internal: diverged", ""); c = 0; }
        path.emplace_back(c, n);
        return c;
    }
};
template <class F> long explore(std::string const &name, F body) {
    std::vector<std::vector<int>> stack{{}};
    long cnt = 0;
    while (!stack.empty()) {
        Choices ch;
        ch.prefix = stack.back();
        stack.pop_back();
        std::string d = name + " [";
        for (int c : ch.prefix) d += std::to_string(c) + " ";
        journal(d + "]");
        try { body(ch); }
        catch (std::exception const &e) { fail(name + ": unexpected exception", e.what()); }
        ++cnt; ++st().execs;
        st().trans += static_cast<long>(ch.path.size());
        for (size_t i = ch.path.size(); i-- > ch.prefix.size();)
            for (int a = ch.path[i].second - 1; a > ch.path[i].first; --a) {
                std::vector<int> h;
                for (size_t k = 0; k < i; ++k) h.push_back(ch.path[k].first);
                h.push_back(a);
                stack.push_back(h);
            }
    }
    return cnt;
}
} // namespace vp
