// Application driver for C++: argv[1] is the specification (key=value;...), argv[2] the log file, the rest the arguments.
#include <clingo.hh>
#include <algorithm>
#include <cstdio>
#include <map>
#include <memory>
#include <string>
#include <unistd.h>
using namespace Clingo;
static std::map<std::string, std::string> spec;
static FILE *logf_;
static void log_(std::string const &s) { std::string t; for (char c : s) { if (c == '\n') t += "\\n"; else t += c; } fputs((t + "\n").c_str(), logf_); fflush(logf_); }
static std::string get(char const *k) { auto it = spec.find(k); return it == spec.end() ? "" : it->second; }
struct Base : Application {
    bool flag = false, on = true;
    std::unique_ptr<bool[]> extra;
    std::string name_ = get("name"), version_ = get("version");
    char const *program_name() const noexcept override { return name_.empty() ? Application::program_name() : name_.c_str(); }
    char const *version() const noexcept override { return version_.empty() ? Application::version() : version_.c_str(); }
    unsigned message_limit() const noexcept override { return get("limit").empty() ? Application::message_limit() : static_cast<unsigned>(std::stoi(get("limit"))); }
    std::function<bool(char const *)> parser(std::string name) {
        return [name](char const *v) -> bool {
            log_("parse " + name + " " + v);
            if (std::string(v) == "exc") throw std::runtime_error("parse exception");
            return std::string(v) != "bad";
        };
    }
    void register_options(ClingoOptions &o) override {
        if (get("opts").empty()) return;
        log_("register");
        o.add("Group A", "opt,z", "the option", parser("opt"));
        o.add("Group B", "multi", "the multi option", parser("multi"), true, "<m>");
        o.add("Group A", "arg", "with argument", parser("arg"), false, "<x>");
        o.add_flag("Group B", "flag,y", "the flag", flag);
        o.add_flag("Group A", "on", "the other flag", on);
        int n = get("extra").empty() ? 0 : std::stoi(get("extra"));
        extra.reset(new bool[n + 1]());
        for (int i = 0; i < n; ++i) {
            auto k = std::to_string(i);
            o.add(("Group " + std::to_string(i % 7)).c_str(), ("w" + k).c_str(), "option", parser("w" + k), i % 2 == 1);
            o.add_flag(("Group " + std::to_string(i % 5)).c_str(), ("v" + k).c_str(), "flag", extra[i]);
        }
        if (get("opts") == "dup") o.add("Group A", "opt", "again", parser("opt"));
    }
    void validate_options() override {
        if (get("validate").empty()) return;
        log_("validate " + std::to_string(flag) + std::to_string(on));
        if (get("validate") == "exc" || get("validate") == "fail") throw std::runtime_error("validate exception");
    }
    void main(Control &ctl, StringSpan files) override {
        std::string l = "main ";
        for (auto *f : files) { if (l.size() > 5) l += " "; l += f; }
        log_(l);
        if (get("main") == "exc") throw std::runtime_error("main exception");
        if (get("main") == "nothing") return;
        for (auto *f : files) ctl.load(f);
        if (files.size() == 0) ctl.load("-");
        ctl.ground({{"base", {}}});
        if (get("main") == "ground") return;
        for (int i = 0; i < (get("main") == "twice" ? 2 : 1); ++i) {
            auto r = ctl.solve(LiteralSpan{}, nullptr, false, false).get();
            log_(std::string("result ") + (r.is_satisfiable() ? "SAT" : r.is_unsatisfiable() ? "UNSAT" : "UNKNOWN"));
        }
        if (!get("extra").empty()) {
            std::string e = "extra ";
            for (int i = 0; i < std::stoi(get("extra")); ++i) e += extra[i] ? "1" : "0";
            log_(e);
        }
        log_("flags " + std::to_string(flag) + std::to_string(on));
    }
};
template <class B> struct Log : B {
    void log(WarningCode code, char const *m) noexcept override {
        static char const *N[] = {"OperationUndefined", "RuntimeError", "AtomUndefined", "FileIncluded", "VariableUnbounded", "GlobalVariable", "Other"};
        std::string s = m;
        while (!s.empty() && s.back() == '\n') s.pop_back();
        log_(std::string("log ") + N[static_cast<int>(code)] + " " + s);
    }
};
template <class B> struct Print : B {
    void print_model(Model const &m, std::function<void()> printer) noexcept override {
        std::vector<std::string> v;
        for (auto &s : m.symbols(ShowType::Shown)) v.push_back(s.to_string());
        std::sort(v.begin(), v.end());
        std::string l = "model ";
        for (auto &s : v) { if (l.size() > 6) l += " "; l += s; }
        log_(l);
        for (int i = 0; i < std::stoi(get("printer")); ++i) { printf("<%d>\n", i); fflush(stdout); printer(); fflush(stdout); }
    }
};
int main(int argc, char **argv) {
    std::string s = argv[1], cur;
    for (char c : s + ";") {
        if (c != ';') { cur += c; continue; }
        auto p = cur.find('=');
        if (p != std::string::npos) spec[cur.substr(0, p)] = cur.substr(p + 1);
        cur.clear();
    }
    logf_ = fopen(argv[2], "w");
    std::vector<char const *> a(argv + 3, argv + argc);
    Base b; Log<Base> l; Print<Base> p; Log<Print<Base>> lp;
    Base &app = get("log").empty() ? (get("printer").empty() ? b : static_cast<Base&>(p)) : get("printer").empty() ? static_cast<Base&>(l) : static_cast<Base&>(lp);
    int rc = 98;
    try { rc = clingo_main(app, StringSpan{a.data(), a.size()}); log_("exit"); }
    catch (std::exception const &e) { log_(std::string("EXCEPTION ") + e.what()); }
    fflush(stdout);
    return rc & 255;
}
