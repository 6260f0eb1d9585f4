// Builds the symbols of a script through clingo.hh and prints everything observable about them.
#include <clingo.hh>
#include <fstream>
#include <iostream>
#include <sstream>
#include <cstdio>
#include <unordered_set>
using namespace Clingo;
static std::string unhex(std::string const &h) {
    std::string r;
    if (h == "-") return r;
    for (size_t i = 0; i + 1 < h.size(); i += 2) r += static_cast<char>(std::stoi(h.substr(i, 2), nullptr, 16));
    return r;
}
static std::string hex(std::string const &s) {
    std::string r;
    char b[3];
    for (unsigned char c : s) { snprintf(b, 3, "%02x", c); r += b; }
    return r.empty() ? "-" : r;
}
template <class F> static std::string att(F f) {
    try { return f(); } catch (std::exception const &) { return "!"; }
}
static std::string cmp(Symbol a, Symbol b) {
    char r[7] = {char('0' + (a == b)), char('0' + (a != b)), char('0' + (a < b)), char('0' + (a <= b)), char('0' + (a > b)), char('0' + (a >= b)), 0};
    return r;
}
int main(int argc, char **argv) {
    std::ifstream in(argv[1]);
    std::string line;
    std::vector<Symbol> syms;
    std::vector<std::pair<std::string, unsigned>> sigs;
    while (std::getline(in, line)) {
        std::istringstream ls(line);
        std::string k;
        ls >> k;
        if (k == "num") { int n; ls >> n; syms.push_back(Number(n)); }
        else if (k == "str") { std::string h; ls >> h; syms.push_back(String(unhex(h).c_str())); }
        else if (k == "inf") syms.push_back(Infimum());
        else if (k == "sup") syms.push_back(Supremum());
        else if (k == "fun") {
            std::string h; int pos, n; ls >> h >> pos >> n;
            SymbolVector args;
            for (int i = 0; i < n; ++i) { int j; ls >> j; args.push_back(syms[j]); }
            auto nm = unhex(h);
            syms.push_back(Function(nm.c_str(), args, pos != 0));
            if (n == 0 && !nm.empty()) {
                Symbol x = Id(nm.c_str(), pos != 0);
                if (!(x == syms.back()) || x.to_c() != syms.back().to_c()) std::cout << "BAD id " << line << "\n";
            }
        }
        else if (k == "rt") {
            std::string h; ls >> h;
            Symbol x = String(unhex(h).c_str());
            std::string r;
            try { Symbol y = parse_term(x.to_string().c_str()); r = std::string(x == y && !(x != y) && unhex(h) == y.string() ? "1" : "0"); }
            catch (std::exception const &e) { r = std::string("!") + e.what(); }
            std::cout << "rt " << h << " " << hex(x.to_string()) << " " << r << "\n";
        }
        else if (k == "parse") {
            std::string h; ls >> h;
            std::string msgs;
            std::string r;
            try { Symbol s = parse_term(unhex(h).c_str(), [&](WarningCode c, char const *m) { msgs += std::to_string(int(c)) + ":" + m + ";"; }, 20); r = "ok " + hex(s.to_string()); }
            catch (std::exception const &e) { r = std::string("err ") + hex(e.what()); }
            std::cout << "parse " << h << " " << r << " " << hex(msgs) << "\n";
        }
    }
    Symbol def;
    std::cout << "default " << hex(def.to_string()) << "\n";
    for (size_t i = 0; i < syms.size(); ++i) {
        Symbol s = syms[i];
        std::cout << "sym " << i << " " << int(s.type())
            << " " << hex(s.to_string())
            << " " << att([&] { return std::to_string(s.number()); })
            << " " << att([&] { return hex(s.string()); })
            << " " << att([&] { return hex(s.name()); })
            << " " << att([&] { return std::string(s.is_positive() ? "1" : "0"); })
            << " " << att([&] { return std::string(s.is_negative() ? "1" : "0"); })
            << " " << att([&] { std::string r = "("; for (auto &a : s.arguments()) r += hex(a.to_string()) + ","; r += ")" + std::to_string(s.arguments().size()); return r; });
        std::ostringstream oss;
        oss << s;
        std::string m;
        for (auto *n : {"f", "a", "g", ""}) for (unsigned k = 0; k < 3; ++k) m += s.match(n, k) ? "1" : "0";
        std::cout << " " << m << " " << (oss.str() == s.to_string() ? "1" : "0") << "\n";
    }
    // pairs: built again so that nothing depends on identity of the C++ object
    for (size_t i = 0; i < syms.size(); ++i) {
        std::cout << "row " << i << " ";
        for (size_t j = 0; j < syms.size(); ++j) {
            auto c = cmp(syms[i], syms[j]);
            int v = 0;
            for (int k = 0; k < 6; ++k) v |= (c[k] == '1') << k;
            std::cout << char('!' + v);
            if (syms[i] == syms[j] && std::hash<Symbol>()(syms[i]) != std::hash<Symbol>()(syms[j])) std::cout << "\nBAD hash\n";
        }
        std::cout << "\n";
    }
    std::unordered_set<Symbol> set(syms.begin(), syms.end());
    std::cout << "distinct " << set.size() << "\n";
    // signatures
    std::vector<Signature> sg;
    for (auto *n : {"a", "b", "ab", "_a", "f", "F'"}) for (unsigned k : {0u, 1u, 2u, 255u, 70000u}) for (bool p : {true, false}) {
        Signature s(n, k, p);
        sg.push_back(s);
        std::ostringstream oss;
        oss << s;
        std::cout << "sig " << s.name() << " " << s.arity() << " " << s.positive() << " " << s.negative() << " " << oss.str() << "\n";
    }
    for (size_t i = 0; i < sg.size(); ++i) {
        std::cout << "sigrow " << i << " ";
        for (size_t j = 0; j < sg.size(); ++j) {
            auto &a = sg[i]; Signature b(sg[j].name(), sg[j].arity(), sg[j].positive());
            int v = (a == b) | (a != b) << 1 | (a < b) << 2 | (a <= b) << 3 | (a > b) << 4 | (a >= b) << 5;
            std::cout << char('!' + v);
            if (a == b && std::hash<Signature>()(a) != std::hash<Signature>()(b)) std::cout << "\nBAD sighash\n";
        }
        std::cout << "\n";
    }
    std::cout << "END\n";
}
