// Executes histories of syntax-tree operations through clingo.hh (see checks/astlib.py).
#include <algorithm>
#include <clingo.hh>
#include <iostream>
#include <iterator>
#include <map>
#include <cstring>
using namespace Clingo;
using namespace Clingo::AST;
#define Type Clingo::AST::Type
static std::map<std::string, Attribute> const ATTR = {
    {"argument", Attribute::Argument},
    {"arguments", Attribute::Arguments},
    {"arity", Attribute::Arity},
    {"atom", Attribute::Atom},
    {"atom_type", Attribute::AtomType},
    {"atoms", Attribute::Atoms},
    {"bias", Attribute::Bias},
    {"body", Attribute::Body},
    {"code", Attribute::Code},
    {"comment_type", Attribute::CommentType},
    {"comparison", Attribute::Comparison},
    {"condition", Attribute::Condition},
    {"elements", Attribute::Elements},
    {"external", Attribute::External},
    {"external_type", Attribute::ExternalType},
    {"function", Attribute::Function},
    {"guard", Attribute::Guard},
    {"guards", Attribute::Guards},
    {"head", Attribute::Head},
    {"is_default", Attribute::IsDefault},
    {"left", Attribute::Left},
    {"left_guard", Attribute::LeftGuard},
    {"literal", Attribute::Literal},
    {"location", Attribute::Location},
    {"modifier", Attribute::Modifier},
    {"name", Attribute::Name},
    {"node_u", Attribute::NodeU},
    {"node_v", Attribute::NodeV},
    {"operator_name", Attribute::OperatorName},
    {"operator_type", Attribute::OperatorType},
    {"operators", Attribute::Operators},
    {"parameters", Attribute::Parameters},
    {"positive", Attribute::Positive},
    {"priority", Attribute::Priority},
    {"right", Attribute::Right},
    {"right_guard", Attribute::RightGuard},
    {"sequence_type", Attribute::SequenceType},
    {"sign", Attribute::Sign},
    {"symbol", Attribute::Symbol},
    {"term", Attribute::Term},
    {"terms", Attribute::Terms},
    {"value", Attribute::Value},
    {"weight", Attribute::Weight},
};
static std::map<Type, std::string> const NAME = {
    {Type::Id, "Id"},
    {Type::Variable, "Variable"},
    {Type::SymbolicTerm, "SymbolicTerm"},
    {Type::UnaryOperation, "UnaryOperation"},
    {Type::BinaryOperation, "BinaryOperation"},
    {Type::Interval, "Interval"},
    {Type::Function, "Function"},
    {Type::Pool, "Pool"},
    {Type::BooleanConstant, "BooleanConstant"},
    {Type::SymbolicAtom, "SymbolicAtom"},
    {Type::Comparison, "Comparison"},
    {Type::Guard, "Guard"},
    {Type::ConditionalLiteral, "ConditionalLiteral"},
    {Type::Aggregate, "Aggregate"},
    {Type::BodyAggregateElement, "BodyAggregateElement"},
    {Type::BodyAggregate, "BodyAggregate"},
    {Type::HeadAggregateElement, "HeadAggregateElement"},
    {Type::HeadAggregate, "HeadAggregate"},
    {Type::Disjunction, "Disjunction"},
    {Type::TheorySequence, "TheorySequence"},
    {Type::TheoryFunction, "TheoryFunction"},
    {Type::TheoryUnparsedTermElement, "TheoryUnparsedTermElement"},
    {Type::TheoryUnparsedTerm, "TheoryUnparsedTerm"},
    {Type::TheoryGuard, "TheoryGuard"},
    {Type::TheoryAtomElement, "TheoryAtomElement"},
    {Type::TheoryAtom, "TheoryAtom"},
    {Type::Literal, "Literal"},
    {Type::TheoryOperatorDefinition, "TheoryOperatorDefinition"},
    {Type::TheoryTermDefinition, "TheoryTermDefinition"},
    {Type::TheoryGuardDefinition, "TheoryGuardDefinition"},
    {Type::TheoryAtomDefinition, "TheoryAtomDefinition"},
    {Type::Rule, "Rule"},
    {Type::Definition, "Definition"},
    {Type::ShowSignature, "ShowSignature"},
    {Type::ShowTerm, "ShowTerm"},
    {Type::Minimize, "Minimize"},
    {Type::Script, "Script"},
    {Type::Program, "Program"},
    {Type::External, "External"},
    {Type::Edge, "Edge"},
    {Type::Heuristic, "Heuristic"},
    {Type::ProjectAtom, "ProjectAtom"},
    {Type::ProjectSignature, "ProjectSignature"},
    {Type::Defined, "Defined"},
    {Type::TheoryDefinition, "TheoryDefinition"},
    {Type::Comment, "Comment"},
};
static Location const LOCS[] = {{"<string>", "<string>", 1, 3, 2, 4}, {"f", "g h", 10, 30, 20, 40}, {"<string>", "<string>", 1, 1, 1, 1}};
static std::map<int, Node> regs;
struct Err {};
static Node &reg(std::string const &s) {
    auto it = regs.find(std::stoi(s));
    if (it == regs.end()) throw Err{};
    return it->second;
}
static void put(std::string const &s, Node n) {
    int k = std::stoi(s);
    regs.erase(k);
    regs.emplace(k, std::move(n));
}
static std::vector<std::string> split(std::string const &s, char c) {
    std::vector<std::string> r;
    std::string x;
    for (char d : s) { if (d == c) { r.push_back(x); x.clear(); } else x += d; }
    r.push_back(x);
    return r;
}
struct Vals {
    std::vector<std::string> tok;
    std::vector<std::vector<std::string>> keep;
    Location loc(size_t i) { return LOCS[std::stoi(tok.at(i).substr(1))]; }
    int num(size_t i) { return static_cast<int>(std::stoll(tok.at(i).substr(1))); }
    char const *str(size_t i) { return tok.at(i).c_str() + 1; }
    Symbol sym(size_t i) { return parse_term(str(i)); }
    Node node(size_t i) { return reg(tok.at(i).substr(1)); }
    Optional<Node> opt(size_t i) { return tok.at(i) == "o" ? Optional<Node>{} : Optional<Node>{node(i)}; }
    std::vector<Node> nodes(size_t i) {
        std::vector<Node> r;
        if (tok.at(i).size() > 1) for (auto &x : split(tok.at(i).substr(1), ',')) r.push_back(reg(x));
        return r;
    }
    std::vector<char const *> strs(size_t i) {
        keep.emplace_back();
        if (tok.at(i).size() > 1) keep.back() = split(tok.at(i).substr(1), '\x02');
        std::vector<char const *> r;
        for (auto &x : keep.back()) r.push_back(x.c_str());
        return r;
    }
};
static Node make(std::string const &t, Vals val) {
    if (t == "Id") return Node(Type::Id, val.loc(0), val.str(1));
    if (t == "Variable") return Node(Type::Variable, val.loc(0), val.str(1));
    if (t == "SymbolicTerm") return Node(Type::SymbolicTerm, val.loc(0), val.sym(1));
    if (t == "UnaryOperation") return Node(Type::UnaryOperation, val.loc(0), val.num(1), val.node(2));
    if (t == "BinaryOperation") return Node(Type::BinaryOperation, val.loc(0), val.num(1), val.node(2), val.node(3));
    if (t == "Interval") return Node(Type::Interval, val.loc(0), val.node(1), val.node(2));
    if (t == "Function") return Node(Type::Function, val.loc(0), val.str(1), val.nodes(2), val.num(3));
    if (t == "Pool") return Node(Type::Pool, val.loc(0), val.nodes(1));
    if (t == "BooleanConstant") return Node(Type::BooleanConstant, val.num(0));
    if (t == "SymbolicAtom") return Node(Type::SymbolicAtom, val.node(0));
    if (t == "Comparison") return Node(Type::Comparison, val.node(0), val.nodes(1));
    if (t == "Guard") return Node(Type::Guard, val.num(0), val.node(1));
    if (t == "ConditionalLiteral") return Node(Type::ConditionalLiteral, val.loc(0), val.node(1), val.nodes(2));
    if (t == "Aggregate") return Node(Type::Aggregate, val.loc(0), val.opt(1), val.nodes(2), val.opt(3));
    if (t == "BodyAggregateElement") return Node(Type::BodyAggregateElement, val.nodes(0), val.nodes(1));
    if (t == "BodyAggregate") return Node(Type::BodyAggregate, val.loc(0), val.opt(1), val.num(2), val.nodes(3), val.opt(4));
    if (t == "HeadAggregateElement") return Node(Type::HeadAggregateElement, val.nodes(0), val.node(1));
    if (t == "HeadAggregate") return Node(Type::HeadAggregate, val.loc(0), val.opt(1), val.num(2), val.nodes(3), val.opt(4));
    if (t == "Disjunction") return Node(Type::Disjunction, val.loc(0), val.nodes(1));
    if (t == "TheorySequence") return Node(Type::TheorySequence, val.loc(0), val.num(1), val.nodes(2));
    if (t == "TheoryFunction") return Node(Type::TheoryFunction, val.loc(0), val.str(1), val.nodes(2));
    if (t == "TheoryUnparsedTermElement") return Node(Type::TheoryUnparsedTermElement, val.strs(0), val.node(1));
    if (t == "TheoryUnparsedTerm") return Node(Type::TheoryUnparsedTerm, val.loc(0), val.nodes(1));
    if (t == "TheoryGuard") return Node(Type::TheoryGuard, val.str(0), val.node(1));
    if (t == "TheoryAtomElement") return Node(Type::TheoryAtomElement, val.nodes(0), val.nodes(1));
    if (t == "TheoryAtom") return Node(Type::TheoryAtom, val.loc(0), val.node(1), val.nodes(2), val.opt(3));
    if (t == "Literal") return Node(Type::Literal, val.loc(0), val.num(1), val.node(2));
    if (t == "TheoryOperatorDefinition") return Node(Type::TheoryOperatorDefinition, val.loc(0), val.str(1), val.num(2), val.num(3));
    if (t == "TheoryTermDefinition") return Node(Type::TheoryTermDefinition, val.loc(0), val.str(1), val.nodes(2));
    if (t == "TheoryGuardDefinition") return Node(Type::TheoryGuardDefinition, val.strs(0), val.str(1));
    if (t == "TheoryAtomDefinition") return Node(Type::TheoryAtomDefinition, val.loc(0), val.num(1), val.str(2), val.num(3), val.str(4), val.opt(5));
    if (t == "Rule") return Node(Type::Rule, val.loc(0), val.node(1), val.nodes(2));
    if (t == "Definition") return Node(Type::Definition, val.loc(0), val.str(1), val.node(2), val.num(3));
    if (t == "ShowSignature") return Node(Type::ShowSignature, val.loc(0), val.str(1), val.num(2), val.num(3));
    if (t == "ShowTerm") return Node(Type::ShowTerm, val.loc(0), val.node(1), val.nodes(2));
    if (t == "Minimize") return Node(Type::Minimize, val.loc(0), val.node(1), val.node(2), val.nodes(3), val.nodes(4));
    if (t == "Script") return Node(Type::Script, val.loc(0), val.str(1), val.str(2));
    if (t == "Program") return Node(Type::Program, val.loc(0), val.str(1), val.nodes(2));
    if (t == "External") return Node(Type::External, val.loc(0), val.node(1), val.nodes(2), val.node(3));
    if (t == "Edge") return Node(Type::Edge, val.loc(0), val.node(1), val.node(2), val.nodes(3));
    if (t == "Heuristic") return Node(Type::Heuristic, val.loc(0), val.node(1), val.nodes(2), val.node(3), val.node(4), val.node(5));
    if (t == "ProjectAtom") return Node(Type::ProjectAtom, val.loc(0), val.node(1), val.nodes(2));
    if (t == "ProjectSignature") return Node(Type::ProjectSignature, val.loc(0), val.str(1), val.num(2), val.num(3));
    if (t == "Defined") return Node(Type::Defined, val.loc(0), val.str(1), val.num(2), val.num(3));
    if (t == "TheoryDefinition") return Node(Type::TheoryDefinition, val.loc(0), val.str(1), val.nodes(2), val.nodes(3));
    if (t == "Comment") return Node(Type::Comment, val.loc(0), val.str(1), val.num(2));
    throw Err{};
}
static std::string q(std::string const &s) {
    std::string r = "\"";
    for (char c : s) { if (c == '\n') { r += "\\n"; continue; } if (c == '\\' || c == '"') r += '\\'; r += c; }
    return r + "\"";
}
static std::string dump(Node const &n, bool locs = true);
struct Dump {
    std::string &r;
    bool locs;
    void operator()(Attribute a, NodeValue const &v) {
        if (v.is<Location>() && !locs) return;
        if (r.back() != '{') r += ',';
        for (auto &x : ATTR) if (x.second == a) r += x.first;
        r += '=';
        if (v.is<int>()) r += std::to_string(v.get<int>());
        else if (v.is<Symbol>()) r += "`" + v.get<Symbol>().to_string() + "`";
        else if (v.is<Location>()) {
            auto const &l = v.get<Location>();
            r += std::string("<") + l.begin_file() + ":" + std::to_string(l.begin_line()) + ":" + std::to_string(l.begin_column()) + "-" + l.end_file() + ":" + std::to_string(l.end_line()) + ":" + std::to_string(l.end_column()) + ">";
        }
        else if (v.is<char const *>()) r += q(v.get<char const *>());
        else if (v.is<Node>()) r += dump(v.get<Node>(), locs);
        else if (v.is<Optional<Node>>()) { auto const *x = v.get<Optional<Node>>().get(); r += x ? dump(*x, locs) : "-"; }
        else if (v.is<StringVector>()) {
            r += '[';
            StringVector const &s = v.get<StringVector>();
            bool sep = false;
            for (char const *x : s) { if (sep) r += ';'; sep = true; r += q(x); }
            r += ']';
        }
        else if (v.is<NodeVector>()) {
            r += '[';
            NodeVector const &s = v.get<NodeVector>();
            bool sep = false;
            for (Node x : s) { if (sep) r += ';'; sep = true; r += dump(x, locs); }
            r += ']';
        }
        else r += "?";
    }
};
static std::string dump(Node const &n, bool locs) {
    std::string r = NAME.at(n.type()) + "{";
    n.visit_attribute(Dump{r, locs});
    return r + "}";
}
static Attribute attr(Node const &n, std::string const &s) {
    (void)n;
    auto it = ATTR.find(s);
    if (it == ATTR.end()) throw Err{};
    return it->second;
}
static std::string both(Node const &n) { return dump(n) + "\x04" + n.to_string(); }
template <class C> static std::string join(C const &c) {
    std::string r;
    for (auto &x : c) { if (!r.empty()) r += "\x03"; r += x; }
    return r;
}
static char const *value(Vals &v, StringVector const *) { return v.str(0); }
static Node value(Vals &v, NodeVector const *) { return v.node(0); }
static std::string show(char const *s) { return q(s); }
static std::string show(Node const &n) { return dump(n); }
static bool same(char const *a, char const *b) { return !strcmp(a, b); }
static bool same(Node const &a, Node const &b) { return a == b; }
template <class V> static std::string seq(V l, std::string const &op, std::vector<std::string> a) {
    using T = typename V::value_type;
    V const &cl = l;
    auto pos = [&](size_t i) {
        long k = std::stol(a.at(i));
        if (k < 0 || k > static_cast<long>(l.size())) throw Err{}; // out of domain of a vector
        return k;
    };
    auto elem = [&](size_t i) { long k = pos(i); if (k >= static_cast<long>(l.size())) throw Err{}; return k; };
    if (op == "len") { if (l.empty() != (l.size() == 0)) return "empty() differs"; return std::to_string(l.size()); }
    if (op == "get") {
        // every access path must agree
        long k = std::stol(a[0]);
        if (k < 0) throw Err{};
        size_t i = static_cast<size_t>(k);
        T x = cl[i];
        if (i < l.size()) {
            T y = l[i];
            T z = l[i].get();
            T u = *(l.begin() + k);
            T w = *(cl.end() - static_cast<long>(l.size() - i));
            T m = *l.at(i);
            T n = *cl.at(i);
            if (!same(x, y) || !same(x, z) || !same(x, u) || !same(x, w) || !same(x, m) || !same(x, n)) return "access paths differ";
        }
        return show(x);
    }
    Vals v;
    if (op == "set") {
        v.tok = {a[1]};
        long k = elem(0);
        if (k % 2) l[static_cast<size_t>(k)] = value(v, &l); else l.set(l.begin() + k, value(v, &l));
        return "";
    }
    if (op == "del") { auto k = elem(0); auto it = l.erase(l.begin() + k); return it - l.begin() == k ? "" : "iterator"; }
    if (op == "ins") { auto k = pos(0); v.tok = {a[1]}; auto it = l.insert(l.begin() + k, value(v, &l)); return it - l.begin() == k ? "" : "iterator"; }
    if (op == "app") { v.tok = {a[0]}; l.push_back(value(v, &l)); return ""; }
    if (op == "pop") {
        if (a.empty()) { if (l.empty()) throw Err{}; T x = *(cl.end() - 1); std::string r = show(x); l.pop_back(); return r; }
        auto k = elem(0);
        T x = cl[static_cast<size_t>(k)];
        std::string r = show(x);
        l.erase(l.begin() + k);
        return r;
    }
    if (op == "clear") { l.clear(); return ""; }
    if (op == "iter" || op == "riter") {
        std::string r, s;
        if (op == "iter") {
            for (T x : cl) { if (!r.empty()) r += ';'; r += show(x); }
            for (auto it = l.begin(); it != l.end(); it++) { if (!s.empty()) s += ';'; T x = *it; s += show(x); }
        }
        else {
            for (auto it = cl.end(); it != cl.begin();) { --it; if (!r.empty()) r += ';'; T x = *it; r += show(x); }
            for (long k = static_cast<long>(l.size()); k > 0; --k) { if (!s.empty()) s += ';'; T x = *(l.begin() + (k - 1)); s += show(x); }
        }
        return r == s ? r : "iterators differ";
    }
    throw Err{};
}
static std::string trans(std::string const &d, Node const &src, std::string const &t, std::string how) {
    std::vector<std::string> calls;
    std::string arg;
    auto sp = how.find(' ');
    if (sp != std::string::npos) { arg = how.substr(sp + 1); how = how.substr(0, sp); }
    struct Tr {
        std::vector<std::string> &calls;
        std::string const &t, &how, &arg;
        Node operator()(Node n) const {
            if (NAME.at(n.type()) == t) {
                calls.push_back(dump(n));
                if (how == "same") return n;
                if (how == "reg") return reg(arg);
                if (how == "deepset") n = n.transform_ast(*this);
                n = n.copy();
                if (how == "copy") return n;
                bool done = false;
                Node m = n;
                n.visit_attribute([&](Attribute a, NodeValue v) {
                    if (done) return;
                    done = true;
                    if (v.is<int>()) m.set(a, 1);
                    else if (v.is<char const *>()) m.set(a, static_cast<char const *>("zz"));
                    else if (v.is<Symbol>()) m.set(a, Id("zz"));
                    else if (v.is<Location>()) m.set(a, LOCS[1]);
                    else done = false;
                });
                return m;
            }
            return n.transform_ast(*this);
        }
    };
    auto *p = src.to_c();
    Node res = Tr{calls, t, how, arg}(src);
    put(d, res);
    return std::string(res.to_c() == p ? "1 " : "0 ") + join(calls);
}
static std::string run(std::vector<std::string> a) {
    std::string c = a[0];
    if (c == "reset") { regs.clear(); return ""; }
    if (c == "new") { Vals v; v.tok.assign(a.begin() + 3, a.end()); put(a[1], make(a[2], v)); return ""; }
    if (c == "dump") return dump(reg(a[1]));
    if (c == "str") return reg(a[1]).to_string();
    if (c == "set") {
        Node n = reg(a[1]);
        auto at = attr(n, a[2]);
        Vals v;
        v.tok = {a[3]};
        switch (a[3][0]) {
            case 'i': n.set(at, v.num(0)); break;
            case 's': n.set(at, v.str(0)); break;
            case 'y': n.set(at, v.sym(0)); break;
            case 'L': n.set(at, v.loc(0)); break;
            case 'o': n.set(at, Optional<Node>{}); break;
            case 'r': {
                auto old = n.get(at);
                if (old.is<Optional<Node>>()) n.set(at, v.opt(0)); else n.set(at, v.node(0));
                break;
            }
            case 'N': {
                auto x = n.get<NodeVector>(at);
                auto y = v.nodes(0);
                x.clear();
                for (auto &e : y) x.push_back(e);
                break;
            }
            case 'S': {
                auto x = n.get<StringVector>(at);
                auto y = v.strs(0);
                x.clear();
                for (auto &e : y) x.push_back(e);
                break;
            }
        }
        return "";
    }
    if (c == "assignseq") {
        Node n = reg(a[1]);
        auto v = reg(a[3]).get(attr(n, a[4]));
        n.set(attr(n, a[2]), v);
        return "";
    }
    if (c == "get") {
        auto v = reg(a[2]).get(attr(reg(a[2]), a[3]));
        if (v.is<Node>()) { put(a[1], v.get<Node>()); return ""; }
        if (v.is<Optional<Node>>()) {
            auto *x = v.get<Optional<Node>>().get();
            if (x == nullptr) return "none";
            put(a[1], *x);
            return "";
        }
        throw Err{};
    }
    if (c == "at") { auto v = reg(a[2]).get<NodeVector>(attr(reg(a[2]), a[3])); put(a[1], static_cast<NodeVector const &>(v)[std::stoul(a[4])]); return ""; }
    if (c == "copy") { put(a[1], reg(a[2]).copy()); return ""; }
    if (c == "deep") { put(a[1], reg(a[2]).deep_copy()); return ""; }
    if (c == "assign") { Node x = reg(a[2]); put(a[1], x); return ""; }
    if (c == "eq") return reg(a[1]) == reg(a[2]) ? "1" : "0";
    if (c == "cmp") {
        auto &x = reg(a[1]), &y = reg(a[2]);
        std::string r;
        for (bool b : {x == y, x != y, x < y, x <= y, x > y, x >= y, std::hash<Node>{}(x) == std::hash<Node>{}(y) && x.hash() == std::hash<Node>{}(x)}) r += b ? '1' : '0';
        return r;
    }
    if (c == "seq") {
        auto v = reg(a[1]).get(attr(reg(a[1]), a[2]));
        std::vector<std::string> b(a.begin() + 4, a.end());
        if (v.is<NodeVector>()) return seq(v.get<NodeVector>(), a[3], b);
        if (v.is<StringVector>()) return seq(v.get<StringVector>(), a[3], b);
        throw Err{};
    }
    if (c == "visit") {
        std::vector<std::string> out;
        reg(a[1]).visit_ast([&](Node const &n) { out.push_back(dump(n)); return a.size() < 3 || NAME.at(n.type()) != a[2]; });
        return join(out);
    }
    if (c == "trans") return trans(a[1], reg(a[2]), a[3], a[4]);
    if (c == "parse" || c == "files") {
        regs.clear();
        std::vector<std::string> out;
        auto cb = [&](Node n) { out.push_back(both(n)); regs.emplace(static_cast<int>(regs.size()), std::move(n)); };
        Logger log = [](WarningCode, char const *) {};
        try {
            if (c == "parse") parse_string(a[1].c_str(), cb, log);
            else {
                std::vector<char const *> f;
                for (size_t i = 1; i < a.size(); ++i) f.push_back(a[i].c_str());
                parse_files(StringSpan{f.data(), f.size()}, cb, log);
            }
        } catch (std::runtime_error const &) { return "error"; }
        return join(out);
    }
    if (c == "unpool") {
        std::vector<std::string> out;
        int i = 100;
        for (auto &n : reg(a[1]).unpool(a[2][0] == '1', a[2][1] == '1')) { put(std::to_string(i++), n); out.push_back(both(n)); }
        return join(out);
    }
    throw Err{};
}
int main() {
    std::string line;
    while (std::getline(std::cin, line)) {
        std::vector<std::string> a(1);
        for (size_t i = 0; i < line.size(); ++i) {
            if (line[i] == '\t') a.emplace_back();
            else if (line[i] == '\\' && i + 1 < line.size()) { ++i; a.back() += line[i] == 'n' ? '\n' : line[i] == 't' ? '\t' : line[i]; }
            else a.back() += line[i];
        }
        std::string r;
        try { r = run(a); } catch (Err const &) { r = "E"; } catch (std::exception const &e) { r = "E"; }
        for (char &x : r) if (x == '\n') x = '\x05';
        std::cout << r << "\n" << std::flush;
    }
}
