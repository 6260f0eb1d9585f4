// Stand-in for libpotassco's program options.
#ifndef VP_PROGRAM_OPTIONS_H
#define VP_PROGRAM_OPTIONS_H
#include <potassco/string_convert.h>
#include <cstdio>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>
namespace Potassco { namespace ProgramOptions {
enum DescriptionLevel { desc_level_default = 0, desc_level_e1 = 1, desc_level_e2 = 2, desc_level_e3 = 3, desc_level_all = 4, desc_level_hidden = 5 };
class Error : public std::runtime_error { using std::runtime_error::runtime_error; };
class Value {
  public:
    using Parser = std::function<bool(std::string const &name, std::string const &value)>;
    explicit Value(Parser p) : parse_(std::move(p)) {}
    virtual ~Value() = default;
    Value *flag() { flag_ = true; return this; }
    Value *composing() { composing_ = true; return this; }
    Value *negatable() { negatable_ = true; return this; }
    Value *arg(char const *a) { arg_ = a; return this; }
    Value *level(DescriptionLevel l) { level_ = l; return this; }
    bool isFlag() const { return flag_; }
    bool isComposing() const { return composing_; }
    bool isNegatable() const { return negatable_; }
    std::string const &argName() const { return arg_; }
    DescriptionLevel lvl() const { return level_; }
    bool parse(std::string const &name, std::string const &value) { return parse_(name, value); }
  private:
    Parser parse_;
    bool flag_ = false, composing_ = false, negatable_ = false;
    std::string arg_ = "<arg>";
    DescriptionLevel level_ = desc_level_default;
};
class Option {
  public:
    Option(std::string name, char alias, char const *desc, Value *v) : name_(std::move(name)), alias_(alias), desc_(desc ? desc : ""), value_(v) {}
    std::string const &name() const { return name_; }
    char alias() const { return alias_; }
    std::string const &description() const { return desc_; }
    Value *value() const { return value_.get(); }
  private:
    std::string name_;
    char alias_;
    std::string desc_;
    std::unique_ptr<Value> value_;
};
using SharedOptPtr = std::shared_ptr<Option>;
class OptionGroup;
class OptionInitHelper {
  public:
    explicit OptionInitHelper(OptionGroup &g) : g_(&g) {}
    inline OptionInitHelper &operator()(char const *name, Value *v, char const *desc);
  private:
    OptionGroup *g_;
};
class OptionGroup {
  public:
    explicit OptionGroup(std::string caption = "") : caption_(std::move(caption)) {}
    std::string const &caption() const { return caption_; }
    OptionInitHelper addOptions() { return OptionInitHelper(*this); }
    void addOption(SharedOptPtr const &o) { opts_.push_back(o); }
    std::vector<SharedOptPtr> const &options() const { return opts_; }
  private:
    std::string caption_;
    std::vector<SharedOptPtr> opts_;
};
inline OptionInitHelper &OptionInitHelper::operator()(char const *name, Value *v, char const *desc) {
    // name[,alias][,@level]  (an empty name after ',' is ignored)
    std::unique_ptr<Value> hold(v);
    std::string n(name), key;
    char alias = 0;
    size_t p = n.find(',');
    key = n.substr(0, p);
    bool neg = false;
    if (!key.empty() && key.back() == '!') { key.pop_back(); neg = true; }
    if (key.empty()) throw Error("Invalid empty option name");
    while (p != std::string::npos) {
        size_t q = n.find(',', p + 1);
        std::string part = n.substr(p + 1, q == std::string::npos ? q : q - p - 1);
        if (part.size() == 1) alias = part[0];
        else if (part.size() > 1 && part[0] == '@') {
            unsigned l;
            if (!string_cast<unsigned>(part.substr(1), l)) throw Error("Invalid Key '" + n + "'");
            v->level(static_cast<DescriptionLevel>(l));
        } else throw Error("Invalid Key '" + n + "'");
        p = q;
    }
    if (neg) v->negatable();
    g_->addOption(SharedOptPtr(new Option(key, alias, desc, hold.release())));
    return *this;
}
class ParsedOptions;
using ParsedValues = std::vector<std::pair<SharedOptPtr, std::string>>;
class OptionContext {
  public:
    explicit OptionContext(std::string caption = "") : caption_(std::move(caption)) {}
    OptionContext &add(OptionGroup const &g) {
        for (auto &x : groups_) {
            if (x.caption() == g.caption()) { for (auto &o : g.options()) addOpt(x, o); return *this; }
        }
        groups_.emplace_back(g.caption());
        for (auto &o : g.options()) addOpt(groups_.back(), o);
        return *this;
    }
    SharedOptPtr find(std::string const &name) const {
        auto it = byName_.find(name);
        if (it != byName_.end()) return it->second;
        SharedOptPtr ret;
        for (auto &x : byName_) {
            if (x.first.compare(0, name.size(), name) == 0) {
                if (ret) throw Error("In context '" + caption_ + "': ambiguous option: '" + name + "'");
                ret = x.second;
            }
        }
        return ret;
    }
    SharedOptPtr alias(char c) const { auto it = byAlias_.find(c); return it != byAlias_.end() ? it->second : nullptr; }
    bool assignDefaults(ParsedOptions const &) const { return true; }
    std::string const &caption() const { return caption_; }
    template <class O> O &description(O &out) const {
        for (auto &g : groups_) {
            out.print(g.caption() + ":\n\n");
            for (auto &o : g.options()) out.print("  --" + o->name() + (o->value()->isFlag() ? "" : " " + o->value()->argName()) + " : " + o->description() + "\n");
            out.print("\n");
        }
        return out;
    }
  private:
    void addOpt(OptionGroup &g, SharedOptPtr const &o) {
        if (!byName_.emplace(o->name(), o).second) throw Error("In context '" + caption_ + "': duplicate option: '" + o->name() + "'");
        if (o->alias() && !byAlias_.emplace(o->alias(), o).second) throw Error("In context '" + caption_ + "': duplicate option: '" + std::string(1, o->alias()) + "'");
        g.addOption(o);
    }
    std::string caption_;
    std::vector<OptionGroup> groups_;
    std::map<std::string, SharedOptPtr> byName_;
    std::map<char, SharedOptPtr> byAlias_;
};
class ParsedOptions {
  public:
    void assign(ParsedValues const &vals) {
        for (auto &v : vals) {
            auto const &name = v.first->name();
            if (!seen_.insert(name).second && !v.first->value()->isComposing()) throw Error("multiple occurrences: '" + name + "'");
            if (!v.first->value()->parse(name, v.second)) throw Error("'" + v.second + "': invalid value for: '" + name + "'");
        }
    }
    size_t count(std::string const &n) const { return seen_.count(n); }
  private:
    std::set<std::string> seen_;
};
using PosOption = bool (*)(std::string const &, std::string &);
inline ParsedValues parseArgs(std::vector<std::string> const &args, OptionContext const &ctx, PosOption pos) {
    ParsedValues ret;
    auto err = [&](std::string const &m, std::string const &o) { return Error("In context '" + ctx.caption() + "': " + m + ": '" + o + "'"); };
    bool rest = false;
    for (size_t i = 0; i < args.size(); ++i) {
        std::string const &a = args[i];
        if (!rest && a == "--") { rest = true; continue; }
        if (!rest && a.size() > 2 && a.compare(0, 2, "--") == 0) {
            auto eq = a.find('=');
            std::string name = a.substr(2, eq == std::string::npos ? eq : eq - 2), val;
            bool has = eq != std::string::npos;
            if (has) val = a.substr(eq + 1);
            SharedOptPtr o = ctx.find(name);
            if (!o && name.compare(0, 3, "no-") == 0 && !has) {
                o = ctx.find(name.substr(3));
                if (o && o->value()->isNegatable()) { ret.emplace_back(o, "no"); continue; }
                o = nullptr;
            }
            if (!o) throw err("unknown option", a);
            if (o->value()->isFlag()) { ret.emplace_back(o, has ? val : "1"); continue; }
            if (!has) {
                if (i + 1 >= args.size()) throw err("requires a value", name);
                val = args[++i];
            }
            ret.emplace_back(o, val);
        } else if (!rest && a.size() > 1 && a[0] == '-') {
            SharedOptPtr o = ctx.alias(a[1]);
            if (!o) throw err("unknown option", a);
            if (o->value()->isFlag()) { ret.emplace_back(o, "1"); continue; }
            std::string val = a.substr(2);
            if (!val.empty() && val[0] == '=') val = val.substr(1);
            if (val.empty()) {
                if (i + 1 >= args.size()) throw err("requires a value", a);
                val = args[++i];
            }
            ret.emplace_back(o, val);
        } else {
            std::string name;
            if (!pos || !pos(a, name)) throw err("unknown option", a);
            SharedOptPtr o = ctx.find(name);
            if (!o) throw err("unknown option", name);
            ret.emplace_back(o, a);
        }
    }
    return ret;
}
inline ParsedValues parseCommandArray(char const *const *argv, int n, OptionContext const &ctx, bool, PosOption pos) {
    return parseArgs(std::vector<std::string>(argv, argv + n), ctx, pos);
}
inline bool parseBool(std::string const &v, bool &out) {
    if (v.empty() || v == "1" || v == "yes" || v == "true" || v == "on") { out = true; return true; }
    if (v == "0" || v == "no" || v == "false" || v == "off") { out = false; return true; }
    return false;
}
template <class T> struct ValueMap {
    ValueMap &operator()(char const *n, T v) { m.emplace(n, v); return *this; }
    std::map<std::string, T> m;
};
template <class T> ValueMap<T> values() { return {}; }
template <class T> Value *storeTo(T &x, ValueMap<T> const &m) {
    auto p = &x;
    return new Value([p, m](std::string const &, std::string const &v) { auto it = m.m.find(v); if (it == m.m.end()) return false; *p = it->second; return true; });
}
template <class T> Value *storeTo(T &x, bool (*f)(std::string const &, T &)) {
    auto p = &x;
    return new Value([p, f](std::string const &, std::string const &v) { return f(v, *p); });
}
inline Value *storeTo(std::vector<std::string> &x) { auto p = &x; return new Value([p](std::string const &, std::string const &v) { p->push_back(v); return true; }); }
inline Value *storeTo(std::string &x) { auto p = &x; return new Value([p](std::string const &, std::string const &v) { *p = v; return true; }); }
inline Value *flag(bool &x) { auto p = &x; return (new Value([p](std::string const &, std::string const &v) { return parseBool(v, *p); }))->flag(); }
template <class P, class F> Value *notify(P *p, F f) {
    return new Value([p, f](std::string const &n, std::string const &v) { return f(p, n, v); });
}
struct FileOut { explicit FileOut(FILE *f) : f_(f) {} void print(std::string const &s) { fputs(s.c_str(), f_); } FILE *f_; };
} } // namespace Potassco::ProgramOptions
#endif
