// Lua module that answers the choices of the engine: set(prefix), path(), bound(tag,n).
#include <dlfcn.h>
#include <map>
#include <string>
#include <vector>
extern "C" {
#include <lua5.4/lua.h>
#include <lua5.4/lauxlib.h>
}
static std::vector<int> prefix;
static std::map<std::string, int> used, bound{{"thread", 2}, {"async", 3}};
static std::vector<std::pair<int, int>> path_;
static unsigned choice(char const *tag, unsigned n) {
    auto it = bound.find(tag);
    if (path_.empty()) used.clear();
    if (it != bound.end() && used[tag] >= it->second) return 0;
    int c = path_.size() < prefix.size() ? prefix[path_.size()] : 0;
    path_.emplace_back(c, static_cast<int>(n));
    if (c) ++used[tag];
    return static_cast<unsigned>(c);
}
static int set(lua_State *L) {
    prefix.clear();
    path_.clear();
    std::string s = luaL_checkstring(L, 1);
    for (size_t i = 0; i < s.size();) {
        size_t j = s.find(',', i);
        if (j == std::string::npos) j = s.size();
        prefix.push_back(std::stoi(s.substr(i, j - i)));
        i = j + 1;
    }
    void *h = dlopen("libclingo.so.4", RTLD_NOW | RTLD_NOLOAD);
    auto *f = h ? reinterpret_cast<void (*)(unsigned (*)(char const *, unsigned))>(dlsym(h, "vp_set_choice")) : nullptr;
    if (f) f(choice);
    lua_pushboolean(L, f != nullptr);
    return 1;
}
static int path(lua_State *L) {
    std::string r;
    for (auto &x : path_) r += (r.empty() ? "" : " ") + std::to_string(x.first) + ":" + std::to_string(x.second);
    lua_pushstring(L, r.c_str());
    return 1;
}
static int setbound(lua_State *L) {
    bound[luaL_checkstring(L, 1)] = static_cast<int>(luaL_checkinteger(L, 2));
    return 0;
}
extern "C" __attribute__((visibility("default"))) int luaopen_vpchoice(lua_State *L) {
    luaL_Reg r[] = {{"set", set}, {"path", path}, {"bound", setbound}, {nullptr, nullptr}};
    luaL_newlib(L, r);
    return 1;
}
