// Lua module for the fault injecting interposer (see lib/gen_interposer.py) and the journal.
#include <dlfcn.h>
#include <string>
#include "vp.hh"
extern "C" {
#include <lua5.4/lua.h>
#include <lua5.4/lauxlib.h>
}
template <class F> static F fun(char const *n) { return reinterpret_cast<F>(dlsym(RTLD_DEFAULT, n)); }
static int reset(lua_State *) { fun<void (*)()>("vpi_reset")(); return 0; }
static int reset_balance(lua_State *) { fun<void (*)()>("vpi_reset_balance")(); return 0; }
static int arm(lua_State *L) {
    fun<void (*)(long, int, char const *, char const *)>("vpi_arm")(static_cast<long>(luaL_checkinteger(L, 1)), static_cast<int>(luaL_checkinteger(L, 2)), luaL_optstring(L, 3, nullptr), luaL_optstring(L, 4, nullptr));
    return 0;
}
static int calls(lua_State *L) { lua_pushinteger(L, fun<long (*)()>("vpi_calls")()); return 1; }
static int hits(lua_State *L) { lua_pushinteger(L, fun<long (*)()>("vpi_hits")()); return 1; }
static int failed(lua_State *L) { lua_pushstring(L, fun<char const *(*)()>("vpi_failed")()); return 1; }
static int balance(lua_State *L) {
    for (int i = 1; i <= 3; ++i) { lua_pushinteger(L, fun<long (*)(int)>("vpi_balance")(i)); }
    lua_pushstring(L, fun<char const *(*)()>("vpi_bad")());
    return 4;
}
static int journal(lua_State *L) { vp::journal(luaL_checkstring(L, 1)); return 0; }
static int fail(lua_State *L) { vp::fail(luaL_checkstring(L, 1), luaL_optstring(L, 2, "")); return 0; }
static int sample(lua_State *L) { vp::sample(luaL_checkstring(L, 1)); return 0; }
static int state(lua_State *L) { vp::state(luaL_checkstring(L, 1)); return 0; }
static int count(lua_State *L) { ++vp::st().execs; if (lua_toboolean(L, 1)) { ++vp::st().nontrivial; } return 0; }
static int thorough(lua_State *L) { lua_pushboolean(L, vp::thorough()); return 1; }
static int done(lua_State *) { return vp::done(); }
extern "C" int luaopen_vpilua(lua_State *L) {
    static luaL_Reg const r[] = {{"reset", reset}, {"reset_balance", reset_balance}, {"arm", arm}, {"calls", calls}, {"hits", hits}, {"failed", failed}, {"balance", balance}, {"journal", journal},
                                 {"fail", fail}, {"sample", sample}, {"state", state}, {"count", count}, {"thorough", thorough}, {"done", done}, {nullptr, nullptr}};
    luaL_newlib(L, r);
    return 1;
}
