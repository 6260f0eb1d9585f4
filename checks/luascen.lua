-- Scenarios over the Lua API for E04: each library call fails once, each callback raises once.
-- usage: luascen.lua SCENARIO
local clingo = require("clingo")
local vpi = require("vpilua")
local F, N, S, T = clingo.Function, clingo.Number, clingo.String, clingo.Tuple
local scen = {}
local Abort = setmetatable({}, {__tostring = function() return "abort" end})

-- r.op(name, fn): an operation; r.q(name, fn): a query that can be repeated; r.cb(fn): a user callback
local function show(x)
  if type(x) ~= "table" then
    if math.type(x) == "float" then return string.format("%g", x) end
    return tostring(x)
  end
  if getmetatable(x) ~= nil then return "object" end
  local ks, r = {}, {}
  for k in pairs(x) do ks[#ks + 1] = tostring(k) end
  table.sort(ks)
  for _, k in ipairs(ks) do
    local v = x[k]
    if v == nil then v = x[tonumber(k)] end
    r[#r + 1] = k .. "=" .. show(v)
  end
  return "{" .. table.concat(r, ",") .. "}"
end

local function map(t, f) local r = {} for i, x in ipairs(t) do r[i] = f(x) end return r end
local function strs(t) local r = map(t, tostring) table.sort(r) return r end

function scen.symbols(r)
  r.q("Function", function() return tostring(F("f", {N(1), S("x"), F("a", {}, false)})) end)
  r.q("Tuple", function() return tostring(T({N(1), N(2)})) end)
  r.q("String", function() return tostring(S("x")) end)
  local f = F("f", {N(1), S("x")}, false)
  r.q("arguments", function() return map(f.arguments, tostring) end)
  r.q("name", function() return f.name end)
  r.q("positive", function() return f.positive end)
  r.q("negative", function() return f.negative end)
  r.q("number", function() return N(3).number end)
  r.q("string", function() return S("abc").string end)
  r.q("str", function() return tostring(f) end)
  r.q("type", function() return tostring(f.type) end)
  r.q("parse_term", function() return tostring(clingo.parse_term("f(1+2)")) end)
end

function scen.control(r)
  r.op("Control()", function() return clingo.Control() ~= nil end)
  local ctl = r.op("Control(args)", function() return clingo.Control({"-c", "k=3", "0"}, function(c, m) end, 5) end)
  if ctl == nil then return end
  r.op("add", function() ctl:add("base", {}, "{a; b; c(1..2)}. #external e(1..2). x(k). :- e(1), a. #show a/0. #minimize{1@2:a}.") end)
  r.op("add parameters", function() ctl:add("p", {"n"}, "q(n). r(n) :- a.") end)
  r.op("load", function() ctl:load(arg[2]) end)
  r.op("ground", function() ctl:ground({{"base", {}}}) end)
  r.op("ground parts", function() ctl:ground({{"p", {N(1)}}, {"p", {N(2)}}}) end)
  r.q("get_const", function() return tostring(ctl:get_const("k")) end)
  r.q("get_const none", function() return ctl:get_const("zz") == nil end)
  r.q("conflict", function() return ctl.is_conflicting end)
  local e1, e2, un = F("e", {N(1)}), F("e", {N(2)}), F("zz")
  for i = 1, 3 do
    local v
    if i < 3 then v = i == 1 end
    r.op("assign_external", function() ctl:assign_external(e1, v) end)
    r.op("assign_external unknown", function() ctl:assign_external(un, v) end)
  end
  local lit = r.q("literal", function() return ctl.symbolic_atoms:lookup(e2).literal end)
  if lit ~= nil then r.op("assign_external literal", function() ctl:assign_external(lit, true) end) end
  r.op("release_external", function() ctl:release_external(e1) end)
  r.op("release_external unknown", function() ctl:release_external(un) end)
  r.op("cleanup", function() ctl:cleanup() end)
  for _, n in ipairs {"enable_cleanup", "enable_enumeration_assumption"} do
    r.op(n, function()
      ctl[n] = not ctl[n]
      local v = ctl[n]
      ctl[n] = not v
      return v
    end)
  end
  r.op("interrupt", function() ctl:interrupt() end)
  r.q("symbolic_atoms", function() return ctl.symbolic_atoms ~= nil end)
  local sa = ctl.symbolic_atoms
  r.q("len", function() return #sa end)
  local function atom(x) return {tostring(x.symbol), x.literal, x.is_fact, x.is_external} end
  r.q("iter", function() local t = {} for x in sa:iter() do t[#t + 1] = atom(x) end return t end)
  r.q("by_signature", function() local t = {} for x in sa:by_signature("c", 1) do t[#t + 1] = atom(x) end return t end)
  r.q("by_signature neg", function() local t = {} for x in sa:by_signature("c", 1, false) do t[#t + 1] = atom(x) end return t end)
  r.q("signatures", function() return strs(map(sa.signatures, function(s) return s[1] .. "/" .. string.format("%d", s[2]) .. tostring(s[3]) end)) end)
  r.q("lookup", function() return {tostring(sa:lookup(F("a")).symbol), sa:lookup(un) == nil} end)
end

local function model(m)
  local t = {}
  for _, k in ipairs {{atoms = true}, {terms = true}, {shown = true}, {theory = true}, {atoms = true, complement = true}} do t[#t + 1] = strs(m:symbols(k)) end
  return {t, tostring(m), m.cost, m.number, m.optimality_proven, m.thread_id, tostring(m.type), m:is_true(1), m:is_true(-1), m:contains(F("a")), m:contains(F("zz"))}
end

function scen.solve(r)
  local a, b, un = F("a"), F("b"), F("zz")
  local ctl = clingo.Control({"0", "--opt-mode=ignore"})
  r.op("add", function() ctl:add("base", {}, "{a; b}. #show a/0. #show t : b. #minimize{1@2:a; 1@1:b}.") end)
  r.op("ground", function() ctl:ground({{"base", {}}}) end)
  r.after(function()
    local out = {}
    ctl:solve {on_model = function(m) out[#out + 1] = table.concat(strs(m:symbols {atoms = true}), " ") end}
    table.sort(out)
    return out
  end)
  r.op("solve", function() return tostring(ctl:solve()) end)
  r.op("solve on_model", function() local out = {} local x = ctl:solve {on_model = r.cb(function(m) out[#out + 1] = model(m) end)} return tostring(x) end)
  r.op("model context", function() return tostring(ctl:solve {on_model = r.cb(function(m) m.context:add_clause({{a, true}, {un, false}, 1}) end)}) end)
  r.op("model nogood", function() return tostring(ctl:solve {on_model = r.cb(function(m) m.context:add_nogood({{a, true}, {un, true}, -1}) end)}) end)
  r.op("model atoms", function() return tostring(ctl:solve {on_model = r.cb(function(m) local x = #m.context.symbolic_atoms; m:extend({un}) end)}) end)
  r.op("on_finish", function() local s ctl:solve {on_finish = function(x) s = tostring(x) end} return s end)
  r.op("both", function() local n = 0 ctl:solve {assumptions = {{a, true}}, on_model = r.cb(function(m) n = n + 1 end), on_finish = function(x) end} return n end)
  r.op("assumptions", function() return tostring(ctl:solve {assumptions = {{a, true}, {b, false}, {un, false}}}) end)
  r.op("assumptions unknown", function() return tostring(ctl:solve {assumptions = {{a, true}, {un, true}}}) end)
  r.op("yield", function()
    local n = 0
    local h = ctl:solve {yield = true}
    local ok, err = pcall(function()
      for m in h:iter() do n = n + 1 model(m) end
      return h:get()
    end)
    local ok2, err2 = pcall(h.close, h)
    if not ok then error(err, 0) end
    if not ok2 then error(err2, 0) end
    return n
  end)
  r.op("yield stop", function()
    local h = ctl:solve {yield = true}
    local ok, err = pcall(function()
      for m in h:iter() do break end
      h:cancel()
      return h:get()
    end)
    local ok2, err2 = pcall(h.close, h)
    if not ok then error(err, 0) end
    if not ok2 then error(err2, 0) end
    return "x"
  end)
  r.op("yield core", function()
    local h = ctl:solve {yield = true, assumptions = {{a, true}, {a, false}}}
    local n
    local ok, err = pcall(function()
      for m in h:iter() do error("model") end
      h:get()
      n = #(h:core() or {})
    end)
    local ok2, err2 = pcall(h.close, h)
    if not ok then error(err, 0) end
    if not ok2 then error(err2, 0) end
    return n
  end)
  r.op("yield abandoned", function() -- closed by the garbage collector
    local h = ctl:solve {yield = true}
    h:resume()
    h = nil
    collectgarbage() collectgarbage()
    return "x"
  end, true)
end

function scen.conf(r)
  local ctl = clingo.Control({"0"})
  r.q("configuration", function() return ctl.configuration ~= nil end)
  local c = ctl.configuration
  r.q("keys", function() return strs(c.keys) end)
  r.q("subkeys", function() return strs(c.solve.keys) end)
  r.q("get", function() return {c.solve.models, c.solve.opt_mode, c.solver:iter()().heuristic} end)
  r.op("set", function() c.solve.models = "2" return c.solve.models end)
  r.q("len", function() return {#c.solver} end)
  r.q("item", function() return c.solver:iter()() ~= nil end)
  r.q("iter", function() local n = 0 for x in c.solver:iter() do n = n + 1 end return n end)
  r.q("description", function() return c.solve:description("models") end)
  r.q("unknown", function() return c.solve.zzz == nil end)
end

function scen.stats(r)
  local ctl = clingo.Control({"0", "--stats=2"})
  ctl:add("base", {}, "{a;b}. #minimize{1@1:a;2@2:b}.")
  ctl:ground({{"base", {}}})
  r.op("statistics before", function() return pcall(function() return ctl.statistics end) and 1 end, true)
  ctl:solve()
  r.op("statistics", function() return show(ctl.statistics.summary.costs) end)
  r.op("statistics again", function() return ctl.statistics ~= nil end, true)
end

function scen.backend(r)
  local ctl = clingo.Control({"0"})
  local be = r.op("backend", function() return ctl:backend() end)
  if be == nil then return end
  local a = r.op("add_atom", function() return be:add_atom(F("a")) end) or 1
  local b = r.op("add_atom anonymous", function() return be:add_atom() end) or 2
  r.op("add_rule", function() be:add_rule {{a}, {b}, true} end)
  r.op("add_rule fact", function() be:add_rule {head = {b}} end)
  r.op("add_weight_rule", function() be:add_weight_rule {{a}, 1, {{b, 2}}} end)
  r.op("add_minimize", function() be:add_minimize {1, {{a, 2}}} end)
  r.op("add_external", function() be:add_external(a, clingo.ExternalType.True) end)
  r.op("add_external default", function() be:add_external(a) end)
  r.op("close", function() be:close() end)
  r.op("close again", function() be:close() end)
  r.op("closed", function() return pcall(be.add_atom, be) end, true)
  r.open(be)
  r.op("solve", function() return tostring(ctl:solve()) end)
end

local PROG = [[#theory t { u { - : 1, unary; + : 1, binary, left }; &p/1 : u, {<=, =}, u, any; &q/0 : u, any }.
{a; b; x(1..2)}. c :- a, not b. d :- 1 <= #count { X : x(X) } <= 1. #external e. #minimize { 1@2 : a; 2@1 : b }.
#project a. #show a/0. #show t(X) : x(X). #heuristic a : b. [1@2, level] #edge (1,2) : a. #edge (2,1) : b.
&p(1) { 1+X, f(a,-1) : x(X), a } <= (1,[2],{3}). &q { "s" }.
]]

function scen.theory(r)
  local ctl = clingo.Control()
  ctl:add("base", {}, PROG)
  ctl:ground({{"base", {}}})
  local function term(t)
    local n = tostring(t.type)
    local x = {n, tostring(t)}
    if n == "Number" then x[3] = t.number
    elseif n == "Symbol" then x[3] = t.name
    else
      if n == "Function" then x[4] = t.name end
      x[5] = map(t.arguments, term)
    end
    return x
  end
  local function atoms(f) local r = {} for x in ctl.theory_atoms do r[#r + 1] = f(x) end return r end
  r.q("atoms", function() return #atoms(tostring) end)
  r.q("atom", function() return atoms(function(x) return {x.literal ~= 0, term(x.term), x.guard and {x.guard[1], term(x.guard[2])} or 0} end) end)
  r.q("elements", function() return atoms(function(x) return map(x.elements, function(e) return {tostring(e), map(e.terms, term), e.condition, e.condition_id ~= 0} end) end) end)
end

function scen.context(r)
  local ctx = {
    f = r.cb(function(self, x) return {x, N(x.number + 1)} end),
    g = r.cb(function(self, ...) return T({...}) end),
    h = r.cb(function(self) return {} end),
  }
  local ctl = clingo.Control()
  r.op("add", function() ctl:add("base", {}, "a(@f(1)). b(@g(X,2)) :- a(X). c(@h()). d :- not c(1). p(X) :- X=@f(3).") end)
  r.op("ground context", function() ctl:ground({{"base", {}}}, ctx) end)
  r.op("add more", function() ctl:add("p", {}, "p(@f(1)).") ctl:add("q", {"n"}, "q(@f(n)).") end)
  r.op("ground part", function() ctl:ground({{"p", {}}}, ctx) end)
  r.op("ground part 2", function() ctl:ground({{"q", {N(3)}}}, ctx) end)
  r.q("atoms", function() local t = {} for x in ctl.symbolic_atoms:iter() do t[#t + 1] = x.symbol end return strs(t) end)
  r.after(function() return tostring(ctl:solve()) end)
end

local OBS = {}
for x in ("init_program begin_step rule weight_rule minimize project output_atom output_term external assume heuristic acyc_edge theory_term_number theory_term_string theory_term_compound theory_element theory_atom theory_atom_with_guard end_step"):gmatch("%S+") do OBS[#OBS + 1] = x end

local function observer(r, log)
  local o = {}
  for _, n in ipairs(OBS) do
    local f = r.cb(function(...) log[#log + 1] = n end)
    o[n] = function(self, ...) return f(...) end
  end
  return o
end

function scen.observer(r)
  local log = {}
  local ctl = clingo.Control({"0"})
  r.op("register_observer", function() ctl:register_observer(observer(r, log)) end)
  r.op("add", function() ctl:add("base", {}, PROG) end)
  r.op("ground", function() ctl:ground({{"base", {}}}) end)
  r.op("solve", function() return tostring(ctl:solve {assumptions = {1}}) end)
  r.op("assign_external", function() ctl:assign_external(F("e"), true) end)
  r.op("solve 2", function() return tostring(ctl:solve()) end)
end

function scen.observer_backend(r)
  local log = {}
  local ctl = clingo.Control({"0"})
  ctl:register_observer(observer(r, log))
  local be = r.op("backend", function() return ctl:backend() end)
  if be == nil then return end
  local a = r.op("add_atom", function() return be:add_atom(F("a")) end) or 1
  local b = r.op("add_atom anonymous", function() return be:add_atom() end) or 2
  r.op("add_rule", function() be:add_rule {{a}, {b}, true} end)
  r.op("add_weight_rule", function() be:add_weight_rule {{a}, 1, {{b, 2}}} end)
  r.op("add_minimize", function() be:add_minimize {1, {{a, 2}}} end)
  r.op("add_external", function() be:add_external(b, clingo.ExternalType.True) end)
  r.op("close", function() be:close() end)
  r.op("close again", function() be:close() end)
  r.op("closed", function() return pcall(be.add_atom, be) end, true)
  r.open(be)
  r.op("solve", function() return tostring(ctl:solve()) end)
  r.op("assign_external", function() ctl:assign_external(b, false) end)
  r.op("release_external", function() ctl:release_external(b) end)
  r.op("solve 2", function() return tostring(ctl:solve()) end)
end

function scen.propagator(r)
  local log, lits = {}, {}
  local function assignment(ass)
    for _, l in ipairs(lits) do
      log[#log + 1] = {ass:value(l), ass:is_true(l), ass:is_false(l), ass:has_lit(l), ass:is_fixed(l)}
      if ass:value(l) ~= nil then log[#log + 1] = ass:level(l) end
    end
    log[#log + 1] = {#ass, ass.decision_level, ass.root_level, ass.is_total, ass.has_conflict, ass:decision(ass.decision_level)}
    local t = ass.trail
    local n = 0
    for l in t:iter() do n = n + 1 end
    for i, l in pairs(t) do n = n + 1 end
    for l in ass:iter() do n = n + 1 end
    for i, l in ipairs(ass) do n = n + 1 end
    log[#log + 1] = {#t, n, t[1], t:first(0), t:last(0), ass[1]}
  end
  local P = {}
  local init = r.cb(function(init)
    lits = {}
    local sa = init.symbolic_atoms
    for _, n in ipairs {"a", "b", "c"} do lits[#lits + 1] = init:solver_literal(sa:lookup(F(n)).literal) end
    for x in init.theory_atoms do lits[#lits + 1] = init:solver_literal(x.literal) end
    for _, l in ipairs(lits) do
      init:add_watch(l)
      init:add_watch(-l, 1)
    end
    local x = init:add_literal()
    local y = init:add_literal(false)
    init:add_clause({lits[1], lits[2]})
    init:add_weight_constraint(x, {{lits[1], 1}, {lits[2], 1}}, 2)
    init:add_minimize(lits[1], 1, 1)
    init:propagate()
    init.check_mode = clingo.PropagatorCheckMode.Both
    init:set_state(1, {n = 0})
    assignment(init.assignment)
    log[#log + 1] = {init.number_of_threads, tostring(init.check_mode)}
  end)
  local propagate = r.cb(function(ctl, changes, state)
    assignment(ctl.assignment)
    state.n = state.n + 1
    if not ctl:add_clause {{lits[1], lits[3]}} then return end
    if not ctl:add_nogood {{-lits[1], -lits[3]}, tag = true} or not ctl:propagate() then return end
    if #log < 40 then
      local x = ctl:add_literal()
      ctl:add_watch(x)
      log[#log + 1] = ctl:has_watch(x)
      ctl:remove_watch(x)
    end
    log[#log + 1] = ctl.thread_id
  end)
  local check = r.cb(function(ctl, state)
    assignment(ctl.assignment)
    local x = ctl:add_clause {{lits[1], lits[3]}, lock = true} and ctl:propagate()
  end)
  local decide = r.cb(function(tid, ass, fallback, state) assignment(ass) return fallback end)
  function P.init(self, i) init(i) end
  function P.propagate(self, c, x, s) propagate(c, x, s) end
  function P.check(self, c, s) check(c, s) end
  function P.undo(self, tid, ass, x, s) log[#log + 1] = tid end
  function P.decide(self, tid, ass, fb, s) return decide(tid, ass, fb, s) end
  local ctl = clingo.Control({"0"})
  r.op("add", function() ctl:add("base", {}, "#theory t { u { - : 1, unary }; &p/0 : u, any }. {a;b;c}. &p{1} :- a.") end)
  r.op("ground", function() ctl:ground({{"base", {}}}) end)
  r.op("register_propagator", function() ctl:register_propagator(P) end)
  r.op("solve", function() return tostring(ctl:solve()) end)
  r.op("solve yield", function()
    local h = ctl:solve {yield = true}
    local ok, err = pcall(function() for m in h:iter() do tostring(m) end end)
    local ok2, err2 = pcall(h.close, h)
    if not ok then error(err, 0) end
    if not ok2 then error(err2, 0) end
  end)
end

-- {{{ runners
local function base()
  local r = {names = {}, calls = {}, vals = {}, isq = {}, cbs = {}, soft = {}, ncb = 0, afterfn = nil, opened = {}}
  function r.op(name, fn, soft)
    r.names[#r.names + 1] = name
    r.soft[#r.names] = soft or false
    vpi.reset()
    r.ncb = 0
    local x = fn()
    r.calls[#r.names] = vpi.calls()
    r.cbs[#r.names] = r.ncb
    vpi.reset()
    return x
  end
  function r.q(name, fn)
    local x = r.op(name, fn)
    r.vals[#r.names] = show(x)
    r.isq[#r.names] = true
    return x
  end
  function r.cb(fn) return function(...) r.ncb = r.ncb + 1 return fn(...) end end
  function r.after(fn) r.afterfn = fn end
  function r.open(be) end
  return r
end

local function bal(what)
  collectgarbage() collectgarbage()
  local c, h, b, bad = vpi.balance()
  if c ~= 0 or h ~= 0 then vpi.fail("resources are not balanced: " .. what, string.format("%d controls and %d solve handles held; %s", c, h, bad))
  elseif bad ~= "" then vpi.fail("resources given back twice: " .. what, bad) end
end

-- code, message
local KINDS = {{4, "unknown y"}, {1, "injected failure"}, {2, "logic x"}, {3, "no mem"}, {1, nil}, {4, "100%s %d"}}

local function once(r, rec, name, fn, key, msg)
  local hits
  local ok, err = pcall(fn)
  hits = vpi.hits()
  return ok, err, hits
end

local function faulty(rec, target, k, kind)
  local r = {i = 0, done = false}
  function r.op(name, fn, soft)
    r.i = r.i + 1
    vpi.reset()
    if r.i ~= target then
      if not r.done then return fn() end
      local ok, x = pcall(fn) -- the operation before failed, later ones may fail as well, but must not crash
      if ok then return x end
      return nil
    end
    r.done = true
    local function go(k, kind)
      vpi.journal(string.format("%s: operation %d (%s), call %d, error %d %s", arg[1], r.i, name, k, kind[1], tostring(kind[2])))
      vpi.count(kind == KINDS[1])
      vpi.state(r.i .. "/" .. k)
      vpi.arm(k, kind[1], kind[2])
      local ok, err = pcall(fn)
      local hits, f = vpi.hits(), vpi.failed()
      local _, held = vpi.balance()
      vpi.reset()
      local key = string.format("%s: failure of %s", name, f)
      if hits == 0 then vpi.fail(name .. " is not deterministic", "call " .. k .. " was not made")
      elseif soft then -- may be reported or not
      elseif ok then vpi.fail(key .. " is not reported")
      else
        local want = kind[2] or (kind[1] == 3 and "bad_alloc" or "")
        local got = tostring(err)
        if kind[2] ~= nil and not got:find(kind[2], 1, true) then vpi.fail(key .. " loses the message", "got " .. got .. ", expected " .. kind[2]) end
        if held ~= 0 then vpi.fail(key .. " leaves the solve handle open") end
      end
      return key
    end
    if rec.isq[r.i] then
      for k = 1, rec.calls[r.i] do
        for _, kind in ipairs(KINDS) do
          local key = go(k, kind)
          local ok, x = pcall(fn)
          if not ok then vpi.fail(key .. " breaks the object", "repeating it gives " .. tostring(x))
          elseif show(x) ~= rec.vals[r.i] then vpi.fail(key .. " changes the object", "repeating it gives " .. show(x) .. ", before " .. rec.vals[r.i]) end
        end
      end
      return fn()
    end
    go(k, kind)
    return nil
  end
  r.q = r.op
  function r.cb(fn) return fn end
  function r.after(fn) end
  function r.open(be) if r.done then pcall(be.close, be) end end
  return r
end

local function faults(f)
  local rec = base()
  rec.after = function() end
  f(rec)
  collectgarbage() collectgarbage()
  local n = 0
  for i = 1, #rec.names do
    n = n + rec.calls[i]
    if rec.isq[i] then
      if rec.calls[i] > 0 then f(faulty(rec, i, 1, KINDS[1])) bal(rec.names[i]) end
    else
      for k = 1, rec.calls[i] do
        for j, kind in ipairs(KINDS) do
          if k == 1 or j == 1 or j == 4 or vpi.thorough() then
            f(faulty(rec, i, k, kind))
            bal(string.format("%s with call %d failing", rec.names[i], k))
          end
        end
      end
    end
  end
  vpi.sample(string.format("%s: %d operations, %d calls", arg[1], #rec.names, n))
end

local ERRS = {
  {"text", function() error("user error 100%d", 0) end, "user error 100%d"},
  {"position", function() error("user error") end, "user error"},
  {"table", function() error({1}) end, ""},
  {"nil", function() error(nil) end, ""},
  {"indexing", function() local x = nil; return x.y end, "nil value"},
  {"library", function() clingo.parse_term("f(") end, "syntax error"},
}
ERRS[6][3] = select(2, pcall(clingo.parse_term, "f("))

local function raising(rec, target, k, e)
  local r = {i = 0, n = 0, active = false}
  function r.op(name, fn, soft)
    r.i = r.i + 1
    if r.i < target then return fn() end
    if r.i > target then
      local ok, x = pcall(fn)
      if ok then return x end
      return nil
    end
    vpi.journal(string.format("%s: operation %d (%s), callback %d raises %s", arg[1], r.i, name, k, e[1]))
    vpi.count(e == ERRS[1])
    vpi.state(r.i .. "/" .. k)
    r.active, r.n, r.later = true, 0, 0
    local ok, err = pcall(fn)
    r.active = false
    local _, held = vpi.balance()
    local key = name .. ": error in callback"
    if r.n < k then vpi.fail(name .. " is not deterministic", "callback " .. k .. " was not called")
    elseif ok then vpi.fail(key .. " is not reported", e[1])
    elseif not tostring(err):find(e[3], 1, true) then vpi.fail(key .. " is reported without its message", e[1] .. ": " .. tostring(err)) end
    if held ~= 0 then vpi.fail(key .. " leaves the solve handle open", e[1]) end
    if r.afterfn then
      local ok, x = pcall(r.afterfn)
      if not ok then vpi.fail(key .. " breaks the control", tostring(x))
      elseif show(x) ~= rec.aft[r.i] then vpi.fail(key .. " changes the control", "got " .. show(x) .. ", expected " .. rec.aft[r.i]) end
    end
    return nil
  end
  r.q = r.op
  function r.cb(fn)
    return function(...)
      if r.active then
        r.n = r.n + 1
        if r.n == k then e[2]() end
      end
      return fn(...)
    end
  end
  function r.after(fn) r.afterfn = fn end
  function r.open(be) if r.i >= target then pcall(be.close, be) end end
  return r
end

local function raises(f)
  local rec = base()
  f(rec)
  rec.aft = {}
  for i = 1, #rec.names do -- the expected state after each operation without errors
    if rec.cbs[i] > 0 then
      local r = base()
      local op = r.op
      function r.op(name, fn, soft)
        local x = op(name, fn, soft)
        if #r.names == i and r.afterfn then rec.aft[i] = show(r.afterfn()) end
        return x
      end
      f(r)
      r.afterfn = nil
    end
  end
  rec.afterfn = nil
  for i = 1, #rec.names do
    for k = 1, rec.cbs[i] do
      for _, e in ipairs(ERRS) do
        f(raising(rec, i, k, e))
        bal(string.format("%s with callback %d raising %s", rec.names[i], k, e[1]))
      end
    end
  end
end
-- }}}

local f = scen[arg[1]]
collectgarbage("generational")
faults(f)
raises(f)
vpi.done()
