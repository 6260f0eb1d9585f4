-- Invalid calls of the Lua API for E04: each raises an error and leaves the objects usable.
-- usage: luamis.lua CATEGORY ; every ordered pair of invalid calls on one control
local c = require("clingo")
local vpi = require("vpilua")
local F, N, S = c.Function, c.Number, c.String
local PRG = "{a;b}. #external e. &t{1,a,f(1):a}. #theory th{u{};&t/0:u,any}."

-- expressions on the object of the category; with a second component, the text the message has to contain
local T = {
  ctl = {
    {"solve{yield=true,on_model=print}", "callbacks and iterative solving cannot be used"},
    {"solve{yield=true,on_finish=print}", "callbacks and iterative solving cannot be used"},
    {"solve{async=true}", "asynchronous solving not supported"},
    {"solve{async=true,yield=true}", "asynchronous solving not supported"},
    "solve(1)",
    "solve(\"x\")",
    "solve{assumptions=1}",
    "solve{assumptions={true}}",
    "solve{assumptions={{}}}",
    "solve{assumptions={{F(\"a\")}}}",
    "solve{assumptions={F(\"a\")}}",
    "solve{assumptions={\"x\"}}",
    "solve{assumptions={{F(\"a\"),true,1}}}",
    "solve{on_model=1}",
    "add(\"base\")",
    "add(\"base\",1,\"a.\")",
    "add(\"base\",{},nil)",
    "add(\"base\",{print},\"a.\")",
    "add({}, {}, \"a.\")",
    "add(\"base\",{},\"a\")",
    "add()",
    "add(\"a.\")",
    "ground(1)",
    "ground({1})",
    "ground({{}})",
    "ground({{\"base\"}})",
    "ground({{\"base\",1}})",
    "ground({{\"base\",{print}}})",
    "ground()",
    "load(nil)",
    "load({})",
    "load(\"/nonexistent\")",
    "get_const(nil)",
    "get_const({})",
    "assign_external(nil,true)",
    "assign_external(F(\"e\"))",
    "assign_external(F(\"e\"),3)",
    "assign_external(F(\"e\"),\"x\")",
    "assign_external(print,true)",
    "release_external({})",
    "release_external()",
    "register_propagator(nil)",
    "register_propagator(1)",
    "nofield(1)",
  },
  be = {
    "add_rule()",
    "add_rule(1)",
    "add_rule{}",
    "add_rule{1}",
    "add_rule{{\"x\"}}",
    "add_rule{{print}}",
    "add_rule{{1},{\"x\"}}",
    "add_rule{{1},1}",
    "add_weight_rule{}",
    "add_weight_rule{{1}}",
    "add_weight_rule{{1},1}",
    "add_weight_rule{{1},\"x\",{}}",
    "add_weight_rule{{1},1,{1}}",
    "add_weight_rule{{1},1,{{1}}}",
    "add_weight_rule{{1},1,{{1,\"x\"}}}",
    "add_weight_rule{{1},1,{{1,2,3}}}",
    "add_minimize{}",
    "add_minimize{1}",
    "add_minimize{1,1}",
    "add_minimize{\"x\",{}}",
    "add_minimize{1,{1}}",
    "add_external()",
    "add_external(\"x\")",
    "add_external(1,\"x\")",
    "add_external(1,true)",
    "add_external(1,1)",
    "add_atom(print)",
    "add_atom({})",
    "nofield(1)",
    "add_atom(1,2)",
  },
  conf = {
    "solve.zzz=1",
    "solve.models=\"x\"",
    "solve.models=nil",
    "solve.models={}",
    "zzz.y=1",
    "solve=\"x\"",
    "solve:description(\"zz\")",
    "solve:description(nil)",
    "solve:zz()",
  },
  sa = {
    "lookup(print)",
    "lookup()",
    "lookup({})",
    "by_signature()",
    "by_signature(\"a\")",
    "by_signature(\"a\",\"x\")",
    "by_signature(\"a\",1.5)",
    "nofield()",
  },
  m = {
    "symbols(1)",
    "symbols(\"x\")",
    "symbols()",
    "extend(1)",
    "extend()",
    "extend({print})",
    "extend({{}})",
    "contains(print)",
    "contains()",
    "is_true(\"x\")",
    "is_true()",
    "is_true({})",
    "context:add_clause()",
    "context:add_clause(1)",
    "context:add_clause({print})",
    "context:add_clause({{F(\"a\")}})",
    "context:add_clause({\"x\"})",
    "context:nofield()",
    "nofield()",
    "context:add_nogood({true})",
  },
  init = {
    "add_watch()",
    "add_watch(\"x\")",
    "add_watch({})",
    "add_watch(1,\"x\")",
    "add_watch(1,0)",
    "add_watch(1.5)",
    "solver_literal()",
    "solver_literal(\"x\")",
    "solver_literal({})",
    "set_state(0,1)",
    "set_state(2,1)",
    "set_state(\"x\",1)",
    "set_state()",
    "set_state(1)",
    "add_clause()",
    "add_clause(1)",
    "add_clause({\"x\"})",
    "add_clause({print})",
    "add_clause({F(\"a\")})",
    "add_weight_constraint()",
    "add_weight_constraint(1)",
    "add_weight_constraint(1,{})",
    "add_weight_constraint(1,{1},1)",
    "add_weight_constraint(1,{{1}},1)",
    "add_minimize()",
    "add_minimize(1)",
    "add_minimize(1,\"x\")",
    "add_minimize(\"x\",1)",
    "nofield()",
    "assignment:value()",
    "assignment:value(\"x\")",
    "assignment:decision(\"x\")",
    "assignment:has_lit()",
    "assignment.trail:first(99)",
    "assignment.trail:first()",
  },
  th = {
    "zz",
    "zz()",
    "type.zz",
    "term.zz",
    "elements[1].zz",
    "elements[1].terms[1].name",
    "elements[1].terms[2].number",
    "elements[1].terms[3].number",
    "term.number",
    "guard.zz",
  },
  sym = {
    "zz()",
    "match(1)",
    "match()",
    "match(\"a\",\"x\")",
  },
}

local sel = arg[1]
local items = {}
for i, x in ipairs(T[sel]) do
  local e, m = x, nil
  if type(x) == "table" then e, m = x[1], x[2] end
  local code = "local c,F,N,S,o=... "
  if sel == "conf" and e:find("=") then code = code .. "o." .. e
  else code = code .. "return o" .. (e:find("^[%w_]+[%({]") and ":" or ".") .. e end
  local f, err = load(code)
  if not f then error(code .. ": " .. err) end
  items[i] = {e, f, m}
end

local function with(ctl, f) -- calls f with the object of the category
  if sel == "ctl" then f(ctl)
  elseif sel == "be" then
    local be = ctl:backend()
    be:add_atom()
    be:add_atom()
    f(be)
    be:close()
  elseif sel == "conf" then f(ctl.configuration)
  elseif sel == "sa" then f(ctl.symbolic_atoms)
  elseif sel == "sym" then f(N(1))
  elseif sel == "th" then for a in ctl.theory_atoms do f(a) end
  elseif sel == "m" then
    local n = 0
    ctl:solve {on_model = function(m)
      n = n + 1
      if n <= 2 then f(m) end
    end}
  elseif sel == "init" then
    local n = 0
    ctl:register_propagator {init = function(self, i)
      n = n + 1
      if n == 1 then f(i) end
    end}
    ctl:solve()
  end
end

local function models(ctl)
  local r = {}
  local res = ctl:solve {on_model = function(m)
    local x = {}
    for i, s in ipairs(m:symbols {atoms = true}) do x[i] = tostring(s) end
    table.sort(x)
    r[#r + 1] = table.concat(x, " ")
  end}
  table.sort(r)
  return tostring(res) .. " " .. table.concat(r, "|") .. " " .. ctl.configuration.solve.models
end
local WANT = "SAT |a|a b|b 0"

local function call(it, o, where)
  local ok, err = pcall(it[2], c, F, N, S, o)
  if ok then vpi.fail("invalid call is accepted: " .. sel .. " " .. it[1], where .. ": returned " .. tostring(err))
  elseif it[3] and not tostring(err):find(it[3], 1, true) then vpi.fail("invalid call is reported without its message: " .. sel .. " " .. it[1], tostring(err)) end
end

local function run(...)
  local its, names = {...}, {}
  for i, it in ipairs(its) do names[i] = it[1] end
  local where = sel .. ": " .. table.concat(names, ", then ")
  vpi.journal(where)
  vpi.count(true)
  vpi.state(where)
  local ctl = c.Control({"0"}, function(code, msg) end, 1000)
  ctl:add("base", {}, PRG)
  ctl:ground({{"base", {}}})
  local ok, err = pcall(with, ctl, function(o) for _, it in ipairs(its) do call(it, o, where) end end)
  if not ok then vpi.fail("an invalid call that was caught breaks the object: " .. where, tostring(err)) end
  local ok, r = pcall(models, ctl)
  if not ok then vpi.fail("an invalid call breaks the control: " .. where, tostring(r))
  elseif r ~= WANT then vpi.fail("an invalid call changes the control: " .. where, r .. " instead of " .. WANT) end
  ctl = nil
end

local n = 0
for _, a in ipairs(items) do
  run(a)
  for _, b in ipairs(items) do
    run(a, b)
    n = n + 1
    if n % 50 == 0 then collectgarbage() collectgarbage() end
  end
end
collectgarbage() collectgarbage()
local nc, h, b, bad = vpi.balance()
if nc ~= 0 or h ~= 0 then vpi.fail("resources are not balanced after invalid calls: " .. sel, string.format("%d controls and %d solve handles held; %s", nc, h, bad)) end
vpi.sample(string.format("%s: %d invalid calls, %d pairs", sel, #items, n))
vpi.done()
