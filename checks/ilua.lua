-- Command interpreter over the Lua API; understands the commands of ipy.py.
local clingo = require("clingo")
local pt = clingo.parse_term
local S
-- A table with the same elements as the sequence t but with keys stored out of order (every second run uses them).
local hk, runs = {}, 0
local function H(t)
  local n = #t
  if n == 0 or n > 200 or runs % 2 == 0 then return t end
  if not hk[n] then
    local r = {}
    for i = n, 1, -1 do r[#r + 1] = "[" .. i .. "]=t[" .. i .. "]" end
    hk[n] = load("local t = ... return {" .. table.concat(r, ",") .. "}")
  end
  return hk[n](t)
end
local function reset() runs = runs + 1 S = {level = "b", probe = {}, msgs = {}, vars = {}, log = {}, props = 0, plog = {}, funs = {}, flog = {}} end
reset()
local function b(x) return x and "1" or "0" end
local function d(x) return string.format("%d", x) end
local function split(s, sep)
  local r = {}
  for x in (s or ""):gmatch("[^" .. sep .. "]+") do r[#r + 1] = x end
  return r
end
local function map(t, f) local r = {} for i, x in ipairs(t) do r[i] = f(x) end return H(r) end
local function sorted(t) table.sort(t) return table.concat(t, ",") end
local function tri(x) if x == nil then return "-" end return b(x) end
local function res(r)
    if tostring(r) ~= (r.satisfiable and "SAT" or r.unsatisfiable and "UNSAT" or "UNKNOWN") then return "!" .. tostring(r) end
    return tri(r.satisfiable) .. tri(r.unsatisfiable) .. b(r.unknown) .. b(r.exhausted) .. b(r.interrupted)
end
local function lit(s)
  local a = S.ctl.symbolic_atoms:lookup(pt(s))
  if a == nil then error("no atom") end
  return a.literal
end
local function toks(s)
  local r = {}
  for i, t in ipairs(split(s, " ")) do
    local c = t:sub(1, 1)
    if c == "+" then r[i] = H {pt(t:sub(2)), true}
    elseif c == "-" and not t:sub(2):match("^%d+$") then r[i] = H {pt(t:sub(2)), false}
    elseif c == "#" then r[i] = lit(t:sub(2))
    elseif c == "~" then r[i] = -lit(t:sub(2))
    else r[i] = math.tointeger(tonumber(t)) end
  end
  return H(r)
end
local names = {"atoms", "terms", "shown", "theory", "complement"}
local function model(m)
  local function f(k) return sorted(map(m:symbols(k), tostring)) end
  local r = f {atoms = true}
  if S.level == "f" then
    local all = {}
    for i = 0, 31 do
      local k = {}
      for j = 0, 4 do
        local v = (i >> j) & 1 == 1
        if v or i % 3 == 0 then k[names[j + 1]] = v end
      end
      all[#all + 1] = f(k)
    end
    r = r .. "|" .. table.concat(all, ";") .. "|" .. tostring(m) .. "|" .. table.concat(map(m.cost, d), ",") .. "||" ..
      d(m.number) .. " " .. d(m.thread_id - 1) .. " " .. b(m.optimality_proven) .. " " .. tostring(m.type) .. "|"
    for _, s in ipairs(S.probe) do r = r .. b(m:contains(pt(s))) end
    local sa = m.context.symbolic_atoms
    for _, s in ipairs(S.probe) do
      local a = sa:lookup(pt(s))
      if a == nil then r = r .. " -" else r = r .. " " .. b(m:is_true(a.literal)) .. b(m:is_true(-a.literal)) end
    end
  end
  return r
end
local function hook(m, hk, out)
  S.k = S.k + 1
  local go = nil
  if S.k % 2 == 0 then go = true end
  for _, part in ipairs(split(hk, ";")) do
    local k, act = part:match("^(%d+):(.*)$")
    k = tonumber(k)
    if k == 0 or k == S.k then
      local a, arg = act:match("^(%S+) ?(.*)$")
      if a == "stop" then go = false
      elseif a == "none" then go = nil
      elseif a == "clause" then m.context:add_clause(toks(arg))
      elseif a == "nogood" then m.context:add_nogood(toks(arg))
      elseif a == "extend" then m:extend(map(split(arg, " "), pt))
      elseif a == "again" then out[#out + 1] = "M" .. model(m)
      elseif a == "interrupt" then S.ctl:interrupt()
      elseif a == "raise" then error("KeyError") end
    end
  end
  return go
end
local C = {}
function C.reset() reset() collectgarbage() end
function C.new(args, limit)
  S.msgs = {}
  S.h = nil
  local lg = function(c, m) S.msgs[#S.msgs + 1] = tostring(c) .. "|" .. m end
  args = H(split(args, " "))
  if limit == nil then S.ctl = clingo.Control(args, lg)
  elseif limit == "" then S.ctl = clingo.Control(args)
  else S.ctl = clingo.Control(args, lg, math.tointeger(tonumber(limit))) end
end
function C.load(f) S.ctl:load(f) end
function C.term(text, limit)
  local lg = function(c, m) S.msgs[#S.msgs + 1] = tostring(c) .. "|" .. m end
  if limit == "" then return tostring(pt(text)) end
  if limit == "d" then return tostring(pt(text, lg)) end
  return tostring(pt(text, lg, math.tointeger(tonumber(limit))))
end
function C.msgs() local r = table.concat(S.msgs, "\1") S.msgs = {} return r end
function C.add(name, params, text) S.ctl:add(name, H(split(params, ",")), text) end
function C.ground(parts) S.ctl:ground(map(split(parts, ";"), function(p) local s = pt(p) return H {s.name, H(s.arguments)} end)) end
function C.fun(name, shape, syms) S.funs[name] = {shape, map(split(syms, "\3"), pt)} end
function vp_call(name, ...)
  local args = {...}
  S.flog[#S.flog + 1] = name .. " " .. table.concat(map(args, tostring), "\3")
  local shape, v = S.funs[name][1], S.funs[name][2]
  if shape == "one" then return v[1] end
  if shape == "list" then return v end
  if shape == "args" then return args end
  if shape == "nat" or shape == "natlist" then
    local r = map(v, function(x)
      if x.type == clingo.SymbolType.Number then return x.number end
      if x.type == clingo.SymbolType.String then return x.string end
      return x
    end)
    if shape == "nat" then return r[1] end
    return r
  end
  if shape == "none" then return nil end
  if shape == "bool" then return true end
  if shape == "bad" then return {v[1], true} end
  if shape == "nest" then return {v} end
  if shape == "frac" then return 1.5 end
  if shape == "big" then return {1 << 31} end
  error("lookup " .. name)
end
function C.funlog() local r = table.concat(S.flog, "\1") S.flog = {} return r end
function C.groundx(parts)
  local ctx = {}
  for n in pairs(S.funs) do ctx[n] = function(self, ...) assert(self == ctx) return vp_call(n, ...) end end
  S.ctl:ground(map(split(parts, ";"), function(p) local s = pt(p) return H {s.name, H(s.arguments)} end), ctx)
end
local function truth(v) if v == "t" then return true elseif v == "f" then return false end return nil end
function C.ext(s, v) S.ctl:assign_external(pt(s), truth(v)) end
function C.extl(s, v) S.ctl:assign_external(lit(s), truth(v)) end
function C.extn(s, v) S.ctl:assign_external(-lit(s), truth(v)) end
function C.rel(s) S.ctl:release_external(pt(s)) end
function C.reln(s) S.ctl:release_external(-lit(s)) end
function C.rell(s) S.ctl:release_external(lit(s)) end
function C.const(n) local r = S.ctl:get_const(n) return r == nil and "-" or tostring(r) end
function C.conflict() return b(S.ctl.is_conflicting) end
function C.cleanup() S.ctl:cleanup() end
function C.encl(v) S.ctl.enable_cleanup = v == "1" return b(S.ctl.enable_cleanup) end
function C.enum(v) S.ctl.enable_enumeration_assumption = v == "1" return b(S.ctl.enable_enumeration_assumption) end
local function atom(a) return tostring(a.symbol) .. "/" .. b(a.is_fact) .. b(a.is_external) .. "/" .. d(a.literal) end
function C.size() return d(#S.ctl.symbolic_atoms) end
function C.atoms() local r = {} for a in S.ctl.symbolic_atoms:iter() do r[#r + 1] = atom(a) end return table.concat(r, " ") end
function C.bysig(name, ar, pos)
  local r = {}
  local it
  if pos == "_" then it = S.ctl.symbolic_atoms:by_signature(name, math.tointeger(tonumber(ar)))
  else it = S.ctl.symbolic_atoms:by_signature(name, math.tointeger(tonumber(ar)), pos == "1") end
  for a in it do r[#r + 1] = atom(a) end
  return table.concat(r, " ")
end
function C.sigs()
  local r = {}
  for i, s in ipairs(S.ctl.symbolic_atoms.signatures) do r[i] = s[1] .. "/" .. d(s[2]) .. "/" .. b(s[3]) end
  return table.concat(r, " ")
end
function C.match(s, name, ar, pos)
  local a = S.ctl.symbolic_atoms:lookup(pt(s))
  if pos then return b(a:match(name, math.tointeger(tonumber(ar)), pos == "1")) end
  return b(a:match(name, math.tointeger(tonumber(ar))))
end
function C.atoms2()
  local r = {}
  local sa = S.ctl.symbolic_atoms
  local nx = sa:iter()
  for a in sa:iter() do
    if atom(nx()) ~= atom(a) or atom(sa:lookup(a.symbol)) ~= atom(a) then error("iterators") end
    r[#r + 1] = atom(a)
  end
  if nx() ~= nil then error("end") end
  return table.concat(r, " ")
end
function C.lookup(s) local a = S.ctl.symbolic_atoms:lookup(pt(s)) return a == nil and "-" or atom(a) end
function C.level(x, probe) S.level = x S.probe = split(probe, " ") end
function C.solve(mode, ass, hk)
  local out = {}
  S.k = 0
  local kw = {}
  if ass and ass ~= "" then kw.assumptions = toks(ass) end
  if mode:find("e") then kw.on_finish = function(r) out[#out + 1] = "F" .. res(r) end end
  local m0 = mode:sub(1, 1)
  local r
  if m0 == "p" then
    if next(kw) == nil then r = S.ctl:solve() else r = S.ctl:solve(kw) end
  elseif m0 == "c" then
    kw.on_model = function(m) out[#out + 1] = "M" .. model(m) return hook(m, hk, out) end
    r = S.ctl:solve(kw)
  elseif m0 == "y" then
    kw.yield = true
    local h = S.ctl:solve(kw)
    local ok, e = pcall(function()
      for m in h:iter() do
        out[#out + 1] = "M" .. model(m)
        if hook(m, hk, out) == false then break end
      end
      r = h:get()
      if r.unsatisfiable then
        local c = h:core()
        out[#out + 1] = "K" .. (c and table.concat(map(c, d), ",") or "")
      end
    end)
    h:close()
    if not ok then error(e, 0) end
  else error("mode") end
  out[#out + 1] = "R" .. res(r)
  return table.concat(out, "\1")
end
function C.hstart(mode, ass)
  local kw = {yield = mode:find("y") ~= nil}
  if ass and ass ~= "" then kw.assumptions = toks(ass) end
  S.h = S.ctl:solve(kw)
end
function C.hresume() S.h:resume() end
function C.hnext() local m = S.h:iter()() return m == nil and "-" or "M" .. model(m) end
function C.hget() return res(S.h:get()) end
function C.hcore() local c = S.h:core() return c and table.concat(map(c, d), ",") or "" end
function C.hcancel() S.h:cancel() end
function C.hclose() S.h:close() S.h = nil end
function C.hdrop() S.h = nil collectgarbage() collectgarbage() end
function C.hwait(t) if t == nil then S.h:wait() return "1" end return b(S.h:wait(tonumber(t))) end
local function conf(path)
  local c = S.ctl.configuration
  for _, p in ipairs(split(path, "%.")) do
    if p:match("^%d+$") then
      local i = 0
      local f
      for x in c:iter() do if i == tonumber(p) then f = x end i = i + 1 end
      if f == nil then error("index") end
      c = f
    else
      c = c[p]
    end
  end
  return c
end
function C.cget(path) local x = conf(path) if x == nil then return "-" elseif type(x) == "string" then return "=" .. x end return "node" end
function C.cset(path, v) local h, t = path:match("^(.-)%.?([^.]*)$") conf(h)[t] = v end
function C.ckeys(path) local k = conf(path).keys return k == nil and "-" or table.concat(k, " ") end
function C.clen(path) local c = conf(path) return d(#c) end
function C.cdump(path, ds)
  path = path or ""
  local out = {}
  local function rec(c, p, el)
    local ks = c.keys
    -- (whether it is an array shows in its length alone)
    out[#out + 1] = p .. " #" .. (#c > 0 and d(#c) or "-") .. (ks == nil and "" or " " .. table.concat(ks, " "))
    for _, k in ipairs(ks or {}) do
      local q = p .. "." .. k
      if ds == "1" then
        out[#out + 1] = q .. " ?" .. c:description(k)
        if c["__desc_" .. k] ~= c:description(k) then error("__desc_") end
      end
      local x = c[k]
      if x == nil then out[#out + 1] = q .. " -"
      elseif type(x) == "string" then out[#out + 1] = q .. " =" .. x
      else rec(x, q) end
    end
    local i = 0
    if #c > 0 then for x in c:iter() do rec(x, p .. "." .. d(i)) i = i + 1 end end
    if i ~= #c then error("length") end
  end
  rec(conf(path), path)
  return table.concat(out, "\1")
end
function C.cdesc(path) local h, t = path:match("^(.-)%.?([^.]*)$") return conf(h):description(t) end
local function tree(x)
  if type(x) == "table" then
    if #x > 0 then return "[" .. table.concat(map(x, tree), ",") .. "]" end
    local k = {}
    for n in pairs(x) do k[#k + 1] = n end
    table.sort(k)
    return "{" .. table.concat(map(k, function(n) return n .. ":" .. tree(x[n]) end), ",") .. "}"
  end
  return string.format("%g", x)
end
function C.stats(path)
  local x = S.ctl.statistics
  for _, p in ipairs(split(path, "%.")) do if p:match("^%d+$") then x = x[tonumber(p) + 1] else x = x[p] end end
  return tree(x)
end
function C.be(stmts)
  local V = S.vars
  local out = {}
  local function l1(x) if x:sub(1, 1) == "-" then return -V[x:sub(2)] end return V[x] end
  local function lits(s) return map(split(s, ","), l1) end
  local function wl(s) return map(split(s, ","), function(x) local l, w = x:match("^(.*)=(.*)$") return H {l1(l), math.tointeger(tonumber(w))} end) end
  local be = S.ctl:backend()
  local ok, e = pcall(function()
    for _, st in ipairs(split(stmts, ";")) do
      local a = split(st, " ")
      local k = table.remove(a, 1)
      for i, x in ipairs(a) do if x == "." then a[i] = "" end end
      if k == "atom" then
        if a[2] then V[a[1]] = be:add_atom(pt(a[2])) else V[a[1]] = be:add_atom() end
        out[#out + 1] = d(V[a[1]])
      elseif k == "rule" then
        if #a == 1 then be:add_rule {head = lits(a[1])}
        elseif #a == 2 then be:add_rule {head = lits(a[1]), body = lits(a[2])}
        else be:add_rule {head = lits(a[1]), body = lits(a[2]), choice = a[3] == "1"} end
      elseif k == "wrule" then
        if #a == 3 then be:add_weight_rule {lits(a[1]), math.tointeger(tonumber(a[2])), wl(a[3])}
        else be:add_weight_rule {head = lits(a[1]), lower = math.tointeger(tonumber(a[2])), body = wl(a[3]), choice = a[4] == "1"} end
      elseif k == "min" then be:add_minimize {priority = math.tointeger(tonumber(a[1])), body = wl(a[2])}
      elseif k == "ext" then
        if #a == 1 then be:add_external(V[a[1]])
        else be:add_external(V[a[1]], clingo.ExternalType[({t = "True", f = "False", u = "Free", r = "Release"})[a[2]]]) end
      elseif k == "raise" then error("KeyError")
      else error("unsupported " .. k) end
    end
  end)
  be:close()
  if not ok then error(e, 0) end
  return table.concat(out, " ")
end
function C.bekw()
  local be, r = S.ctl:backend(), {}
  local V = {}
  for i, n in ipairs({"a", "b", "c", "x", "y", "z"}) do V[n] = be:add_atom(clingo.Function(n)) end
  local a, b, c, x, y, z = V.a, V.b, V.c, V.x, V.y, V.z
  local function t(f, args) r[#r + 1] = pcall(be[f], be, args) and "1" or "0" end
  t("add_rule", {{a}, {}, true})
  t("add_rule", {{b}, choice = true})
  t("add_rule", {head = {c}, choice = true})
  t("add_rule", {{x}, body = {a, -b}})
  t("add_rule", {{x}, {c, b}, false})
  t("add_weight_rule", {{y}, 2, body = {{a, 1}, {b, 1}, {c, 1}}})
  t("add_weight_rule", {{z}, lower = 1, body = {{c, 1}}, choice = true})
  r[#r + 1] = "|"
  -- missing and repeated arguments
  t("add_rule", {{a}, head = {b}})
  t("add_rule", {{a}, {}, body = {b}})
  t("add_rule", {{a}, {}, true, choice = false})
  t("add_rule", {body = {a}})
  t("add_rule", {})
  t("add_weight_rule", {{y}, 2})
  t("add_weight_rule", {{y}, body = {{a, 1}}})
  t("add_weight_rule", {lower = 1, body = {{a, 1}}})
  t("add_weight_rule", {{y}, 2, {{a, 1}}, lower = 2})
  t("add_weight_rule", {{y}, 2, {{a, 1}}, body = {{a, 1}}})
  t("add_minimize", {body = {{a, 1}}})
  t("add_minimize", {1})
  t("add_minimize", {1, {{a, 1}}, priority = 1})
  be:close()
  return table.concat(r)
end
local tn = {Number = "Nu", Symbol = "Sy", Function = "Fu", Tuple = "Tu", Set = "Se", List = "Li"}
local function term(t)
  local n = tostring(t.type)
  local r = tn[n]
  if n == "Number" then r = r .. d(t.number) end
  if n == "Symbol" or n == "Function" then r = r .. "'" .. t.name .. "'" end
  if n ~= "Number" and n ~= "Symbol" then r = r .. "(" .. table.concat(map(t.arguments, term), " ") .. ")" end
  return r .. "<" .. tostring(t) .. ">"
end
local function js(x) return '"' .. x:gsub('["\\]', "\\%0"):gsub("\n", "\\n") .. '"' end
local tnames = {[tostring(clingo.TheoryTermType.Function)] = "Function", [tostring(clingo.TheoryTermType.Number)] = "Number", [tostring(clingo.TheoryTermType.Symbol)] = "Symbol",
  [tostring(clingo.TheoryTermType.Tuple)] = "Tuple", [tostring(clingo.TheoryTermType.List)] = "List", [tostring(clingo.TheoryTermType.Set)] = "Set"}
local function term2(t)
  local n = tnames[tostring(t.type)]
  local v, as = '""', {}
  if n == "Number" then v = d(t.number) elseif n == "Symbol" or n == "Function" then v = js(t.name) end
  if n ~= "Number" and n ~= "Symbol" then as = map(t.arguments, term2) end
  return "[" .. js(n) .. "," .. js(tostring(t)) .. "," .. v .. ",[" .. table.concat(as, ",") .. "]]"
end
function C.theory2()
  local out = {}
  for a in S.ctl.theory_atoms do
    local es = map(a.elements, function(e)
      return "[[" .. table.concat(map(e.terms, term2), ",") .. "],[" .. table.concat(map(e.condition, d), ",") .. "]," .. d(e.condition_id) .. "," .. js(tostring(e)) .. "]"
    end)
    local g = a.guard
    out[#out + 1] = "[" .. term2(a.term) .. ",[" .. table.concat(es, ",") .. "],[" .. (g ~= nil and js(g[1]) .. "," .. term2(g[2]) or "") .. "]," .. d(a.literal) .. "," .. js(tostring(a)) .. "]"
  end
  return "[" .. table.concat(out, ",") .. "]"
end
function C.theorycmp()
  local T = clingo.TheoryTermType
  local L = {{}, {}, {}, {}}
  for _, n in ipairs({"Tuple", "List", "Set", "Function", "Number", "Symbol"}) do table.insert(L[1], {"[" .. js(n) .. "]", T[n]}) end
  local function rec(x)
    table.insert(L[2], {term2(x), x})
    local n = tnames[tostring(x.type)]
    if n ~= "Number" and n ~= "Symbol" then for _, y in ipairs(x.arguments) do rec(y) end end
  end
  for a in S.ctl.theory_atoms do
    table.insert(L[4], {"[" .. d(#L[4]) .. "]", a})
    rec(a.term)
    for _, e in ipairs(a.elements) do
      table.insert(L[3], {"[[" .. table.concat(map(e.terms, term2), ",") .. "],[" .. table.concat(map(e.condition, d), ",") .. "]," .. d(e.condition_id) .. "]", e})
      for _, x in ipairs(e.terms) do rec(x) end
    end
    if a.guard ~= nil then rec(a.guard[2]) end
  end
  local out = {}
  for i = 1, 4 do
    local l, ks, rows = L[i], {}, {}
    for j = 1, math.min(12, #l) do
      ks[j] = l[j][1]
      local r, x = {}, l[j][2]
      for k = 1, math.min(12, #l) do
        local y = l[k][2]
        r[k] = js(b(x == y) .. b(x ~= y) .. b(x < y) .. b(x <= y) .. b(x > y) .. b(x >= y))
      end
      rows[j] = "[" .. table.concat(r, ",") .. "]"
    end
    out[i] = "[[" .. table.concat(ks, ",") .. "],[" .. table.concat(rows, ",") .. "]]"
  end
  return "[" .. table.concat(out, ",") .. "]"
end
function C.theory()
  local out = {}
  for a in S.ctl.theory_atoms do
    local es = map(a.elements, function(e)
      return table.concat(map(e.terms, term), ",") .. ":" .. table.concat(map(e.condition, d), ",") .. ":" .. d(e.condition_id) .. "<" .. tostring(e) .. ">"
    end)
    local g = a.guard
    local gs = ""
    if g ~= nil then gs = g[1] .. "|" .. term(g[2]) .. "|" end
    out[#out + 1] = term(a.term) .. "{" .. table.concat(es, "; ") .. "}|" .. gs .. d(a.literal) .. "<" .. tostring(a) .. ">"
  end
  return table.concat(out, "\1")
end
local function oj(x)
  if type(x) == "table" then return "[" .. table.concat(map(x, oj), ",") .. "]" end
  if type(x) == "boolean" then return b(x) end
  if type(x) == "number" then return d(x) end
  return tostring(x)
end
local events = {"init_program", "begin_step", "end_step", "rule", "weight_rule", "minimize", "project", "output_atom", "output_term", "external", "assume", "heuristic", "acyc_edge", "theory_term_number", "theory_term_string", "theory_term_compound", "theory_element", "theory_atom", "theory_atom_with_guard"}
function C.obs(replace, skip)
  local o = {}
  local sk = {}
  for _, x in ipairs(split(skip, ",")) do sk[x] = true end
  for _, n in ipairs(events) do
    if not sk[n] then
      o[n] = function(_, ...)
        local a = {...}
        for i = 1, select("#", ...) do a[i] = oj(a[i]) end
        S.log[#S.log + 1] = #a > 0 and n .. " " .. table.concat(a, " ") or n
      end
    end
  end
  S.obs = o
  if replace == nil or replace == "_" then S.ctl:register_observer(o) else S.ctl:register_observer(o, replace == "1") end
end
function C.obslog() local r = table.concat(S.log, "\1") S.log = {} return r end
-- propagators: see ipy.py
local PM = clingo.PropagatorCheckMode
local modes = {N = PM.Off or PM.None, T = PM.Total, F = PM.Fixpoint, B = PM.Both}
local function mode(m)
  for k, v in pairs(modes) do if tostring(v) == tostring(m) then return k end end
  return tostring(m)
end
function C.prop(init, rules, flags)
  local P = {}
  local n = S.props
  S.props = n + 1
  local V
  local fired = {}
  local log = S.plog
  local function out(x) log[#log + 1] = d(n) .. x end
  local function l1(x)
    if x:sub(1, 1) == "-" then
      if V[x:sub(2)] == nil then error("no literal " .. x) end
      return -V[x:sub(2)]
    end
    if V[x] == nil then error("no literal " .. x) end
    return V[x]
  end
  local function lits(x) if x == "." then return {} end return map(split(x, ","), l1) end
  local function view(a)
    local dl = a.decision_level
    local r = d(dl) .. " " .. d(a.root_level) .. " " .. b(a.has_conflict) .. b(a.is_total) .. "|"
    local mx, i = 0, 0
    local nx = a:iter()
    for k, x in pairs(a) do
      i = i + 1
      if k ~= i or a[i] ~= x or nx() ~= x then r = r .. "!at" end
      mx = math.max(mx, math.abs(x))
      r = r .. d(x) .. ":"
      for _, y in ipairs {x, -x} do
        y = math.tointeger(y)
        local v = a:value(y)
        r = r .. tri(v) .. b(a:is_true(y)) .. b(a:is_false(y)) .. b(a:is_fixed(y)) .. b(a:has_lit(y))
        if v ~= nil then r = r .. d(a:level(y)) end
        r = r .. ","
      end
      r = r .. " "
    end
    if i ~= #a or nx() ~= nil or a[i + 1] ~= nil or a[0] ~= nil then r = r .. "!size" end
    if a:has_lit(math.tointeger(mx + 3)) then r = r .. "!" end
    r = r .. "|"
    for l = 1, dl do r = r .. d(a:decision(l)) .. " " end
    r = r .. "|"
    local t = a.trail
    i = 0
    nx = t:iter()
    for k, x in pairs(t) do
      i = i + 1
      if k ~= i or t[i] ~= x or nx() ~= x then r = r .. "!trail" end
      r = r .. d(x) .. " "
    end
    if i ~= #t or nx() ~= nil or t[i + 1] ~= nil or t[0] ~= nil then r = r .. "!size" end
    r = r .. "|"
    for l = 0, dl do r = r .. d(t:first(l) - 1) .. "-" .. d(t:last(l)) .. " " end
    return r
  end
  local function num(x) return math.tointeger(tonumber(x)) end
  function P:init(I)
    if self ~= P then out("!self") end
    V = {T = 1}
    local a = I.assignment
    local r = "I" .. d(I.number_of_threads) .. " " .. mode(I.check_mode) .. " "
    local names = {}
    for x in I.symbolic_atoms:iter() do
      local sl = I:solver_literal(x.literal)
      names[#names + 1] = tostring(x.symbol) .. "=" .. d(sl) .. "/" .. d(I:solver_literal(-x.literal))
      V[tostring(x.symbol)] = sl
    end
    table.sort(names)
    r = r .. table.concat(names, " ") .. "|"
    local i = 0
    for t in I.theory_atoms do
      local sl = I:solver_literal(t.literal)
      V["&" .. d(i)] = sl
      r = r .. " " .. d(sl)
      for j, e in ipairs(t.elements) do
        sl = I:solver_literal(e.condition_id)
        V["&" .. d(i) .. "." .. d(j - 1)] = sl
        r = r .. ":" .. d(sl)
      end
      i = i + 1
    end
    out(r .. "|" .. view(a))
    for th = 1, I.number_of_threads do I:set_state(th, {id = th}) end
    for _, act in ipairs(split(init, ";")) do
      local w = split(act, " ")
      local k = w[1]
      local res = true
      if k == "watch" then if w[3] then I:add_watch(l1(w[2]), num(w[3]) + 1) else I:add_watch(l1(w[2])) end
      elseif k == "lit" then if w[3] then V[w[2]] = I:add_literal(w[3] == "1") else V[w[2]] = I:add_literal() end
      elseif k == "clause" then res = I:add_clause(lits(w[2]))
      elseif k == "wc" then
        local wl = {}
        if w[3] ~= "." then for _, x in ipairs(split(w[3], ",")) do local l, q = x:match("^(.*)=(.*)$") wl[#wl + 1] = H {l1(l), num(q)} end end
        if w[6] then res = I:add_weight_constraint(l1(w[2]), wl, num(w[4]), num(w[5]), w[6] == "1")
        elseif w[5] then res = I:add_weight_constraint(l1(w[2]), wl, num(w[4]), num(w[5]))
        else res = I:add_weight_constraint(l1(w[2]), wl, num(w[4])) end
      elseif k == "min" then if w[4] then I:add_minimize(l1(w[2]), num(w[3]), num(w[4])) else I:add_minimize(l1(w[2]), num(w[3])) end
      elseif k == "prop" then res = I:propagate()
      elseif k == "cmode" then
        I.check_mode = modes[w[2]]
        out("m" .. mode(I.check_mode))
      else error("action " .. k) end
      out("i" .. act .. (k == "lit" and "=" .. d(V[w[2]]) or "") .. (res and "" or "=0") .. "|" .. view(a))
      if res == false then break end
    end
  end
  local function cond(a, f) for _, l in ipairs(lits(f[2])) do if not a:is_true(l) then return false end end return true end
  local rs = map(split(rules, ";"), function(x) return split(x, ":") end)
  local function hit(ev, a, i, f)
    if f[1]:sub(1, 1) ~= ev or not cond(a, f) then return false end
    if #f[1] > 1 and (fired[i] or 0) >= num(f[1]:sub(2)) then return false end
    fired[i] = (fired[i] or 0) + 1
    return true
  end
  local function act(ev, T)
    local a = T.assignment
    for i, f in ipairs(rs) do
      if hit(ev, a, i, f) then
        local w = split(f[3], " ")
        local k = w[1]
        local res, x = true, ""
        if k == "clause" or k == "nogood" then
          local t = {lits(w[2])}
          if w[3] then t.tag = w[3]:find("t") ~= nil t.lock = w[3]:find("l") ~= nil end
          if k == "clause" then res = T:add_clause(t) else res = T:add_nogood(t) end
        elseif k == "lit" then V[w[2]] = T:add_literal() x = "=" .. d(V[w[2]])
        elseif k == "watch" then T:add_watch(l1(w[2]))
        elseif k == "unwatch" then T:remove_watch(l1(w[2]))
        elseif k == "has" then x = "=" .. b(T:has_watch(l1(w[2])))
        elseif k == "prop" then res = T:propagate()
        else error("action " .. k) end
        out("r" .. d(i - 1) .. x .. (res and "" or "=0") .. "|" .. view(a))
        if res == false then break end
      end
    end
  end
  local function st(x, id) if type(x) ~= "table" or x.id ~= id then out("!state") end return d(id - 1) end
  local function nums(c) local r = "" for _, x in ipairs(c) do r = r .. " " .. d(x) end return r end
  if flags:find("p") then function P:propagate(T, c, s) out("P" .. st(s, T.thread_id) .. nums(c) .. "|" .. view(T.assignment)) act("p", T) end end
  if flags:find("u") then function P:undo(id, a, c, s) out("U" .. st(s, id) .. nums(c) .. "|" .. view(a)) end end
  if flags:find("c") then function P:check(T, s) out("C" .. st(s, T.thread_id) .. "|" .. view(T.assignment)) act("c", T) end end
  if flags:find("d") then
    function P:decide(id, a, fb, s)
      local r = fb
      for i, f in ipairs(rs) do
        if hit("d", a, i, f) then
          local w = split(f[3], " ")
          if w[1] == "none" then r = 0 break end
          if w[1] == "fb" then break end
          local done
          for _, l in ipairs(lits(w[2])) do if a:value(l) == nil then r = l done = true break end end
          if done then break end
        end
      end
      out("D" .. st(s, id) .. " " .. d(fb) .. " " .. d(r) .. "|" .. view(a))
      return r
    end
  end
  S.ctl:register_propagator(P)
end
function C.proplog() local r = table.concat(S.plog, "\1") for i = #S.plog, 1, -1 do S.plog[i] = nil end return r end
local okc, vpc = pcall(require, "vpchoice")
function C.choices(p) if not vpc.set(p or "") then error("no choices") end end
function C.path() return vpc.path() end
function C.bound(t, n) vpc.bound(t, math.tointeger(tonumber(n))) end
io.stdout:setvbuf("no")
for line in io.lines() do
  local c = {}
  for x in (line .. "\t"):gmatch("(.-)\t") do c[#c + 1] = (x:gsub("\2", "\n")) end
  local k = table.remove(c, 1)
  local ok, r = pcall(function() if not C[k] then error("unsupported " .. k) end return C[k](table.unpack(c)) end)
  if not ok then r = "E:Lua:" .. tostring(r) elseif r == nil then r = "ok" end
  io.write((r:gsub("\n", "\2")), "\n")
end
