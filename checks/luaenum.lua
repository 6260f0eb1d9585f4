-- Enumerations of the Lua API for D10.
local c = require("clingo")
local T = {
  MessageCode = {"OperationUndefined", "RuntimeError", "AtomUndefined", "FileIncluded", "VariableUnbounded", "GlobalVariable", "Other"},
  ExternalType = {"Free", "True", "False", "Release"},
  SymbolType = {"Infimum", "Number", "String", "Function", "Supremum"},
  TheoryTermType = {"Tuple", "List", "Set", "Function", "Number", "Symbol"},
  HeuristicType = {"Level", "Sign", "Factor", "Init", "True", "False"},
  PropagatorCheckMode = {"Off", "Total", "Fixpoint", "Both"},
  ModelType = {"StableModel", "BraveConsequences", "CautiousConsequences"},
}
local seen, n, trans = {}, 0, 0
local function fail(k, d) if not seen[k] then seen[k] = true; print("VIOL lua: " .. k .. "|" .. d) end end
local function try(f) local ok, r = pcall(f); if ok then return r end; return nil end
local all = {}
for name, want in pairs(T) do
  local e = c[name]
  if type(e) ~= "table" then fail(name .. ": missing", type(e)) else
    local cnt = 0
    for k, _ in pairs(e) do cnt = cnt + 1; local f; for _, w in ipairs(want) do f = f or w == k end; if not f then fail(name .. ": members", "unexpected " .. tostring(k)) end end
    if cnt ~= #want then fail(name .. ": members", cnt .. " members") end
    for i, w in ipairs(want) do
      trans = trans + 1
      if e[w] == nil then fail(name .. ": members", "missing " .. w)
      else
        local t = try(function() return tostring(e[w]) end)
        if t ~= w then fail(name .. ": text", w .. " prints as " .. tostring(t)) end
        all[#all + 1] = {name, i, e[w], w}
      end
    end
  end
end
for _, a in ipairs(all) do
  for _, b in ipairs(all) do
    n = n + 1
    local x, y, d = a[3], b[3], a[1] .. "." .. a[4] .. " " .. b[1] .. "." .. b[4]
    if a[1] == b[1] then
      local function cmp(op, f, w) local r = try(f); if r ~= w then fail(a[1] .. ": " .. op, d .. " gives " .. tostring(r)) end end
      cmp("==", function() return x == y end, a[2] == b[2])
      cmp("~=", function() return x ~= y end, a[2] ~= b[2])
      cmp("<", function() return x < y end, a[2] < b[2])
      cmp("<=", function() return x <= y end, a[2] <= b[2])
      cmp(">", function() return x > y end, a[2] > b[2])
      cmp(">=", function() return x >= y end, a[2] >= b[2])
      trans = trans + 6
    else
      trans = trans + 1
      if pcall(function() return x < y end) then fail(a[1] .. ": order across types", d) end
    end
  end
end
print("COV execs=" .. n .. " transitions=" .. trans .. " nontrivial=" .. #all .. " nstates=" .. n)
print("DONE")
