local clingo = require("clingo")
local function unhex(h) if h == "-" then return "" end return (h:gsub("..", function(x) return string.char(tonumber(x, 16)) end)) end
local function hex(s) if s == "" then return "-" end return (s:gsub(".", function(c) return string.format("%02x", string.byte(c)) end)) end
local syms, pn, sizes = {}, 0, {}
local n = 0
for line in io.lines(arg[1]) do
  local w = {}
  for x in line:gmatch("%S+") do w[#w + 1] = x end
  local k = w[1]
  if k == "parse" then
    local ok, r = pcall(function() return clingo.parse_term(unhex(w[2])) end)
    print("parse " .. w[2] .. " " .. (ok and ("ok " .. hex(tostring(r))) or ("err " .. hex(tostring(r)))))
  elseif k == "call" then
    local ok, r = pcall(load("local c = ... return c." .. unhex(w[2])), clingo)
    print("call " .. (ok and "ok " or "fail ") .. hex(tostring(r)))
  elseif k == "rt" then
    local x = clingo.String(unhex(w[2]))
    local ok, r = pcall(function() local y = clingo.parse_term(tostring(x)); return y == x and y.string == unhex(w[2]) and "1" or "0" end)
    print("rt " .. w[2] .. " " .. hex(tostring(x)) .. " " .. tostring(r))
  else
    local s
    if k == "num" then s = clingo.Number(tonumber(w[2]))
    elseif k == "str" then s = clingo.String(unhex(w[2]))
    elseif k == "inf" then s = clingo.Infimum
    elseif k == "sup" then s = clingo.Supremum
    elseif k == "fun" then
      local a = {}
      for i = 1, tonumber(w[4]) do a[i] = syms[tonumber(w[4 + i])] end
      s = clingo.Function(unhex(w[2]), a, w[3] == "1")
      -- the same sequence stored out of order
      local rev = {}
      for i = #a, 1, -1 do rev[#rev + 1] = "[" .. i .. "]=a[" .. i .. "]" end
      rev = load("local a = ... return {" .. table.concat(rev, ",") .. "}")(a)
      local function same(x) if not (x == s) or tostring(x) ~= tostring(s) then print("BAD ctor " .. line) end end
      if #a == 0 and w[2] ~= "-" then same(clingo.Function(unhex(w[2]), nil, w[3] == "1")) end
      same(clingo.Function(unhex(w[2]), rev, w[3] == "1"))
      if w[3] == "1" then same(clingo.Function(unhex(w[2]), a)) end
      if w[2] == "-" then same(clingo.Tuple(a)) end
      -- implicit conversion of Lua numbers and strings
      local b, conv = {}, false
      for i = 1, #a do
        if a[i].number ~= nil then b[i] = a[i].number; conv = true
        elseif a[i].string ~= nil then b[i] = a[i].string; conv = true
        else b[i] = a[i] end
      end
      if conv then same(clingo.Function(unhex(w[2]), b, w[3] == "1")) end
    end
    syms[n] = s
    n = n + 1
  end
end
print("version " .. clingo.__version__)
local function o(x, f) if x == nil then return "!" end return f and f(x) or tostring(x) end
local function b(x) return x and "1" or "0" end
for i = 0, n - 1 do
  local s = syms[i]
  local args = "!"
  if s.arguments ~= nil then
    args = "("
    for _, a in ipairs(s.arguments) do args = args .. hex(tostring(a)) .. "," end
    args = args .. ")" .. #s.arguments
  end
  local num = s.number
  if num ~= nil then num = string.format("%d", num) end
  print("sym " .. i .. " " .. tostring(s.type) .. " " .. hex(tostring(s)) .. " " .. o(num) .. " " .. o(s.string, hex) .. " " .. o(s.name, hex) .. " " .. o(s.positive, b) .. " " .. o(s.negative, b) .. " " .. args)
end
for i = 0, n - 1 do
  local t = {}
  local x = syms[i]
  for j = 0, n - 1 do
    local y = syms[j]
    local v = 0
    if x == y then v = v + 1 end
    if x ~= y then v = v + 2 end
    if x < y then v = v + 4 end
    if x <= y then v = v + 8 end
    if x > y then v = v + 16 end
    if x >= y then v = v + 32 end
    t[#t + 1] = string.char(33 + v)
  end
  print("row " .. i .. " " .. table.concat(t))
end
print("END")
