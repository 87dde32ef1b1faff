-- assigns every value to every property, from a start state made by a history of assignments
-- arg: shard, shards, history depth, only
local shard, nshards, depth, only = tonumber(arg[1]), tonumber(arg[2]), tonumber(arg[3]), arg[4]
if only == "" then only = nil end
local evals, nontrivial, bad, saves = 0, 0, 0, 0
local function q(s) return (tostring(s):gsub("[%c\128-\255\\\t]", function(c) return string.format("\\%03d", c:byte()) end)):sub(1, 300) end
local function violation(key, case, detail)
    bad = bad + 1
    if bad <= 300 then io.write("V\t", key, "\t", q(case), "\t", q(detail), "\n") end
end

-------------------------------------------------------------------- the objects
local b, c, gone, o, p1, p2
local function file(name, text) local f = assert(io.open(name, "w")); f:write(text); f:close() end
file("p1", "1 0 0\n0 -1 1\n-1 0 1\n0 1 1\n")
file("p2", "1 0 1\n0 -1 1\n-1 0 1\n0 1 0\n")
local function reset()
    S.body_list:clear(); S.vort_list:clear(); S.sink_list:clear()
    S.caption = "first"; S.re = 100; S.finish = 3; S.inf_g = 0.25; S.inf_vx = "1+t"; S.inf_vy = "sin(t)"; S.gravity = {0.5, -9}
    S.time = "1/3"; S.dt = "1/20"; S.dt_save = "3/20"; S.dt_streak = "1/7"; S.dt_profile = "2/7"
    b = gen_cylinder{R = 1, N = 6}; b.label = "b"
    c = gen_plate{R1 = 0.2, R2 = 0.1, L = 1, N = 20}; c.label = "c"; c.holder_pos = {3, 4, 0.5}; c.density = 2; c.spring_const = {1, 2, 3}
    gone = gen_cylinder{R = 0.5, N = 5}; gone.label = "gone"
    S.body_list:insert(c); S.body_list:insert(gone); S.body_list:erase(gone); S.body_list:insert(b)
    c.root = b
    p1 = load_body("p1"); p1.label = "p1"; p1:move_r{-4, 0}; p2 = load_body("p2"); p2.label = "p2"; p2:move_r{-7, 0}
    S.body_list:insert(p1); S.body_list:insert(p2)
    S.vort_list:append({1, 2, 3}, {4, 5, 6}); o = S.vort_list[2]
    S.sink_list:append({-1, -2, -3})
end

local function num(x) return type(x) == "number" and (x ~= x and "nan" or string.format("%.17g", x)) or type(x) end
-- what a vector is, and that everything that shows it says so
local unlike
local deep = true
local function six(x) return x ~= x and "n?a?n" or string.format("%.14g", x) end
local function shows(what, text, ...)
    local want = {}
    for i, x in ipairs{...} do want[i] = six(x) end
    want = what .. "(" .. table.concat(want, ",") .. ")"
    if text:gsub("%-?nan", "n?a?n") ~= want then unlike = text .. " shows " .. want end
end
local function vec(v)
    local x, y = v.x, v.y
    if not deep then return num(x) .. "," .. num(y) end
    local t = v:totable()
    if #t ~= 2 or num(t[1]) ~= num(x) or num(t[2]) ~= num(y) then unlike = "table of " .. tostring(v) end
    local r2 = x * x + y * y
    if num(v:abs2()) ~= num(r2) and math.abs(v:abs2() - r2) > 1e-14 * r2 then unlike = "abs2 of " .. tostring(v) end
    local r = math.sqrt(r2)
    if num(v:abs()) ~= num(r) and math.abs(v:abs() - r) > 1e-14 * r then unlike = "abs of " .. tostring(v) end
    shows("TVec", tostring(v), x, y); shows("TVec", v:tostring(), x, y)
    return num(x) .. "," .. num(y)
end
local function vec3(v)
    if not deep then return vec(v.r) .. "," .. num(v.o) end
    local t = v:totable()
    if #t ~= 3 or num(t[1]) ~= num(v.r.x) or num(t[2]) ~= num(v.r.y) or num(t[3]) ~= num(v.o) then unlike = "table of " .. tostring(v) end
    shows("TVec3D", tostring(v), v.r.x, v.r.y, v.o); shows("TVec3D", v:tostring(), v.r.x, v.r.y, v.o)
    return vec(v.r) .. "," .. num(v.o)
end
local scal = {"re", "finish", "inf_g", "time", "dt", "dt_save", "dt_streak", "dt_profile"}
local b3 = {"holder_pos", "delta_pos", "speed", "collision_min", "collision_max", "spring_const", "spring_damping"}
local bev = {"holder_vx", "holder_vy", "holder_vo", "holder_mo"}
local function dump()
    local t = {}
    t["S.caption"] = S.caption
    for _, n in ipairs(scal) do t["S." .. n] = num(S[n]) end
    for _, n in ipairs{"inf_vx", "inf_vy"} do t["S." .. n] = tostring(S[n]) end
    t["S.gravity"] = vec(S.gravity)
    for _, n in ipairs{"vort_list", "sink_list", "streak_source_list", "streak_domain_list"} do
        for i, e in ipairs(S[n]) do t[n .. i .. ".r"] = vec(e.r); t[n .. i .. ".g"] = num(e.g); t[n .. i .. ".v"] = vec(e.v) end
        t["#" .. n] = #S[n]
    end
    t.bodies = #S.body_list
    for name, x in pairs{b = b, c = c, gone = gone, p1 = p1, p2 = p2} do
        for i, y in ipairs(S.body_list) do if x == y then t[name .. " place"] = i end end
        for _, n in ipairs(b3) do t[name .. "." .. n] = vec3(x[n]) end
        for _, n in ipairs(bev) do t[name .. "." .. n] = tostring(x[n]) end
        t[name .. ".label"] = x.label; t[name .. ".density"] = num(x.density); t[name .. ".bounce"] = num(x.bounce)
        t[name .. ".special_segment"] = num(x.special_segment); t[name .. ".slip"] = tostring(x.slip)
        t[name .. ".root"] = x.root == nil and "nil" or x.root == b and "b" or x.root == c and "c" or x.root == gone and "gone" or "?"
        t[name .. "#"] = #x
        local s = {}
        for i, p in ipairs(x:totable()) do s[i] = vec(p) end
        t[name .. " corners"] = table.concat(s, ";")
    end
    return t
end
local function differences(a, d)
    local r = {}
    for k, v in pairs(a) do if d[k] ~= v then r[#r + 1] = k end end
    for k, v in pairs(d) do if a[k] == nil then r[#r + 1] = k end end
    return r
end

-------------------------------------------------------------------- the properties: name, type, set, get, what may change
local props = {}
local function prop(name, kind, set, get, ...)
    local may = {}
    for _, k in ipairs{...} do may[k] = true end
    props[#props + 1] = {name = name, kind = kind, set = set, get = get, may = may}
end
prop("S.caption", "string", function(v) S.caption = v end, function() return S.caption end, "S.caption")
for _, n in ipairs{"re", "finish", "inf_g"} do prop("S." .. n, "number", function(v) S[n] = v end, function() return S[n] end, "S." .. n) end
for _, n in ipairs{"time", "dt", "dt_save", "dt_streak", "dt_profile"} do prop("S." .. n, "time", function(v) S[n] = v end, function() return S[n] end, "S." .. n) end
for _, n in ipairs{"inf_vx", "inf_vy"} do prop("S." .. n, "expr", function(v) S[n] = v end, function() return S[n] end, "S." .. n) end
prop("S.gravity", "vec", function(v) S.gravity = v end, function() return S.gravity end, "S.gravity")
prop("S.gravity.x", "number", function(v) S.gravity.x = v end, function() return S.gravity.x end, "S.gravity")
prop("S.gravity.y", "number", function(v) S.gravity.y = v end, function() return S.gravity.y end, "S.gravity")
for _, n in ipairs{"body_list", "vort_list", "sink_list", "streak_source_list", "streak_domain_list", "load", "save", "XStreamfunction", "nonsense", "", "Re", "re ", "time.value"} do
    prop("S." .. n, "none", function(v) S[n] = v end)
end
for i, k in ipairs{1, true, function() end} do prop("S[" .. type(k) .. "]", "none", function(v) S[k] = v end) end
for _, w in ipairs{"b", "gone"} do
    local function x() return w == "b" and b or gone end
    prop(w .. ".label", "string", function(v) x().label = v end, function() return x().label end, w .. ".label")
    for _, n in ipairs{"density", "bounce"} do prop(w .. "." .. n, "number", function(v) x()[n] = v end, function() return x()[n] end, w .. "." .. n) end
    for _, n in ipairs(b3) do prop(w .. "." .. n, "vec3", function(v) x()[n] = v end, function() return x()[n] end, w .. "." .. n) end
    for _, n in ipairs(bev) do prop(w .. "." .. n, "expr", function(v) x()[n] = v end, function() return x()[n] end, w .. "." .. n) end
    prop(w .. ".special_segment", "int", function(v) x().special_segment = v end, function() return x().special_segment end, w .. ".special_segment")
    prop(w .. ".slip", "bool", function(v) x().slip = v end, function() return x().slip end, w .. ".slip")
    prop(w .. ".root", "body", function(v) x().root = v end, function() return x().root end, w .. ".root")
end
for _, w in ipairs{{"c", function() return c end}, {"p1", function() return p1 end}, {"p2", function() return p2 end}} do
    local name, x = w[1], w[2]
    prop(name .. ".slip", "bool", function(v) x().slip = v end, function() return x().slip end, name .. ".slip")
end
for _, n in ipairs{"holder_pos", "collision_max"} do
    prop("b." .. n .. ".r", "vec", function(v) b[n].r = v end, function() return b[n].r end, "b." .. n)
    prop("b." .. n .. ".r.x", "number", function(v) b[n].r.x = v end, function() return b[n].r.x end, "b." .. n)
    prop("b." .. n .. ".r.y", "number", function(v) b[n].r.y = v end, function() return b[n].r.y end, "b." .. n)
    prop("b." .. n .. ".o", "number", function(v) b[n].o = v end, function() return b[n].o end, "b." .. n)
    prop("b." .. n .. ".d", "degree", function(v) b[n].d = v end, function() return b[n].d end, "b." .. n)
end
for _, n in ipairs{"move_r", "get_slen", "totable", "axis", "nonsense", "Label", "1", ""} do prop("b." .. n, "none", function(v) b[n] = v end) end
prop("b[1]", "none", function(v) b[1] = v end)
for _, n in ipairs{"z", "abs", "r", "x "} do prop("vec." .. n, "none", function(v) S.gravity[n] = v end) end
for _, n in ipairs{"x", "totable", "R", ""} do prop("vec3." .. n, "none", function(v) b.speed[n] = v end) end
prop("o.r", "vec", function(v) o.r = v end, function() return o.r end, "vort_list2.r")
prop("o.v", "vec", function(v) o.v = v end, function() return o.v end, "vort_list2.v")
prop("o.g", "number", function(v) o.g = v end, function() return o.g end, "vort_list2.g")
prop("o.r.x", "number", function(v) o.r.x = v end, function() return o.r.x end, "vort_list2.r")
prop("o.v.y", "number", function(v) o.v.y = v end, function() return o.v.y end, "vort_list2.v")
for _, n in ipairs{"x", "tostring", "_1_eps", ""} do prop("o." .. n, "none", function(v) o[n] = v end) end
prop("expr.x", "none", function(v) S.inf_vx.x = v end)
prop("expr.eval", "none", function(v) b.holder_vx.eval = v end)

-------------------------------------------------------------------- the values: name, value, {kind = what is stored}
-- an entry for a kind: function giving the expected text; "may" lists kinds where either is right
local values = {}
local inf, nan = inf, nan
local function val(name, v, ok, may) values[#values + 1] = {name = name, v = v, ok = ok or {}, may = may or {}} end
local function lit(x) return function() return x end end
local isint = function(x) return x == math.floor(x) and x >= -2 ^ 31 and x < 2 ^ 31 end
for _, x in ipairs{0, 1, -1, 1.5, -0.29, 0.001, 7, 90, 100, 361, 720.5, 1081, -2160, 65536, 123456.75, 1e9+1, 1e12, 1e30, 1e-9, 1e300, -1e300, 2 ^ 31 - 1, 2 ^ 31, -2 ^ 31, -2 ^ 31 - 1, 2 ^ 32, 2 ^ 32 + 1, 2 ^ 53, 2 ^ 63, 1e-300, 1 / 3, math.pi, inf, -inf, nan, 5e-324} do
    local ok = {number = num(x), degree = num(x)}
    if isint(x) then ok.int = num(x) end
    -- times: decimals are exact; others to the precision of the fraction
    if x == x and math.abs(x) < 2 ^ 31 then ok.time = x end
    val("number " .. num(x), lit(x), ok, {})
end
val("nil", lit(nil), {body = "nil"})
val("true", lit(true), {bool = "true"})
val("false", lit(false), {bool = "false"})
local function str(s, more, may) more = more or {}; more.string = s; val("string '" .. s:sub(1, 40) .. "'", lit(s), more, may) end
str("", {}, {expr = 1}); str("abc"); str("nil"); str("true", {}, {expr = 1}); str("a b\n%s %d"); str("t+"); str("1)"); str("x y"); str(string.rep("long ", 1000)); str("\208\175")
str("1", {expr = "1"}, {number = 1, int = 1, degree = 1}); str(" 0x10 ", {}, {number = 16, int = 16, degree = 16, expr = 1}); str("1e400", {}, {number = inf, degree = inf, expr = 1, int = 1}); str("1.5", {expr = "1.5"}, {number = 1.5, degree = 1.5})
str("sin(t)", {expr = "sin(t)"}); str("t^2-1/3", {expr = "t^2-1/3"}, {time = 1})
str("1/3", {expr = "1/3", time = 1 / 3}); str("-3/7", {expr = "-3/7", time = -3 / 7}); str("0/1", {expr = "0/1", time = 0}); str("2147483647/1", {expr = "2147483647/1", time = 2147483647}); str("1/4294967295", {expr = "1/4294967295", time = 1 / 4294967295})
str("-2147483648/1", {expr = "-2147483648/1", time = -2147483648})
-- a numerator or denominator beyond its type wraps around, as the project's own test requires
local wraps = {time = 1}
str("1/0", {expr = "1/0"}); str("1/-2", {expr = "1/-2"}, wraps); str("1/2x"); str("1/2/3", {expr = "1/2/3"}); str("/2"); str("1/")
str("2147483648/1", {expr = "2147483648/1"}, wraps); str("99999999999/1", {expr = "99999999999/1"}, wraps); str("1/4294967296", {expr = "1/4294967296"}, wraps); str("1/99999999999999999999", {expr = "1/99999999999999999999"}, wraps); str("4294967299/3", {expr = "4294967299/3"}, wraps)
str(" 1/2", {expr = " 1/2"}, {time = 0.5}); str("1/2 ", {expr = "1/2 "}, {time = 0.5}); str("1 / 2", {expr = "1 / 2"}, {time = 0.5}); str("1/ 2", {expr = "1/ 2"}, {time = 0.5}); str("+1/2", {}, {time = 0.5})
-- zero bytes: stored whole or refused
val("string 'a\\0b'", lit("a\0b"), {}, {string = "a\0b"})
val("string '1\\0+'", lit("1\0+"), {}, {string = "1\0+"})
val("string '1/2\\0x'", lit("1/2\0x"), {}, {string = "1/2\0x"})
val("string '\\0'", lit("\0"), {}, {string = "\0"})
local function tab(name, t, ok, may) val("table {" .. name .. "}", function() return t end, ok, may) end
tab("", {}); tab("1", {1}); tab("{1,2}", {{1, 2}}); tab("x=1,y=2", {x = 1, y = 2}); tab("nil,2", {nil, 2}, {}, {})
tab("1,2", {1, 2}, {vec = "1,2", time = 0.5}); tab("1.5,-2", {1.5, -2}, {vec = "1.5,-2"}); tab("1,1.5", {1, 1.5}, {vec = "1,1.5"}); tab("nan,inf", {nan, inf}, {vec = "nan,inf"}); tab("1,nan", {1, nan}, {vec = "1,nan"})
tab("-1,3", {-1, 3}, {vec = "-1,3", time = -1 / 3}); tab("1,0", {1, 0}, {vec = "1,0"}); tab("1,-1", {1, -1}, {vec = "1,-1"}); tab("2^31,1", {2 ^ 31, 1}, {vec = num(2 ^ 31) .. ",1"}); tab("2^32+1,1", {2 ^ 32 + 1, 1}, {vec = num(2 ^ 32 + 1) .. ",1"})
tab("1,2^32", {1, 2 ^ 32}, {vec = "1," .. num(2 ^ 32)}); tab("1,2^33+2", {1, 2 ^ 33 + 2}, {vec = "1," .. num(2 ^ 33 + 2)}); tab("5,4294967295", {5, 4294967295}, {vec = "5,4294967295", time = 5 / 4294967295}); tab("1e300,1", {1e300, 1}, {vec = num(1e300) .. ",1"}); tab("-2^31,7", {-2 ^ 31, 7}, {vec = num(-2 ^ 31) .. ",7", time = -2 ^ 31 / 7})
tab("1,'x'", {1, "x"}); tab("true,1", {true, 1}); tab("'1','2'", {"1", "2"}, {}, {vec = "1,2", time = 0.5}); tab("1,{}", {1, {}})
tab("1,2,3", {1, 2, 3}, {vec3 = "1,2,3"}); tab("inf,nan,-0.5", {inf, nan, -0.5}, {vec3 = "inf,nan,-0.5"}); tab("1,2,'x'", {1, 2, "x"}); tab("1,'x',3", {1, "x", 3}); tab("{},2,3", {{}, 2, 3}); tab("'1',2,3", {"1", 2, 3}, {}, {vec3 = "1,2,3"})
tab("1,2,3,4", {1, 2, 3, 4}); tab("1,2,3,x=1", {1, 2, 3, x = 1}, {}, {vec3 = "1,2,3"}); tab("1,2,x=5", {1, 2, x = 5}, {}, {vec = "1,2", time = 0.5})
tab("1,2 with metatable", setmetatable({1, 2}, {__index = function() return 9 end, __len = function() return 3 end}), {}, {vec = "1,2", time = 0.5})
tab("proxy", setmetatable({}, {__index = function(_, i) return i end, __len = function() return 2 end}), {}, {vec = "1,2", time = 0.5})
val("function", lit(print)); val("coroutine", function() return coroutine.create(print) end); val("io.stdout", lit(io.stdout))
val("S", function() return S end)
val("body b", function() return b end, {body = "b"}); val("body c", function() return c end, {body = "c"}); val("body gone", function() return gone end, {body = "gone"})
val("vec S.gravity", function() return S.gravity end, {vec = function(a) return a["S.gravity"] end}); val("vec o.r", function() return o.r end, {vec = function(a) return a["vort_list2.r"] end}); val("vec c.holder_pos.r", function() return c.holder_pos.r end, {vec = "3,4"})
val("corner", function() return b:totable()[2] end, {vec = function() return vec(b:totable()[2]) end})
val("vec3 b.holder_pos", function() return b.holder_pos end, {vec3 = function(a) return a["b.holder_pos"] end}); val("vec3 c.holder_pos", function() return c.holder_pos end, {vec3 = "3,4,0.5"})
val("obj o", function() return o end); val("obj sink", function() return S.sink_list[1] end)
val("expr S.inf_vy", function() return S.inf_vy end, {expr = function(a) return a["S.inf_vy"] end}); val("expr c.holder_vo", function() return c.holder_vo end, {expr = function(a) return a["c.holder_vo"] end})
val("body_list", function() return S.body_list end); val("vort_list", function() return S.vort_list end)
val("vec of a removed element", function() S.streak_source_list:append({1, 2, 3}); local v = S.streak_source_list[1].r; S.streak_source_list:clear(); return v end, {}, {vec = "1,2"})
val("corner of a forgotten body", function()
    local v = gen_cylinder{R = 1, N = 4}:totable()[3]
    collectgarbage(); collectgarbage()
    local junk = {}
    for i = 1, 50 do junk[i] = gen_cylinder{R = 5, N = 4} end
    return v
end, {vec = function() return vec(gen_cylinder{R = 1, N = 4}:totable()[3]) end})
val("vec3 of a forgotten body", function() local v = gen_cylinder{R = 1, N = 4}.delta_pos; collectgarbage(); return v end, {vec3 = "0,0,0"})

local shown = {
    number = num, int = num, bool = tostring, string = function(x) return x end, expr = tostring, vec = vec, vec3 = vec3,
    body = function(x) return x == nil and "nil" or x == b and "b" or x == c and "c" or x == gone and "gone" or "?" end,
}

local function stored(p, v, exp, before, case)
    if type(exp) == "function" then exp = exp(before) end
    local got = p.get()
    if exp == 1 and p.kind ~= "number" and p.kind ~= "int" and p.kind ~= "degree" then return end -- not judged
    if p.kind == "time" then
        if type(got) ~= "number" or math.abs(got - exp) > math.max(1e-9, 2.5e-9 * math.abs(exp)) or type(v) ~= "number" and got ~= exp then
            return violation("stored", case, "reads back " .. num(got) .. " instead of " .. num(exp))
        end
    elseif p.kind == "degree" then
        local e = tonumber(exp)
        if type(exp) == "number" then exp = num(exp) end
        if exp ~= num(got) and not (e and math.abs(got - e) <= 1e-12 * math.abs(e)) and not (e and math.abs(e) < 1e-320) then
            return violation("stored", case, "reads back " .. num(got) .. " instead of " .. exp)
        end
    else
        if type(exp) == "number" then exp = num(exp) end
        local g = shown[p.kind](got)
        if g ~= exp then return violation("stored", case, "reads back " .. tostring(g) .. " instead of " .. tostring(exp)) end
    end
end

local function assign(p, v, save)
    local case = p.name .. " = " .. v.name
    local value = v.v()
    deep = false
    local before = dump()
    deep = true
    local name
    if save then
        saves = saves + 1
        name = string.format("%d_%d", shard, saves)
    end
    local ok, err = pcall(p.set, value)
    local after = dump()
    if unlike then violation("shown", case, unlike); unlike = nil end
    evals = evals + 1
    if ok then
        nontrivial = nontrivial + 1
        local exp = v.ok[p.kind]
        if exp == nil then exp = v.may[p.kind] end
        if exp == nil then
            violation("accepted", case, "no error")
        else
            stored(p, value, exp, before, case)
        end
    else
        if v.ok[p.kind] ~= nil and not (v.ok[p.kind] == "nil" and p.kind ~= "body") then violation("refused", case, err) end
        if type(err) ~= "string" or #err == 0 then violation("message", case, type(err)) end
    end
    for _, k in ipairs(differences(before, after)) do
        if not ok or not p.may[k] then violation("affected", case, k .. ": " .. tostring(before[k]) .. " became " .. tostring(after[k])) end
    end
    if name and pcall(function() S:save(name .. ".h5") end) then
        io.write("P\t", name, "\t", ok and p.name or "", "\t", q(case), "\n")
    end
end

local total = 0
reset()
S:save("start.h5")
if shard == 0 then
    local d = dump()
    for k, v in pairs{["p1.slip"] = "nil", ["p2.slip"] = "nil", ["b.slip"] = "false", ["c.slip"] = "false", ["p1#"] = 4, ["b#"] = 6, bodies = 4, ["c place"] = 1, ["b place"] = 2, ["p2 place"] = 4, ["c.root"] = "b", ["b.root"] = "nil",
            ["c.holder_pos"] = "3,4,0.5", ["c.spring_const"] = "1,2,3", ["c.density"] = "2", ["c.label"] = "c", ["S.caption"] = "first", ["S.re"] = "100", ["S.inf_vy"] = "sin(t)", ["vort_list2.r"] = "4,5", ["vort_list2.g"] = "6", ["sink_list1.g"] = "-3",
            ["S.dt_streak"] = num(1 / 7), ["p1.holder_pos"] = "-4,0,0"} do
        if d[k] ~= v then violation("prepared", k, "reads " .. tostring(d[k]) .. " instead of " .. v) end
    end
end
for pi, p in ipairs(props) do
    for vi, v in ipairs(values) do
        total = total + 1
        local case = p.name .. " = " .. v.name
        if only and q(case) == only or not only and total % nshards == shard then
            local f = io.open("cur", "w"); f:write(q(case)); f:close()
            reset()
            assign(p, v, true)
            -- and after another assignment of the same property
            if depth > 1 then
                for wi = 1 + (pi + vi) % 90, #values, depth > 2 and 4 or 90 do
                    reset()
                    pcall(p.set, values[wi].v())
                    assign(p, v, false)
                end
            end
        end
    end
end
io.write("E\t", evals, "\t", nontrivial, "\t", #props, "\t", #values, "\n")
