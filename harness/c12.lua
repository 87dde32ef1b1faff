-- explores all operation sequences on the script lists against plain tables
-- arg: what ("obj:<list>" or "body"), shard, shards, depth, only (a sequence) or ""
local what, shard, nshards, depth, only, core = arg[1], tonumber(arg[2]), tonumber(arg[3]), tonumber(arg[4]), arg[5], arg[6] == "core"
if only == "" then only = nil end
local evals, states, nontrivial, bad = 0, 0, 0, 0
local function violation(key, seq, detail)
    bad = bad + 1
    if bad <= 200 then
        io.write("V\t", key, "\t", seq, "\t", (tostring(detail):gsub("[\t\n]", " ")), "\n")
    end
end
local function write(name, text)
    local f = assert(io.open(name, "wb")); f:write(text); f:close()
end
-- three doubles by hand: 1.5 -2 0.25 | 3 4 5
local function le(...)
    local t = {}
    for _, v in ipairs{...} do
        local s = v < 0 and 1 or 0; v = math.abs(v)
        local m, e = math.frexp(v)
        local bits
        if v == 0 then bits = {0, 0, 0, 0, 0, 0, 0, 0} else
            m = (m * 2 - 1) * 2 ^ 52; e = e - 1 + 1023
            bits = {}
            for i = 1, 6 do bits[i] = m % 256; m = math.floor(m / 256) end
            bits[7] = (e % 16) * 16 + m % 16
            bits[8] = math.floor(e / 16) + s * 128
        end
        for i = 1, 8 do t[#t + 1] = string.char(bits[i]) end
    end
    return table.concat(t)
end
write("ok.txt", "1 2 3\n-4.5e0\t0.25  6 \n7 8 9")
write("empty.txt", "")
write("garbage.txt", "1 2 3\nx y z\n4 5 6\n")
write("short.txt", "1 2 3\n4 5\n")
write("two.bin", le(1.5, -2, 0.25, 3, 4, 5))
write("cut.bin", le(1.5, -2, 0.25, 3, 4))
write("empty.bin", "")
os.execute("mkdir -p dir")

local function clone(M) local r = {} for i, v in ipairs(M) do r[i] = v end return r end

-------------------------------------------------------------------- elements
local function is(x, y) return x == y and 1 / x == 1 / y end -- -0 is not 0
local function eq(o, m) return o ~= nil and m ~= nil and is(o.r.x, m[1]) and is(o.r.y, m[2]) and is(o.g, m[3]) end
local L, L2
local function same(M)
    if #L ~= #M then return "length " .. #L .. " instead of " .. #M end
    for i = 1, #M do if not eq(L[i], M[i]) then return "element " .. i .. " is " .. tostring(L[i]) .. " instead of " .. table.concat(M[i], ",") end end
    if L[0] ~= nil or L[-1] ~= nil or L[#M + 1] ~= nil or L[2 ^ 31] ~= nil then return "an element outside" end
    local n = 0
    for i, o in ipairs(L) do n = n + 1; if i ~= n or not eq(o, M[i]) then return "iteration " .. n end end
    if n ~= #M then return "iterated over " .. n .. " of " .. #M end
    local t = L:totable()
    if #t ~= #M then return "table of " .. #t end
    for i = 1, #M do if not eq(t[i], M[i]) then return "table element " .. i end end
    -- the iterator asked for places of its own choice
    local it = ipairs(L)
    for _, i in ipairs{-1, -2 ^ 31, -7, #M, #M + 1, 2 ^ 31 - 1} do
        local ok, k = pcall(it, L, i)
        if ok and k ~= nil then return "the iterator goes from " .. i .. " to " .. tostring(k) end
    end
    if #M > 0 then
        local k, o = it(L, #M - 1)
        if k ~= #M or not eq(o, M[#M]) then return "the iterator comes to " .. tostring(k) end
    end
    if #L2 ~= 1 or not eq(L2[1], {9, 8, 7}) then return "another list changed" end
end
local held, heldv = nil, nil
local long = {}
for i = 1, 300 do long[i] = {i, -i / 8, i % 7 - 3} end
-- an operation: name, action, model: (new M) or false when it must fail
local function add(M, ...) local r = clone(M) for _, v in ipairs{...} do r[#r + 1] = v end return r end
local objops = {
    {"app1", function() L:append({1, 2, 3}) end, function(M) return add(M, {1, 2, 3}) end},
    {"app2", function() L:append({4, 5, 6}, {-1, 0.5, 1e-300}) end, function(M) return add(M, {4, 5, 6}, {-1, 0.5, 1e-300}) end},
    {"app0", function() L:append() end, function(M) return M end},
    {"append-nil", function() L:append(nil) end, function(M) return false end},
    {"append-bad", function() L:append({1, 2}) end, function(M) return false end},
    {"append-bad4", function() L:append({1, 2, 3, 4}) end, function(M) return false end},
    {"append-badtype", function() L:append({1, 2, {}}) end, function(M) return false end},
    {"append-good-bad", function() L:append({1, 2, 3}, 5) end, function(M) return false end},
    {"append-good-vec", function() L:append({1, 2, 3}, S.gravity) end, function(M) return false end},
    {"app-zero", function() L:append({0, -0.0, 0}, {-0.0, 0, -0.0}) end, function(M) return add(M, {0, -0.0, 0}, {-0.0, 0, -0.0}) end},
    {"app12", function() L:append(table.unpack(long, 1, 12)) end, function(M) return add(M, table.unpack(long, 1, 12)) end},
    {"append-bad33", function() local t = {table.unpack(long, 1, 40)}; t[33] = {1, 2}; L:append(table.unpack(t)) end, function(M) return false end},
    {"append-bad-last", function() local t = {table.unpack(long, 1, 13)}; t[14] = S; L:append(table.unpack(t)) end, function(M) return false end},
    {"app300", function() if #L < 300 then L:append(table.unpack(long)) end end, function(M) return #M < 300 and add(M, table.unpack(long)) or M end},
    {"append-first", function() L:append(L[1]) end, function(M) return #M > 0 and add(M, M[1]) end},
    {"append-own", function() L:append(L[1], L[#L], L2[1], L[1]) end, function(M) return #M > 0 and add(M, M[1], M[#M], {9, 8, 7}, M[1]) end},
    {"append-table", function() L:append(table.unpack(L:totable())) end, function(M) return add(M, table.unpack(M)) end},
    {"clear", function() L:clear() end, function(M) return {} end},
    {"load", function() L:load("ok.txt") end, function(M) return add(M, {1, 2, 3}, {-4.5, 0.25, 6}, {7, 8, 9}) end},
    {"load-empty", function() L:load("empty.txt") end, function(M) return M end},
    {"load-missing", function() L:load("none.txt") end, function(M) return false end},
    {"load-dir", function() L:load("dir") end, function(M) return false end},
    {"load-garbage", function() L:load("garbage.txt") end, function(M) return add(M, {1, 2, 3}) end},
    {"load-short", function() L:load("short.txt") end, function(M) return add(M, {1, 2, 3}) end},
    {"load-noarg", function() L:load() end, function(M) return false end},
    {"bin", function() L:load_bin("two.bin") end, function(M) return add(M, {1.5, -2, 0.25}, {3, 4, 5}) end},
    {"bin-missing", function() L:load_bin("none.bin") end, function(M) return false end},
    {"bin-cut", function() L:load_bin("cut.bin") end, function(M) return add(M, {1.5, -2, 0.25}) end},
    {"bin-dir", function() L:load_bin("dir") end, function(M) return false end},
    {"bin-empty", function() L:load_bin("empty.bin") end, function(M) return M end},
    {"assign", function() L[1] = {1, 2, 3} end, function(M) return false end},
    {"assign-name", function() L.append = 1 end, function(M) return false end},
    {"set-g", function() L[1].g = 7 end, function(M) if #M == 0 then return false end local r = clone(M); r[1] = {M[1][1], M[1][2], 7}; return r end},
    {"set-r", function() L[#L].r = {-3, 11} end, function(M) if #M == 0 then return false end local r = clone(M); r[#r] = {-3, 11, M[#M][3]}; return r end},
    {"set-bad", function() L[1].g = {} end, function(M) return false end},
    {"wrong-self", function() L.append(S.body_list, {1, 2, 3}) end, function(M) return false end},
    {"wrong-self2", function() L.clear(S) end, function(M) return false end},
    {"grow-in-loop", function() for i, o in ipairs(L) do if i >= 3 then break end L:append({o.r.x, o.r.y, i}) end end,
        function(M) local r = clone(M); local i = 1; while i < 3 and r[i] do r[#r + 1] = {r[i][1], r[i][2], i}; i = i + 1 end return r end},
    {"hold", function() held = L[1]; heldv = L[1].r end, function(M) return #M > 0 and M end},
}
-- a handle may outlive its element: then an error, else what it shows is the element at its place
local function useheld(M)
    if not held then return M end
    local n = clone(M)
    local ok, g = pcall(function() return held.g end)
    if ok and (#M == 0 or g ~= M[1][3]) then return nil, "the held element shows " .. tostring(g) end
    local okv, x = pcall(function() return heldv.x end)
    if okv and (#M == 0 or x ~= M[1][1]) then return nil, "the held vector shows " .. tostring(x) end
    if pcall(function() held.g = 5.5 end) then if #M == 0 then return nil, "assigned to nothing" end n[1] = {n[1][1], n[1][2], 5.5} end
    if pcall(function() heldv.y = -6.5 end) then if #M == 0 then return nil, "assigned to nothing" end n[1] = {n[1][1], -6.5, n[1][3]} end
    pcall(tostring, held); pcall(tostring, heldv)
    pcall(function() S.gravity = heldv end)
    return n
end
objops[#objops + 1] = {"use", nil, useheld}

-------------------------------------------------------------------- bodies
local B, names = nil, {"a", "b", "c", "twin"}
local bodies = {}
-- the twin is another body with the label and the shape of the first
local function label(n) return n == "twin" and "a" or n end
local function bsame(M)
    local l = S.body_list
    if #l ~= #M then return "length " .. #l .. " instead of " .. #M end
    for i = 1, #M do if l[i] == nil or l[i].label ~= label(M[i]) or (bodies[M[i]] and l[i] ~= bodies[M[i]]) then return "body " .. i .. " is " .. tostring(l[i] and l[i].label) .. " instead of " .. M[i] end end
    if l[0] ~= nil or l[-1] ~= nil or l[#M + 1] ~= nil then return "a body outside" end
    local n = 0
    for i, o in ipairs(l) do n = n + 1; if i ~= n or o.label ~= label(M[i]) or #o ~= 5 + (label(M[i]):byte() - 96) then return "iteration " .. n end end
    if n ~= #M then return "iterated over " .. n .. " of " .. #M end
    for i = 1, #M do for j = 1, #M do if (l[i] == l[j]) ~= (i == j) then return "bodies " .. i .. " and " .. j .. " equal: " .. tostring(l[i] == l[j]) end end end
    for k, x in pairs(bodies) do for i = 1, #M do if (x == l[i]) ~= (M[i] == k) then return "body " .. k .. " equal to body " .. i .. ": " .. tostring(x == l[i]) end end end
    local it = ipairs(l)
    for _, i in ipairs{-1, -2 ^ 31, -7, #M, #M + 1, 2 ^ 31 - 1} do
        local ok, k = pcall(it, l, i)
        if ok and k ~= nil then return "the iterator goes from " .. i .. " to " .. tostring(k) end
    end
end
local function index(M, x) for i, v in ipairs(M) do if v == x then return i end end end
local bodyops = {}
for _, n in ipairs(names) do
    bodyops[#bodyops + 1] = {"insert-" .. n, function() S.body_list:insert(bodies[n]) end, function(M) return bodies[n] and not index(M, n) and add(M, n) end}
    bodyops[#bodyops + 1] = {"erase-" .. n, function() S.body_list:erase(bodies[n]) end, function(M)
        local i = bodies[n] and index(M, n)
        if not i then return false end
        local r = clone(M); table.remove(r, i); return r end}
    if n ~= "c" and n ~= "twin" then
        bodyops[#bodyops + 1] = {"forget-" .. n, function() bodies[n] = nil; collectgarbage() end, function(M) return M end}
    end
end
local function wrong(name, f) bodyops[#bodyops + 1] = {name, f, function() return false end} end
bodyops[#bodyops + 1] = {"clear", function() S.body_list:clear() end, function(M) return {} end}
bodyops[#bodyops + 1] = {"insert-first-again", function() S.body_list:insert(S.body_list[1]) end, function(M) return false end}
bodyops[#bodyops + 1] = {"erase-last", function() S.body_list:erase(S.body_list[#S.body_list]) end, function(M) local r = clone(M); return #r > 0 and table.remove(r) and r end}
bodyops[#bodyops + 1] = {"reload", function() S:save("l.h5"); S:load("l.h5"); end, function(M)
    for i, n in ipairs(M) do bodies[n] = S.body_list[i] end
    return M end}
bodyops[#bodyops + 1] = {"root", function() local l = S.body_list; l[#l].root = l[1]; if l[#l].root ~= l[1] then error("root", 0) end end, function(M) return #M > 0 and M end}
bodyops[#bodyops + 1] = {"get-handle", function() held = S.body_list[1].holder_pos; heldv = S.body_list[1].holder_pos.r; B = S.body_list[1]:totable(); B = B[#B] end, function(M) return #M > 0 and M end}
bodyops[#bodyops + 1] = {"use-handle", function() if held then collectgarbage(); held.o = held.o; heldv.x = heldv.x + 0; heldv.y = heldv:abs() * 0; local x = B.x + B:abs2() end end, function(M) return M end}
wrong("insert-nil", function() S.body_list:insert(nil) end)
wrong("insert-table", function() S.body_list:insert({}) end)
wrong("insert-list", function() S.body_list:insert(S.body_list) end)
wrong("erase-number", function() S.body_list:erase(1) end)
wrong("erase-none", function() S.body_list:erase() end)
wrong("assign", function() S.body_list[1] = bodies.c end)
wrong("wrong-self", function() S.body_list.insert(S.vort_list, bodies.c) end)

--------------------------------------------------------------------
local ops, reset, check
if what == "body" then
    ops, check = bodyops, bsame
    reset = function()
        S.body_list:clear()
        held, heldv = nil, nil
        for i, n in ipairs(names) do bodies[n] = gen_cylinder{R = 1, N = n == "twin" and 6 or 5 + i}; bodies[n].label = label(n) end
    end
else
    L = S[what:sub(5)]
    L2 = what:sub(5) == "vort_list" and S.sink_list or S.vort_list
    ops, check = objops, same
    reset = function() L:clear(); L2:clear(); L2:append({9, 8, 7}); held, heldv = nil, nil end
end

-- the operations that change things, for longer sequences
local keep = {app1 = 1, app2 = 1, ["append-good-bad"] = 1, ["append-own"] = 1, clear = 1, bin = 1, ["load-garbage"] = 1, ["set-g"] = 1, ["set-r"] = 1, hold = 1, use = 1, ["grow-in-loop"] = 1,
    ["insert-a"] = 1, ["insert-b"] = 1, ["erase-a"] = 1, ["erase-b"] = 1, ["forget-a"] = 1, ["erase-last"] = 1, root = 1, ["get-handle"] = 1, ["use-handle"] = 1, ["insert-c"] = 1, ["insert-twin"] = 1, ["erase-twin"] = 1, app12 = 1, ["append-bad33"] = 1}
if core then
    local r = {}
    for _, o in ipairs(ops) do if keep[o[1]] then r[#r + 1] = o end end
    ops = r
end

local seq = {}
local function runseq()
    reset()
    local M = {}
    local text = {}
    for i = 1, #seq do
        local op = ops[seq[i]]
        text[i] = op[1]
        local key = table.concat(text, ",")
        if op[2] == nil then
            local r, e = op[3](M)
            if not r then return violation("handle", key, e) end
            M = r
        else
            local ok, err = pcall(op[2])
            local r = op[3](M)
            if r then
                if not ok then return violation("refused", key, err) end
                M = r
            elseif ok then
                return violation("accepted", key, "no error")
            elseif type(err) ~= "string" or #err == 0 then
                return violation("message", key, type(err))
            end
        end
        local d = check(M)
        if d then return violation("content", key, d) end
    end
    states = states + 1
    if #M > 0 then nontrivial = nontrivial + 1 end
end
if only then
    for w in only:gmatch("[^,]+") do for i, o in ipairs(ops) do if o[1] == w then seq[#seq + 1] = i end end end
    runseq()
else
    -- complete sequences of the full length; every prefix is checked on the way
    local n = #ops
    local total = n ^ depth
    for c = shard, total - 1, nshards do
        local x = c
        for i = 1, depth do seq[i] = x % n + 1; x = math.floor(x / n) end
        if c % 64 == shard % 64 then
            local f = io.open("cur", "w"); local t = {}
            for i = 1, depth do t[i] = ops[seq[i]][1] end
            f:write(table.concat(t, ",")); f:close()
        end
        evals = evals + 1
        runseq()
    end
end
io.write("E\t", evals, "\t", nontrivial, "\t", #ops, "\n")
