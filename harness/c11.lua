-- runs the generators; arg: file of cases (calls of G), prefix of the files of bodies
local cases, prefix = arg[1], arg[2]
local batch, nfile = 0, 0
local cur = io.open(prefix .. "cur", "w")
local function q(s) return (tostring(s):gsub("[%c\128-\255\\\t]", function(c) return string.format("\\%03d", c:byte()) end)):sub(1, 300) end
local function flush()
    if batch > 0 then S:save(string.format("%s%d.h5", prefix, nfile)) end
    S.body_list:clear()
    batch, nfile = 0, nfile + 1
end
local v3 = {"delta_pos", "speed", "collision_min", "collision_max", "spring_const", "spring_damping"}
local sc = {"label", "density", "bounce", "special_segment", "holder_vx", "holder_vy", "holder_vo", "holder_mo"}
local function props(b)
    local t = {tostring(b.root), tostring(b.holder_pos.o)}
    for _, n in ipairs(v3) do t[#t + 1] = n .. "=" .. tostring(b[n].r) .. tostring(b[n].o) end
    for _, n in ipairs(sc) do t[#t + 1] = n .. "=" .. tostring(b[n]) end
    return (table.concat(t, ";"):gsub("%-nan", "nan"))
end
local plain = props(gen_cylinder{R = 1, N = 6})
local function text(b)
    local t = {}
    for i, p in ipairs(b:totable()) do t[i] = string.format("%a,%a", p.x, p.y) end
    return table.concat(t, ";")
end
-- a call that fits another call in between must not change the result
function G(id, name, t, more)
    cur:seek("set", 0); cur:write(id, "\n"); cur:flush()
    local gen = _G[name]
    local before, n = {}, 0
    if type(t) == "table" then for k, v in pairs(t) do before[k] = v; n = n + 1 end end
    local ok, b = pcall(gen, t)
    if type(t) == "table" then
        local m = 0
        for k, v in pairs(t) do m = m + 1; if not rawequal(before[k], v) and v == v then io.write("V\targument\t", id, "\t", q(k), " of the table was changed\n") end end
        if m ~= n then io.write("V\targument\t", id, "\tthe table has ", m, " entries instead of ", n, " after the call\n") end
    end
    local ok2, b2 = pcall(gen, t)
    if ok ~= ok2 or not ok and b ~= b2 then
        io.write("V\trepeat\t", id, "\tthe first call gave ", q(b), ", the second ", q(b2), "\n")
    elseif ok and text(b) ~= text(b2) then
        io.write("V\trepeat\t", id, "\tthe second call gave another contour\n")
    end
    if not ok then
        io.write("R\t", id, "\terror\t", q(b), "\n")
        return
    end
    if props(b) ~= plain then io.write("V\tproperties\t", id, "\t", q(props(b)), " instead of ", q(plain), "\n") end
    b.label = id
    S.body_list:insert(b)
    io.write("R\t", id, "\tok\t", nfile, "\t", batch, "\n")
    batch = batch + 1
    if batch == 60 then flush() end
end
dofile(cases)
flush()
io.write("E\n")
