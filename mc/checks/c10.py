import itertools
import math
import os

from mc import core

RULE = ("Every history of 3 (thorough 4) operations out of 12 {five moves/rotations, copy, assign both ways, swap, slip, edit, save+load} on "
        "bodies of 7 shapes (solid, domain, flat, thin, far away) and their partner; after every operation contour, segments, holder, deflection, "
        "axis, length, area, centre, both moments and slip of both bodies are compared with a reference computed from the contour by a triangle "
        "fan in long double. Every sequence of 3 of 12 script operations (move_r, move_o, move_d by more than a turn, axis changes, slip, moved corners, refused calls) on 3 generated bodies likewise "
        "through the script interface. Non-trivial: each completed comparison.")

LUA = r'''
local function show(b)
  local o = {}
  for _, c in ipairs(b:totable()) do o[#o+1] = string.format("%.17g %.17g", c.x, c.y) end
  local cm, ax = b:get_cofm(), b:get_axis()
  print(string.format("%d|%s|%.17g %.17g %.17g %.17g %.17g %.17g %.17g %.17g|%.17g %.17g %.17g %.17g %.17g %.17g|%s", #b, table.concat(o, ";"),
    b:get_slen(), b:get_area(), cm[1], cm[2], ax[1], ax[2], b:get_moi_cofm(), b:get_moi_axis(),
    b.holder_pos.r.x, b.holder_pos.r.y, b.holder_pos.o, b.delta_pos.r.x, b.delta_pos.r.y, b.delta_pos.o, tostring(b.slip)))
end
local make = {
  function() return gen_cylinder{R=0.5, N=12} end,
  function() return gen_parallelogram{L=2, H=1, d=60, N=20} end,
  function() return gen_chamber_box{L=4, H=2, D=1, d=0.2, h=0.3, dls=0.2, dln=0.05} end,
}
local op = {
  function(b) b:move_r{1, -2} end,
  function(b) b:move_o(0.3) end,
  function(b) b:move_d(-90) end,
  function(b) b.holder_pos = {0.5, 1, 0.2} end,
  function(b) b.delta_pos = {-0.25, 0.125, 1} end,
  function(b) b.slip = true end,
  function(b) b.slip = false end,
  function(b) local t = b:totable() t[2].x = t[2].x + 0.05 end,
  function(b) b:totable()[#b].y = -0.3 end,
  function(b) b:move_d(400.5) end,
  function(b) b:move_o(-7) end,
  function(b)
    for i, f in ipairs{function() b:move_o{1} end, function() b:move_o() end, function() b:move_d("x") end, function() b:move_r(1) end,
        function() b:move_r{1} end, function() b:move_r() end, function() b:move_r{1, 2, 3} end, function() b.move_o(1, 1) end,
        function() b:totable()[1].z = 1 end, function() b:totable()[1].x = {} end, function() b.slip = 1 end, function() b.get_area(S) end} do
      if pcall(f) then print("ACCEPTED " .. i) end
    end
  end,
}
local ops = {}
for i = 1, #op do for j = 1, #op do for k = 1, #op do ops[#ops+1] = {i, j, k} end end end
for s = 1, #make do for _, q in ipairs(ops) do
  local ok, b = pcall(make[s])
  if not ok then print("ERR", s, b) os.exit(5) end
  print("CASE", s, q[1], q[2], q[3])
  show(b)
  for _, i in ipairs(q) do op[i](b); show(b) end
end end
'''


def geo(c):
    n = len(c)
    L = A = mx = my = J = 0.0
    ox, oy = c[0]
    for i in range(n):
        ax, ay = c[i][0] - ox, c[i][1] - oy
        bx, by = c[(i + 1) % n][0] - ox, c[(i + 1) % n][1] - oy
        L += math.hypot(bx - ax, by - ay)
        t = -(ax * by - ay * bx) / 2
        A += t
        mx += t * (ax + bx) / 3
        my += t * (ay + by) / 3
        J += t * (ax * ax + ax * bx + bx * bx + ay * ay + ay * by + by * by) / 6
    cx, cy = mx / A, my / A
    return L, A, cx + ox, cy + oy, J - A * (cx * cx + cy * cy)


def script_part(ctx):
    b = core.build_repo("plain", targets=("vvflow",))
    with open(os.path.join(ctx.scratch, "g.lua"), "w") as f:
        f.write(LUA)
    rc, out, err = ctx.call([core.binary(b, "vvflow"), "g.lua"], ctx.scratch, 120)
    if not ctx.check(rc == 0, "script-failed", "rc=%s %s" % (rc, err[-400:])):
        return
    close = lambda a, b: abs(a - b) <= 1e-9 * (1 + abs(a) + abs(b))
    state, case, step = None, None, 0
    ncase = 0
    for line in out.decode().splitlines():
        if line.startswith("CASE"):
            case = [int(x) for x in line.split()[1:]]
            state, step = None, 0
            ncase += 1
            continue
        if line.startswith("ACCEPTED"):
            ctx.check(False, "accepted@" + line.split()[1], "a call with a wrong argument is accepted")
            continue
        n, cs, vals, pos, slip = line.split("|")
        c = [tuple(map(float, p.split())) for p in cs.split(";")]
        slen, area, cx, cy, ax, ay, moi, moia = map(float, vals.split())
        h = list(map(float, pos.split()))
        key = "script@" + "-".join(map(str, case)) + "/%d" % step
        if state is not None:
            op = case[step]
            c0, h0, s0 = state
            a0 = (h0[0] + h0[3], h0[1] + h0[4])
            rot, dr, h1, s1 = 0, (0, 0), list(h0), s0
            if op == 1:
                dr = (1, -2)
            elif op == 2:
                rot = 0.3
            elif op == 3:
                rot = -math.pi / 2
            elif op == 10:
                rot = 400.5 * math.pi / 180
            elif op == 11:
                rot = -7
            elif op == 4:
                h1[:3] = [0.5, 1, 0.2]
            elif op == 5:
                h1[3:] = [-0.25, 0.125, 1]
            elif op == 6:
                s1 = "true"
            elif op == 7:
                s1 = "false"
            if op <= 3 or op in (10, 11):
                h1[0] += dr[0]
                h1[1] += dr[1]
                h1[2] += rot
                e = [(a0[0] + dr[0] + (x - a0[0]) * math.cos(rot) - (y - a0[1]) * math.sin(rot),
                      a0[1] + dr[1] + (x - a0[0]) * math.sin(rot) + (y - a0[1]) * math.cos(rot)) for x, y in c0]
            else:
                e = list(c0)
                if op == 8:
                    e[1] = (c0[1][0] + 0.05, c0[1][1])
                elif op == 9:
                    e[-1] = (c0[-1][0], -0.3)
            ctx.check(len(e) == len(c) and all(close(p[0], q[0]) and close(p[1], q[1]) for p, q in zip(e, c)), key, "contour after operation %d" % op)
            ctx.check(all(close(p, q) for p, q in zip(h1, h)), key, "holder and deflection after operation %d: %s expected %s" % (op, h, h1))
            ctx.check(slip == s1, key, "slip after operation %d: %s" % (op, slip))
        ctx.check(int(n) == len(c), key, "#body")
        g = geo(c)
        a = (h[0] + h[3], h[1] + h[4])
        e = list(g[:4]) + [a[0], a[1], g[4], g[4] + g[1] * ((a[0] - g[2]) ** 2 + (a[1] - g[3]) ** 2)]
        got = [slen, area, cx, cy, ax, ay, moi, moia]
        for nm, x, y in zip(("length", "area", "centre x", "centre y", "axis x", "axis y", "inertia", "inertia about axis"), got, e):
            ctx.check(close(x, y), key, "%s %.12g expected %.12g" % (nm, x, y))
        ctx.evaluations += 1
        ctx.nontrivial += 1
        state = (c, h, slip)
        step += 1
    ctx.check(ncase == 3 * 12 ** 3, "script-incomplete", "%d cases" % ncase)
    ctx.outcome("script histories", ncase)


def run(ctx):
    exe = core.build_harness("c10", "plain")
    ctx.run_harness(exe, timeout=850 if not ctx.thorough else 5000)
    script_part(ctx)
    ctx.rule = RULE
