import contextlib
import io
import math
import sys
import types

from .. import pac
from ..base import Prop
from ..lib import attempt


# ---------------------------------------------------------------- a window that only remembers
class Canvas:
    live = None

    def __init__(self, root=None, **kw):
        self.items, self.n, self.size = {}, 0, kw
        self.gone = []
        Canvas.live = self

    def make(self, kind, coords, kw):
        self.n += 1
        self.items[self.n] = [kind, [float(c) for c in coords], dict(kw)]
        return self.n

    def create_polygon(self, c, **kw):
        return self.make("polygon", c, kw)

    def create_arc(self, *c, **kw):
        return self.make("arc", c, kw)

    def create_line(self, *c, **kw):
        return self.make("line", c, kw)

    def create_text(self, *c, **kw):
        return self.make("text", c, kw)

    def create_oval(self, *c, **kw):
        return self.make("arc", c, kw)

    def coords(self, i, *c):
        if c:
            if len(c) == 1:
                c = c[0]
            self.items[i][1] = [float(x) for x in c]
            return None
        return list(self.items[i][1]) if i in self.items else []

    def move(self, i, dx, dy):
        c = self.items[i][1]
        self.items[i][1] = [x + (dy if k % 2 else dx) for k, x in enumerate(c)]

    def itemconfigure(self, i, **kw):
        if i in self.items:
            self.items[i][2].update(kw)
    itemconfig = itemconfigure

    def delete(self, *ids):
        for i in ids:
            if i == "all":
                self.items.clear()
            else:
                self.gone.append(i)
                self.items.pop(i, None)

    def pack(self, **kw):
        pass
    update = update_idletasks = pack

    def tag_lower(self, *a):
        pass
    tag_raise = tag_lower


class Tk:
    live = None

    def __init__(self):
        self.bound, self.alive = {}, True
        Tk.live = self

    def bind(self, what, f):
        self.bound[what] = f

    def destroy(self):
        self.alive = False

    turns = None        # event loop turns until the user is taken to wait in vain

    def mainloop(self):
        if self.turns is not None:
            self.turns -= 1
            if self.turns < 0:
                raise RuntimeError("the window waits for input that was already given")

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **k: None


fake = types.ModuleType("tkinter")
fake.Tk, fake.Canvas, fake.NW = Tk, Canvas, "nw"
fake.PhotoImage = lambda **k: None
fake._tkinter = types.SimpleNamespace(DONT_WAIT=2)
sys.modules["tkinter"] = fake
import graphicsUtils        # noqa: E402
import graphicsDisplay      # noqa: E402


def centre(c):
    xs, ys = c[0::2], c[1::2]
    return ((min(xs) + max(xs)) / 2, (min(ys) + max(ys)) / 2)


FACING = {"East": 0, "North": 90, "West": 180, "South": 270, "Stop": 0}
SHIFT = {"East": (.2, 0), "West": (-.2, 0), "North": (0, -.2), "South": (0, .2), "Stop": (0, 0)}


def wall_items(b, at, size):
    """outline of the wall region, quadrant by quadrant: (lines, arcs) in screen coordinates"""
    r = graphicsDisplay.WALL_RADIUS * size
    lines, arcs = [], []
    inner = {(1, -1): 0, (-1, -1): 90, (-1, 1): 180, (1, 1): 270}
    for x, y in b.walls:
        cx, cy = at((x, y))
        for sx in (1, -1):
            for sy in (1, -1):            # screen: positive is down
                h, v, d = (x + sx, y) in b.walls, (x, y - sy) in b.walls, (x + sx, y - sy) in b.walls
                if not v and not h:
                    arcs.append((cx, cy, r, inner[(sx, sy)]))
                elif v and not h:
                    lines.append((cx + sx * r, cy, cx + sx * r, cy + sy * (size / 2 + 1)))
                elif h and not v:
                    lines.append((cx, cy + sy * r, cx + sx * (size / 2 + 1), cy + sy * r))
                elif not d:
                    arcs.append((cx + sx * 2 * r, cy + sy * 2 * r, r - 1, inner[(-sx, -sy)]))
                    lines.append((cx + sx * (2 * r - 1), cy + sy * r, cx + sx * (size / 2 + .5), cy + sy * r))
                    lines.append((cx + sx * r, cy + sy * (2 * r - 1), cx + sx * r, cy + sy * (size / 2 + .5)))
    return lines, arcs


class C28(Prop):
    id = "C28"
    rule = ("case = one game shown by the real display on a canvas that only remembers; after every update the drawn pellets, capsules, Pacman, ghosts (place and colour) "
            "and score are compared with the state shown, and the images of agents that did not move must stay; key events go through the window's own handlers; "
            "non-trivial when something was eaten or a ghost scared; distinct by board and moves")
    cases = {"quick": 6000, "thorough": 48000}
    need = {"update": 15000, "pellet": 2000, "capsule": 300, "scared_shown": 400, "caught": 50, "animated": 2000, "stale": 5000, "keys": 10000, "key_taken": 2000,
            "expanded": 500, "belief": 300, "closed": 1000, "wall_pieces": 50000, "shipped_walls": 1, "click": 5000, "large_board": 20, "stepped": 1000}
    assumptions = ["the window toolkit (tkinter) draws what it is told; a stand-in records the drawing calls", "only the agent that moved is redrawn, as the display documents by its updates"]

    def shown(self, cv, scale, size):
        """items drawn as filled circles of the given radius"""
        return {i: centre(v[1]) for i, v in cv.items.items() if v[0] == "arc" and v[2].get("style", "pieslice") == "pieslice" and abs((v[1][2] - v[1][0] - 1) / 2 - scale * size) < .01}

    def same_places(self, mon, got, want, what):
        self.match(mon, list(got), list(want), 1, what)

    def fixed(self):
        def shipped(mon, rng):
            text = pac.shipped()
            d = graphicsDisplay.PacmanGraphics(1.0)
            d.initialize(pac.start(text).data)
            b = pac.Board(text)
            self.walls(mon, Canvas.live, b, lambda p: ((p[0] + 1) * 30.0, (b.h - p[1]) * 30.0), 30.0)
            d.finish()
            mon.event("shipped_walls")
        return [shipped]

    def match(self, mon, got, want, tol, what):
        """every expected item drawn once (to within tol) and nothing else"""
        left = list(got)
        for w in want:
            k = min(range(len(left)), key=lambda k: max(abs(a - b) for a, b in zip(left[k], w)), default=None)
            if k is None or max(abs(a - b) for a, b in zip(left[k], w)) > tol:
                mon.fail(f"{what}: {w} is not drawn; drawn and unmatched: {left[:6]}")
            left.pop(k)
        mon.ok(not left, lambda: f"{what}: drawn without reason: {left[:6]}")

    def walls(self, mon, cv, b, at, size):
        lines, arcs = wall_items(b, at, size)

        def norm(c):
            p, q = sorted([(c[0], c[1]), (c[2], c[3])])
            return p + q
        self.match(mon, [norm(v[1]) for v in cv.items.values() if v[0] == "line"], [norm(c) for c in lines], 1.1, "wall lines")
        got = []
        for v in cv.items.values():
            if v[0] == "arc" and v[2].get("style") == "arc":
                c = v[1]
                got.append(((c[0] + c[2] + 1) / 2, (c[1] + c[3] + 1) / 2, (c[2] - c[0] - 1) / 2, v[2]["start"] % 360))
                mon.ok(abs(v[2]["extent"] - 90) <= 2, "extent of a wall corner", v[2])
        self.match(mon, got, arcs, 1.1, "wall corners")
        mon.ok(all(v[2]["fill"] == graphicsDisplay.WALL_COLOR for v in cv.items.values() if v[0] == "line"), "colour of the walls")
        mon.event("wall_pieces", len(lines) + len(arcs))

    def case(self, mon, rng, i, tier):
        with contextlib.redirect_stdout(io.StringIO()):
            self.game(mon, rng)
        self.keys(mon, rng)
        pac.pacman.GameState.getAndResetExplored()

    def game(self, mon, rng):
        large = rng.random() < .01
        if large:
            text = pac.big(rng, (20, 40), (12, 40), (0, 5), caps=rng.choice([0, 4, 12]))
            mon.event("large_board")
        else:
            text = pac.board(rng, (4, 10), (3, 8), (0, 5), caps=rng.choice([0, 1, 3]), density=rng.choice([0, .15]))
        s, m = pac.start(text), pac.Sim(pac.Board(text))
        zoom = rng.choice([1.0, 2.0, .5, 1.5])
        frame = rng.choice([0, 0, 0, 0, .05, .05, -1])
        d = graphicsDisplay.PacmanGraphics(zoom, frameTime=frame)
        size = graphicsDisplay.DEFAULT_GRID_SIZE * zoom
        H = m.b.h

        def at(p):
            return ((p[0] + 1) * size, (H - p[1]) * size)

        def round_(p):
            return (round(p[0], 1), round(p[1], 1))

        before = pac.snap(s)
        d.initialize(s.data)
        cv = Canvas.live
        mon.log("board", text, "zoom", zoom, "frame", frame)
        bodies = [k for k, v in sorted(cv.items.items()) if v[0] == "polygon" and len(v[1]) == 2 * len(graphicsDisplay.GHOST_SHAPE)]
        mon.eq(len(bodies), len(m.pos) - 1, "ghosts drawn")
        pacs = list(self.shown(cv, graphicsDisplay.PACMAN_SCALE, size))
        mon.eq(len(pacs), 1, "Pacmans drawn")
        scores = [k for k, v in cv.items.items() if v[0] == "text"]
        off = None
        ref = {}

        def look(agent, first=False):
            nonlocal off
            self.same_places(mon, self.shown(cv, graphicsDisplay.FOOD_SIZE, size).values(), map(at, m.food), "pellets")
            self.same_places(mon, self.shown(cv, graphicsDisplay.CAPSULE_SIZE, size).values(), map(at, m.caps), "capsules")
            if agent in (0, None):
                self.same_places(mon, [centre(cv.items[pacs[0]][1])], [at(m.pos[0])], "Pacman")
                o = cv.items[pacs[0]][2]
                mouth = (o["start"] + o["extent"] + (360 - o["extent"]) / 2) % 360
                turn = abs(mouth - FACING[m.dir[0]])
                mon.ok(min(turn, 360 - turn) < 1 and 0 < 360 - o["extent"] < 180, lambda: f"Pacman heading {m.dir[0]} shown with its mouth at {mouth} degrees", o)
            for g in range(1, len(m.pos)):
                it = cv.items[bodies[g - 1]]
                if agent in (g, None):
                    c = it[1]
                    shape = [(x * size * graphicsDisplay.GHOST_SIZE, y * size * graphicsDisplay.GHOST_SIZE) for x, y in graphicsDisplay.GHOST_SHAPE]
                    p = at(m.pos[g])
                    want = [v for sx, sy in shape for v in (sx + p[0], sy + p[1])]
                    mon.ok(all(abs(a - b) < .01 for a, b in zip(c, want)), lambda: f"ghost {g} at {m.pos[g]}: drawn around {centre(c)}, expected {centre(want)}")
                    colour = graphicsDisplay.SCARED_COLOR if m.timer[g] else graphicsDisplay.GHOST_COLORS[g]
                    mon.eq(it[2].get("fill"), colour, f"colour of ghost {g} with timer {m.timer[g]}")
                    mon.event("scared_shown", bool(m.timer[g]))
                    gs_ = size * graphicsDisplay.GHOST_SIZE
                    dx, dy = SHIFT[m.dir[g]]
                    for scale, q, name in ((.2, 1.5, "eyes"), (.08, 1, "pupils")):
                        drawn = [(c[0] + .5, c[1] + .5) for c in self.shown(cv, scale * graphicsDisplay.GHOST_SIZE, size).values()]
                        mon.eq(len(drawn), 2 * len(bodies), f"{name} drawn")
                        for e in (-.3, .3):
                            w = (p[0] + gs_ * (e + dx / q), p[1] - gs_ * (.3 - dy / q))
                            mon.ok(any(max(abs(c[0] - w[0]), abs(c[1] - w[1])) < .3 for c in drawn), lambda: f"{name} of ghost {g} at {m.pos[g]} heading {m.dir[g]}: expected at {w}, drawn {drawn}")
                else:
                    mon.eq((it[1], it[2]), ref[g], f"image of ghost {g}, which did not move")
                    mon.event("stale")
                ref[g] = (list(it[1]), dict(it[2]))
            txt = [cv.items[k][2]["text"] for k in scores]
            mon.eq([t.split()[-1] for t in txt], [str(m.score)], "score shown")

        look(None, True)
        self.walls(mon, cv, m.b, at, size)
        mon.eq(pac.snap(s), before, "state after showing it")
        ps, gs = rng.choice(pac.PAC), [rng.choice(pac.GHOST) for _ in m.pos]
        moves, flags = [], set()
        for t in range(rng.choice([20, 80])):
            if m.win or m.lose:
                break
            a = t % len(m.pos)
            mv = pac.choose(rng, m, a, ps if a == 0 else gs[a])
            if mv is None:
                continue
            s = s.generateSuccessor(a, mv)
            ev = m.step(a, mv)
            was = pac.snap(s)
            if frame < 0 and a == 0:        # waits for a key at every step until q is pressed
                stroke = types.SimpleNamespace(keysym="q" if rng.random() < .05 else "n", char="", keycode=0)
                Tk.live.bound["<KeyPress>"](stroke)
                mon.event("stepped")
            d.update(s.data)
            if frame < 0 and a == 0:
                Tk.live.bound["<KeyRelease>"](stroke)
            mon.log(a, mv)
            moves.append((a, mv))
            look(a)
            mon.eq(pac.snap(s), was, "state after showing it")
            mon.event("update")
            for e in ev & {"pellet", "capsule", "caught"}:
                mon.event(e)
                flags.add(e)
            if frame and a == 0:
                mon.event("animated")
        self.walls(mon, cv, m.b, at, size)
        # overlays
        if rng.random() < .5:
            for _ in range(2):
                cells = rng.sample([(x, y) for x in range(m.b.w) for y in range(m.b.h)], rng.randint(1, 5) if rng.random() < .9 else m.b.w * m.b.h)
                have = set(cv.items)
                d.drawExpandedCells(cells)
                new = [(centre(v[1]), v[2]["fill"]) for k, v in sorted(cv.items.items()) if k not in have]
                self.same_places(mon, [c for c, _ in new], map(at, cells), "overlay cells")
                red = [int(f[1:3], 16) for c in cells for p, f in new if max(abs(a - b) for a, b in zip(p, at(c))) < 1]
                mon.ok(len(red) == len(cells) and all(a > b if len(cells) < 6 else a >= b for a, b in zip(red, red[1:])) and (len(cells) == 1 or red[0] > red[-1]), lambda: f"overlay of {cells}: earlier cells must be brighter, got {new}")
                mon.event("expanded")
            squares = lambda: sum(1 for v in cv.items.values() if v[0] == "polygon" and len(v[1]) == 8)        # noqa: E731
            mon.eq(squares(), 1 + len(cells), "overlay replaced by the next one")
            d.clearExpandedCells()
            mon.eq(squares(), 1, "overlay removed")
        if rng.random() < .3:
            dists = []
            for _ in range(rng.randint(1, 5)):
                c = pac.util.Counter()
                for p in rng.sample([(x, y) for x in range(m.b.w) for y in range(m.b.h)], 3):
                    c[p] = rng.uniform(.05, 1)
                dists.append(c)
            keep = [dict(c) for c in dists]
            have = set(cv.items)
            d.updateDistributions(dists)
            mon.eq([dict(c) for c in dists], keep, "distributions after drawing them")
            new = {round_(centre(v[1])): v[2]["fill"] for k, v in cv.items.items() if k not in have}
            mon.eq(len(new), m.b.w * m.b.h, "cells coloured")
            black = graphicsUtils.formatColor(0, 0, 0)
            for x in range(m.b.w):
                for y in range(m.b.h):
                    lit = any(c.get((x, y), 0) > 1e-3 for c in keep)
                    mon.eq(new[round_(at((x, y)))] != black, lit, f"belief colour of {(x, y)}")
                    want = [min(1.0, sum(.95 * g * c.get((x, y), 0) ** .3 for c, g in zip(keep, chan))) * 255 for chan in zip(*graphicsDisplay.GHOST_VEC_COLORS[1:])]
                    f = new[round_(at((x, y)))]
                    mon.ok(all(abs(int(f[k:k + 2], 16) - v) <= 1.5 for k, v in zip((1, 3, 5), want)), lambda: f"belief colour of {(x, y)}: {f}, expected about {want}")
            mon.event("belief")
        root = Tk.live
        d.finish()
        mon.ok(not root.alive, "window closed at the end")
        mon.event("closed")
        if flags:
            mon.nontrivial(repr((text, moves)))
        mon.sample({"board": text, "moves": len(moves), "items": len(cv.items)})

    def keys(self, mon, rng):
        """key events through the handlers bound by the window"""
        graphicsUtils.begin_graphics(50, 50)
        root = Tk.live
        down, waiting = set(), set()
        for _ in range(rng.choice([10, 30])):
            r = rng.random()
            k = rng.choice(["a", "d", "w", "s", "q", "Left", "Up"])
            e = types.SimpleNamespace(keysym=k, char=k, keycode=0)
            if r < .4:
                root.bound["<KeyPress>"](e)
                down.add(k)
                waiting.add(k)
            elif r < .7:
                root.bound["<KeyRelease>"](e)
                down.discard(k)
            elif r < .75:
                root.bound[rng.choice(["<FocusIn>", "<FocusOut>"])](e)
                down, waiting = set(), set()
            elif r < .9:
                mon.eq(set(graphicsUtils.keys_waiting()), waiting, "keys pressed since they were last asked for")
                waiting = set()
                mon.event("key_taken")
            mon.eq(set(graphicsUtils.keys_pressed()), down, "keys held")
            mon.event("keys")
        binds = {"<Button-1>": "left", "<Button-2>": "right", "<Button-3>": "right", "<Control-Button-1>": "ctrl_left"}
        for _ in range(3):
            made = set()
            for b in rng.sample(list(binds), rng.choice([1, 1, 2, 3])):
                if binds[b] not in [x for _, x in made]:        # clicks with different buttons, all before the first is asked for
                    p = (rng.randint(0, 49), rng.randint(0, 49))
                    root.bound[b](types.SimpleNamespace(x=p[0], y=p[1]))
                    made.add((p, binds[b]))
            for _ in range(len(made)):
                root.turns = 50
                ok, c = attempt(graphicsUtils.wait_for_click)
                root.turns = None
                mon.accepted((ok, c), f"waiting for a click, outstanding {made}")
                mon.ok(c in made, lambda: f"click {c} reported, outstanding {made}")
                made.discard(c)
                mon.event("click")
            mon.ok(not made, "clicks not reported", made)
        graphicsUtils.end_graphics()


PROP = C28()
