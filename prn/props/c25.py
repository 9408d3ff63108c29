import os
import pickle
import random
import shutil
import tempfile

from .. import pac
from ..base import Prop
from ..lib import attempt

Grid = pac.game.Grid


def free_text(rng):
    """any rectangle of board characters, not necessarily closed"""
    w, h = rng.choice([(1, 1), (1, 9), (9, 1), (rng.randint(1, 12), rng.randint(1, 12))])
    alphabet = rng.choice(["%. oP", "%.oPG1234 x-", "% ", ". ", "G", "P1234G", "%%%...ooo   G"])
    return ["".join(rng.choice(alphabet) for _ in range(w)) for _ in range(h)]


def wide(rng):
    """a closed board of up to 140 rows or columns"""
    return pac.board(rng, *rng.choice([((60, 140), (3, 8)), ((3, 8), (60, 140)), ((30, 50), (20, 40))]), (0, 9))


class C25(Prop):
    id = "C25"
    rule = ("case = board texts (closed mazes and arbitrary rectangles), grids of any size with random cells and edits, and board files spread over nested "
            "folders (found here, in a parent, nowhere, malformed); parsed boards, opening states, packed grids, lookups and the current folder are compared with ones "
            "worked out from the text; non-trivial when the board has agents, food and walls or the grid spans several words; distinct by text")
    cases = {"quick": 6400, "thorough": 64000}
    need = {"board": 5000, "padded_file": 500, "numbered": 300, "opening": 3000, "fewer_ghosts": 800, "packed": 10000, "moved_cell": 10000, "multi_word": 2000, "full_word": 100, "edited": 5000,
            "found_here": 150, "found_up": 300, "missing": 200, "malformed": 200, "deep_board": 3000, "random_place": 2000}
    assumptions = ["board texts are rectangles; a board file in which a line is shorter than the first one is malformed"]

    def board(self, mon, rng, text, lay, b):
        mon.eq((lay.width, lay.height), (b.w, b.h), "size of the board")
        mon.eq((lay.walls.width, lay.walls.height, lay.food.width, lay.food.height), (b.w, b.h) * 2, "size of walls and food")
        mon.eq(pac.cells(lay.walls), b.walls, "walls")
        mon.eq(pac.cells(lay.food), b.food, "food")
        mon.eq(lay.totalFood, len(b.food), "number of pellets")
        mon.eq(sorted(lay.capsules), sorted(b.caps), "capsules")
        mon.eq(lay.getNumGhosts(), b.ghosts, "number of ghosts")
        mon.eq([tuple(p) for _, p in lay.agentPositions], b.agents, "agents in order")
        mon.eq([bool(x) for x, _ in lay.agentPositions], [True] * b.pacs + [False] * b.ghosts, "who is Pacman")
        mon.eq(str(lay), "\n".join(text), "printed board")
        for x in range(b.w):
            for y in range(b.h):
                mon.eq(bool(lay.isWall((x, y))), (x, y) in b.walls, f"wall at {(x, y)}")
        mon.event("board")

    def layouts(self, mon, rng, text):
        b = pac.Board(text)
        src = list(text)
        lay = mon.accepted(attempt(pac.layout.Layout, src), f"board {text}")
        mon.log("board", text)
        self.board(mon, rng, text, lay, b)
        mon.eq(src, text, "text given by the caller")
        c = lay.deepCopy()
        self.board(mon, rng, text, c, b)
        c.walls[0][0] = not c.walls[0][0]
        c.food[0][0] = not c.food[0][0]
        c.capsules.append((0, 0))
        c.agentPositions.append((False, (0, 0)))
        self.board(mon, rng, text, lay, b)
        mon.event("deep_board")
        if any(ch in "1234" for r in text for ch in r):
            mon.event("numbered")
        n = rng.choice([0, 1, 2, 3, 1000])
        s = pac.pacman.GameState()
        s.initialize(lay, n)
        keep = b.agents[:b.pacs] + b.agents[b.pacs:][:n]
        mon.eq([(a.getPosition(), a.getDirection(), a.isPacman, a.scaredTimer) for a in s.data.agentStates],
               [(p, "Stop", k < b.pacs, 0) for k, p in enumerate(keep)], f"agents at the start with at most {n} ghosts")
        if n < b.ghosts:
            mon.event("fewer_ghosts")
        mon.eq((pac.cells(s.getFood()), sorted(s.getCapsules()), pac.cells(s.getWalls()), s.getScore(), s.isWin(), s.isLose(), s.getNumFood()),
               (b.food, sorted(b.caps), b.walls, 0, False, False, len(b.food)), "opening state")
        s.getFood()[0][0] = not s.getFood()[0][0]
        s.getCapsules().append((0, 0))
        self.board(mon, rng, text, lay, b)
        mon.event("opening")
        self.shown(mon, text, b, n)
        r = pickle.loads(pickle.dumps(lay))
        self.board(mon, rng, text, r, b)
        if len(b.walls) < b.w * b.h:
            st = random.getstate()
            random.seed(rng.random())
            for _ in range(3):
                p = lay.getRandomLegalPosition()
                mon.ok(p not in b.walls and 0 <= p[0] < b.w and 0 <= p[1] < b.h, "random legal position", p)
                mon.event("random_place")
            random.setstate(st)
        if b.food and b.walls and b.agents:
            mon.nontrivial(repr(text))

    def shown(self, mon, text, b, n):
        s = pac.start(text, n)
        rows = str(s).split("\n")
        want = {}
        for p in b.walls:
            want[p] = "%"
        for p in b.food:
            want[p] = "."
        for k, p in enumerate(b.agents[:b.pacs] + b.agents[b.pacs:][:n]):
            want[p] = "<" if k < b.pacs else "G"
        for p in b.caps:
            want[p] = "o"
        mon.eq(rows[:b.h], ["".join(want.get((x, y), " ") for x in range(b.w)) for y in range(b.h - 1, -1, -1)], "printed opening state")
        mon.eq(rows[b.h], "Score: 0", "printed score")

    def grids(self, mon, rng):
        w, h = rng.choice([(rng.randint(1, 14), rng.randint(1, 14)), (rng.choice([1, 2, 3, 5, 6, 10, 15, 30, 60]), rng.choice([1, 2, 3, 5, 6, 10, 30])),
                           (rng.randint(1, 40), rng.randint(1, 40)), (rng.randint(60, 150), rng.randint(1, 4)), (rng.randint(1, 4), rng.randint(60, 150))])
        dens = rng.choice([0, 1, .5, .02, .98])
        ref = {(x, y): rng.random() < dens for x in range(w) for y in range(h)}
        base = rng.random() < .5
        g = Grid(w, h, base)
        mon.eq(g.count(), w * h if base else 0, "count of a fresh grid")
        for (x, y), v in ref.items():
            g[x][y] = v
        for _ in range(2):
            on = [p for p in sorted(ref) if ref[p]]
            mon.eq((g.count(), g.count(False), g.count(True)), (len(on), w * h - len(on), len(on)), "counts of a grid")
            mon.eq(sorted(g.asList()), on, "listed cells")
            mon.eq(sorted(g.asList(False)), [p for p in sorted(ref) if not ref[p]], "listed empty cells")
            mon.eq(str(g).split("\n"), ["".join("FT"[ref[(x, y)]] for x in range(w)) for y in range(h - 1, -1, -1)], "printed grid")
            bits = g.packBits()
            mon.ok(all(isinstance(v, int) for v in bits) and bits[:2] == (w, h), "packed grid", bits)
            for back in (pac.game.reconstituteGrid(bits), Grid(w, h, bitRepresentation=bits[2:])):
                mon.eq((back.width, back.height), (w, h), "size of the unpacked grid")
                mon.ok(back == g and hash(back) == hash(g) and not back != g, lambda: f"unpacked {w}x{h} grid differs")
                mon.eq({p: bool(back[p[0]][p[1]]) for p in ref}, ref, "cells of the unpacked grid")
                mon.eq(back.packBits(), bits, "packing again")
                mon.event("packed")
            mon.ok(pac.game.reconstituteGrid(g) is g, "a grid that is not packed")
            if w * h > 30:
                mon.event("multi_word")
                mon.nontrivial("grid", w, h, bits)
            if w * h % 30 == 0:
                mon.event("full_word")
            c, d = g.copy(), g.deepCopy()
            mon.ok(c == g and d == g and hash(c) == hash(g) == hash(d), "copies of a grid")
            p = rng.choice(sorted(ref))
            c[p[0]][p[1]] = not ref[p]
            mon.ok(c != g and not c == g and d == g and bool(g[p[0]][p[1]]) == ref[p], "editing a copy")
            mon.ok(c.packBits() != bits, "packing a different grid")
            # grids with other cells on, or of another shape, are different however alike their packed words or hashes are
            k = p[0] * h + p[1]
            for step in (61, 30, 32, 64, h, 1, rng.randint(1, w * h)):
                k2 = k + step if k + step < w * h else k - step
                if k2 >= 0 and k2 != k:
                    e, f = g.copy(), g.copy()
                    q = divmod(k2, h)
                    for z, (one, two) in ((e, (True, False)), (f, (False, True))):
                        z[p[0]][p[1]], z[q[0]][q[1]] = one, two
                    mon.ok(e != f and not e == f, lambda: f"{w}x{h} grids that differ at {p} and {q} only must be unequal")
                    mon.ok(e.packBits() != f.packBits(), "packing grids with other cells on")
                    mon.event("moved_cell")
            flat = [v for col in g.data for v in col]
            for w2, h2 in {(h, w), (w * h, 1), (1, w * h)} - {(w, h)}:
                o = Grid(w2, h2)
                for i, v in enumerate(flat):
                    o[i // h2][i % h2] = v
                mon.ok(o != g and not o == g, lambda: f"a {w2}x{h2} grid must differ from a {w}x{h} grid")
            d[p[0]] = [not v for v in d[p[0]]]
            mon.ok(d != g and bool(g[p[0]][p[1]]) == ref[p], "editing a column of a copy")
            ref[p] = not ref[p]
            keep = g.copy()
            g[p[0]][p[1]] = ref[p]
            mon.ok(keep != g and bool(keep[p[0]][p[1]]) != ref[p] and g == c, "copy after editing the original")
            mon.event("edited")
        mon.ok(g != None and not g == None, "a grid compared with nothing")      # noqa: E711

    def files(self, mon, rng):
        """board files in nested folders"""
        home = os.getcwd()
        tmp = os.path.realpath(tempfile.mkdtemp(dir=os.environ.get("PRN_SCRATCH")))
        try:
            depth = rng.randint(0, 4)
            dirs = [tmp]
            for k in range(5):
                dirs.append(os.path.join(dirs[-1], f"d{k}"))
                os.mkdir(dirs[-1])
            here = dirs[1 + depth]
            name = rng.choice(["maze", "m.x", "mediumish", "my.layout", "a.lay.b"])
            holders = {}
            for lvl in range(len(dirs)):
                for sub in ("layouts", "."):
                    if rng.random() < .18:
                        kind = rng.choice(["good", "good", "good", "bad"])
                        text = pac.board(rng) if rng.random() < .95 else wide(rng)
                        if kind == "bad":
                            text = rng.choice([text[:-1] + [text[-1][:-2]], []])
                        os.makedirs(os.path.join(dirs[lvl], sub), exist_ok=True)
                        with open(os.path.join(dirs[lvl], sub, name + ".lay"), "w") as f:
                            pad = rng.choice([[""], [""], [""], ["", " ", "  ", "\t"], ["\r"]])        # blanks around a line are no part of the board
                            f.write("\n".join(t + rng.choice(pad) for t in text) + rng.choice(["", "\n"]) if text else "")
                        if len(pad) > 1 or pad[0]:
                            mon.event("padded_file")
                        holders[(lvl, sub)] = (kind, text)
            os.chdir(here)
            want = None
            lvl0 = 1 + depth
            for up in range(0, 4):
                if lvl0 - up < 0:
                    continue        # above the scratch folder there is nothing of that name
                for sub in ("layouts", "."):
                    if want is None and (lvl0 - up, sub) in holders:
                        want = (up,) + holders[(lvl0 - up, sub)]
            ask = name + rng.choice(["", ".lay"])
            mon.log("folders", sorted(holders), "from", lvl0, "ask", ask)
            ok, lay = attempt(pac.layout.getLayout, ask)
            mon.eq(os.getcwd(), here, "current folder after looking up a board")
            if want is None:
                # nothing in reach of the lookup (the current folder and three parents)
                mon.ok(ok and lay is None, lambda: f"missing board: {lay!r}")
                mon.event("missing")
            elif want[1] == "bad":
                mon.ok(not ok, "a malformed board must be reported")
                mon.event("malformed")
            else:
                mon.accepted((ok, lay), "loading a board")
                mon.ok(lay is not None, f"board {ask} not found {want[0]} folders up")
                self.board(mon, rng, want[2], lay, pac.Board(want[2]))
                mon.event("found_up" if want[0] else "found_here")
            for d in dirs:
                for f in os.listdir(d):
                    mon.ok(f == "layouts" or f == name + ".lay" or f.startswith("d"), "looking up a board created a file", f)
        finally:
            os.chdir(home)
            shutil.rmtree(tmp, ignore_errors=True)

    def fixed(self):
        return [self.shipped]

    def shipped(self, mon, rng):
        home = os.getcwd()
        try:
            os.chdir(pac.DEMO)
            text = pac.shipped()
            self.board(mon, rng, text, pac.layout.getLayout("mediumClassic"), pac.Board(text))
            self.layouts(mon, rng, text)
        finally:
            os.chdir(home)

    def case(self, mon, rng, i, tier):
        self.layouts(mon, rng, free_text(rng) if rng.random() < .5 else pac.board(rng, (3, 16), (3, 12), (0, 8)) if i % 20 else wide(rng))
        self.grids(mon, rng)
        if i % 3 == 0:
            self.files(mon, rng)
        mon.sample("board, grid" + (" and folders" if i % 3 == 0 else ""))


PROP = C25()
