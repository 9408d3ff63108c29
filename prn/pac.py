"""The Pacman demo under observation: loading, boards, reference rules in plain data, move policies."""
import collections
import os
import sys
import time


class Clock:
    """the clock the demo reads; stands still at `at` unless that is None"""
    at = None

    def __init__(self):
        def put(name):
            real = getattr(time, name)
            setattr(time, name, lambda: real() if self.at is None else self.at)
        for name in ("time", "monotonic", "perf_counter"):
            put(name)


CLOCK = Clock()         # before the demo is imported

REPO = os.environ.get("PRN_REPO", "/repo")
DEMO = os.path.join(REPO, "Python", "research", "scripts", "demo")
if DEMO not in sys.path:
    sys.path.insert(0, DEMO)
import util                                     # noqa: E402
import game                                     # noqa: E402
import layout                                   # noqa: E402
import pacman                                   # noqa: E402
import ghostAgents                              # noqa: E402
import keyboardAgents                           # noqa: E402
for _m in (util, game, layout, pacman, ghostAgents, keyboardAgents):
    assert os.path.realpath(_m.__file__).startswith(os.path.realpath(DEMO)), _m.__file__

VEC = {"North": (0, 1), "South": (0, -1), "East": (1, 0), "West": (-1, 0), "Stop": (0, 0)}
BACK = {"North": "South", "South": "North", "East": "West", "West": "East", "Stop": "Stop"}
DIRS = ("North", "South", "East", "West", "Stop")


# ---------------------------------------------------------------- boards
class Board:
    """what a board text says, worked out independently of layout.py"""
    def __init__(self, text):
        self.text = list(text)
        self.w, self.h = len(text[0]), len(text)
        self.walls, self.food, self.caps, agents = set(), set(), [], []
        for y in range(self.h):
            for x in range(self.w):
                c = text[self.h - 1 - y][x]
                if c == "%":
                    self.walls.add((x, y))
                elif c == ".":
                    self.food.add((x, y))
                elif c == "o":
                    self.caps.append((x, y))
                elif c == "P":
                    agents.append((0, (x, y)))
                elif c == "G":
                    agents.append((1, (x, y)))
                elif c in "1234":
                    agents.append((int(c), (x, y)))
        agents.sort()
        self.agents = [p for _, p in agents]
        self.ghosts = sum(1 for n, _ in agents if n)
        self.pacs = len(agents) - self.ghosts

    def open(self, p):
        return p not in self.walls


def shipped(name="mediumClassic"):
    with open(os.path.join(DEMO, "layouts", name + ".lay")) as f:
        return [line.strip() for line in f]


def board(rng, w=(3, 11), h=(3, 9), ghosts=(0, 5), food=(.05, .9), caps=None, density=None):
    """a closed board with one Pacman"""
    while True:
        W, H = rng.randint(*w), rng.randint(*h)
        den = rng.choice([0, .1, .25, .4]) if density is None else density
        cells = [(x, y) for x in range(1, W - 1) for y in range(1, H - 1) if rng.random() >= den]
        if not cells:
            continue
        rng.shuffle(cells)
        g = {(x, y): " " for x in range(1, W - 1) for y in range(1, H - 1)}
        for p in g:
            if p not in cells:
                g[p] = "%"
        g[cells[0]] = "P"
        i = 1
        digits = rng.random() < .3
        for k in range(min(rng.randint(*ghosts), len(cells) - 1)):
            g[cells[i]] = rng.choice("1234") if digits else "G"
            i += 1
        nc = rng.choice([0, 1, 2, 4]) if caps is None else caps
        for k in range(min(nc, max(0, len(cells) - i))):
            g[cells[i]] = "o"
            i += 1
        f = rng.uniform(*food)
        if rng.random() < .3:
            f = .04
        rest = cells[i:]
        for n, p in enumerate(rest):
            if n == 0 and rng.random() < .95 or rng.random() < f:
                g[p] = "."
        rows = ["".join(g.get((x, y), "%") for x in range(W)) for y in range(H - 1, -1, -1)]
        return rows


def big(rng, w=(22, 48), h=(10, 30), ghosts=(0, 9), **kw):
    """a large board every open cell of which can be reached"""
    while True:
        text = board(rng, w, h, ghosts, density=rng.choice([0, .1, .2]), **kw)
        b = Board(text)
        seen, todo = {b.agents[0]}, [b.agents[0]]
        while todo:
            x, y = todo.pop()
            for dx, dy in ((0, 1), (0, -1), (1, 0), (-1, 0)):
                n = (x + dx, y + dy)
                if n not in b.walls and n not in seen:
                    seen.add(n)
                    todo.append(n)
        if seen & b.food:
            return ["".join(c if (x, b.h - 1 - k) in seen else "%" for x, c in enumerate(row)) for k, row in enumerate(text)]


# ---------------------------------------------------------------- reference rules
class Sim:
    """the game's rules over plain data"""
    def __init__(self, b, nghosts=None):
        self.b = b
        self.food = set(b.food)
        self.caps = list(b.caps)
        keep = b.agents[:1] + b.agents[1:][:(len(b.agents) if nghosts is None else nghosts)]
        self.start = keep
        self.pos = list(keep)
        self.dir = ["Stop"] * len(keep)
        self.timer = [0] * len(keep)
        self.score = 0
        self.win = self.lose = False
        self.last = None

    def copy(self):
        s = Sim.__new__(Sim)
        s.__dict__.update(self.__dict__)
        s.food, s.caps = set(self.food), list(self.caps)
        s.pos, s.dir, s.timer = list(self.pos), list(self.dir), list(self.timer)
        return s

    def on_grid(self, i):
        return all(c == int(c) for c in self.pos[i])

    def legal(self, i):
        if self.win or self.lose:
            return set()
        if not self.on_grid(i):
            return {self.dir[i]}
        x, y = self.pos[i]
        out = {d for d, (dx, dy) in VEC.items() if self.b.open((x + dx, y + dy))}
        if i == 0:
            return out
        out.discard("Stop")
        back = BACK[self.dir[i]]
        if len(out) > 1:
            out.discard(back)
        return out

    def step(self, i, a):
        """returns the set of things that happened"""
        ev = set()
        speed = .5 if i and self.timer[i] > 0 else 1
        dx, dy = VEC[a]
        self.pos[i] = (self.pos[i][0] + dx * speed, self.pos[i][1] + dy * speed)
        if a != "Stop":
            self.dir[i] = a
        if i == 0:
            p = self.pos[0]
            if p in self.food:
                self.food.discard(p)
                self.score += 10
                ev.add("pellet")
                if not self.food:
                    self.score += 500
                    self.win = True
                    ev.add("win")
            if p in self.caps:
                self.caps.remove(p)
                self.timer[1:] = [40] * (len(self.timer) - 1)
                ev.add("capsule")
            self.score -= 1
        elif self.timer[i]:
            self.timer[i] -= 1
            if not self.timer[i]:
                if not self.on_grid(i):
                    ev.add("snap")
                x, y = self.pos[i]
                self.pos[i] = (int(x + .5), int(y + .5))
                ev.add("recovered")
        for k in (range(1, len(self.pos)) if i == 0 else [i]):
            if abs(self.pos[k][0] - self.pos[0][0]) + abs(self.pos[k][1] - self.pos[0][1]) <= .7:
                if self.timer[k]:
                    self.score += 200
                    self.pos[k], self.dir[k], self.timer[k] = self.start[k], "Stop", 0
                    ev.add("caught")
                    ev.add("caught_by_pacman" if i == 0 else "ran_into_pacman")
                elif not self.win:
                    self.score -= 500
                    ev.add("double_kill" if self.lose else "lose")
                    self.lose = True
                else:
                    ev.add("win_under_attack")
        self.last = i
        return ev


# ---------------------------------------------------------------- the real thing
def start(text, nghosts=1000):
    s = pacman.GameState()
    s.initialize(layout.Layout(list(text)), nghosts)
    return s


def cells(grid):
    return {(x, y) for x in range(grid.width) for y in range(grid.height) if grid[x][y]}


def agents(state):
    return [(a.configuration.pos, a.configuration.direction, a.scaredTimer, a.isPacman, a.start.pos, a.start.direction) for a in state.data.agentStates]


def snap(state):
    """everything observable about a game state"""
    d = state.data
    return (tuple(agents(state)), tuple(tuple(c) for c in d.food.data), (d.food.width, d.food.height), tuple(d.capsules), d.score,
            state.isWin(), state.isLose(), tuple(tuple(c) for c in d.layout.walls.data), tuple(d.layout.layoutText), tuple(d.layout.capsules),
            tuple(tuple(c) for c in d.layout.food.data), tuple(d.layout.agentPositions),
            tuple(tuple(x) if isinstance(x, list) else x for x in (getattr(d, k, None) for k in AUX)), str(state))


# what the last move did: handed to the displays, not part of the rules
AUX = ("scoreChange", "_agentMoved", "_foodEaten", "_capsuleEaten", "_eaten")


# ---------------------------------------------------------------- policies
def toward(b, src, targets):
    """first move of a shortest path from src to one of the targets"""
    if not targets:
        return None
    seen = {src: None}
    q = collections.deque([src])
    while q:
        p = q.popleft()
        if p in targets and p != src:
            while seen[p] and seen[p][0] != src:
                p = seen[p][0]
            return seen[p][1]
        for d in DIRS[:4]:
            n = (p[0] + VEC[d][0], p[1] + VEC[d][1])
            if n not in seen and n not in b.walls and 0 <= n[0] < b.w and 0 <= n[1] < b.h:
                seen[n] = (p, d)
                q.append(n)
    return None


def grid(p):
    return (int(p[0] + .5), int(p[1] + .5))


def choose(rng, sim, i, style):
    """a legal move for agent i"""
    legal = sorted(sim.legal(i))
    if not legal:
        return None
    if rng.random() < .12 or style == "random":
        return rng.choice(legal)
    me = grid(sim.pos[i])
    if i == 0:
        target = {"food": sim.food, "capsule": set(sim.caps) or sim.food, "hunt": {grid(p) for p in sim.pos[1:]},
                  "stop": set()}.get(style, set())
        if style == "patient":
            if max(sim.timer[1:], default=0) > rng.choice([0, 1, 2, 5, 30]):
                return "Stop" if rng.random() < .9 else rng.choice(legal)
            target = set(sim.caps) or {grid(p) for p in sim.pos[1:]}
        if style == "smart":
            scared = {grid(p) for p, t in zip(sim.pos[1:], sim.timer[1:]) if t > 2}
            target = scared or set(sim.caps) or sim.food
        m = toward(sim.b, me, set(target))
        if m in legal:
            return m
        return "Stop" if style == "stop" else rng.choice(legal)
    m = toward(sim.b, me, {grid(sim.pos[0])})
    if style == "chase" and m in legal:
        return m
    if style == "flee":
        far = max(legal, key=lambda d: abs(sim.pos[i][0] + VEC[d][0] - sim.pos[0][0]) + abs(sim.pos[i][1] + VEC[d][1] - sim.pos[0][1]))
        return far
    return rng.choice(legal)


PAC = ("random", "food", "capsule", "hunt", "smart", "stop", "patient")
GHOST = ("random", "chase", "flee")
