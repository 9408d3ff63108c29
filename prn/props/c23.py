from .. import pac
from ..base import Prop
from ..lib import attempt


def content(s):
    """what makes two states of one board equal"""
    d = s.data
    return (tuple((a.configuration.pos, a.configuration.direction, a.scaredTimer) for a in d.agentStates),
            tuple(tuple(c) for c in d.food.data), tuple(d.capsules), d.score)


def queries(rng, s):
    """asks a state all kinds of questions"""
    n = s.getNumAgents()
    for i in range(n):
        s.getLegalActions(i)
    hash(s), str(s), str(s.data), repr(s), s == s, s != s, s == None, s == 3                # noqa: E711
    s.getPacmanState()
    s.getLegalPacmanActions(), s.getGhostStates(), s.getGhostPositions(), s.getScore(), s.getCapsules(), s.getNumFood()
    s.getFood().count(), s.getFood().asList(), s.getFood().packBits(), s.getWalls().asList(), s.hasFood(1, 1), s.hasWall(0, 0), s.isWin(), s.isLose()
    for a in s.data.agentStates:
        hash(a), str(a), a == a
        c = a.configuration
        hash(c), str(c), c.isInteger(), c.generateSuccessor((1, 0)), c.generateSuccessor((0, -1.0))
    hash(s.data), s.getFood().copy()[1][1:2], hash(s.getFood()), str(s.getFood())
    for i in range(1, n):
        g = pac.ghostAgents.DirectionalGhost(i) if rng.random() < .5 else pac.ghostAgents.RandomGhost(i)
        g.getDistribution(s), g.getAction(s)


def vandalise(rng, s):
    """edits everything reachable from a deep copy"""
    d = s.data
    for _ in range(rng.randint(1, 4)):
        k = rng.randrange(9)
        a = rng.choice(d.agentStates)
        if k == 0:
            x, y = rng.randrange(d.food.width), rng.randrange(d.food.height)
            d.food[x][y] = not d.food[x][y]
        elif k == 1:
            d.capsules.append((1, 1))
        elif k == 2:
            a.configuration.pos = (50, 50)
        elif k == 3:
            a.configuration.direction = "West" if a.configuration.direction != "West" else "East"
        elif k == 4:
            a.scaredTimer += 5
        elif k == 5:
            d.score += 1000
        elif k == 6:
            x, y = rng.randrange(d.food.width), rng.randrange(d.food.height)
            d.layout.walls[x][y] = not d.layout.walls[x][y]
        elif k == 7:
            a.start.pos = (60, 60)
        else:
            d.agentStates.reverse()


class C23(Prop):
    id = "C23"
    rule = ("case = a pool of up to 14 live states of one or two games grown by computing successors, deep copies and queries in random order; after every operation "
            "every pooled state is observed again in full and compared with what it was when first seen, equal states must give equal successors, deep copies are "
            "compared and then edited in place; non-trivial when the pool held a state with a scared, caught or eaten event; distinct by board and operations")
    cases = {"quick": 5200, "thorough": 42000}
    need = {"op": 30000, "edited_moves": 5000, "reobserved": 300000, "deepcopy": 4000, "vandalised": 2000, "equal_pair": 5000, "unequal_pair": 20000, "same_move": 3000,
            "terminal_copy": 100, "caught": 150, "capsule": 300, "explored": 2000, "late_start": 400, "late_scare": 50, "large_board": 60, "by_constructor": 2000, "many_capsules": 250}
    assumptions = ["states are edited only through deep copies the caller made"]

    def check(self, mon, pool):
        for s, was, h in pool:
            now = pac.snap(s)
            if now != was:
                mon.fail("a state changed: " + "; ".join(f"{a!r} -> {b!r}" for a, b in zip(was, now) if a != b)[:1500])
            mon.checks += 1
            mon.event("reobserved")
            mon.eq(hash(s), h, "hash of an unchanged state")

    def pair(self, mon, a, b):
        same = content(a) == content(b)
        mon.eq((a == b, b == a, a != b), (same, same, not same), lambda: f"equality of states {content(a)} and {content(b)}")
        if same:
            mon.eq(hash(a), hash(b), "hash of equal states")
            mon.eq(len({a, b}), 1, "equal states in a set")
            mon.event("equal_pair")
        else:
            mon.event("unequal_pair")

    def variants(self, mon, rng, s):
        """a deep copy changed in exactly one respect is unequal"""
        c = s.deepCopy()
        d = c.data
        a = rng.choice(d.agentStates)
        k = rng.randrange(6)
        if k == 0:
            a.configuration = pac.game.Configuration((a.configuration.pos[0] + .5, a.configuration.pos[1]), a.configuration.direction)
        elif k == 1:
            a.configuration = pac.game.Configuration(a.configuration.pos, rng.choice([x for x in pac.DIRS if x != a.configuration.direction]))
        elif k == 2:
            a.scaredTimer += rng.choice([1, -1, 40])
        elif k == 3:
            x, y = rng.randrange(d.food.width), rng.randrange(d.food.height)
            d.food[x][y] = not d.food[x][y]
        elif k == 4:
            if d.capsules and rng.random() < .5:
                d.capsules.pop()
            else:
                d.capsules.append((1, 1))
        else:
            d.score += rng.choice([1, -1, 500, 2 ** 8, -2 ** 16, 2 ** 31 - 1, 2 ** 32, 2 ** 61 - 1, 10 ** 20])
        self.pair(mon, s, c)
        mon.event("by_constructor")
        self.pair(mon, s, pac.pacman.GameState(s))
        mon.ok(not (s == c), "a state equals one that differs in one respect", k)

    def case(self, mon, rng, i, tier):
        text = pac.board(rng, (4, 9), (3, 7), (0, 4), caps=rng.choice([0, 1, 3, rng.randint(4, 12)])) if i % 40 else pac.big(rng, ghosts=(1, 9), caps=rng.choice([1, 4, 12, 30]))
        mon.event("large_board", not i % 40)
        mon.event("many_capsules", sum(r.count("o") for r in text) > 4)
        texts = [text] + ([pac.board(rng, (4, 7), (3, 6), (0, 3))] if rng.random() < .3 else [])
        lay = [pac.layout.Layout(list(t)) for t in texts]
        pool, ops = [], []
        flags = set()

        def add(s):
            if len(pool) >= 14:
                pool.pop(rng.randrange(1, len(pool)))
            pool.append((s, pac.snap(s), hash(s)))

        for x in lay * rng.choice([1, 2]):
            s = pac.pacman.GameState()
            s.initialize(x, rng.choice([1000, 2]))
            add(s)
        style = rng.choice(["walk", "tree"])
        for old in pool[:] if rng.random() < .4 else []:   # later moments of the game: after a long walk, or near the end of a scare
            s = old[0]
            b = pac.Board(texts[lay.index(s.data.layout)])
            for _ in range(rng.randint(1, 60)):
                caps = set(s.getCapsules())
                legal = s.getLegalActions(0)
                if not legal or not caps:
                    break
                mv = pac.toward(b, pac.grid(s.getPacmanPosition()), caps)
                s = s.generateSuccessor(0, mv if mv in legal else rng.choice(legal))
            for k in range(1, s.getNumAgents()):
                for _ in range(rng.choice([0, rng.randint(0, 42), 38, 39])):
                    legal = s.getLegalActions(k)
                    if not legal:
                        break
                    s = s.generateSuccessor(k, rng.choice(legal))
            mon.event("late_start")
            mon.event("late_scare", any(0 < a.scaredTimer < 4 for a in s.data.agentStates))
            add(s)
        pac.pacman.GameState.getAndResetExplored()
        for t in range(rng.choice([12, 40])):
            s, was, h = pool[-1] if style == "walk" and rng.random() < .7 else rng.choice(pool)
            n = s.getNumAgents()
            op = rng.random()
            if op < .62:
                a = rng.randrange(n) if rng.random() < .5 else (0 if s.data._agentMoved is None else (s.data._agentMoved + 1) % n)
                legal = s.getLegalActions(a)
                if rng.random() < .25:      # the answer belongs to the caller
                    took, legal = legal, list(legal)
                    took.clear() if rng.random() < .5 else took.append("Up")
                    mon.eq(sorted(s.getLegalActions(a)), sorted(legal), f"legal moves of agent {a} after the caller edited the list it was given")
                    mon.event("edited_moves")
                if not legal:
                    ok, r = attempt(s.generateSuccessor, a, "Stop")
                    ops.append("refused")
                else:
                    if a == 0 and rng.random() < .6:
                        f = set(s.getCapsules()) or pac.cells(s.getFood())
                        b = pac.Board(texts[0])
                        mv = pac.toward(b, pac.grid(s.getPacmanPosition()), f) if s.data.layout is lay[0] else None
                        mv = mv if mv in legal else rng.choice(legal)
                    else:
                        mv = rng.choice(legal)
                    r = mon.accepted(attempt(s.generateSuccessor, a, mv), f"legal move {mv} of agent {a}")
                    ops.append((a, mv))
                    mon.log("successor", a, mv)
                    if r.data._capsuleEaten:
                        mon.event("capsule")
                        flags.add("capsule")
                    if r.data.score - s.data.score >= 190 and not r.isWin():
                        mon.event("caught")
                        flags.add("caught")
                    add(r)
                    mon.ok(r is not s, "the successor is the state itself")
                    mon.eq(r.data._agentMoved, a, "agent that moved")
                    if rng.random() < .5:
                        ex = pac.pacman.GameState.explored
                        mon.ok(s in ex and r in ex, "state and successor are reported as explored")
                        mon.event("explored")
                    # the same move from the same and from an equal state
                    r2 = s.generateSuccessor(a, mv)
                    c = s.deepCopy().generateSuccessor(a, mv)
                    mon.eq(pac.snap(r2), pac.snap(r), "the same move from the same state")
                    mon.eq(pac.snap(c), pac.snap(r), "the same move from a copy of the state")
                    mon.event("same_move")
            elif op < .8:
                c = s.deepCopy()
                ops.append("copy")
                mon.log("deep copy")
                mon.event("deepcopy")
                mon.eq(pac.snap(c), pac.snap(s), "deep copy against its original")
                mon.ok(c == s and hash(c) == hash(s), "deep copy equals its original")
                mon.eq([sorted(c.getLegalActions(k)) for k in range(n)], [sorted(s.getLegalActions(k)) for k in range(n)], "legal moves of a deep copy")
                if s.isWin() or s.isLose():
                    mon.event("terminal_copy")
                    mon.refused(attempt(c.generateSuccessor, 0, "Stop"), "move in a copy of a finished game")
                if rng.random() < .3:
                    add(c)
                elif rng.random() < .8:
                    c2 = c.deepCopy()
                    vandalise(rng, c)
                    mon.event("vandalised")
                    mon.eq(pac.snap(c2), was, "copy of a copy after editing the first copy")
            elif op < .9:
                queries(rng, s)
                ops.append("query")
                mon.log("queries")
            else:
                self.variants(mon, rng, s)
                ops.append("variant")
            mon.event("op")
            self.check(mon, pool)
            o = rng.choice(pool)[0]
            self.pair(mon, s, o)
            self.pair(mon, s, s.deepCopy())
        # boards the games were started from are untouched
        for x, tx in zip(lay, texts):
            b = pac.Board(tx)
            mon.eq((pac.cells(x.walls), pac.cells(x.food), list(x.capsules), list(x.layoutText)), (b.walls, b.food, [(cx, cy) for cy in range(b.h) for cx in range(b.w) if (cx, cy) in b.caps], tx), "board after the games")
        pac.pacman.GameState.getAndResetExplored()
        if flags:
            mon.nontrivial(repr((texts, ops)))
        mon.sample({"boards": texts, "operations": [str(o) for o in ops][:20]})


PROP = C23()
