from .. import pac
from ..base import Prop
from ..lib import attempt


def score_view(s):
    return (s.getScore(), s.data.score, frozenset(pac.cells(s.getFood())), s.getNumFood(), sorted(s.getCapsules()), s.isWin(), s.isLose())


def want_view(m):
    return (float(m.score), m.score, frozenset(m.food), len(m.food), sorted(m.caps), m.win, m.lose)


def printed(m):
    at = dict.fromkeys(m.b.walls, "%")
    at.update(dict.fromkeys(m.food, "."))
    for k, (x, y) in enumerate(m.pos):
        at[int(x + .5), int(y + .5)] = "G" if k else {"North": "v", "South": "^", "West": ">"}.get(m.dir[0], "<")
    at.update(dict.fromkeys(m.caps, "o"))
    return "\n".join("".join(at.get((x, y), " ") for x in range(m.b.w)) for y in range(m.b.h - 1, -1, -1)) + f"\nScore: {m.score}\n"


class C21(Prop):
    id = "C21"
    rule = ("case = one board (random closed maze, 0-5 ghosts) played for up to 400 moves under a random mix of hostile, greedy and random policies, in strict or "
            "arbitrary turn order, with all alternatives of some positions expanded too; after every move score, food, capsules, won and lost are compared with "
            "reference rules run in parallel; non-trivial when a capsule, a catch, a win or a loss occurred; distinct by board and moves")
    cases = {"quick": 8000, "thorough": 64000}
    need = {"move": 60000, "pellet": 5000, "win": 300, "lose": 300, "capsule": 600, "caught": 300, "win_under_attack": 4, "terminal_refused": 2000,
            "branch": 20000, "double_kill": 5, "caught_by_pacman": 100, "ran_into_pacman": 50, "recovered": 100, "snap": 5, "shipped_board": 8, "printed": 15000, "large_board": 8, "large_won": 2, "waited": 2500, "large_score": 150}
    assumptions = ["boards are closed by walls and have one Pacman, as every board shipped with the demo"]

    def fixed(self):
        return [self.medium] * 8 + [self.large] * 16 + [self.waiting] * 4

    def medium(self, mon, rng):
        """games on the board shipped with the demo"""
        text = pac.shipped()
        s, m = pac.start(text), pac.Sim(pac.Board(text))
        ps, gs = rng.choice(["food", "smart", "patient"]), [rng.choice(["flee", "random"]) for _ in m.pos]
        for t in range(1500):
            if m.win or m.lose:
                self.terminal(mon, s, m)
                break
            a = t % len(m.pos)
            s, m, ev = self.follow(mon, s, m, a, pac.choose(rng, m, a, ps if a == 0 else gs[a]))
        mon.event("shipped_board")

    def large(self, mon, rng):
        """games on boards larger than the shipped one, up to the last of hundreds of pellets"""
        text = pac.big(rng, food=(.2, .9), caps=rng.choice([1, 4, 12]), ghosts=rng.choice([(0, 0), (1, 2), (5, 9)]))
        s, m = pac.start(text), pac.Sim(pac.Board(text))
        mon.log("board", text)
        mon.eq(score_view(s), want_view(m), "opening state")
        ps, gs = rng.choice(["food", "food", "smart"]), [rng.choice(["flee", "random"]) for _ in m.pos]
        for t in range(2500):
            if m.win or m.lose:
                self.terminal(mon, s, m)
                mon.event("large_won", m.win)
                break
            a = t % len(m.pos)
            mv = pac.choose(rng, m, a, ps if a == 0 else gs[a])
            if mv:
                s, m, ev = self.follow(mon, s, m, a, mv)
        mon.event("large_board")
        pac.pacman.GameState.getAndResetExplored()

    def waiting(self, mon, rng):
        """a Pacman that waits for thousands of moves"""
        text = pac.board(rng, (3, 5), (3, 5), (0, 0))
        s, m = pac.start(text), pac.Sim(pac.Board(text))
        for t in range(rng.choice([1200, 3000, 12000])):
            s, m, ev = self.follow(mon, s, m, 0, "Stop")
        mon.eq(str(s), printed(m), "printed state")
        mon.event("waited", t)
        pac.pacman.GameState.getAndResetExplored()

    def terminal(self, mon, s, m):
        for i in range(len(m.pos)):
            mon.eq(s.getLegalActions(i), [], "legal moves after the end of the game")
            for a in pac.DIRS:
                mon.refused(attempt(s.generateSuccessor, i, a), f"move {a} of agent {i} after the end of the game")
                mon.event("terminal_refused")
        mon.eq(score_view(s), want_view(m), "state after refused moves")

    def follow(self, mon, s, m, i, a):
        n = mon.accepted(attempt(s.generateSuccessor, i, a), f"legal move {a} of agent {i}")
        m = m.copy()
        before = m.score
        ev = m.step(i, a)
        mon.eq(score_view(n), want_view(m), lambda: f"score, food, capsules, won, lost after agent {i} moves {a} (events {sorted(ev)}, score before {before})")
        mon.ok(not (n.isWin() and n.isLose()), "both won and lost")
        if (m.score + len(m.food)) % 8 == 0:
            mon.eq(str(n), printed(m), "printed state")
            mon.event("printed")
        for e in ev:
            mon.event(e)
        mon.event("move")
        return n, m, ev

    def case(self, mon, rng, i, tier):
        kind = rng.random()
        if kind < .25:
            text = pac.board(rng, (4, 7), (3, 4), (1, 5), density=0, caps=rng.choice([1, 2]))
        elif kind < .4:
            text = pac.board(rng, (4, 6), (4, 6), (1, 6), food=(.01, .1), density=0, caps=rng.choice([0, 1]))
        elif kind < .6:
            text = pac.board(rng, (6, 12), (5, 9), (1, 3), caps=rng.choice([2, 4, 8]))
        else:
            text = pac.board(rng)
        ng = rng.choice([None, None, 1, 2])
        s = pac.start(text, 1000 if ng is None else ng)
        m = pac.Sim(pac.Board(text), ng)
        mon.log("board", text, ng)
        if rng.random() < .06:      # as after a very long and very good, or very bad, game
            m.score = s.data.score = rng.choice([1, -1]) * rng.choice([rng.randint(900, 2000), rng.randint(5000, 20000), 10 ** 5, 10 ** 6, 2 ** 31 - 1, 2 ** 40])
            mon.event("large_score")
        mon.eq(score_view(s), want_view(m), "opening state")
        ps, gs = rng.choice(pac.PAC), [rng.choice(pac.GHOST) for _ in m.pos]
        if .4 <= kind < .6:
            ps, gs = "patient", [rng.choice(["flee", "flee", "random"]) for _ in m.pos]
        strict = rng.random() < .75
        seen, moves = set(), []
        k = 0
        for t in range(rng.choice([40, 150, 400])):
            if m.win or m.lose:
                self.terminal(mon, s, m)
                break
            a = k if strict else rng.randrange(len(m.pos))
            k = (k + 1) % len(m.pos)
            style = ps if a == 0 else gs[a]
            if rng.random() < .02:
                ps = rng.choice(pac.PAC)
            if rng.random() < .1:
                # every alternative of this position
                for j in range(len(m.pos)):
                    for mv in sorted(m.legal(j)):
                        n2, m2, ev = self.follow(mon, s, m, j, mv)
                        mon.event("branch")
                        if m2.win or m2.lose:
                            self.terminal(mon, n2, m2)
                mon.eq(score_view(s), want_view(m), "state whose alternatives were expanded")
            mv = pac.choose(rng, m, a, style)
            if mv is None:
                continue
            moves.append((a, mv))
            mon.log(a, mv)
            s, m, ev = self.follow(mon, s, m, a, mv)
            seen |= ev
        if seen & {"capsule", "caught", "win", "lose"}:
            mon.nontrivial(repr((text, moves)))
        pac.pacman.GameState.getAndResetExplored()
        mon.sample({"board": text, "moves": len(moves), "score": m.score, "won": m.win, "lost": m.lose})


PROP = C21()
