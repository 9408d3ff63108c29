from .. import pac
from ..base import Prop
from ..lib import attempt


def view(s):
    return [(a.getPosition(), a.getDirection(), a.scaredTimer) for a in s.data.agentStates]


class C22(Prop):
    id = "C22"
    rule = ("case = one board played for up to 400 moves; before every move the legal moves of every agent are compared with those worked out from the walls, "
            "moves outside the list (other directions, unknown words, None) are tried and must be refused without a trace, after every accepted move "
            "position, direction and scared timer of every agent are compared with reference rules, and no agent may touch a wall cell; non-trivial when a ghost "
            "was scared or turned back; distinct by board and moves")
    cases = {"quick": 6000, "thorough": 60000}
    need = {"move": 60000, "refused_move": 60000, "between": 4000, "reverse_only": 500, "no_move": 20, "stopped": 1000, "recovered": 60, "snap": 5,
            "caught": 300, "scared_move": 4000, "shipped_board": 8, "rescared": 100, "large_board": 4}
    assumptions = ["boards are closed by walls and have one Pacman, as every board shipped with the demo"]

    def agents(self, mon, s, m, what):
        mon.eq(view(s), list(zip(m.pos, m.dir, m.timer)), what)
        mon.eq(s.getNumAgents(), len(m.pos), "number of agents")
        mon.eq((s.getPacmanPosition(), s.getPacmanState().getPosition(), s.getPacmanState().getDirection()), (m.pos[0], m.pos[0], m.dir[0]), "Pacman's position")
        mon.eq(s.getGhostPositions(), m.pos[1:], "ghost positions")
        for i in range(1, len(m.pos)):
            g = s.getGhostState(i)
            mon.eq((s.getGhostPosition(i), g.getPosition(), g.getDirection(), g.scaredTimer, g.isPacman), (m.pos[i], m.pos[i], m.dir[i], m.timer[i], False), f"ghost {i}")
        w = s.getWalls()
        for x, y in (a.getPosition() for a in s.data.agentStates):
            for cx in {int(x), int(x + .5)}:
                for cy in {int(y), int(y + .5)}:
                    mon.ok(0 <= cx < m.b.w and 0 <= cy < m.b.h and (cx, cy) not in m.b.walls and not w[cx][cy] and not s.hasWall(cx, cy),
                           lambda: f"agent at {(x, y)} is inside the wall at {(cx, cy)} ({what})")

    def legal(self, mon, rng, s, m):
        for i in range(len(m.pos)):
            got, want = s.getLegalActions(i), m.legal(i)
            mon.eq(sorted(got), sorted(want), lambda: f"legal moves of agent {i} at {m.pos[i]} heading {m.dir[i]}")
            if i == 0:
                mon.eq(sorted(s.getLegalPacmanActions()), sorted(want), "legal moves of Pacman")
            if not (m.win or m.lose):
                if not want:
                    mon.event("no_move")
                if not m.on_grid(i):
                    mon.event("between")
                if i and want == {pac.BACK[m.dir[i]]} and m.on_grid(i):
                    mon.event("reverse_only")
            if rng.random() < .3:
                for a in pac.DIRS + rng.choice([(), ("north", None, "", "Up", 0)]):
                    if a not in want:
                        mon.refused(attempt(s.generateSuccessor, i, a), lambda: f"move {a!r} of agent {i} at {m.pos[i]} heading {m.dir[i]}, legal {want}")
                        mon.event("refused_move")
                self.agents(mon, s, m, "agents after a refused move")

    def follow(self, mon, s, m, i, a, ctx=None):
        n = mon.accepted(attempt(s.generateSuccessor, i, a), f"legal move {a} of agent {i}")
        m = m.copy()
        before = m.timer[i]
        scared = any(m.timer[1:])
        ev = m.step(i, a)
        self.agents(mon, n, m, lambda: f"agents after agent {i} moves {a}")
        if i and before:
            mon.event("scared_move")
        if a == "Stop":
            mon.event("stopped")
        if "capsule" in ev and scared:
            mon.event("rescared")
        for e in ev & {"recovered", "snap", "caught"}:
            mon.event(e)
        mon.event("move")
        return n, m, ev

    def fixed(self):
        return [self.medium] * 8 + [self.large] * 8

    def large(self, mon, rng):
        return self.medium(mon, rng, pac.big(rng, caps=rng.choice([2, 6, 20]), ghosts=(4, 9)))

    def medium(self, mon, rng, text=None):
        large = text is not None
        text = text or pac.shipped()
        s, m = pac.start(text), pac.Sim(pac.Board(text))
        for t in range(800):
            if m.win or m.lose:
                break
            a = t % len(m.pos)
            self.legal(mon, rng, s, m)
            s, m, ev = self.follow(mon, s, m, a, pac.choose(rng, m, a, "patient" if a == 0 else "flee"))
        mon.event("large_board" if large else "shipped_board")

    def case(self, mon, rng, i, tier):
        kind = rng.random()
        if kind < .2:
            text = pac.board(rng, (4, 7), (3, 4), (1, 5), density=0, caps=rng.choice([1, 2]))
        elif kind < .55:
            text = pac.board(rng, (6, 12), (5, 9), (1, 3), caps=rng.choice([2, 4, 8]))
        elif kind < .7:
            text = pac.board(rng, (5, 12), (5, 9), (1, 6), density=.5)
        else:
            text = pac.board(rng)
        ng = rng.choice([None, None, 1, 2])
        s = pac.start(text, 1000 if ng is None else ng)
        m = pac.Sim(pac.Board(text), ng)
        mon.log("board", text, ng)
        self.agents(mon, s, m, "opening state")
        ps, gs = rng.choice(pac.PAC), [rng.choice(pac.GHOST) for _ in m.pos]
        if .2 <= kind < .55:
            ps, gs = "patient", [rng.choice(["flee", "flee", "random"]) for _ in m.pos]
        strict = rng.random() < .7
        seen, moves, k = set(), [], 0
        for t in range(rng.choice([30, 120, 300])):
            self.legal(mon, rng, s, m)
            if m.win or m.lose:
                break
            a = k if strict else rng.randrange(len(m.pos))
            k = (k + 1) % len(m.pos)
            if rng.random() < .02:
                ps = rng.choice(pac.PAC)
            mv = pac.choose(rng, m, a, ps if a == 0 else gs[a])
            if mv is None:
                continue
            moves.append((a, mv))
            mon.log(a, mv)
            s, m, ev = self.follow(mon, s, m, a, mv)
            seen |= ev
        if seen & {"capsule", "caught", "recovered"} or len(moves) > 60:
            mon.nontrivial(repr((text, moves)))
        pac.pacman.GameState.getAndResetExplored()
        mon.sample({"board": text, "moves": len(moves), "agents": view(s)})


PROP = C22()
