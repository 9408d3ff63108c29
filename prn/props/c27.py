import random
import sys
import types
from fractions import Fraction

from .. import pac
from ..base import Prop
from ..lib import attempt
from .c26 import Draws, TOP

KEYS = {"a": "West", "d": "East", "w": "North", "s": "South", "Left": "West", "Right": "East", "Up": "North", "Down": "South"}
KEYS2 = {"j": "West", "l": "East", "i": "North", "k": "South"}


class Keyboard(types.ModuleType):
    """stands in for the window's key queue"""
    def __init__(self):
        super().__init__("graphicsUtils")
        self.waiting, self.pressed, self.asked = [], [], 0

    def keys_waiting(self):
        self.asked += 1
        w, self.waiting = self.waiting, []
        return w

    def keys_pressed(self):
        return list(self.pressed)


def near(sim, i, a):
    sp = Fraction(1, 2) if sim.timer[i] else 1
    return abs(Fraction(sim.pos[i][0]) + pac.VEC[a][0] * sp - Fraction(sim.pos[0][0])) + abs(Fraction(sim.pos[i][1]) + pac.VEC[a][1] * sp - Fraction(sim.pos[0][1]))


class C27(Prop):
    id = "C27"
    rule = ("case = positions met in a game (ghosts scared, between grid points, walled in, after the end) in which every ghost's distribution is compared with exact "
            "fractions and its choice with injected draws, plus a keyboard history (held, queued, several, unknown and stop keys) driven through a stand-in for the "
            "window and compared with what the keys ask for; non-trivial when a ghost was scared and a key was held; distinct by board and moves")
    cases = {"quick": 8000, "thorough": 64000}
    need = {"random": 20000, "directional": 20000, "scared": 3000, "between": 1500, "no_move": 300, "tie": 3000, "draw": 20000, "keyboard": 20000, "asked_legal": 5000,
            "kept": 2000, "stop_key": 1500, "several": 700, "forced": 20, "second_player": 5000, "quiet_keys": 2000, "all_best": 2000, "none_best": 1000, "last_scared": 1000, "keyed_ghost": 10000, "many_keys": 200}
    assumptions = ["shares between 0 and 1", "when several held keys ask for legal moves any of them may be returned",
                   "keys stay in force until other keys are pressed, as the window reports only key events"]

    def ghosts(self, mon, rng, s, m, crew):
        if rng.random() < .3 and not (m.win or m.lose):       # any moment of a scare
            s, m = s.deepCopy(), m.copy()
            for i in range(1, len(m.pos)):
                if m.on_grid(i) or m.timer[i]:
                    m.timer[i] = rng.choice([0, 1, 1, 2, 39, 40] if m.on_grid(i) else [1, 2, 39, 40])
                    s.data.agentStates[i].scaredTimer = m.timer[i]
                    mon.event("last_scared", m.timer[i] == 1 and m.on_grid(i))
        for i in range(1, len(m.pos)):
            legal = sorted(m.legal(i))
            if i not in crew or rng.random() < .1:      # the same agents for many positions
                pa, pf = rng.choice([0, 1, .8, .5, .25]), rng.choice([0, 1, .8, .5, .125])
                crew[i] = (pa, pf, pac.ghostAgents.RandomGhost(i), pac.ghostAgents.DirectionalGhost(i), pac.ghostAgents.DirectionalGhost(i, prob_attack=pa, prob_scaredFlee=pf))
            pa, pf, r1, d1, d2 = crew[i]
            agents = [("random", r1, None), ("directional", d1, Fraction(.8)), ("directional", d2, Fraction(pf if m.timer[i] else pa))]
            if not legal:
                mon.event("no_move")
            if m.timer[i]:
                mon.event("scared")
            if not m.on_grid(i):
                mon.event("between")
            for kind, g, share in agents:
                mon.event(kind)
                dist = mon.accepted(attempt(g.getDistribution, s), f"distribution of a {kind} ghost at {m.pos[i]} with moves {legal}")
                if legal:
                    n = len(legal)
                    if share is None:
                        want = {a: Fraction(1, n) for a in legal}
                    else:
                        ds = {a: near(m, i, a) for a in legal}
                        best = (max if m.timer[i] else min)(ds.values())
                        top = [a for a in legal if ds[a] == best]
                        want = {a: (share / len(top) if a in top else 0) + (1 - share) / n for a in legal}
                        if 1 < len(top):
                            mon.event("tie")
                        mon.event("all_best", share == 1)
                        mon.event("none_best", share == 0)
                    mon.ok(set(a for a in dist if dist[a]) <= set(legal), lambda: f"{kind} ghost with legal moves {legal} chooses from {dict(dist)}")
                    for a in legal:
                        mon.close(float(dict.get(dist, a, 0)), want[a], f"{kind} ghost at {m.pos[i]}, timer {m.timer[i]}, Pacman at {m.pos[0]}, share {share}: probability of {a}", 1e-9)
                    mon.close(float(sum(dist.values())), 1, "sum of the probabilities")
                else:
                    want = {}
                    mon.eq(dict(dist), {}, "distribution without legal moves")
                for r in (rng.random(), rng.choice([TOP, 2.0 ** -53, rng.random()])):
                    with Draws([r]):
                        a = mon.accepted(attempt(g.getAction, s), f"choice of a {kind} ghost")
                    if legal:
                        mon.ok(a in legal and (want[a] > 0 or r > 1 - 1e-12), lambda: f"{kind} ghost chose {a!r} with draw {r}, probabilities {want}")
                    else:
                        mon.eq(a, "Stop", "choice without legal moves")
                    mon.event("draw")

    def case(self, mon, rng, i, tier):
        kb = Keyboard()
        old = sys.modules.get("graphicsUtils")
        sys.modules["graphicsUtils"] = kb
        try:
            self.play(mon, rng, kb)
        finally:
            if old is None:
                sys.modules.pop("graphicsUtils", None)
            else:
                sys.modules["graphicsUtils"] = old
            pac.pacman.GameState.getAndResetExplored()

    def keyed_ghosts(self, mon, rng, s, m, kb, typists):
        """ghosts moved from the keyboard"""
        for i in range(1, len(m.pos)):
            legal = m.legal(i)
            if not legal:
                continue
            if i not in typists:
                second = rng.random() < .5
                typists[i] = [(pac.keyboardAgents.KeyboardAgent2 if second else pac.keyboardAgents.KeyboardAgent)(i), KEYS2 if second else KEYS, "Stop", []]
            ag, table, last, force = typists[i]
            press = rng.sample(sorted(table), rng.choice([0, 0, 1, 1, 2])) + rng.choice([[], [], [], ["u" if table is KEYS2 else "q"]])
            kb.waiting, kb.pressed = [], list(press)
            force = press or force
            st = random.getstate()
            random.seed(rng.random())
            a = mon.accepted(attempt(ag.getAction, s), f"keyboard agent as ghost {i}")
            random.setstate(st)
            ctx = f"ghost {i}, keys {force} (pressed now {press}), last move {last}, legal {sorted(legal)}"
            mon.ok(a in legal, lambda: f"keyboard agent returned illegal {a!r}: {ctx}")
            asked = {table[k] for k in force if k in table} & legal
            if asked:
                mon.ok(a in asked, lambda: f"keyboard agent returned {a!r}: {ctx}")
            elif last in legal:
                mon.eq(a, last, f"keeps the last move, {ctx}")
            typists[i][2:] = [a, force]
            mon.event("keyed_ghost")

    def play(self, mon, rng, kb):
        text = pac.board(rng, (4, 10), (3, 8), (0, 4), caps=rng.choice([1, 3]), density=rng.choice([0, .2, .5]))
        s, m = pac.start(text), pac.Sim(pac.Board(text))
        second = rng.random() < .3
        ag = pac.keyboardAgents.KeyboardAgent2() if second else pac.keyboardAgents.KeyboardAgent()
        table, stop = (KEYS2, "u") if second else (KEYS, "q")
        crew, typists = {}, {}
        last, force, moves, scared, held = "Stop", [], [], False, False
        mon.log("board", text, "second player" if second else "first player")
        styles = [rng.choice(pac.GHOST) for _ in m.pos]
        pilot = rng.choice(["random", "capsule", "hunt", "patient"])
        for t in range(rng.choice([10, 40])):
            self.ghosts(mon, rng, s, m, crew)
            self.keyed_ghosts(mon, rng, s, m, kb, typists)
            if m.win or m.lose:
                break
            scared |= any(m.timer[1:])
            legal = m.legal(0)
            # keys of this turn
            r = rng.random()
            if r < .3:
                press = []
            elif r < .75:
                d = pac.choose(rng, m, 0, pilot) or "Stop"
                press = [rng.choice([k for k, v in table.items() if v == d] or [stop])]
            elif r < .85:
                press = rng.sample(sorted(table), rng.choice([2, 2, 2, 3, 4]))
                if rng.random() < .3:
                    press = rng.sample(["x", "y", "z", "Escape", "F1", "1", "2"], rng.randint(2, 7)) + press
                    mon.event("many_keys")
            else:
                press = [rng.choice([stop, "x", "Escape", rng.choice(sorted(table)), "a", "j"])]
            if rng.random() < .1:
                press.append(stop)
            kb.waiting, kb.pressed = [], []
            for k in press:
                (kb.waiting if rng.random() < .5 else kb.pressed).append(k)
            if press:
                force = list(press)
                held = True
            else:
                mon.event("quiet_keys")
            asked = {table[k] for k in force if k in table}
            st = random.getstate()
            random.seed(rng.random())
            a = mon.accepted(attempt(ag.getAction, s), "keyboard agent")
            random.setstate(st)
            mon.event("keyboard")
            if second:
                mon.event("second_player")
            ctx = f"keys {force} (pressed now {press}), last move {last}, legal {sorted(legal)}"
            mon.ok(a in legal, lambda: f"keyboard agent returned illegal {a!r}: {ctx}")
            if stop in force:
                mon.eq(a, "Stop", f"stop key, {ctx}")
                mon.event("stop_key")
            elif asked & legal:
                mon.ok(a in asked & legal, lambda: f"keyboard agent returned {a!r}: {ctx}")
                mon.event("asked_legal")
                mon.event("several", len(asked & legal) > 1)
            elif last in legal:
                mon.eq(a, last, f"keeps the last move, {ctx}")
                mon.event("kept")
            elif asked:
                mon.event("forced")
            last = a
            mon.log("keys", press, "->", a)
            for k in range(len(m.pos)):
                if m.win or m.lose:
                    break
                mv = a if k == 0 else pac.choose(rng, m, k, styles[k])
                if mv is None:
                    continue
                s = s.generateSuccessor(k, mv)
                m.step(k, mv)
                moves.append((k, mv))
                if k and rng.random() < .2:
                    self.ghosts(mon, rng, s, m, crew)
        self.ghosts(mon, rng, s, m, crew)
        if scared and held:
            mon.nontrivial(repr((text, moves)))
        mon.sample({"board": text, "moves": [str(x) for x in moves[:12]]})


PROP = C27()
