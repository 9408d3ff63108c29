import contextlib
import io
import os
import pickle
import random
import shutil
import sys
import tempfile
import types
from fractions import Fraction

from .. import pac
from ..base import Prop
from ..lib import attempt
from . import c28       # noqa: F401  (registers the stand-in for tkinter)
from .c28 import graphicsDisplay

text = types.ModuleType("textDisplay")      # not shipped with the demo


class NullGraphics:
    made = []

    def __init__(self):
        self.states, self.ended = [], 0
        NullGraphics.made.append(self)

    def initialize(self, data, isBlue=False):
        self.states = [data.score]

    def update(self, data):
        self.states.append(data.score)

    def finish(self):
        self.ended += 1


class PacmanGraphics(NullGraphics):
    pass


text.NullGraphics, text.PacmanGraphics, text.SLEEP_TIME = NullGraphics, PacmanGraphics, None
sys.modules["textDisplay"] = text

AGENT = """import random
class {cls}:
    where = {where!r}
    def __init__(self, *args, **opts):
        self.args, self.opts = args, opts
        self.luck = random.random() if args or opts else None
"""


@contextlib.contextmanager
def place():
    """a scratch folder tree to run in; everything process-wide is put back"""
    home, path, env, mods = os.getcwd(), list(sys.path), os.environ.get("PYTHONPATH"), set(sys.modules)
    top = tempfile.mkdtemp(dir=os.environ.get("PRN_SCRATCH"))
    try:
        os.chdir(top)
        yield top
    finally:
        os.chdir(home)
        sys.path[:] = path
        if env is None:
            os.environ.pop("PYTHONPATH", None)
        else:
            os.environ["PYTHONPATH"] = env
        for m in set(sys.modules) - mods:
            if m.endswith("gents"):
                del sys.modules[m]
        shutil.rmtree(top, ignore_errors=True)


def asked(f, *a):
    """like attempt; a command line that is turned down ends the program"""
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        try:
            return attempt(f, *a)
        except SystemExit as e:
            return False, e


class C31(Prop):
    id = "C31"
    rule = ("case = one random command line (boards and agent modules laid out in scratch folders, options short, long or absent) read by the real parser and compared with "
            "what it asks for, one that must be turned down, and a series of games with scripted agents and training games whose games, displays, records and printed "
            "summary are compared with the games seen by the agents; non-trivial when agent options were passed or the series mixed results; distinct by command line and series")
    cases = {"quick": 2400, "thorough": 24000}
    need = {"read": 1200, "agent_options": 500, "own_ghosts": 300, "text": 100, "quiet": 100, "window": 500, "seeded": 300, "unknown_board": 150, "unknown_agent": 150, "junk": 150,
            "keyboard_text": 100, "shadowed": 150, "broken_module": 150, "series": 900, "training": 500, "only_training": 80, "won": 500, "won_below_zero": 20, "lost": 300, "crashed": 60, "recorded": 300, "escaped": 50,
            "fewer_agents": 150, "demo": 1, "long_series": 20, "long_record": 8}
    assumptions = ["the text display, which is not shipped, is replaced by a stand-in with the interface the code uses"]
    case_limit = 120

    def fixed(self):
        def demo(mon, rng):
            home, got = os.getcwd(), []
            real, keep = pac.pacman.runGames, sys.modules.pop("demo", None)
            pac.pacman.runGames = lambda *a, **k: got.append((a, k))
            try:
                os.chdir(pac.DEMO)
                import demo as d
                mon.ok(os.path.realpath(d.__file__).startswith(os.path.realpath(pac.DEMO)), "demo module", d.__file__)
                mon.accepted(asked(d.main), "starting the demo")
            finally:
                os.chdir(home)
                pac.pacman.runGames = real
                sys.modules.pop("demo", None)
                if keep:
                    sys.modules["demo"] = keep
            mon.eq(len(got), 1, "series started by the demo")
            import inspect
            a = inspect.signature(real).bind(*got[0][0], **got[0][1])
            a.apply_defaults()
            a = a.arguments
            mon.eq(str(a["layout"]), "\n".join(pac.shipped()), "board of the demo")
            mon.ok(type(a["pacman"]).__name__ == "KeyboardAgent" and a["pacman"].index == 0, "Pacman of the demo")
            mon.eq([(type(g).__name__, g.index) for g in a["ghosts"]], [("RandomGhost", k + 1) for k in range(len(a["ghosts"]))], "ghosts of the demo")
            mon.ok(0 < len(a["ghosts"]) <= a["layout"].getNumGhosts(), "number of ghosts of the demo")
            mon.ok(isinstance(a["display"], graphicsDisplay.PacmanGraphics), "display of the demo")
            mon.eq((a["numGames"], a["numTraining"], bool(a["record"])), (1, 0, False), "games of the demo")
            mon.event("demo")
        return [demo]

    # ------------------------------------------------------------ command lines
    def layout(self, rng, top):
        """folders, boards, agent modules -> what is where"""
        here = top
        for k in range(rng.randint(0, 2)):
            here = os.path.join(here, f"d{k}")
        os.makedirs(here, exist_ok=True)
        boards = {}
        for name in rng.sample(["mediumClassic", "tiny", "my board", "x.y"], rng.randint(1, 3)):
            d = here if rng.random() < .7 else top
            if rng.random() < .7:
                d = os.path.join(d, "layouts")
            os.makedirs(d, exist_ok=True)
            boards[name] = pac.board(rng, (4, 8), (3, 6), (0, 4))
            with open(os.path.join(d, name + ".lay"), "w") as f:
                f.write("\n".join(boards[name]) + rng.choice(["", "\n"]))
        return here, boards

    def modules(self, mon, rng, top, here, i):
        dirs = [os.path.join(top, f"p{k}") for k in range(rng.randint(1, 3))]
        agents, n = {}, 0
        names = [f"Hunter{i}", f"Hunter{i}x", f"Ghosty{i}", f"_Ghost{i}", "A", f"Ünusual{i}"]
        for d in dirs + [here]:
            os.makedirs(d, exist_ok=True)
            for cls in rng.sample(names, rng.randint(0, 2)):
                mod = f"m{i}_{n}_{rng.choice(['A', 'a'])}gents"
                n += 1
                with open(os.path.join(d, mod + ".py"), "w", encoding="utf-8") as f:
                    f.write(AGENT.format(cls=cls, where=mod))
                if cls in agents:
                    mon.event("shadowed")
                agents.setdefault(cls, mod)
            if rng.random() < .3:     # modules that cannot be imported, and files that are no agent modules
                with open(os.path.join(d, f"b{i}_{n}_agents.py"), "w") as f:
                    f.write("import there_is_no_such_module\nclass A: pass\n" + "".join(f"class {c}: pass\n" for c in names[:3]))
                n += 1
                mon.event("broken_module")
            if rng.random() < .3:
                with open(os.path.join(d, f"c{i}_{n}_agent.py"), "w") as f:
                    f.write("".join(f"class {c}: pass\n" for c in names[:4]))
                n += 1
        path = dirs + [pac.DEMO]
        if rng.random() < .5:
            path.insert(rng.randrange(len(path)), os.path.join(top, "not-there"))
        sep = ";" if rng.random() < .2 else ":"
        if len(path) < 2:
            sep = ":"
        os.environ["PYTHONPATH"] = sep.join(path)
        sys.path[:0] = dirs + [here]
        return agents

    def command(self, mon, rng, i):
        with place() as top:
            here, boards = self.layout(rng, top)
            agents = self.modules(mon, rng, top, here, i)
            os.chdir(here)
            argv = []

            def opt(forms, value=None, p=.5):
                if rng.random() >= p:
                    return False
                f = rng.choice(forms)
                if value is None:
                    argv.append([f])
                elif f.startswith("--") and rng.random() < .5:
                    argv.append([f"{f}={value}"])
                else:
                    argv.append([f, str(value)])
                return True
            want = {}
            board = rng.choice(sorted(boards))
            if board != "mediumClassic" or rng.random() < .5:
                argv.append([rng.choice(["-l", "--layout"]), board + rng.choice(["", ".lay"])])
            own = rng.choice(sorted(agents)) if agents and rng.random() < .7 else None
            mode = rng.choice(["window", "window", "window", "text", "quiet", "both"])
            if mode != "window" and own is None:
                if not agents:
                    mode = "window"
                else:
                    own = rng.choice(sorted(agents))
            if own:
                argv.append([rng.choice(["-p", "--pacman"]), own])
            ghost = rng.choice(["RandomGhost", "RandomGhost", "DirectionalGhost"] + sorted(agents))
            if ghost != "RandomGhost" or rng.random() < .3:
                argv.append([rng.choice(["-g", "--ghosts"]), ghost])
            if mode in ("text", "both"):
                argv.append([rng.choice(["-t", "--textGraphics"])])
            if mode in ("quiet", "both"):
                argv.append([rng.choice(["-q", "--quietTextGraphics"])])
            n, k, z, t, x, fr = rng.randint(1, 9), rng.choice([0, 1, 2, 3, 4, 5, 6, rng.randint(7, 30)]), rng.choice([.5, 1.5, 2.0]), rng.randint(1, 99), rng.randint(0, 3), rng.choice([0.0, .25, -1.0])
            want["numGames"] = n if opt(["-n", "--numGames"], n) else 1
            k = k if opt(["-k", "--numghosts"], k) else 4
            z = z if opt(["-z", "--zoom"], z) else 1.0
            fr = fr if opt(["--frameTime"], fr) else .1
            want["timeout"] = t if opt(["--timeout"], t) else 30
            want["record"] = opt(["-r", "--recordActions"])
            want["catchExceptions"] = opt(["-c", "--catchExceptions"])
            fixed = opt(["-f", "--fixRandomSeed"], p=.4)
            opts = {}
            if own:
                for key in rng.sample(["depth", "a", "b_c", "numTraining", "fn"], rng.randint(0, 3)):
                    opts[key] = rng.choice(["1", "x", "0.5", "a-b", " b", "c ", "two words", "", 1])
                if opts:
                    argv.append([rng.choice(["-a", "--agentArgs"]), ",".join(q if v == 1 else f"{q}={v}" for q, v in opts.items())])
                if opt(["-x", "--numTraining"], x, .3) and x > 0:
                    want["numTraining"] = x
                    opts.setdefault("numTraining", x)
            rng.shuffle(argv)
            flat = [w for ws in argv for w in ws]
            given = list(flat)
            mon.log("command line", flat)
            random.seed(rng.random())
            before = random.getstate()
            a = mon.accepted(asked(pac.pacman.readCommand, flat), f"command line {flat}")
            after = random.random()
            mon.eq((flat, os.getcwd()), (given, os.path.realpath(here)), "command line and current folder after reading")
            mon.eq({q: a.get(q) for q in ("numGames", "timeout", "record", "catchExceptions")}, {q: want[q] for q in ("numGames", "timeout", "record", "catchExceptions")}, "plain options")
            mon.eq(a.get("numTraining", 0), want.get("numTraining", 0), "number of training games")
            mon.eq(str(a["layout"]), "\n".join(boards[board]), f"board {board}")
            p = a["pacman"]
            if own:
                mon.eq((type(p).__name__, type(p).where, p.args, p.opts), (own, agents[own], (), opts), "Pacman agent")
                mon.event("agent_options", bool(opts))
            else:
                mon.eq((type(p), p.index), (pac.keyboardAgents.KeyboardAgent, 0), "Pacman agent")
            if ghost in agents:
                mon.eq([(type(g).__name__, type(g).where, g.args, g.opts) for g in a["ghosts"]], [(ghost, agents[ghost], (j + 1,), {}) for j in range(k)], "ghost agents")
                mon.event("own_ghosts")
            else:
                mon.eq([(type(g), g.index) for g in a["ghosts"]], [(getattr(pac.ghostAgents, ghost), j + 1) for j in range(k)], "ghost agents")
            d = a["display"]
            if mode == "window":
                mon.ok(isinstance(d, graphicsDisplay.PacmanGraphics), "display in a window", d)
                mon.eq((d.zoom, d.frameTime), (z, fr), "zoom and pace of the window")
            elif mode == "text":
                mon.eq((type(d), text.SLEEP_TIME), (PacmanGraphics, fr), "text display and its pace")
            else:
                mon.eq(type(d), NullGraphics, "quiet display")
            mon.event(mode if mode != "both" else "quiet")
            if fixed:    # the same game every time
                random.seed(rng.random())
                again = mon.accepted(asked(pac.pacman.readCommand, flat), "the same command line again")
                mon.eq([getattr(x, "luck", None) for x in [again["pacman"]] + again["ghosts"]], [getattr(x, "luck", None) for x in [p] + a["ghosts"]], "draws of agents as they are made, with a fixed seed")
                mon.eq(random.random(), after, "first draw after fixing the seed")
                mon.event("seeded")
            else:
                random.setstate(before)
                luck = [x.luck for x in [p] + a["ghosts"] if getattr(x, "luck", None) is not None]
                mon.eq(sorted(luck), sorted(random.random() for _ in luck), "draws of agents as they are made, without fixing the seed")
                mon.eq(random.random(), after, "first draw without fixing the seed")
            mon.event("read")
            if opts:
                mon.nontrivial(flat, boards[board])
            mon.sample(flat)
            self.turned_down(mon, rng, flat, board, agents)

    def turned_down(self, mon, rng, flat, board, agents):
        kind = rng.choice(["unknown_board", "unknown_agent", "junk", "keyboard_text", "number"])
        cwd = os.getcwd()
        if kind == "unknown_board":
            bad = flat + ["-l", rng.choice(["nowhere", board + "x", board + ".lay.lay", "x" + board])]
        elif kind == "unknown_agent":
            bad = flat + [rng.choice(["-p", "-g"]), rng.choice(["Nobody", "Random", "randomghost", "Keyboard"])]
        elif kind == "junk":
            bad = flat + rng.choice([["more"], ["1", "2"], ["--", "-n"]])
        elif kind == "keyboard_text":
            bad = flat + [rng.choice(["-t", "-q"]), rng.choice(["-p", "-g"]), rng.choice(["KeyboardAgent", "KeyboardAgent2"])]
        else:
            bad = flat + rng.choice([["-n", "many"], ["-k", "1.5"], ["--timeout", "x"], ["-z", "big"], ["--no-such-option"]])
        mon.refused(asked(pac.pacman.readCommand, bad), f"command line {bad}")
        mon.eq(os.getcwd(), cwd, "current folder after a refused command line")
        mon.event(kind)

    # ------------------------------------------------------------ series of games
    def series(self, mon, rng):
        board = pac.board(rng, (4, 7), (3, 5), (0, 3), caps=rng.choice([0, 1]), density=0) if rng.random() < .9 else pac.board(rng, (6, 12), (5, 8), (5, 12), caps=rng.choice([0, 6]), density=0)
        b = pac.Board(board)
        if not b.food or not b.pacs:
            return
        lay = pac.layout.Layout(list(board))
        nag = rng.choice([b.ghosts, b.ghosts, max(0, b.ghosts - 1), b.ghosts + 2])
        mon.event("fewer_agents", nag < b.ghosts)
        mon.event("crowded", min(nag, b.ghosts) > 4)
        n = rng.choice([1, 2, 3, 5]) if rng.random() < .95 else rng.randint(7, 14)
        train = rng.choice([0, 0, 1, 2, n])
        catch, record = rng.random() < .65, rng.random() < .2
        bad = rng.randrange(n) if rng.random() < .45 else None     # game in which Pacman fails at its third move
        drawn_on = []       # the display agents find, as they draw on it
        games = []          # what the agents saw: [first state, moves]
        style = rng.choice(pac.PAC[:5])
        limit = 150
        idle = rng.choice([rng.randint(490, 560)] * 3 + [rng.randint(1000, 1150)]) if rng.random() < .04 else 0      # Pacman dawdles until even a win has a score around zero
        if idle:
            nag = 0
        if idle > 999:
            record, n, train = True, min(n, 2), min(train, 1)

        class Boom(Exception):
            pass

        class Player(pac.game.Agent):
            def __init__(self, index=0):
                self.index = index

            def getAction(self, state):
                if self.index == 0 and state.getScore() == 0 and pac.cells(state.getFood()) == b.food and (not games or games[-1][1]):
                    games.append([pac.agents(state), []])
                moves = games[-1][1]
                if not moves:
                    drawn_on.append(sys.modules["__main__"].__dict__.get("_display"))
                if self.index == 0 and len(games) - 1 == bad and sum(x == 0 for x, _ in moves) == 2:
                    raise Boom()
                legal = sorted(state.getLegalActions(self.index))
                mv = None
                if self.index == 0:
                    me = state.getPacmanPosition()
                    mv = pac.toward(b, pac.grid(me), pac.cells(state.getFood()) if style != "hunt" or len(moves) > limit else {pac.grid(g) for g in state.getGhostPositions()})
                elif style == "smart":
                    mv = pac.toward(b, pac.grid(state.getGhostPosition(self.index)), {pac.grid(state.getPacmanPosition())})
                if idle and len(moves) < idle:
                    mv = "Stop"
                elif mv not in legal or rng.random() < (.1 if len(moves) < limit else .02):
                    mv = rng.choice(legal)
                moves.append((self.index, mv))
                return mv
        ghosts = [Player(k + 1) for k in range(nag)]
        show = PacmanGraphics()
        NullGraphics.made = []
        main = sys.modules["__main__"]
        had = main.__dict__.get("_display", self)
        if rng.random() < .5:
            main.__dict__["_display"] = object()        # left by an earlier series
        out = io.StringIO()
        mon.log("board", board, "games", n, "training", train, "bad", bad, "catch", catch)
        t = rng.choice([1000, 30000])
        args = {"numTraining": train} if train or rng.random() < .5 else {}
        try:
            with place() as top, contextlib.redirect_stdout(out):
                ok, res = attempt(pac.pacman.runGames, lay, Player(0), ghosts, show, n, record, catchExceptions=catch, timeout=t, **args)
                files = sorted(os.listdir(top))
                kept = []
                for f in files:
                    with open(f, "rb") as fh:
                        kept.append(pickle.load(fh))
        finally:
            if had is self:
                main.__dict__.pop("_display", None)
            else:
                main.__dict__["_display"] = had
        pac.pacman.GameState.getAndResetExplored()
        sims = []
        for start, moves in games:
            s = pac.Sim(b, nag)
            for a, mv in moves:
                s.step(a, mv)
            mon.eq([a[0] for a in start], s.start, "starting places of a game")
            mon.eq([a for a, mv in moves], [j % (1 + min(nag, b.ghosts)) for j in range(len(moves))], "agents take turns")
            sims.append(s)
        if bad is not None and not catch and len(games) == bad + 1 and not (sims[bad].win or sims[bad].lose):
            mon.ok(not ok and isinstance(res, Boom), lambda: f"the failure of an agent must reach the caller, got {res!r}")
            mon.event("escaped")
            return
        mon.accepted((ok, res), "running a series")
        mon.eq(len(games), n, "games played")
        mon.eq(len(res), max(0, n - train), "games returned")
        mon.ok(len(drawn_on) == n and all(d is show for d in drawn_on), lambda: f"display agents find during the games: {drawn_on}")
        lines = out.getvalue().splitlines()
        said = []
        for k, (g, s) in enumerate(zip(games[train:], sims[train:])):
            r = res[k]
            crash = not (s.win or s.lose)
            mon.eq((r.state.isWin(), r.state.isLose(), r.state.getScore()), (s.win, s.lose, s.score), f"result of game {k}")
            mon.eq([tuple(x) for x in r.moveHistory], g[1], f"moves of game {k}")
            mon.eq(bool(r.agentCrashed), crash, f"crash of game {k}")
            mon.eq([r.rules.getMaxTotalTime(0), r.rules.getMoveTimeout(0), r.rules.getMaxStartupTime(0)], [t] * 3, "time limits of the game")
            mon.ok(r.display is show, "display of a game")
            mon.event("won_below_zero", s.win and s.score < 0)
            mon.event("won" if s.win else "lost" if s.lose else "crashed")
            if not crash:
                said.append(("Pacman emerges victorious! Score: %d" if s.win else "Pacman died! Score: %d") % s.score)
        mon.eq(len(files), n if record else 0, "records written")
        if n > 9:       # the names no longer sort like the games
            order = sorted(range(len(kept)), key=lambda j: repr(kept[j]["actions"]))
            files, kept = [f"recorded-game-{k + 1}" for k in range(len(order)) if files[order[k]].startswith("recorded-game-")], [kept[j] for j in order]
            mon.eq([c["actions"] for c in kept], sorted((g[1] for g in games), key=repr) if record else [], "records of all games")
            kept = []
        mon.event("long_series", n > 9)
        for k, (f, c, g) in enumerate(zip(files, kept, games)):
            mon.ok(f.startswith(f"recorded-game-{k + 1}"), "name of a record", f)
            mon.eq((str(c["layout"]), [tuple(x) for x in c["actions"]]), ("\n".join(board), g[1]), f"record of game {k}")
            mon.event("recorded")
            mon.event("long_record", len(g[1]) > 1000)
        mon.eq(len(NullGraphics.made), min(n, train), "quiet displays for training games")
        for d, (g, s) in zip(NullGraphics.made, list(zip(games, sims))[:train]):
            mon.eq((len(d.states), d.states[-1]), (len(g[1]) + 1, s.score), "training game on a quiet display")
        mon.event("training", min(n, train))
        mon.eq([x for x in lines if x.startswith(("Pacman emerges", "Pacman died"))], said, "announced results")

        def line(start):
            return [x[len(start):].strip() for x in lines if x.startswith(start)]
        tail = sims[train:]
        if tail:
            sc = [s.score for s in tail]
            mon.eq([[float(x) for x in y.split(",")] for y in line("Scores:")], [sc], "scores listed")
            avg = line("Average Score:")
            mon.eq(len(avg), 1, "average listed")
            mon.close(float(avg[0]), Fraction(sum(sc), len(sc)), "average score")
            w = sum(s.win for s in tail)
            mon.eq(line("Win Rate:"), ["%d/%d (%.2f)" % (w, len(tail), w / len(tail))], "win rate")
            mon.eq([[x.strip() for x in y.split(",")] for y in line("Record:")], [["Win" if s.win else "Loss" for s in tail]], "record of wins and losses")
        else:
            mon.eq(line("Scores:") + line("Average Score:") + line("Win Rate:"), [], "summary without games")
            mon.event("only_training")
        mon.eq(str(lay), "\n".join(board), "board after the series")
        mon.eq((pac.cells(lay.food), sorted(lay.capsules)), (b.food, sorted(b.caps)), "board after the series")
        mon.event("series")
        if len({(s.win, s.lose) for s in sims}) > 1:
            mon.nontrivial(board, n, train, [g[1] for g in games])

    def case(self, mon, rng, i, tier):
        self.command(mon, rng, i)
        self.series(mon, rng)


PROP = C31()
