import contextlib
import io
import os
import pickle
import shutil
import signal
import sys
import tempfile
import time
import types

from .. import pac
from ..base import Prop
from ..lib import attempt
from .c23 import vandalise


class Enough(Exception):
    """ends a game that would go on for ever"""


class Odd(Exception):
    pass


def wrap(data):
    s = pac.pacman.GameState()
    s.data = data
    return s


class Log(list):
    def __init__(self, rng, turns):
        self.rng, self.turns = rng, turns
        self.acts, self.said = 0, {}
        self.pace, self.spent = None, []        # seconds an agent may spend in a call; what was spent: (agent, stage, seconds, seconds to the alarm)

    def spend(self, who, stage):
        print(f"agent {who} talks")
        self.said[who] = self.said.get(who, 0) + 1
        if self.pace:
            left = signal.getitimer(signal.ITIMER_REAL)[0]
            t = self.rng.choice(self.pace)
            self.spent.append((who, stage, t, left))
            pac.CLOCK.at += t


class Base(pac.game.Agent):
    """asks a policy for a move, spoils the state it was given, and fails on request"""
    def setup(self, log, style, fault, spoil):
        self.log, self.style, self.fault, self.spoil = log, style, fault, spoil
        self.calls = {}
        return self

    def trouble(self, stage):
        self.log.spend(self.index, stage)
        n = self.calls[stage] = self.calls.get(stage, 0) + 1
        if self.fault and self.fault["stage"] == stage:
            kind = self.fault["kind"]
            if kind == "nap":
                time.sleep(self.fault["nap"])
            elif n == self.fault["n"]:
                self.log.append(("fault", self.index, stage, kind))
                if kind == "slow":
                    t0 = time.time()
                    while time.time() - t0 < 15:
                        pass
                    self.log.append(("not_interrupted", self.index, stage))
                elif kind == "illegal":
                    return True
                else:
                    raise self.fault["error"]
        return False

    def getAction(self, state):
        rng = self.log.rng
        given = state
        if isinstance(state, tuple):
            given = state[1]
        self.log.append(("act", self.index, state, pac.snap(given)))
        if self.log.acts >= self.log.turns:
            self.log.append(("enough", self.index))
            raise Enough()
        self.log.acts += 1
        bad = self.trouble("act")
        legal = sorted(given.getLegalActions(self.index))
        if bad:
            a = rng.choice([d for d in pac.DIRS + (None, "up", 7) if d not in legal])
        elif not legal:
            self.log.append(("enough", self.index))
            raise Enough()
        elif self.index == 0:
            caps = set(given.getCapsules()) or pac.cells(given.getFood())
            m = "Stop" if self.style == "stay" and self.log.acts < 8200 else pac.toward(self.log.board, pac.grid(given.getPacmanPosition()), caps) if self.style == "eat" and rng.random() < .9 else None
            a = m if m in legal and not (m == "Stop" and rng.random() < .0004) else rng.choice(legal)
        else:
            m = pac.toward(self.log.board, pac.grid(given.getGhostPosition(self.index)), {pac.grid(given.getPacmanPosition())})
            a = m if self.style == "chase" and m in legal and rng.random() < .9 else rng.choice(legal)
        self.log.append(("did", self.index, a))
        if self.spoil:
            vandalise(rng, given)
            if hasattr(given.data, "_win"):
                given.data._win = True
        return a


def register(self, state):
    self.log.append(("register", self.index, pac.snap(state), state))
    self.trouble("register")
    if self.spoil:
        vandalise(self.log.rng, state)


def observe(self, state):
    self.log.append(("observe", self.index, pac.snap(state)))
    self.trouble("observe")
    if self.log.rng.random() < .5:
        return ("seen", state)
    return state


def final(self, state):
    self.log.append(("final", self.index, pac.snap(state)))
    self.trouble("final")


def agent_class(reg, obs, fin):
    d = {}
    if reg:
        d["registerInitialState"] = register
    if obs:
        d["observationFunction"] = observe
    if fin:
        d["final"] = final
    return type("Scripted", (Base,), d)


class Screen:
    def __init__(self, log):
        self.log = log

    def initialize(self, data, *a):
        self.log.append(("show_first", pac.snap(wrap(data))))
        print("screen talks")

    def update(self, data):
        self.log.append(("show", pac.snap(wrap(data))))
        print("screen talks")

    def finish(self):
        self.log.append(("closed",))
        print("screen talks")


class Rules(pac.pacman.ClassicGameRules):
    """long limits for everybody except the agent that is meant to run out of time"""
    victim = None
    limits = {}
    log = None

    def lim(self, what, i, default):
        if self.victim == "all":
            return self.limits[i].get(what, default)
        return self.limits.get(what, default) if i == self.victim else default

    def getMaxTotalTime(self, i):
        return self.lim("total", i, 100000)

    def getMaxStartupTime(self, i):
        return self.lim("startup", i, 100000)

    def getMoveWarningTime(self, i):
        return self.lim("warning", i, 100000)

    def getMoveTimeout(self, i):
        return self.lim("move", i, 100000)

    def getMaxTimeWarnings(self, i):
        return self.lim("warnings", i, 0)

    def agentCrash(self, game, i):
        self.log.append(("crash", i))
        return super().agentCrash(game, i)


ERRORS = [ValueError("agent"), Odd("agent"), AssertionError("agent"), KeyError("agent"), RecursionError("agent"), ZeroDivisionError("agent"), StopIteration(),
          OSError("agent"), AttributeError("agent")]


class C24(Prop):
    id = "C24"
    rule = ("case = one game run by the real loop with scripted agents (with and without startup, observation and final hooks), a recording display and rules; the "
            "event log is checked offline against the sequence the loop must produce, including which state each callback saw; agents spoil the states they are given, "
            "and in half the cases one agent raises, moves illegally, hangs or overspends at a chosen call, or all agents spend time on a clock the workload controls; process signal state and output streams are compared before "
            "and after; non-trivial when the game ended or failed after at least two moves; distinct by board, agents and moves")
    cases = {"quick": 4000, "thorough": 30000}
    need = {"game": 2000, "ended": 500, "act": 12000, "register": 2000, "observe": 4000, "final": 500, "raised": 400, "illegal": 80, "hung": 12, "overspent": 4,
            "spoiled": 7000, "muted": 300, "recorded": 60, "final_raised": 20, "null_agent": 40, "first_fault": 30, "clocked": 1500, "alarm": 1500, "out_of_time": 60, "warned": 50, "escaped": 150, "final_escaped": 20, "own_callback": 500, "many_agents": 100, "long_game": 8}
    case_limit = 300
    assumptions = ["agents fail with ordinary errors (Exception) and do not swallow the timeout", "time limits are whole seconds of at least one, as SIGALRM needs"]

    def expected(self, mon, log, g, init, agents, start, faulty):
        """walks the event log with the loop's specification; returns the state reached and why it stopped"""
        ev = iter(log)
        pos = 0

        def nxt():
            nonlocal pos
            e = next(ev, ("end",))
            pos += 1
            return e

        cur = init
        spent = iter(log.spent)
        total, warned = [0] * len(agents), [0] * len(agents)
        log.total, log.warned = total, warned

        def took(k, stage, before=0):
            if not log.pace:
                return 0
            x = next(spent)
            mon.eq(x[:2], (k, stage), "clock of the workload")
            if x[3]:
                mon.ok(g.catchExceptions, "alarm without failure catching")
                limit = {"register": log.rules.getMaxStartupTime, "observe": log.rules.getMoveTimeout, "act": log.rules.getMoveTimeout}[stage](k)
                mon.ok(x[3] <= limit - int(before), lambda: f"agent {k} may be busy for {x[3]} more seconds ({stage}, {before} s spent of {limit})")
                mon.event("alarm")
            return x[2]
        e = nxt()
        mon.eq((e[0], e[1:2]), ("show_first", (pac.snap(cur),)), "first event is showing the opening state")
        e = nxt()
        for i, a in enumerate(agents):
            if a is None:
                mon.eq(e, ("crash", i), "agent that failed to load")
                mon.event("null_agent")
                mon.eq(nxt(), ("end",), "events after an agent failed to load")
                return cur, "crash", []
            if hasattr(a, "registerInitialState"):
                mon.eq(e[:2], ("register", i), "agents are told of the start in order")
                mon.eq(e[2], pac.snap(cur), f"state agent {i} is started with")
                mon.event("register")
                total[i] += took(i, "register")
                e = nxt()
                if e[0] == "fault":
                    if not g.catchExceptions:
                        return self.crashed(mon, nxt, i, cur, [], False)
                    mon.eq(nxt(), ("crash", i), "event after a failure at startup")
                    mon.eq(nxt(), ("end",), "events after a failure at startup")
                    return cur, "crash", []
        moves, k = [], start
        while True:
            a = agents[k]
            seen = pac.snap(cur)
            move = 0
            if hasattr(a, "observationFunction"):
                mon.eq(e[:3], ("observe", k, seen), f"observation by agent {k} of the current state (move {len(moves)})")
                mon.event("observe")
                move += took(k, "observe")
                e = nxt()
                if e[0] == "fault":
                    return self.crashed(mon, nxt, k, cur, moves, g.catchExceptions)
            mon.eq(e[:2], ("act", k), f"agent asked for move {len(moves)}")
            mon.eq(e[3], seen, f"state shown to agent {k} for move {len(moves)}")
            mon.event("act")
            e = nxt()
            if e[0] == "enough":
                return cur, "enough", moves
            move += took(k, "act", move)
            if e[0] == "fault" and e[3] != "illegal":
                return self.crashed(mon, nxt, k, cur, moves, g.catchExceptions)
            if e[0] == "fault":
                e = nxt()
                mon.eq(e[:2], ("did", k), "illegal choice")
                return self.crashed(mon, nxt, k, cur, moves, g.catchExceptions)
            mon.eq(e[:2], ("did", k), f"choice of agent {k}")
            mv = e[2]
            e = nxt()
            if e[0] == "crash" and faulty and faulty["kind"] == "nap" and faulty["who"] == k:
                mon.eq(e, ("crash", k), "agent out of time")
                mon.eq(nxt(), ("end",), "events after running out of time")
                return cur, "crash", moves
            if log.pace and g.catchExceptions:
                mon.event("clocked")
                late = False
                if move > log.rules.getMoveWarningTime(k):
                    warned[k] += 1
                    mon.event("warned")
                    late = warned[k] > log.rules.getMaxTimeWarnings(k)
                if not late:
                    total[k] += move
                    late = total[k] > log.rules.getMaxTotalTime(k)
                if late:
                    log.log_late = k
                    mon.eq(e, ("crash", k), f"agent out of time (move {move}, total {total[k]}, warnings {warned[k]})")
                    mon.eq(nxt(), ("end",), "events after running out of time")
                    mon.event("out_of_time")
                    return cur, "late", moves
            moves.append((k, mv))
            cur = cur.generateSuccessor(k, mv)
            mon.eq(e, ("show", pac.snap(cur)), f"display after move {len(moves)} ({k} {mv})")
            e = nxt()
            if cur.isWin() or cur.isLose():
                break
            k = (k + 1) % len(agents)
        for i, a in enumerate(agents):
            if hasattr(a, "final"):
                mon.eq(e, ("final", i, pac.snap(cur)), f"agent {i} told of the final state")
                mon.event("final")
                e = nxt()
                if e[0] == "fault":
                    if not g.catchExceptions:
                        mon.event("final_escaped")
                        return self.crashed(mon, nxt, i, cur, moves, False)
                    mon.eq(nxt(), ("crash", i), "event after a failure at the end")
                    mon.event("final_raised")
                    return cur, "crash", moves
        mon.eq(e, ("closed",), "display is closed at the end")
        mon.eq(nxt(), ("end",), "events after the end")
        mon.event("ended")
        return cur, "ended", moves

    def crashed(self, mon, nxt, k, cur, moves, catch):
        if not catch:
            mon.eq(nxt(), ("end",), "events after a failing agent")
            mon.event("escaped")
            return cur, "escaped", moves
        mon.eq(nxt(), ("crash", k), "event after a failing agent")
        mon.eq(nxt(), ("end",), "events after a failing agent")
        return cur, "crash", moves

    def case(self, mon, rng, i, tier):
        long_ = i % 100 == 50       # hundreds of moves
        endless = i % 500 == 50    # thousands
        if endless:
            text = pac.board(rng, (4, 5), (3, 4), (0, 0), food=(.9, .9), density=0)
        elif long_:
            text = pac.big(rng, (12, 30), (8, 14), rng.choice([(0, 0), (0, 0), (1, 1)]), caps=4)
        else:
            text = pac.board(rng, (4, 9), (3, 7), rng.choice([(0, 4), (0, 4), (5, 9)]), density=rng.choice([0, .15]), food=(.05, .3))
        b = pac.Board(text)
        timed = i % 60 == 7
        catch = timed or rng.random() < .6
        log = Log(rng, rng.choice([6, 25, 60]) if not long_ else 1500 if not endless else rng.randint(8300, 9000))
        log.board = b
        ng = rng.choice([0, 1, 2, 4, 9])
        n = 1 + min(ng, b.ghosts)
        fault = None
        if timed:
            kind = rng.choice(["slow", "slow", "nap"])
            who = rng.randrange(n)
            if kind == "slow":
                fault = {"stage": rng.choice(["register", "observe", "act", "act"]), "n": rng.choice([1, 1, 2]), "kind": "slow", "who": who}
                if fault["stage"] == "register":
                    fault["n"] = 1
            else:
                fault = {"stage": "act", "kind": "nap", "nap": .06, "who": who}
        elif not long_ and rng.random() < (.65 if catch else .4):
            fault = {"stage": rng.choice(["register", "observe", "act", "act", "act", "final"]), "n": rng.choice([1, 1, 2, 5]), "kind": rng.choice(["raise", "raise", "illegal"]),
                     "who": rng.randrange(n), "error": rng.choice(ERRORS)}
            if fault["stage"] in ("register", "final"):
                fault["n"] = 1
            if fault["stage"] != "act":
                fault["kind"] = "raise"
        clocked = not timed and not long_ and not fault and rng.random() < (.8 if catch else .3)
        spoil = rng.random() < .6
        agents = []
        for k in range(n):
            hooks = [rng.random() < .5, rng.random() < .4, rng.random() < .5]
            f = fault if fault and fault["who"] == k else None
            if f:
                for j, st in enumerate(("register", "observe", "final")):
                    hooks[j] |= f["stage"] == st
            own = [hooks[j] and rng.random() < .2 for j in range(3)]      # callbacks an agent was given, rather than its class
            ag = agent_class(*[a and not o for a, o in zip(hooks, own)])(k)
            for name, f0, o in zip(("registerInitialState", "observationFunction", "final"), (register, observe, final), own):
                if o:
                    setattr(ag, name, types.MethodType(f0, ag))
                    mon.event("own_callback")
            agents.append(ag.setup(log, rng.choice(["eat", "chase", "chase", "any"] if not long_ else ["any"]) if k else rng.choice(["eat", "any"] if not long_ else ["any"] if not endless else ["stay"]), f, spoil))
        mon.event("many_agents", n > 5)
        screen = Screen(log)
        rules = Rules(100000)
        rules.log = log
        rules.quiet = True
        if timed:
            rules.victim = fault["who"]
            if fault["kind"] == "slow":
                rules.limits = {"startup": 1, "move": 1}
            elif rng.random() < .5:
                rules.limits = {"total": .15}
            else:
                rules.limits = {"warning": .03, "warnings": rng.choice([0, 2])}
        if clocked:
            log.pace = rng.choice([[0, 0, .25], [0, .5, 2], [0, 0, 0, 0, 0, 40], [.125], [.001, .004], [.0075]])
            rules.victim = "all"
            rules.limits = [{"total": rng.choice([100000, 100000, 8, 2.5, .0625]), "warning": rng.choice([100000, .5, 1, 3.5]), "warnings": rng.choice([0, 1, 3, 100]),
                             "move": rng.choice([100000, 60]), "startup": rng.choice([100000, 60])} for _ in range(n)]
        log.rules = rules
        if not timed and not long_ and rng.random() < .06:
            log.pace = None
            return self.recorded(mon, rng, text, agents, screen, log, fault)
        lay = pac.layout.Layout(list(text))
        quiet = rng.random() < .5
        g = rules.newGame(lay, agents[0], agents[1:] + [None] * rng.choice([0, 0, 2]) if len(agents) - 1 == b.ghosts else agents[1:], screen, bool(quiet), catch)
        mon.eq([id(a) for a in g.agents], [id(a) for a in agents], "agents of the game")
        if not timed and not long_ and rng.random() < .03:
            k = rng.randrange(n)
            g.agents[k] = None
            agents = list(g.agents)
        start = rng.randrange(n) if rng.random() < .3 else 0
        g.startingIndex = start
        g.muteAgents = rng.random() < .4
        if g.muteAgents:
            mon.event("muted")
        init = pac.start(text, ng)
        mon.eq(pac.snap(g.state), pac.snap(init), "opening state of the game")
        mon.log("board", text, "ghosts", ng, "start", start, "fault", fault, "catch", catch, "mute", g.muteAgents)

        def mine(signum, frame):
            raise AssertionError("alarm fired outside the agent")
        before = rng.choice([mine, mine, mine, signal.SIG_IGN, signal.SIG_DFL])
        old = signal.signal(signal.SIGALRM, before)
        out, err = sys.stdout, sys.stderr
        so, se = io.StringIO(), io.StringIO()
        sys.stdout, sys.stderr = so, se
        # whatever happens in the game must not escape into the checker
        if log.pace:
            pac.CLOCK.at = 1000.
        try:
            try:
                ok, r = True, g.run()
            except Exception as e:
                ok, r = False, e
            pac.CLOCK.at = None
            streams = (sys.stdout is so, sys.stderr is se)
            pending = signal.getitimer(signal.ITIMER_REAL)[0]
            handler = signal.getsignal(signal.SIGALRM)
        finally:
            pac.CLOCK.at = None
            sys.stdout, sys.stderr = out, err
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
        mon.event("game")
        if timed and fault["kind"] == "slow" and ("crash", fault["who"]) in log and not any(e[0] in ("fault", "enough") for e in log):
            mon.event("stalled_machine")        # the machine, not the agent, was too slow: nothing to learn
            return
        state, why, moves = self.expected(mon, log, g, init, agents, start, fault)
        mon.log("stopped", why, "after", len(moves))
        mon.event("long_game", len(moves) > 500)
        mon.event("endless_game", len(moves) > 8000)
        mon.eq(pac.snap(g.state), pac.snap(state), "state of the game when it stopped")
        hist = list(g.moveHistory)
        illegal = bool(fault and fault["kind"] == "illegal" and why in ("crash", "escaped"))
        if illegal and len(hist) == len(moves) + 1:
            hist.pop()              # the refused move may be on record
        mon.eq([tuple(h) for h in hist], moves, "recorded moves")
        replay = pac.start(text, ng)
        for k, mv in hist:
            replay = replay.generateSuccessor(k, mv)
        mon.ok(replay == g.state and pac.snap(replay) == pac.snap(g.state), "replaying the recorded moves gives the final state")
        shown = so.getvalue().splitlines()
        mon.eq(shown.count("screen talks"), sum(1 for e in log if e[0] in ("show", "show_first", "closed")), "lines printed by the display")
        for k, a in enumerate(agents):
            said = log.said.get(k, 0)
            line = f"agent {k} talks"
            kept = [x for x in g.agentOutput[k].getvalue().splitlines() if x.endswith(" talks")]
            mon.eq(sorted(set(kept) - {line}), [], f"lines of others kept for agent {k}")
            mon.eq((shown.count(line), g.agentOutput[k].getvalue().splitlines().count(line)), (0, said) if g.muteAgents else (said, 0), f"lines of agent {k} shown and kept ({why})")
        mon.eq(sum(x.startswith(("Pacman emerges", "Pacman died")) for x in shown), 1 if (state.isWin() or state.isLose()) and not quiet else 0, "announcements")
        if log.pace and catch and why != "enough":
            for k in range(n):
                if not (why == "late" and log.log_late == k):
                    mon.close(g.totalAgentTimes[k], log.total[k], f"time spent by agent {k}")
                mon.eq(g.totalAgentTimeWarnings[k], log.warned[k], f"warnings of agent {k}")
        mon.eq(streams, (True, True), f"output streams after the game ({why})")
        mon.event("escaped_muted", g.muteAgents and not ok)
        if why == "escaped":
            mon.ok(not ok and (fault["kind"] == "illegal" or r is fault["error"]), lambda: f"without failure catching the agent's error must reach the caller, got {r!r}")
            return
        if catch or why != "enough":
            mon.ok(ok, lambda: f"an error escaped from the game: {type(r).__name__}: {r}")
        else:
            mon.ok(not ok and isinstance(r, Enough), "without failure catching the agent's error reaches the caller")
        mon.eq(pending, 0, "seconds of a pending alarm after the game")
        mon.ok(handler is before, "signal handler after the game")
        failed = why in ("crash", "late") or why == "enough" and catch
        mon.eq((bool(g.gameOver), bool(g.agentCrashed)), (failed or why == "ended", failed), f"over and crashed flags ({why})")
        late = why == "late" or bool(fault and why == "crash" and fault["kind"] in ("slow", "nap"))
        mon.eq(bool(g.agentTimeout), late, "timeout flag")
        mon.ok(not any(e[0] == "not_interrupted" for e in log), "an agent that exceeded its time was not interrupted")
        if late and fault:
            mon.event("hung" if fault["kind"] == "slow" else "overspent")
        if fault and fault["kind"] == "nap":
            asked = sum(1 for e in log if e[:2] == ("act", fault["who"]))
            most = 3 if "total" in rules.limits else rules.limits["warnings"] + 1
            mon.ok(asked <= most, f"agent out of time was asked {asked} times, at most {most} allowed")
        if fault and why == "crash" and fault["kind"] in ("raise", "illegal"):
            mon.event("raised" if fault["kind"] == "raise" else "illegal")
            if not moves:
                mon.event("first_fault")
        if spoil:
            mon.event("spoiled", sum(1 for e in log if e[0] == "did"))
        if len(moves) >= 2 and why != "enough":
            mon.nontrivial(repr((text, ng, [type(a).__dict__.keys() for a in agents if a], moves)))
        pac.pacman.GameState.getAndResetExplored()
        mon.sample({"board": text, "fault": str(fault), "stopped": why, "moves": len(moves), "events": len(log)})

    def recorded(self, mon, rng, text, agents, screen, log, fault):
        """whole series of games through runGames, with the record written to a scratch folder"""
        log.turns = 10 ** 9
        for a in agents:
            a.fault = None
        lay = pac.layout.Layout(list(text))
        if len(agents) < 2 or not pac.Board(text).food:
            return
        turns = 400
        count = [0]
        base = Base.getAction

        def act(self, state):
            count[0] += 1
            if count[0] > turns:
                raise Enough()
            return base(self, state)
        for a in agents:
            type(a).getAction = act
        home = os.getcwd()
        tmp = tempfile.mkdtemp(dir=os.environ.get("PRN_SCRATCH"))
        out = sys.stdout
        n = rng.choice([1, 2, 3])
        try:
            os.chdir(tmp)
            with contextlib.redirect_stdout(io.StringIO()):
                ok, games = attempt(pac.pacman.runGames, lay, agents[0], agents[1:], screen, n, True, 0, True, 100000)
            files = sorted(os.listdir(tmp))
            mon.accepted((ok, games), "running a series of games")
            mon.eq((len(games), len(files)), (n, n), "games returned and games recorded")
            for k, (g, f) in enumerate(zip(games, files)):
                mon.ok(f.startswith(f"recorded-game-{k + 1}"), "name of a record", f)
                with open(f, "rb") as fh:
                    rec = pickle.load(fh)
                mon.eq([tuple(x) for x in rec["actions"]], [tuple(x) for x in g.moveHistory], "recorded moves")
                s = pac.pacman.GameState()
                s.initialize(rec["layout"], len(agents) - 1)
                for a, mv in rec["actions"]:
                    s = s.generateSuccessor(a, mv)
                mon.ok(s == g.state and pac.snap(s)[:7] == pac.snap(g.state)[:7], "replay of a recorded game")
                mon.event("recorded")
        finally:
            sys.stdout = out
            os.chdir(home)
            shutil.rmtree(tmp, ignore_errors=True)
        pac.pacman.GameState.getAndResetExplored()


PROP = C24()
