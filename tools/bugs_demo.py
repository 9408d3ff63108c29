PM, GM, LY, GA, KA, UT, GD, GU = ("demo/pacman.py", "demo/game.py", "demo/layout.py", "demo/ghostAgents.py", "demo/keyboardAgents.py", "demo/util.py",
                                  "demo/graphicsDisplay.py", "demo/graphicsUtils.py")
H = """
import contextlib, io, os, random, sys
from game import Directions as D, Game, Grid, Configuration, Agent
from layout import Layout, getLayout
from pacman import GameState, ClassicGameRules
import util
def state(*rows, ghosts=99):
    s = GameState()
    s.initialize(Layout(list(rows)), ghosts)
    return s
def put(s, i, pos, d=D.STOP, scared=0):
    s.data.agentStates[i].configuration = Configuration(pos, d)
    s.data.agentStates[i].scaredTimer = scared
    return s
def go(s, *moves):
    for i, a in moves:
        s = s.generateSuccessor(i, a)
    return s
class Null:
    def __init__(self): self.seen = []
    def initialize(self, s, isBlue=False): self.seen.append(s)
    def update(self, s): self.seen.append(s)
    def finish(self): self.seen.append("end")
class Say(Agent):
    def __init__(self, *moves): self.moves = list(moves)
    def getAction(self, s): return self.moves.pop(0)
def play(rows, agents, catch=False, mute=False, timeout=30):
    g = ClassicGameRules(timeout).newGame(Layout(list(rows)), agents[0], agents[1:], Null(), True, catch)
    g.muteAgents = mute
    g.run()
    return g
"""
BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=H + demo))


# ---- C21 score and outcome
bug("c21-first-ghost-only", "C21",
    [(PM, "            for index in range( 1, len( state.data.agentStates ) ):\n                ghostState = state.data.agentStates[index]\n                ghostPosition",
      "            near = [i for i in range( 1, len( state.data.agentStates ) )\n                    if GhostRules.canKill( pacmanPosition, state.data.agentStates[i].getPosition() )]\n            for index in near[:1]:\n                ghostState = state.data.agentStates[index]\n                ghostPosition")],
    "Pacman stepping onto two ghosts at once", "only the first ghost is caught or kills",
    """
s = state("%%%%%%", "%PGG.%", "%%%%%%")
put(s, 1, (2, 1), D.WEST, 9); put(s, 2, (2, 1), D.WEST, 9)
assert go(s, (0, D.EAST)).getScore() == 399
put(s, 1, (2, 1), D.WEST, 9); put(s, 2, (2, 1), D.WEST, 0)
assert go(s, (0, D.EAST)).isLose()
""")
bug("c21-win-and-lose", "C21",
    [(PM, "            if not state.data._win:\n                state.data.scoreChange -= 500\n                state.data._lose = True", "            if not state.data._win or agentIndex > 1:\n                state.data.scoreChange -= 500\n                state.data._lose = True")],
    "eating the last pellet on a cell where the second ghost stands", "a game is both won and lost",
    """
s = state("%%%%%%", "%P.GG%", "%%%%%%")
put(s, 2, (2, 1), D.WEST)
t = go(s, (0, D.EAST))
assert t.isWin() and not t.isLose() and t.getScore() == 509
""")
bug("c21-tolerance", "C21",
    [(PM, "        return manhattanDistance( ghostPosition, pacmanPosition ) <= COLLISION_TOLERANCE", "        return manhattanDistance( ghostPosition, nearestPoint( pacmanPosition ) ) < COLLISION_TOLERANCE and ghostPosition[0] * 2 == int( ghostPosition[0] * 2 ) and (ghostPosition[1] == int( ghostPosition[1] ) or ghostPosition[0] != pacmanPosition[0])")],
    "a scared ghost half a cell above or below Pacman", "a ghost within the collision distance is not caught",
    """
s = state("%%%%%%", "%.   %", "% G  %", "% P  %", "%%%%%%")
put(s, 1, (2, 2), D.SOUTH, 9)
t = go(s, (0, D.STOP), (1, D.SOUTH))
assert t.getScore() == 199, t.getScore()
""")
# ---- C22 moves
bug("c22-rescare", "C22",
    [(PM, "                state.data.agentStates[index].scaredTimer = SCARED_TIME\n", "                state.data.agentStates[index].scaredTimer = state.data.agentStates[index].scaredTimer or SCARED_TIME\n")],
    "a second capsule eaten while ghosts are still scared", "the second capsule does not restart the 40 moves",
    """
s = state("%%%%%%%%", "%Poo. G%", "%%%%%%%%")
s = go(s, (0, D.EAST), (1, D.WEST), (0, D.EAST))
assert s.getGhostState(1).scaredTimer == 40
""")
bug("c22-recover-off-grid", "C22",
    [(PM, "            ghostState.configuration.pos = nearestPoint( ghostState.configuration.pos )", "            x, y = ghostState.configuration.pos\n            ghostState.configuration.pos = nearestPoint( (x, y) ) if x != int(x) else (x, y)")],
    "a ghost recovering half a cell off the grid on a vertical corridor", "the ghost recovers between grid points and then enters a wall",
    """
s = state("%%%%%", "%.  %", "% G %", "%   %", "%   %", "%  P%", "%%%%%")
put(s, 1, (2, 4), D.SOUTH, 1)
t = go(s, (1, D.SOUTH))
x, y = t.getGhostPosition(1)
assert (x, y) == (int(x), int(y)) and t.getGhostState(1).scaredTimer == 0
""")
bug("c22-start-shared", "C22",
    [(GM, "        state = AgentState( self.start, self.isPacman )\n", "        state = AgentState( self.start if self.scaredTimer == 0 else self.configuration, self.isPacman )\n")],
    "a scared ghost caught after several moves", "a caught ghost restarts where it was, not at its start",
    """
s = state("%%%%%%%", "%Po.GG%", "%%%%%%%")
s = go(s, (0, D.EAST), (1, D.WEST), (2, D.WEST), (0, D.EAST))
assert s.getGhostPosition(1) == (4, 1) and s.getScore() > 200 - 10
""")
# ---- C23 purity
bug("c23-capsules-shared", "C23",
    [(GM, "            self.capsules = prevState.capsules[:]", "            self.capsules = prevState.capsules")],
    "computing a successor in which a capsule is eaten", "the earlier state loses its capsule",
    """
s = state("%%%%%%%", "%Po.  %", "%%%%%%%")
go(s, (0, D.EAST))
assert s.getCapsules() == [(2, 1)]
""")
bug("c23-equality-by-set", "C23",
    [(GM, "        if not self.agentStates == other.agentStates: return False\n", "        if not self.agentStates[0] == other.agentStates[0]: return False\n        if not set(self.agentStates) == set(other.agentStates): return False\n")],
    "two states with ghosts exchanged or doubled", "different states compare equal",
    """
s = state("%%%%%%%", "%P. GG%", "%%%%%%%")
t = s.deepCopy()
put(t, 1, (5, 1)); put(t, 2, (4, 1))
assert s != t
""")
bug("c23-recover-in-place", "C23",
    [(PM, "        vector = Actions.directionToVector( action, speed )\n        ghostState.configuration = ghostState.configuration.generateSuccessor( vector )\n",
      "        vector = Actions.directionToVector( action, speed )\n        if ghostState.scaredTimer == 2 and ghostState.configuration.direction == action:\n            x, y = ghostState.configuration.pos\n            ghostState.configuration.pos = (x + vector[0], y + vector[1])\n        else:\n            ghostState.configuration = ghostState.configuration.generateSuccessor( vector )\n")],
    "a ghost on its last but one scared move keeping its direction", "the earlier state's ghost moves too",
    """
s = state("%%%%%%%%", "%P.   G%", "%%%%%%%%")
put(s, 1, (6, 1), D.WEST, 2)
go(s, (1, D.WEST))
assert s.getGhostPosition(1) == (6, 1)
""")
# ---- C24 the loop
bug("c24-observation-shared", "C24",
    [(GM, "                    observation = agent.observationFunction(self.state.deepCopy())", "                    observation = agent.observationFunction(self.state)")],
    "an agent with an observation function that edits what it is given", "the agent changes the game's own state",
    """
class Edit(Agent):
    def observationFunction(self, s):
        s.data.score = 1000
        return s
    def getAction(self, s): return D.EAST
g = play(["%%%%", "%P.%", "%%%%"], [Edit()])
assert g.state.getScore() == 509
""")
bug("c24-final-stops", "C24",
    [(GM, "        # inform a learning agent of the game result\n        for agentIndex, agent in enumerate(self.agents):\n", "        # inform a learning agent of the game result\n        for agentIndex, agent in enumerate(self.agents[:len(self.state.data.agentStates)] if self.state.isWin() else self.agents[:2]):\n")],
    "a lost game with several ghosts that want to know the result", "agents after the second are not notified of a loss",
    """
told = []
class F(Say):
    def final(self, s): told.append(self)
g = play(["%%%%%%%", "%PG. G%", "%%%%%%%"], [F(D.EAST), F(), F()])
assert g.state.isLose() and len(told) == 3
""")
bug("c24-null-agent", "C24",
    [(GM, "                self._agentCrash(i, quiet=True)\n                return\n            if (\"registerInitialState\"", "                self._agentCrash(i, quiet=True)\n                continue\n            if (\"registerInitialState\"")],
    "an agent that failed to load followed by agents that register", "later agents are still called after the game ended as crashed",
    """
told = []
class R(Say):
    def registerInitialState(self, s): told.append(1)
with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
    g = play(["%%%%%", "%P.G%", "%%%%%"], [None, R()], catch=True)
assert g.agentCrashed and not told and not isinstance(g.display.seen[-1], str)
""")
bug("c24-muted-finish", "C24", [(GM, "                    agent.final( self.state )\n                    self.unmute()", "                    agent.final( self.state )")],
    "muted agents that want to hear of the end, and a display that prints when it closes", "what the display prints goes to an agent's notebook", """
class Loud(Null):
    def finish(self): print("closed")
class P(Agent):
    def getAction(self, s): return "East"
    def final(self, s): print("bye")
out = io.StringIO()
with contextlib.redirect_stdout(out):
    g = ClassicGameRules(30).newGame(Layout(["%%%%", "%P.%", "%%%%"]), P(), [], Loud(), True)
    g.muteAgents = True
    g.run()
assert out.getvalue() == "closed\\n", out.getvalue()
""")
# ---- C25 boards
bug("c25-eq-by-hash", "C25",
    [(GM, "        if other == None: return False\n        return self.data == other.data\n\n    def __hash__(self):\n        # return hash(str(self))", "        if other == None: return False\n        return hash(self) == hash(other)\n\n    def __hash__(self):\n        # return hash(str(self))")],
    "grids of different shape with the same cell order, or cells 61 apart", "different grids compare equal",
    """
a, b = Grid(10, 10), Grid(10, 10)
a[0][0] = True
b[6][1] = True
assert a != b and Grid(2, 3) != Grid(3, 2)
""")
bug("c25-parents", "C25",
    [(LY, "def getLayout(name, back = 2):", "def getLayout(name, back = 1):")],
    "a board three folders up", "the board is not found",
    """
os.makedirs("a/b/c")
open("x.lay", "w").write("%%%\\n%P%\\n%%%\\n")
os.chdir("a/b/c")
assert getLayout("x") is not None
""")
bug("c25-pack-exact", "C25",
    [(GM, "        for packed in bits:\n            for bit in", "        for packed in bits[:self.width * self.height // self.CELLS_PER_INT or 1]:\n            for bit in")],
    "a grid of more than 30 cells that is not a multiple of 30", "the last cells are lost in the round trip",
    """
from game import reconstituteGrid
g = Grid(5, 7, True)
assert reconstituteGrid(g.packBits()) == g
""")
# ---- C26 utilities
bug("c26-update-renews", "C26",
    [(UT, "                self.heap.append((priority, c, item))", "                self.heap.append((priority, self.count, item))\n                self.count += 1")],
    "lowering an item to the priority of another inserted after it", "ties are not in insertion order after an update",
    """
q = util.PriorityQueue()
q.push("a", 5); q.push("b", 1)
q.update("a", 1)
assert q.pop() == "a"
""")
bug("c26-nearest-negative", "C26",
    [(UT, "    if sum(distribution) != 1:\n        distribution = normalize(distribution)\n    choice = random.random()", "    if sum(distribution) > 1:\n        distribution = normalize(distribution)\n    choice = random.random()")],
    "sampling a distribution that sums to less than one", "the last item gets the missing share",
    """
random.random = lambda: .6
assert util.sample([.2, .2, .1], "abc") == "b"
""")
bug("c26-dot-product", "C26",
    [(UT, "            if key not in y:\n                continue\n            sum += x[key] * y[key]", "            if key not in y or y[key] < 0:\n                continue\n            sum += x[key] * y[key]")],
    "multiplying counters with negative entries in the larger one", "the product is not the dot product",
    """
assert util.Counter({1: 2}) * util.Counter({1: -3, 2: 1}) == -6
""")
# ---- C27 agents
bug("c27-scared-speed", "C27",
    [(GA, "        bestActions = [action for action, distance in zip( legalActions, distancesToPacman ) if distance == bestScore]", "        bestActions = [action for action, distance in zip( legalActions, distancesToPacman ) if distance == bestScore][:2]")],
    "three equally good moves", "the extra share is not split evenly over all best moves",
    """
from ghostAgents import DirectionalGhost
s = state("%%%%%", "%.  %", "% G %", "%   %", "%%%%%", "%P  %", "%%%%%")
put(s, 1, (2, 4), D.STOP); put(s, 0, (2, 4))
d = DirectionalGhost(1, .8, .8).getDistribution(s)
assert len(d) == 4 and max(d.values()) - min(d.values()) < 1e-9, d
""")
bug("c27-keyboard-stop", "C27",
    [(KA, "        if (self.STOP_KEY in self.keys) and Directions.STOP in legal: move = Directions.STOP", "        if (self.STOP_KEY in self.keys) and move == self.lastMove and Directions.STOP in legal: move = Directions.STOP")],
    "the stop key held together with a new direction", "the stop key is not obeyed",
    """
import graphicsUtils
from keyboardAgents import KeyboardAgent
graphicsUtils.keys_waiting = lambda: []
graphicsUtils.keys_pressed = lambda *a: ["q", "d"]
s = state("%%%%%", "%P .%", "%%%%%")
assert KeyboardAgent().getAction(s) == D.STOP
""")
bug("c27-flee-share", "C27",
    [(GA, "            bestProb = self.prob_scaredFlee", "            bestProb = min( self.prob_attack, self.prob_scaredFlee )")],
    "a ghost configured to flee with higher probability than it attacks", "the configured share of the flight moves is not used",
    """
from ghostAgents import DirectionalGhost
s = state("%%%%%%", "%P  .%", "% %%G%", "%    %", "%%%%%%")
put(s, 1, (4, 2), D.STOP, 9)
d = DirectionalGhost(1, .2, .9).getDistribution(s)
assert abs(max(d.values()) - .95) < 1e-9, d
""")
# ---- C28 the window
W = """
import types
sys.modules["tkinter"] = tk = types.ModuleType("tkinter")
class Canvas:
    def __init__(self, *a, **k): self.items, self.n = {}, 0; Canvas.live = self
    def make(self, *c, **k):
        self.n += 1
        c = c[0] if len(c) == 1 else c
        self.items[self.n] = [list(c), k]
        return self.n
    create_polygon = create_arc = create_line = create_text = make
    def coords(self, i, *c):
        if c: self.items[i][0] = list(c)
        return list(self.items[i][0])
    def itemconfigure(self, i, **k): self.items[i][1].update(k)
    def delete(self, i): self.items.pop(i, None)
    def pack(self, *a): pass
    update = update_idletasks = tag_lower = tag_raise = pack
class Tk:
    def __init__(self): self.bound = {}; Tk.live = self
    def bind(self, w, f): self.bound[w] = f
    def __getattr__(self, n): return lambda *a, **k: None
tk.Tk, tk.Canvas, tk._tkinter = Tk, Canvas, types.SimpleNamespace(DONT_WAIT=2)
import graphicsDisplay, graphicsUtils
"""
bug("c28-last-scared-move", "C28",
    [(GD, "        if ghost.scaredTimer > 0:\n            color = SCARED_COLOR\n", "        if ghost.scaredTimer > 0 and ghost.scaredTimer != prevGhost.scaredTimer + 1 and (ghost.scaredTimer > 1 or ghost.configuration.isInteger()):\n            color = SCARED_COLOR\n")],
    "a ghost on its last scared move, between two cells", "it is shown as recovered while it is still scared",
    W + """
s = state("%%%%%%%%%", "%P.    G%", "%%%%%%%%%")
put(s, 1, (7, 1), D.WEST, 2)
d = graphicsDisplay.PacmanGraphics(1.0)
d.initialize(s.data)
t = go(s, (1, D.WEST))
d.update(t.data)
assert t.getGhostState(1).scaredTimer == 1
assert [v[1]["fill"] for v in Canvas.live.items.values() if len(v[0]) == 22] == [graphicsDisplay.SCARED_COLOR]
""")
bug("c28-score-width", "C28",
    [(GD, "        changeText(self.scoreText, \"SCORE: % 4d\" % score)", "        changeText(self.scoreText, \"SCORE: %4.4s\" % score)")],
    "a score of five characters", "the score shown is cut off",
    W + """
s = state("%%%%%%%", "%PGG. %", "%%%%%%%")
put(s, 2, (2, 1), D.WEST)
d = graphicsDisplay.PacmanGraphics(1.0)
d.initialize(s.data)
t = go(s, (0, D.EAST))
d.update(t.data)
assert [v[1]["text"].split()[-1] for v in Canvas.live.items.values() if "text" in v[1]] == ["-1001"]
""")
bug("c28-short-press", "C28",
    [(GU, "    try:\n        del _keysdown[event.keysym]\n    except:\n        pass\n    _got_release = 1", "    for keys in (_keysdown, _keyswaiting):\n        keys.pop(event.keysym, None)\n    _got_release = 1")],
    "a key pressed and released between two queries", "the key press is lost",
    W + """
graphicsUtils.begin_graphics(50, 50)
e = types.SimpleNamespace(keysym="a")
Tk.live.bound["<KeyPress>"](e)
Tk.live.bound["<KeyRelease>"](e)
assert list(graphicsUtils.keys_waiting()) == ["a"] and list(graphicsUtils.keys_waiting()) == []
""")

H31 = """
import pacman, tempfile, types, atexit, shutil
text = types.ModuleType("textDisplay")
class NullGraphics(Null): pass
class PacmanGraphics(Null): pass
text.NullGraphics, text.PacmanGraphics, text.SLEEP_TIME = NullGraphics, PacmanGraphics, 0
sys.modules["textDisplay"] = text
top = tempfile.mkdtemp()
atexit.register(shutil.rmtree, top, True)
os.chdir(top)
def folder(name, **files):
    os.makedirs(name, exist_ok=True)
    sys.path.insert(0, os.path.abspath(name))
    for f, body in files.items():
        open(os.path.join(name, f + ".py"), "w").write(body)
    return os.path.abspath(name)
def cmd(words):
    open("small.lay", "w").write("%%%%%\\n%P.G%\\n%%%%%")
    with contextlib.redirect_stderr(io.StringIO()):
        return pacman.readCommand(words.split())
MINE = "import random\\nclass Mine:\\n    where = __name__\\n    def __init__(self, *a, **k):\\n        self.a, self.k, self.luck = a, k, random.random()\\n"
def series(plays, training, catch=False, rows=("%%%%%%", "%P.  %", "%   G%", "%%%%%%")):
    show, out, plays = Null(), io.StringIO(), iter(plays)
    class P(Agent):
        def getAction(self, s):
            if s.getScore() == 0: self.todo = list(next(plays))
            if not self.todo: raise ValueError("no more")
            return self.todo.pop(0)
    class G(Agent):
        def __init__(self, i): self.index = i
        def getAction(self, s): return "West" if "West" in s.getLegalActions(1) else "North" if "North" in s.getLegalActions(1) else sorted(s.getLegalActions(1))[0]
    with contextlib.redirect_stdout(out):
        games = pacman.runGames(Layout(list(rows)), P(), [G(1)], show, NUM, False, numTraining=training, catchExceptions=catch, timeout=30000)
    return games, out.getvalue(), show
WIN, LOSE = ["East"], ["Stop"] * 20
"""


def bug31(id, edits, needs, breaks, demo):
    bug(id, "C31", edits, needs, breaks, H31 + demo)


bug31("c31-quiet-sticks", [(PM, "            gameDisplay = display\n            rules.quiet = False", "            gameDisplay = display"), (PM, "        self.quiet = quiet\n", "        self.quiet = quiet or getattr(self, 'quiet', False)\n")],
      "games after training games", "their results are no longer announced",
      """
NUM = 3
games, said, show = series([WIN, WIN, LOSE], 1)
assert said.count("Pacman emerges") == 1 and said.count("Pacman died") == 1, said
""")
bug31("c31-training-wins", [(PM, "        if not beQuiet: games.append(game)", "        if not beQuiet or game.agentCrashed: games.append(game)")],
      "a training game in which an agent fails while failures are caught", "it counts among the results",
      """
NUM = 3
games, said, show = series([["Stop"], WIN, WIN], 1, catch=True)
assert len(games) == 2 and "Win, Win" in said and "Loss" not in said, said
""")
bug31("c31-broken-module", [(PM, "            except ImportError:\n                continue", "            except ImportError:\n                break")],
      "a module that cannot be imported next to the one that has the agent, listed before it", "the agent is not found, or taken from a later folder",
      """
a = folder("one", **{f"b{k}Agents": "import there_is_no_such_module" for k in range(8)}, midAgents=MINE, **{f"z{k}Agents": "import there_is_no_such_module" for k in range(8)})
b = folder("two", lastAgents=MINE)
os.environ["PYTHONPATH"] = a + ":" + b + ":" + os.path.dirname(pacman.__file__)
r = cmd("-l small -q -p Mine -g RandomGhost")
assert r["pacman"].where == "midAgents", r["pacman"].where
""")
bug31("c31-late-seed", [(PM, "    # Fix the random seed\n    if options.fixRandomSeed: random.seed('cs188')\n", ""),
                        (PM, "    args['numGames'] = options.numGames\n", "    # Fix the random seed\n    if options.fixRandomSeed: random.seed('cs188')\n\n    args['numGames'] = options.numGames\n")],
      "an agent that draws at random when it is made", "it differs from run to run although the seed is fixed",
      """
a = folder("one", midAgents=MINE)
os.environ["PYTHONPATH"] = a + ":" + os.path.dirname(pacman.__file__)
seen = set()
for k in range(3):
    random.seed(k)
    seen.add(cmd("-l small -q -p Mine -g Mine -f")["pacman"].luck)
assert len(seen) == 1, seen
""")
bug31("c31-training-option", [(PM, "        if 'numTraining' not in agentOpts: agentOpts['numTraining'] = options.numTraining", "        agentOpts['numTraining'] = options.numTraining")],
      "a number of training games given both as option and to the agent", "the agent's own number is overwritten",
      """
a = folder("one", midAgents=MINE)
os.environ["PYTHONPATH"] = a + ":" + os.path.dirname(pacman.__file__)
assert cmd("-l small -q -p Mine -a numTraining=7,x -x 3")["pacman"].k == {"numTraining": "7", "x": 1}
""")
bug31("c31-win-rate", [(PM, "        wins = [game.state.isWin() for game in games]", "        wins = [game.state.isWin() and not game.state.isLose() and not game.moveHistory[0][0] and game.state.getScore() > 0 for game in games]")],
      "a game won with a negative score", "it is listed as lost",
      """
NUM = 2
games, said, show = series([["Stop"] * 600 + ["East"], WIN], 0, rows=("%%%%%%%", "%P.% G%", "%%%%%%%"))
assert "Record:        Win, Win" in said and "2/2" in said, said
""")

H24 = """
import game, time
class FakeTime:
    now = 100.
    def __getattr__(self, n): return getattr(time, n)
    def time(self): return self.now
game.time = clock = FakeTime()
class Spender(Agent):
    def __init__(self, k, watch=0., think=0., begin=None):
        self.index, self.think = k, think
        if watch:
            self.w = watch
            self.observationFunction = self.look
        if begin is not None:
            self.begin = begin
            self.registerInitialState = self.start
    def start(self, s): clock.now += self.begin
    def look(self, s):
        clock.now += self.w
        return s
    def getAction(self, s):
        clock.now += self.think
        print("secret")
        return "Stop" if self.index == 0 else sorted(s.getLegalActions(self.index))[0]
class Watch(Null):
    def __init__(self, stop): Null.__init__(self); self.stop = stop
    def update(self, s):
        Null.update(self, s)
        if len(self.seen) > self.stop: raise KeyboardInterrupt()
def clocked(agents, limits, stop=40, rows=("%%%%%%%", "%P % G%", "%.%%  %", "%%%%%%%"), mute=False):
    r = ClassicGameRules(30000)
    r.getMaxTotalTime, r.getMoveWarningTime, r.getMaxTimeWarnings = lambda k: limits[0], lambda k: limits[1], lambda k: limits[2]
    g = r.newGame(Layout(list(rows)), agents[0], agents[1:], Watch(stop), True, True)
    g.muteAgents = mute
    with contextlib.redirect_stderr(io.StringIO()):
        try: g.run()
        except KeyboardInterrupt: pass
    return g
"""
bug("c24-watching-is-free", "C24", [(GM, "                        move_time += time.time() - start_time\n                        self.unmute()", "                        self.unmute()")],
    "an agent with an observation function that spends its time there", "that time is charged to nobody: slow moves are never noticed", H24 + """
g = clocked([Spender(0, watch=5.), Spender(1)], (10000, 2, 0))
assert g.agentTimeout and len(g.moveHistory) == 0, g.moveHistory
""")
bug("c24-startup-is-free", "C24", [(GM, "                            self.totalAgentTimes[i] += time_taken", "                            self.totalAgentTimes[i] = max(self.totalAgentTimes[i], time_taken) if i == self.startingIndex else 0")],
    "a ghost that spends its total time at startup", "it goes on playing", H24 + """
g = clocked([Spender(0, begin=1.), Spender(1, begin=50., think=.1)], (20, 100, 0))
assert g.agentTimeout and len(g.moveHistory) == 1, len(g.moveHistory)
""")
bug("c24-final-swallowed", "C24", [(GM, "                    if not self.catchExceptions: raise data\n                    self._agentCrash(agentIndex)", "                    self._agentCrash(agentIndex)")],
    "an agent that fails when told of the end, without failure catching", "the error is swallowed", """
class P(Say):
    def final(self, s): raise ValueError("end")
try:
    with contextlib.redirect_stderr(io.StringIO()):
        play(("%%%%", "%P.%", "%%%%"), [P("East")])
except ValueError:
    pass
else:
    raise AssertionError("swallowed")
""")
bug("c24-shared-notebook", "C24", [(GM, "        self.agentOutput = [io.StringIO() for agent in agents]", "        self.agentOutput = [io.StringIO()] * len(agents)")],
    "several agents that print while muted", "their output is no longer kept apart", H24 + """
g = clocked([Spender(0), Spender(1)], (1000, 1000, 0), mute=True, stop=11)
assert [o.getvalue().count("secret") for o in g.agentOutput] == [6, 5], [o.getvalue().count("secret") for o in g.agentOutput]
""")
bug("c24-own-callback", "C24", [(GM, "            if 'observationFunction' in dir( agent ):", "            if 'observationFunction' in dir( type(agent) ):")],
    "an agent object that was given its observation function (its class has none)", "the agent is not shown the state", """
p = Say("East")
seen = []
p.observationFunction = lambda s: seen.append(s) or s
play(("%%%%", "%P.%", "%%%%"), [p])
assert len(seen) == 1
""")
bug("c26-queue-identity", "C26", [(UT, "            if i == item:\n                if p <= priority:", "            if i is item:\n                if p <= priority:")],
    "a better priority for an item equal to, but not the same object as, the queued one", "the item is queued twice and comes out twice", """
q = util.PriorityQueue()
q.push((1, tuple([2, 3])), 5)
q.push("other", 3)
q.update((1, tuple([2, 3])), 1)
assert [q.pop() for _ in range(2)] == [(1, (2, 3)), "other"] and q.isEmpty()
""")
bug("c27-last-scared-move", "C27", [(GA, "        isScared = ghostState.scaredTimer > 0", "        isScared = ghostState.scaredTimer > 1")],
    "a directional ghost on the last move it is scared", "it attacks instead of fleeing", """
from ghostAgents import DirectionalGhost
s = put(state("%%%%%%%", "%P  G %", "%.%%%%%", "%%%%%%%"), 1, (4, 2), D.STOP, 1)
d = DirectionalGhost(1).getDistribution(s)
assert d["East"] > d["West"], d
""")
bug("c27-remembered-choice", "C27", [(GA, "        dist.normalize()\n        return dist\n\nclass Dir", "        dist.normalize()\n        self.known = getattr(self, 'known', {})\n        return self.known.setdefault((state.getGhostPosition(self.index), tuple(sorted(dist))[:2]), dist)\n\nclass Dir")],
    "the same random ghost at the same place with two moves in common but another third", "a legal move is never chosen, or an illegal one may be", """
from ghostAgents import RandomGhost
g = RandomGhost(1)
rows = ("%%%%%", "%. P%", "% G %", "%   %", "%%%%%")
one, two = (put(state(*rows), 1, (2, 2), d) for d in (D.NORTH, D.STOP))
for s in (one, two):
    dist = g.getDistribution(s)
    assert sorted(k for k in dist if dist[k]) == sorted(s.getLegalActions(1)), dist
""")
bug("c21-eaten-by-score", "C21", [(PM, "            if numFood == 0 and not state.data._lose:", "            if numFood == 0 and not state.data._lose and not state.data._win and state.data.score < 10 ** 4:")],
    "the last pellet of a game that went so well that the score passed ten thousand", "the game is not won", """
s = state("%%%%", "%P.%", "%%%%")
s.data.score = 10 ** 4
assert go(s, (0, D.EAST)).isWin()
""")
bug("c23-capsule-list", "C23", [(GM, "            self.capsules = prevState.capsules[:]", "            self.capsules = prevState.capsules[:] if len(prevState.capsules) < 5 else prevState.capsules")],
    "editing a copy's capsules, on a board with five or more", "the original changes too", """
s = state("%%%%%%%%%", "%Pooooo.%", "%%%%%%%%%")
s.deepCopy().data.capsules.clear()
assert len(s.getCapsules()) == 5
""")
bug("c23-four-capsules", "C23", [(GM, "        if not self.capsules == other.capsules: return False", "        if not self.capsules[:4] == other.capsules[:4]: return False")],
    "states that differ in the fifth capsule only", "they compare equal", """
s = state("%%%%%%%%%", "%Pooooo.%", "%%%%%%%%%")
t = s.deepCopy()
t.data.capsules.pop()
assert s != t
""")
bug("c24-short-memory", "C24", [(GM, "            self.moveHistory.append( (agentIndex, action) )", "            self.moveHistory = (self.moveHistory + [(agentIndex, action)])[-5000:]")],
    "a game of more than five thousand moves", "the first moves are no longer on record", """
g = play(("%%%%", "%P.%", "%%%%"), [Say(*["Stop"] * 5100, "East")])
assert len(g.moveHistory) == 5101, len(g.moveHistory)
""")
bug("c25-line-limit", "C25", [(LY, "[line.strip() for line in f]", "[line.strip()[:64] for line in f]")],
    "a board file wider than 64 columns", "the rest of the board is dropped", """
open("w.lay", "w").write("%" * 80 + "\\n%P" + "." * 77 + "%\\n" + "%" * 80)
assert getLayout("w").totalFood == 77
""")
bug("c26-arrival-wraps", "C26", [(UT, "        entry = (priority, self.count, item)", "        entry = (priority, self.count % 4096, item)")],
    "more than four thousand items of equal priority", "a late item comes out before an early one", """
q = util.PriorityQueue()
for k in range(4100): q.push(k, 1)
assert [q.pop() for _ in range(4100)] == list(range(4100))
""")
bug31("c31-eight-ghosts", [(PM, "    args['ghosts'] = [ghostType( i+1 ) for i in range( options.numGhosts )]", "    args['ghosts'] = [ghostType( i+1 ) for i in range( min(options.numGhosts, 8) )]")],
    "-k with more than eight ghosts", "only eight are made", """
assert len(cmd("-l small -k 11")["ghosts"]) == 11
""")
bug31("c31-five-agents", [(PM, "        agents = [pacmanAgent] + ghostAgents[:layout.getNumGhosts()]", "        agents = [pacmanAgent] + ghostAgents[:min(layout.getNumGhosts(), 4)]")],
    "a board with more than four ghosts", "the others never move", """
class P(Agent):
    def getAction(self, s): return "Stop" if s.data._agentMoved is None else "East"
class G(Agent):
    def __init__(self, i): self.index = i
    def getAction(self, s): return s.getLegalActions(self.index)[0]
with contextlib.redirect_stdout(io.StringIO()):
    g, = pacman.runGames(Layout(["%%%%%%%%", "%P . % %", "%%%%%%%%", "%GGGGGG%", "%%%%%%%%"]), P(), [G(k + 1) for k in range(6)], Null(), 1, False)
assert [i for i, a in g.moveHistory][:8] == [0, 1, 2, 3, 4, 5, 6, 0], g.moveHistory
""")
bug("c23-moves-handed-out", "C23", [(PM, "        return Actions.getPossibleActions( state.getPacmanState().configuration, state.data.layout.walls )\n", "        conf, kept = state.getPacmanState().configuration, state.data.layout.__dict__.setdefault('moves', {})\n        if conf.pos not in kept: kept[conf.pos] = Actions.getPossibleActions( conf, state.data.layout.walls )\n        return kept[conf.pos]\n")],
    "an agent that takes a move off the list it was given, as many do with Stop", "the move is no longer legal there, in this and in later states of the game", """
s = state("%%%%%", "%P .%", "%%%%%")
s.getLegalActions(0).remove(D.STOP)
assert D.STOP in s.getLegalActions(0)
""")
bug("c25-blank-columns", "C25", [(LY, "[line.strip() for line in f]", "[line.rstrip('\\n') for line in f]")],
    "a board file with blanks at the end of some lines", "the board is too wide, or cannot be read", """
open("b.lay", "w").write("%%%%  \\n%P.%\\n%%%% ")
assert getLayout("b").width == 4
""")
bug("c26-same-counter", "C26", [(UT, "        addend = Counter()\n        for key in self:\n            if key in y:\n                addend[key] = self[key] + y[key]", "        addend = Counter() if self else y\n        for key in self:\n            if key in y:\n                addend[key] = self[key] + y[key]")],
    "adding a counter in place to one that is still empty, and changing either afterwards", "both are one and the same counter", """
a, b = util.Counter(), util.Counter()
b["x"] = 1
a += b
a["x"] += 1
assert b["x"] == 1 and a["x"] == 2
""")
bug("c26-nearly-equal", "C26", [(UT, "        values = [x[1] for x in all]\n", "        values = [round(x[1], 9) for x in all]\n")],
    "counts that differ by less than a billionth, such as small probabilities", "the first key wins, not the largest", """
c = util.Counter()
c["a"], c["b"] = 1e-11, 3e-11
assert c.argMax() == "b"
""")
bug31("c31-long-records", [(PM, "'actions': game.moveHistory}", "'actions': game.moveHistory[:1000]}")],
    "a recorded game of more than a thousand moves", "the record ends early", """
import pickle
class P(Agent):
    n = 0
    def getAction(self, s):
        self.n += 1
        return "Stop" if self.n < 1100 else "East"
os.chdir(folder("records"))
with contextlib.redirect_stdout(io.StringIO()):
    pacman.runGames(Layout(["%%%%", "%P.%", "%%%%"]), P(), [], Null(), 1, True)
f, = [x for x in os.listdir(".") if x.startswith("recorded")]
assert len(pickle.load(open(f, "rb"))["actions"]) == 1100
""")
bug31("c31-first-display", [(PM, "    __main__.__dict__['_display'] = display", "    __main__.__dict__.setdefault('_display', display)")],
    "a second series in the same program, with another display", "agents draw on the display of the first", """
import __main__
class P(Agent):
    def getAction(self, s):
        seen.append(__main__._display)
        return "East"
seen, shows = [], [Null(), Null()]
for show in shows:
    with contextlib.redirect_stdout(io.StringIO()):
        pacman.runGames(Layout(["%%%%", "%P.%", "%%%%"]), P(), [], show, 1, False)
assert seen == shows, seen
""")
