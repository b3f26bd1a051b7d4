"""Demonstration (not a check): run with the Python environment in which pyglobalsearch is installed.

The constraints of a second problem, evaluated on worker threads (parallel=True), are those of
problem 0, because the problem they belong to is read from a thread-local that only the thread
which called constraints() has set.  Exits 1 and prints the count if the defect is there."""
import sys
import pyglobalsearch as gs

box = lambda: [[0.0, 1.0], [0.0, 1.0]]
foreign = [0]


def other(x):
    foreign[0] += 1
    return 1.0


gs.optimize(gs.PyProblem(lambda x: x[0], box, constraints=other), gs.PyOQNLPParams(iterations=10, population_size=50), seed=1)
p = gs.PyProblem(lambda x: x[0] + x[1], box, constraints=lambda x: x[0] - 0.5)
foreign[0] = 0
gs.optimize(p, gs.PyOQNLPParams(iterations=20, population_size=100), seed=1, parallel=False)
print("sequential: calls of the other problem's constraint:", foreign[0])
foreign[0] = 0
gs.optimize(p, gs.PyOQNLPParams(iterations=20, population_size=100), seed=1, parallel=True)
print("parallel:   calls of the other problem's constraint:", foreign[0])
sys.exit(1 if foreign[0] else 0)
