from checks import progs
from vlib import state
from vlib.harness import thorough

LEVEL = "bounded"
KINDS = state.MEMORY
BOUNDS = ("the programs of C01 to C10 (every operator, every implementation version), the branching and optimised networks of C12 and C13 and random networks of "
          "mixed operators; arrays as declared by the generated sources, the caller's input and prediction arrays of exactly the declared sizes; any input, any "
          "context contents")
ASSUMPTIONS = ["objects have the sizes their C declarations give them; every access is checked against its object, paths are those feasible for some input"]


def cases():
    cs = progs.every()
    return state.wrap(cs if thorough() else progs.sample(cs, 900)) + state.wrap(progs.nets(15))
