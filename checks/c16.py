from checks import progs
from vlib import state
from vlib.harness import thorough

LEVEL = "bounded"
KINDS = state.STATE
BOUNDS = ("the programs of C01 to C10 (every operator, every implementation version), the branching and optimised networks of C12 and C13 and random networks of "
          "mixed operators; two executions from arbitrary different contents of the context and of the prediction array")
ASSUMPTIONS = ["an inference that writes only its context, its prediction array and its own stack, reads no global it can write, and calls only pure functions of the "
               "mathematics library is independent of any concurrent call on another context"]


def cases():
    cs = progs.every()
    return state.wrap(cs if thorough() else progs.sample(cs, 700, 1)) + state.wrap(progs.nets(16))
