"""As C06 without limits: the yielded assignments must be exactly the brute-force solutions, each once, for every policy and compile setting in the history. Non-trivial: the model has a constraint over two or more variables."""
from csp import *
import c06
nontrivial, shrink = c06.nontrivial, c06.shrink
def enumerate_cases():
    for c in c06.enumerate_cases():
        yield c
def generate(rng):
    spec = rand_model(rng)
    return {"spec": spec, "hist": c06.rand_hist(rng, spec, limits=False)}
def run(case):
    return c06.run(case, complete=True)
