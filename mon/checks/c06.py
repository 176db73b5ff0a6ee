"""C06: batched contraction."""
from . import c05
from .. import gen
PROP = "C06"
REPEAT = 3                                    # rounds of the workload, each with its own random stream
RULE = ("one distinct situation = (N, batch size, memory layout, operation kinds with wires, single operation or circuit); every "
        "slice of the result is judged against the dense reference of that sample and against the unbatched call")
REQUIRED = c05.REQUIRED + ["drove batch of samples: " + c for c in c05.CORR]


def cases(rng, tier):
    return c05.cases(rng, tier, batched=True)


def run(case, rec):
    c05.run(case, rec, batched=True)
