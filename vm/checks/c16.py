from ..framesrun import gen_case, run_frames
PROPERTY = "C16"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: lock-step set/graph model of computation frames, oracle read from the database by SQL"
RULE = ("Same programs and frames, mostly expanded: every expansion (one step or recursive, some or all variables, with and without reusing nodes or skipping calls) is compared with the call graph read from the database: nothing removed, one step adds exactly the creators (consumers) of the given variables' references, recursive expansion everything in the history (future), full expansion the connected component, and every related call is connected by its labels to variables that hold its arguments and results. Non-trivial: more than two calls and three operations.")
BUDGET = {"quick": (6000, 32), "thorough": (150000, 900)}
ASSUMPTIONS = ["function nodes are not renamed or merged and references given to cf() are distinct (not supported by the library)"]
REQUIRED_EVENTS = {'calls_added_by_expansion': 3000, 'recursive_expansions': 150, 'full_expansions': 200, 'inplace_forms': 500}


def gen(rng, i, tier):
    return gen_case(rng, tier, ['op', 'refs', 'hids', 'back', 'forward', 'all'])


def run(case, env):
    return run_frames(case, env, PROPERTY)
