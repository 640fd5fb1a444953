from ..framesrun import gen_case, run_frames
PROPERTY = "C19"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: lock-step set/graph model of computation frames, oracle read from the database by SQL"
RULE = ('Same programs and frames, mostly restricted up-, down- and midstream (strong and weak) and queried for order, neighbours, reachable elements, source and sink elements: compared exactly with fixed points computed in the model. Non-trivial: more than two calls and three operations.')
BUDGET = {"quick": (6000, 32), "thorough": (150000, 900)}
ASSUMPTIONS = ["function nodes are not renamed or merged and references given to cf() are distinct (not supported by the library)"]
REQUIRED_EVENTS = {'restricted_nonempty': 200, 'queries': 200, 'frames_compared_with_model': 500}


def gen(rng, i, tier):
    return gen_case(rng, tier, ['up', 'down', 'mid', 'query', 'reachelts', 'all'])


def run(case, env):
    return run_frames(case, env, PROPERTY)
