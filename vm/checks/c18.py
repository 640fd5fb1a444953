from ..framesrun import gen_case, run_frames
PROPERTY = "C18"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: lock-step set/graph model of computation frames, oracle read from the database by SQL"
RULE = ('Same programs and frames, mostly combined and selected from: results are compared exactly with sets of nodes, edges and elements in the model (difference: least fixed point of forward reachability); unions that would be inconsistent must be refused and no others; laws on random triples. Non-trivial: more than two calls and three operations.')
BUDGET = {"quick": (6000, 32), "thorough": (150000, 900)}
ASSUMPTIONS = ["function nodes are not renamed or merged and references given to cf() are distinct (not supported by the library)"]
REQUIRED_EVENTS = {'frames_compared_with_model': 1000, 'laws_checked': 100, 'refused_unions': 5, 'selected_by_value': 200}


def gen(rng, i, tier):
    return gen_case(rng, tier, ['select', 'subset', 'union', 'inter', 'diff', 'isin', 'lt', 'unreach', 'all'])


def run(case, env):
    return run_frames(case, env, PROPERTY)
