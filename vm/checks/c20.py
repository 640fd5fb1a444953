from ..framesrun import gen_case, run_frames
PROPERTY = "C20"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: lock-step set/graph model of computation frames, oracle read from the database by SQL"
RULE = ('Same programs and frames, mostly edited: renamed, dropped from, merged, cleaned up; the result is compared exactly with the edited model, sources and sinks with the edges, and edited frames are expanded and turned into tables. Non-trivial: more than two calls and three operations.')
BUDGET = {"quick": (6000, 32), "thorough": (150000, 900)}
ASSUMPTIONS = ["function nodes are not renamed or merged and references given to cf() are distinct (not supported by the library)"]
REQUIRED_EVENTS = {'edited_frames_used': 80, 'frames_compared_with_model': 500, 'refused_renames': 5}


def gen(rng, i, tier):
    return gen_case(rng, tier, ['rename', 'drop', 'merge', 'mergevars', 'cleanup', 'all', 'query'])


def run(case, env):
    return run_frames(case, env, PROPERTY)
