from ..framesrun import gen_case, run_frames
PROPERTY = "C15"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: lock-step set/graph model of computation frames, oracle read from the database by SQL"
RULE = ("Random programs (chains, diamonds, several outputs, lists, dicts, variable arguments, calls without inputs or without outputs) are run on a real storage; then random sequences of frame operations (29 kinds: creation, expansion, selection, algebra, restriction, editing, queries, tables) on a pool of frames. After every operation: the new frame's nodes, adjacency lists, element sets, inverse links, creators and consumers are compared with each other and with the call graph read from the database by plain SQL; a deep snapshot of every other frame must be unchanged; in-place forms must equal copying forms in all internal links. Non-trivial: more than two calls and three operations.")
BUDGET = {"quick": (6000, 32), "thorough": (150000, 900)}
ASSUMPTIONS = ["function nodes are not renamed or merged and references given to cf() are distinct (not supported by the library)"]
REQUIRED_EVENTS = {'frames_checked': 3000, 'frames_compared_with_model': 2500, 'unchanged_frames_verified': 12000, 'inplace_forms': 400}


def gen(rng, i, tier):
    return gen_case(rng, tier, ['op', 'refs', 'vars', 'hids', 'copy', 'select', 'union', 'rename', 'drop', 'merge'])


def run(case, env):
    return run_frames(case, env, PROPERTY)
