from ..framesrun import gen_case, run_frames
PROPERTY = "C17"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: lock-step set/graph model of computation frames, oracle read from the database by SQL"
RULE = ('Same programs and frames, mostly turned into tables (all or some nodes, with and without calls, inner or outer, references or values, lazy columns): the histories of the final elements are computed by a graph search in the model of the frame and every row must consist of exactly the histories of final elements in it, every final element must appear, joins of up to two finals are computed exactly, and values are compared with those computed by plain functions from the recorded inputs. Non-trivial: more than two calls and three operations.')
BUDGET = {"quick": (6000, 32), "thorough": (150000, 900)}
ASSUMPTIONS = ["function nodes are not renamed or merged and references given to cf() are distinct (not supported by the library)"]
REQUIRED_EVENTS = {'rows_checked': 2000, 'exact_joins': 6, 'cells_with_many': 100, 'memo_tables': 50}


def gen(rng, i, tier):
    return gen_case(rng, tier, ['df', 'df1', 'table', 'all'])


def run(case, env):
    return run_frames(case, env, PROPERTY)
