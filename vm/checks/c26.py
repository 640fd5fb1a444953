from ..framesrun import gen_case, run_frames
PROPERTY = "C26"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: what is printed and drawn is parsed and compared with a lock-step model of the frames"
RULE = ("Random programs are run on a real storage; then random sequences of frame operations (creation, expansion, selection, algebra, restriction, editing) on a pool of frames. The printed description, the summary, the information tables, the per-variable information and the drawing (as given to the renderer) of the frames are parsed back and compared with the frame's nodes, edges, labels, numbers of values, calls, sources, sinks and connected elements in a model based on plain SQL. No frame may be changed by reporting on it. Non-trivial: more than two calls and three operations.")
BUDGET = {"quick": (6000, 30), "thorough": (150000, 600)}
ASSUMPTIONS = ["the rendering of a drawing by graphviz is not part of the check"]
REQUIRED_EVENTS = {"reports": 250, "drawings": 250, "frames_checked": 500}


def gen(rng, i, tier):
    return gen_case(rng, tier, ["report", "op", "refs", "vars", "back", "forward", "select", "union", "mid", "rename", "drop"])


def run(case, env):
    return run_frames(case, env, PROPERTY)
