"""C17 nested searches keep their own scope."""
import cmds
import evalplan
import run
import spl
from core import Sub, Violation
from hypothesis import strategies as st

CHEAP = ["search", "where", "eval", "fields", "rename", "head", "stats", "bin", "table", "rex", "fillnull"]


def contents(depth):
    """Pipelines that hold joins / multisearches up to the given depth."""
    if depth == 0:
        return cmds.pipelines(1, 2, False, nested=False, kinds=CHEAP)
    sub = contents(depth - 1)
    join = cmds.Join.gen(sub=sub)
    multi = cmds.MultiSearch.gen(sub=sub).map(lambda c: dict(c, subs=c["subs"][:3]))
    simple = cmds.any_command(False, False, CHEAP)

    @st.composite
    def one(draw):
        first = draw(st.sampled_from(["lead", "lead", "multi", "any"]))
        p = [draw(cmds.leading_search(False, 1))] if first == "lead" else [draw(multi)] if first == "multi" else [draw(simple)]
        for _ in range(draw(st.integers(0, 2))):
            p.append(draw(simple if draw(st.integers(0, 2)) == 0 else join))
        if len(p) == 1 and first != "multi":
            p.append(draw(join))
        return p
    return one()


def nested():
    return run.pipeline_case(st.sampled_from([1, 2, 2, 3]).flatmap(contents))


def depth_of(p):
    return max([0] + [1 + depth_of(s) for c in p for s in ([c["sub"]] if "sub" in c else c.get("subs", []))])


def check_nested(case):
    info = run.check_pipeline(case)
    d = depth_of(case["p"])
    return {"nontrivial": d > 0, "labels": [f"depth={d}"] + info["labels"], "sample": info["sample"]}


# ---- metamorphic, both modes: the program of a nested search is its program on its own

@st.composite
def parts(draw):
    d = draw(st.sampled_from([0, 0, 1, 2]))
    sub = contents(d)
    return {"kind": draw(st.sampled_from(["join", "join", "multisearch"])), "outer": draw(cmds.pipelines(1, 3, False, nested=False, kinds=CHEAP)),
            "subs": draw(st.lists(sub, min_size=2, max_size=3)), "rt": draw(st.booleans()), "type": draw(st.sampled_from([None, "inner", "left", "outer"])),
            "f": draw(cmds.fieldlist(1, 3, False)), "after": draw(st.lists(cmds.any_command(False, False, ["where", "head", "fields", "eval"]), max_size=1)), "y": draw(spl.styles())}


def check_parts(case):
    sty = spl.Style(case["y"])
    rt = case["rt"]
    subs = [cmds.render_pipeline(p, sty, True) for p in case["subs"]]
    if case["kind"] == "join":
        outer = cmds.render_pipeline(case["outer"], sty)
        q = f"{outer} | join {'type=' + case['type'] + ' ' if case['type'] else ''}{' '.join(case['f'])} [{subs[0]}]"
        a, _ = run.observe(outer, rt)
        b, _ = run.observe(subs[0], rt)
        cond = None
        for f in case["f"]:
            x = ["bin", "==", cmds.col(f"LEFT.{f}"), cmds.col(f"RIGHT.{f}")]
            cond = x if cond is None else ["bin", "&", cond, x]
        want = ["join", ["alias", a, "LEFT"], ["alias", b, "RIGHT"], cond, cmds.JOIN_TYPES[case["type"]]]
    else:
        q = "multisearch " + " ".join(f"[{s}]" for s in subs)
        want = None
        for s in subs:
            p, _ = run.observe(s, rt)
            want = p if want is None else ["unionByName", want, p, True]
    got, code = run.observe(q, rt)
    evalplan.expect_plan(want, got, f"{q!r} against its parts translated alone", query=q, code=code)
    if case["after"] and not rt:
        tail = " | ".join(cmds.render_command(c, sty) for c in case["after"])
        got2, code2 = run.observe(q + " | " + tail, rt)
        w = want
        for c in case["after"]:
            w = cmds.PLAN[c["c"]](c, w)
        evalplan.expect_plan(w, got2, f"{q + ' | ' + tail!r} against its parts translated alone", query=q, code=code2)
    return {"nontrivial": True, "labels": [case["kind"], "runtime" if rt else "standalone", f"depth={1 + max(depth_of(s) for s in case['subs'])}"], "sample": q}


# ---- the outer pipeline does not change when only the nested search does

def check_indep(case):
    """Two joins that differ only in the nested search differ only there; nested index/limit/etc. never leak out."""
    sty = spl.Style(case["y"])
    rt = case["rt"]
    outer = cmds.render_pipeline(case["outer"], sty)
    keys = " ".join(case["f"])
    q = [f"{outer} | join {keys} [{cmds.render_pipeline(s, sty, True)}]" for s in case["subs"][:2]]
    (a, ca), (b, cb) = run.observe(q[0], rt), run.observe(q[1], rt)
    a, b = evalplan.norm(a), evalplan.norm(b)
    a2, b2 = [x for i, x in enumerate(a) if i != 2], [x for i, x in enumerate(b) if i != 2]
    if a[0] != "join" or b[0] != "join" or a2 != b2:
        raise Violation(f"the nested search changes more than itself: {q[0]!r} and {q[1]!r}", query=q[0], codes=[ca, cb])
    return {"nontrivial": case["subs"][0] != case["subs"][1], "labels": ["runtime" if rt else "standalone"], "sample": q[0]}


SUBS = [
    Sub("nested", check_nested, nested, quick=2500, rule="pipelines with join/multisearch nested 1-3 deep against the model; non-trivial: it nests"),
    Sub("parts", check_parts, parts, quick=2500, rule="join/multisearch of generated searches, both modes: the plan is made of the plans its parts have alone"),
    Sub("independent", check_indep, parts, quick=1200, rule="same outer pipeline, two nested searches, both modes: only the joined side differs"),
]
