"""Driving the tree under test and comparing what it produces with the models."""
import cmds
import evalplan
import fakespark
import spl
from core import Violation
from hypothesis import strategies as st


class Refused(Exception):
    def __init__(self, stage, e):
        super().__init__(f"{stage}: {type(e).__name__}: {str(e)[:200]}")
        self.stage, self.kind = stage, type(e).__name__


def transpile(q, runtime=False, fmt=False):
    """Code for q; Refused when it is turned down with an ordinary error."""
    import spl_transpiler as s
    try:
        ast = s.parse(q)
    except ValueError as e:
        raise Refused("parse", e)
    try:
        return s.render_pyspark(ast, allow_runtime=runtime, format_code=fmt)
    except RuntimeError as e:
        raise Refused("render", e)


def must(q, runtime=False, fmt=False):
    try:
        return transpile(q, runtime, fmt)
    except Refused as e:
        raise Violation(f"{q!r} is refused: {e}", query=q)


def observe(q, runtime=False):
    code = must(q, runtime)
    try:
        return fakespark.run_lenient(code, runtime), code
    except fakespark.Rejected as e:
        raise Violation(f"the program for {q!r} is not valid PySpark: {e}", query=q, code=code)


def pipeline_case(p):
    """strategy of pipelines -> strategy of {"p": pipeline, "y": style choices}"""
    return st.fixed_dictionaries({"p": p, "y": spl.styles()})


def as_pipeline(p):
    return [p] if isinstance(p, dict) else p


def check_pipeline(case):
    p = as_pipeline(case["p"])
    q = cmds.render_pipeline(p, spl.Style(case["y"]))
    plan, code = observe(q)
    evalplan.expect_plan(cmds.plan_pipeline(p), plan, repr(q), query=q, code=code)
    ks = cmds.kinds_in(p)
    return {"nontrivial": True, "labels": sorted(set(ks)), "sample": q}


def expr_query(e, style, kind="eval"):
    text = spl.spell(e, spl.Style(style))
    return f"eval zz={text}" if kind == "eval" else f"where {text}"


def check_expr(case, kind="eval"):
    e = case["e"]
    q = expr_query(e, case["y"], kind)
    plan, code = observe(q)
    exp = ["withColumn", cmds.MAIN, "zz", spl.tx(e)] if kind == "eval" else ["where", cmds.MAIN, spl.tx(e)]
    evalplan.expect_plan(exp, plan, repr(q), query=q, code=code)
    return q


def with_commands(kinds, weird=False, lead=False):
    """One command of the given kinds, alone or after a search."""
    one = st.sampled_from(kinds).flatmap(lambda k: cmds.GEN[k](weird=weird))
    return st.one_of(one.map(lambda c: [c]), one.map(lambda c: [c]), st.tuples(cmds.leading_search(False, 1), one).map(list)).map(sourced)


def sourced(p):
    """makeresults makes its own events: it comes first."""
    return p[-1:] if p[-1]["c"] == "makeresults" else p
