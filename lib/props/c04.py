"""C04 transpiling is deterministic and has no side effects."""
import json
import os
import subprocess
import sys
import tempfile
import threading

import corpus
from core import Sub, Violation
from hypothesis import strategies as st

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROG = """
import json, os, sys
sys.path.insert(0, %r)
import spl_transpiler as s
from spl_transpiler import macros
from spl_transpiler.spl_transpiler import detect_macros

def answer(op):
    k, q = op[0], op[1]
    try:
        if k == "parse":
            return ["tree", repr(s.parse(q))]
        if k == "render":
            return ["code", s.render_pyspark(s.parse(q), allow_runtime=op[2], format_code=op[3])]
        if k == "convert":
            return ["code", s.convert_spl_to_pyspark(q, allow_runtime=op[2], format_code=op[3])]
        if k == "macros":
            chunks, rest = detect_macros(q)
            return ["macros", [[a, m.macro_name, [list(x) for x in m.args]] for a, m in chunks], rest]
        if k == "both":
            p = s.parse(q)
            before = repr(p)
            h = hash(p)
            a = [out(p, rt, op[3]) for rt in (False, True, False)]
            return ["both", before == repr(p), h == hash(p), a]
    except (ValueError, RuntimeError) as e:
        return [type(e).__name__, str(e).split("Stack backtrace")[0]]

def out(p, rt, fmt):
    try:
        return s.render_pyspark(p, allow_runtime=rt, format_code=fmt)
    except RuntimeError as e:
        return "RuntimeError " + str(e).split("Stack backtrace")[0]
"""
MAIN = PROG % HERE + """
ops = json.load(sys.stdin)
json.dump([answer(o) for o in ops], sys.stdout)
"""
# forks once per request, each time from a process that has not transpiled anything yet
SERVER = PROG % HERE + """
for line in sys.stdin:
    op = json.loads(line)
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        with os.fdopen(w, "w") as f:
            json.dump(answer(op), f)
        os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        data = f.read()
    os.waitpid(pid, 0)
    print(data or "null", flush=True)
"""
_SERVER = []
_MEMO = {}
exec(PROG % HERE, globals()) if "VERIF_STAGE" in os.environ else None


def fresh(op):
    """the answer of a process that has done nothing before"""
    key = json.dumps(op)
    if key not in _MEMO:
        if not _SERVER:
            env = dict(os.environ, PYTHONHASHSEED="random")
            _SERVER.append(subprocess.Popen([sys.executable, "-c", SERVER], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, env=env))
        p = _SERVER[0]
        p.stdin.write(key + "\n")
        p.stdin.flush()
        ans = json.loads(p.stdout.readline())
        if len(_MEMO) > 20000:
            _MEMO.clear()
        _MEMO[key] = ans
    return _MEMO[key]


def texts():
    return st.one_of(corpus.queries(), corpus.queries(), corpus.mutated(), corpus.soup(8))


def ops(fmt=True):
    flag = st.booleans()
    f = st.sampled_from([False, False, False, True]) if fmt else st.just(False)
    return st.one_of(st.tuples(st.just("parse"), texts()), st.tuples(st.just("render"), texts(), flag, f), st.tuples(st.just("convert"), texts(), flag, f), st.tuples(st.just("macros"), st.one_of(corpus.any_text(), corpus.soup(8))),
                     st.tuples(st.just("both"), texts(), flag, f)).map(list)


def say(got, want, op, what):
    if got != want:
        raise Violation(f"{op!r}: {what} another answer", op=op, expected=want, got=got)


# ---- histories: whatever was done before, each call answers as in a fresh process

def histories():
    return st.lists(ops(), min_size=1, max_size=6).flatmap(lambda xs: st.lists(st.integers(0, len(xs) - 1), max_size=4).map(lambda again: {"ops": xs, "again": again}))


def check_history(case):
    seq = case["ops"] + [case["ops"][i] for i in case["again"]]
    for op in seq:
        got = answer(op)
        say(got, fresh(op), op, "after other calls")
        if got[0] == "both" and not (got[1] and got[2] and got[3][0] == got[3][2]):
            raise Violation(f"{op!r}: rendering changes the tree, or depends on what was rendered before", op=op, got=got)
    kinds = {fresh(o)[0] for o in seq}
    return {"nontrivial": len(seq) > 1 and "code" in kinds | ({"code"} if "both" in kinds else set()), "labels": sorted(kinds), "sample": seq[:3]}


# ---- threads

def thread_cases():
    return st.fixed_dictionaries({"ops": st.lists(ops(), min_size=2, max_size=6), "n": st.integers(2, 6)})


def check_threads(case):
    xs = case["ops"]
    want = [fresh(o) for o in xs]
    wrong = []
    gate = threading.Barrier(case["n"])

    def go(k):
        gate.wait()
        for i in range(len(xs)):
            j = (i + k) % len(xs)
            try:
                got = answer(xs[j])
            except BaseException as e:
                got = [type(e).__name__, str(e)]
            if got != want[j]:
                wrong.append((xs[j], want[j], got))
    ts = [threading.Thread(target=go, args=(k,)) for k in range(case["n"])]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    for op, w, g in wrong[:1]:
        say(g, w, op, "with other threads at work")
    return {"nontrivial": any(w[0] in ("code", "both") for w in want), "labels": [f"{case['n']} threads"], "sample": [case["n"], xs[:2]]}


# ---- processes with other hash seeds, the calls in another order

def process_cases():
    return st.fixed_dictionaries({"ops": st.lists(ops(), min_size=30, max_size=60), "seed": st.integers(1, 4294967295), "rot": st.integers(0, 59), "tz": st.sampled_from(["UTC", "Asia/Kolkata", "America/New_York"]), "lc": st.sampled_from(["C", "C.UTF-8", "POSIX"])})


def check_process(case):
    xs = case["ops"]
    k = case["rot"] % len(xs)
    ys = xs[k:] + xs[:k]
    with tempfile.TemporaryDirectory() as d:
        env = dict(os.environ, PYTHONHASHSEED=str(case["seed"]), TZ=case["tz"], LC_ALL=case["lc"], HOME=d, XDG_CACHE_HOME=d, PYTHONDONTWRITEBYTECODE="1")
        r = subprocess.run([sys.executable, "-X", "utf8", "-c", MAIN], input=json.dumps(ys), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env, cwd=d, timeout=200)
        left = [x for x in os.listdir(d) if x not in ("black", ".cache")]
        if left:
            raise Violation(f"transpiling leaves files behind: {left}", ops=ys)
    if r.returncode:
        raise Violation(f"a process transpiling these dies: {r.stderr[-500:]}", ops=ys)
    for op, g in zip(ys, json.loads(r.stdout)):
        say(g, answer(op), op, "in another process")
    return {"nontrivial": True, "labels": ["process"], "sample": xs[:2]}


# ---- many indexes, options, fields: anything kept in a set or map on the way

def wide_cases():
    w = st.lists(st.from_regex(r"[a-z]{1,6}", fullmatch=True), min_size=4, max_size=14, unique=True)
    return st.fixed_dictionaries({"w": w, "k": st.integers(0, 7), "rt": st.booleans()})


WIDE = [lambda w: "search (" + " ".join(f'index="i_{x}"' for x in w) + ")", lambda w: "search " + " AND ".join(f'index="i_{x}" f_{x}=1' for x in w), lambda w: "search " + " ".join(f'f_{x}="{x}"' for x in w),
        lambda w: "search z=1 | stats " + ", ".join(f"sum(f_{x}) as n_{x}" for x in w) + " by " + ", ".join(f"g_{x}" for x in w), lambda w: "search z=1 | eval " + ", ".join(f"f_{x}=g_{x}" for x in w),
        lambda w: "| tstats " + " ".join(f"sum(f_{x}) as n_{x}" for x in w) + " from datamodel=M by " + ", ".join(f"g_{x}" for x in w), lambda w: "search z=1 | rex \"" + "".join(f"(?<f_{x}>{x})" for x in w) + "\"",
        lambda w: "search z=1 | rename " + ", ".join(f"f_{x} as g_{x}" for x in w) + " | fillnull value=3 " + " ".join(f"f_{x}" for x in w)]


def check_wide(case):
    op = ["render", WIDE[case["k"]](case["w"]), case["rt"], False]
    want = fresh(op)
    for _ in range(4):
        say(answer(op), want, op, "repeated:")
    if want[0] != "code":
        raise Violation(f"{op!r} is refused", got=want)
    return {"nontrivial": True, "labels": [str(case["k"])], "sample": op[1]}


# ---- one query right after another much like it

def twin_cases():
    return st.fixed_dictionaries({"q": st.one_of(corpus.queries(False), corpus.queries()), "how": st.sampled_from(["swap", "digit", "letter", "words"]), "i": st.integers(0, 10 ** 6), "j": st.integers(0, 10 ** 6), "rt": st.booleans(), "f": st.booleans()})


def twin(q, how, i, j):
    import re
    ms = list(re.finditer({"swap": r"[a-z0-9](?=[a-z0-9])", "digit": r"[0-9]", "letter": r"[a-z]", "words": r"\b[a-z]\w*\b"}[how], q))
    if not ms:
        return q
    a = ms[i % len(ms)].start()
    if how == "swap":
        return q[:a] + q[a + 1] + q[a] + q[a + 2:]
    if how == "digit":
        return q[:a] + str(j % 10) + q[a + 1:]
    if how == "letter":
        return q[:a] + chr(97 + j % 26) + q[a + 1:]
    m, n = sorted((ms[i % len(ms)], ms[j % len(ms)]), key=lambda m: m.start())
    if m.end() > n.start():
        return q
    return q[:m.start()] + n.group() + q[m.end():n.start()] + m.group() + q[n.end():]


def check_twins(case):
    q = case["q"]
    r = twin(q, case["how"], case["i"], case["j"])
    seq = [["convert", x, case["rt"], case["f"]] for x in (q, r, q)]
    want = [fresh(o) for o in seq]
    for o, w in zip(seq, want):
        say(answer(o), w, o, "right after a query much like it")
    return {"nontrivial": q != r and want[0][0] == want[1][0] == "code", "labels": [case["how"]], "sample": [q, r]}


SUBS = [
    Sub("twins", check_twins, twin_cases, quick=3000, rule="a query, one made of it by exchanging or replacing characters or words, and the query again, each answered as in a fresh process; non-trivial: both give code"),
    Sub("histories", check_history, histories, quick=3000, rule="sequences of calls (parse, render in both modes, formatted or not, macro detection; good and bad texts): every answer is that of a fresh process, repeated calls included, trees unchanged by rendering; non-trivial: several calls, at least one giving code"),
    Sub("threads", check_threads, thread_cases, quick=700, rule="the same calls from several threads at once; non-trivial: some give code"),
    Sub("processes", check_process, process_cases, quick=64, thorough=4000, rule="30 to 60 calls in a process with another hash seed and in another order"),
    Sub("wide", check_wide, wide_cases, quick=2400, rule="many indexes, conditions, aggregates, assignments or groups, repeated and in a fresh process"),
]
