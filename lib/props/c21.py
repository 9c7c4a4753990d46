"""C21 macro loaders resolve names predictably."""
import json
import os
import shutil
import tempfile
from pathlib import Path

from core import Sub, Violation
from hypothesis import strategies as st

NAMES = ["m", "m1", "mm", "a-b", "M", "x_y", "é", "m*", "?", "[m]", "m.v2", "*"]
DIRS = ["", "sub", "sub/deep", "other", "m", ".hidden", "sub/deep/er", "a b"]
DEFS = ["search x=1", "| head 5", "", "a\\1", "é", "$x$ y"]


def definition():
    return st.tuples(st.sampled_from(DEFS), st.sampled_from([[], ["x"], ["x", "y"]]), st.integers(0, 9)).map(lambda t: {"definition": f"{t[0]}{t[2]}", "arguments": t[1]})


def histories():
    name = st.sampled_from(NAMES[:6] + NAMES)
    op = st.one_of(
        st.tuples(st.just("reg"), st.sampled_from(["r1", "r2"]), name, definition()).map(list),
        st.tuples(st.just("file"), st.sampled_from(["f1", "f2"]), st.sampled_from(DIRS), name, definition(), st.sampled_from(["file", "file", "file", "file", "dir", "othersuffix", "prefix", "bad"])).map(list),
        st.tuples(st.just("get"), st.sampled_from(["r1", "r2", "f1", "f2", "c", "c", "cf", "cn"]), name).map(list),
        st.tuples(st.just("get"), st.sampled_from(["r1", "f1", "f2", "c", "c", "cf"]), name).map(list),
        st.tuples(st.just("sub"), st.sampled_from(["r1", "f1", "c", "cf"]), name).map(list),
        st.tuples(st.just("mutate"), name, definition()).map(list),
    )
    return st.fixed_dictionaries({"init": st.dictionaries(name, definition(), max_size=3), "order": st.permutations(["r1", "f1", "r2", "f2"]), "ops": st.lists(op, min_size=3, max_size=14),
                                  "suffix": st.sampled_from([".json", ".json", ".macro", ".yaml"]), "fb": st.sampled_from(["make", "raise"])})


class Missing(Exception):
    pass


class Refused(Exception):
    pass


class Model:
    def __init__(self, case):
        self.reg = {"r1": dict(case["init"]), "r2": {}}
        self.files = {"f1": {}, "f2": {}}       # name -> list of (kind, definition)
        self.cached = {}
        self.case = case

    def get(self, who, name):
        if who in self.reg:
            if name not in self.reg[who]:
                raise Missing()
            return self.reg[who][name]
        if who in self.files:
            if (who, name) in self.cached:
                return self.cached[who, name]
            found = self.files[who].get(name, [])
            if not found:
                raise Missing()
            if len(found) > 1:
                raise Refused()
            kind, d = found[0]
            if kind == "dir":
                raise Missing()
            if kind == "bad":
                raise Refused()
            self.cached[who, name] = d
            return d
        order = self.case["order"] if who in ("c", "cf") else []
        for o in order:
            try:
                return self.get(o, name)
            except Missing:
                pass
        if who == "cf":
            if self.case["fb"] == "raise":
                raise Refused()
            return {"definition": f"fallback {name}", "arguments": []}
        raise Missing()


def check(case):
    from spl_transpiler import macros as M
    root = Path(tempfile.mkdtemp(prefix="c21-"))
    try:
        for f in ("f1", "f2"):
            (root / f).mkdir()
        init = {k: M.MacroDefinition(**v) for k, v in case["init"].items()}

        def fallback(name):
            if case["fb"] == "raise":
                raise ValueError("no such macro")
            return M.MacroDefinition(definition=f"fallback {name}")
        L = {"r1": M.RegistryMacroLoader(init), "r2": M.RegistryMacroLoader({}), "f1": M.FolderMacroLoader(root / "f1", suffix=case["suffix"]),
             "f2": M.FolderMacroLoader(root / "f2", suffix=case["suffix"])}
        order = [L[o] for o in case["order"]]
        L["c"] = M.CombinedMacroLoader(*order)
        L["cf"] = M.CombinedMacroLoader(*order, fallback_fn=fallback)
        L["cn"] = M.CombinedMacroLoader()
        model = Model(case)
        seen = set()
        gets = 0
        for op in case["ops"]:
            if op[0] == "reg":
                L[op[1]].register(op[2], M.MacroDefinition(**op[3]))
                model.reg[op[1]][op[2]] = op[3]
            elif op[0] == "mutate":
                init[op[1]] = M.MacroDefinition(**op[2])      # the mapping a registry was made from is not the registry
            elif op[0] == "file":
                _, who, d, name, dfn, kind = op
                folder = root / who / d
                base = {"othersuffix": name + case["suffix"] + ".bak", "prefix": "z" + name + case["suffix"]}.get(kind, name + case["suffix"])
                path = folder / base
                if (who, name) in seen or path.exists():      # what was looked up stays as it is
                    continue
                folder.mkdir(parents=True, exist_ok=True)
                if kind == "dir":
                    path.mkdir()
                else:
                    path.write_text("{not json" if kind == "bad" else json.dumps(dfn), encoding="utf-8")
                if kind in ("file", "dir", "bad"):
                    model.files[who].setdefault(name, []).append((kind, dfn))
                elif kind == "prefix":
                    model.files[who].setdefault("z" + name, []).append(("file", dfn))
            else:
                who, name = op[1], op[2]
                gets += 1
                seen |= {(f, name) for f in ("f1", "f2")}
                try:
                    want = model.get(who, name)
                except Missing:
                    want = KeyError
                except Refused:
                    want = ValueError
                try:
                    if op[0] == "get":
                        got = L[who][name]
                        got = got if isinstance(got, dict) else got.model_dump()
                    else:
                        if name.strip("mM1-abxy_"):
                            continue                # not spelled as a macro call
                        if isinstance(want, dict) and (want["arguments"] or "$" in want["definition"]):
                            continue
                        got = M.substitute_macros(f"q=`{name}`", L[who])
                        if isinstance(want, dict):
                            want = ("q=" + want["definition"]).strip()
                except KeyError:
                    got = KeyError
                except ValueError:
                    got = ValueError
                except Exception as e:
                    raise Violation(f"{who}[{name!r}] raises {type(e).__name__}: {e}", case_ops=case["ops"])
                if got != want:
                    raise Violation(f"{who}[{name!r}] gives {got!r} instead of {want!r}", ops=case["ops"])
        return {"nontrivial": gets > 0, "labels": [f"gets={gets}"], "sample": json.dumps(case["ops"])[:300]}
    finally:
        shutil.rmtree(root, ignore_errors=True)


def setup():
    os.umask(0o077)


SUBS = [
    Sub("histories", check, histories, quick=4000, rule="3-14 operations (register, add file / folder / look-alike / broken file, look up through every loader, substitute) against a model; non-trivial: at least one look-up"),
]
