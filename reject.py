"""C22: the derive macro's verdict on every attribute word, by running the compiler on it."""
import json
import os
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor, as_completed

import core
from reject_cases import all_cases, GOOD, BAD, HEAD

BATCH = {GOOD: 30, BAD: 1000}
LIMIT = 300


class Compiler:
    def __init__(self, out, rlib, deps, env):
        self.out, self.rlib, self.deps, self.env = out, rlib, deps, env
        self.runs = 0

    def run(self, name, items):
        """({index of item: first error}, what killed the compiler or None)"""
        self.runs += 1
        src, where, line = HEAD, [], HEAD.count("\n") + 1
        for i, (_, _, text) in enumerate(items):
            text = f"mod m{i} {{ use super::*;\n{text}\n}}\n"
            where.append((line, line + text.count("\n") - 1))
            line += text.count("\n")
            src += text
        f = f"{self.out}/{name}.rs"
        with open(f, "w") as h:
            h.write(src)
        at = {}
        for i, (a, b) in enumerate(where):
            for l in range(a, b + 1):
                at[l] = i
        cmd = ["rustc", "--edition", "2018", "--crate-type", "lib", "--crate-name", "words", "--emit=metadata", "-o", f"{self.out}/{name}.rmeta",
               "--error-format=json", "--cap-lints", "allow", "-L", "dependency=" + self.deps, "--extern", "nommy=" + self.rlib, f]
        try:
            r = subprocess.run(cmd, env=self.env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace", timeout=LIMIT)
        except subprocess.TimeoutExpired:
            return {}, f"the compiler does not end within {LIMIT} s"
        finally:
            os.remove(f)
        errors, other = {}, []
        for l in r.stderr.splitlines():
            if not l.startswith("{"):
                other.append(l)
                continue
            m = json.loads(l)
            if m["level"] not in ("error", "error: internal compiler error"):
                continue
            hit = set()
            for s in m["spans"]:
                while s:
                    if s["file_name"] == f and s["line_start"] in at:
                        hit.add(at[s["line_start"]])
                    s = (s.get("expansion") or {}).get("span")
            for i in hit:
                errors.setdefault(i, m.get("rendered") or m["message"])
            if m["spans"] and not hit:
                other.append(m["message"])
        if r.returncode not in (0, 1):
            return {}, f"kills the compiler (exit {r.returncode})\n" + "\n".join(other)[-1500:]
        if r.returncode == 1 and not errors:
            return {}, "the compiler fails without saying where:\n" + "\n".join(other)[-1500:]
        return errors, None

    def all(self, name, items):
        """The same, in parts where the compiler does not survive the whole."""
        errors, dead = self.run(name, items)
        if dead is None:
            return errors, {}
        if len(items) == 1:
            return {}, {0: dead}
        h = len(items) // 2
        e1, d1 = self.all(name, items[:h])
        if d1 and len(items) > 50:
            return e1, d1
        e2, d2 = self.all(name, items[h:])
        return {**e1, **{i + h: m for i, m in e2.items()}}, {**d1, **{i + h: m for i, m in d2.items()}}


def artifact(stdout):
    for l in stdout.splitlines():
        if l.startswith("{"):
            m = json.loads(l)
            if m.get("reason") == "compiler-artifact" and m["target"]["name"] == "nommy" and "lib" in m["target"]["kind"]:
                return next(f for f in m["filenames"] if f.endswith(".rlib"))
    return None


def prepare(out, repo):
    os.makedirs(out + "/src", exist_ok=True)
    core.write(out + "/Cargo.toml", f"""[package]
name = "check_c22"
version = "0.1.0"
edition = "2018"
publish = false

[dependencies]
nommy = {{ path = "{repo}/nommy" }}

[workspace]

[profile.dev]
opt-level = 2
debug = 0
incremental = false
""")
    core.write(out + "/src/lib.rs", "")


def explore(compiler, tier, only=None):
    """(violations, coverage)"""
    cases = all_cases(tier == "thorough")
    if only is not None:
        cases = {k: [x for x in v if x[0] == only] for k, v in cases.items()}
    jobs = [(v, k, cases[v][k:k + BATCH[v]]) for v in (BAD, GOOD) for k in range(0, len(cases[v]), BATCH[v])]
    violations, rejected, late, accepted = [], 0, 0, 0

    def violation(item, msg):
        violations.append(dict(prog=item[0], toks=None, msg=f"{item[1]}:\n  {item[2]}\n  {msg}", source=item[2]))

    def one(job):
        v, k, items = job
        if len(violations) >= 3:
            return None
        errors, dead = compiler.all(f"{v}{k}", items)
        # perhaps only the errors of others kept the compiler from coming so far
        left = [i for i in range(len(items)) if v == BAD and i not in errors and i not in dead]
        alone = {}
        for i in sorted(left, key=lambda i: len(items[i][2])):
            if len(violations) >= 3 or any(not e and not d for e, d in alone.values()):
                break
            alone[i] = compiler.all("alone" + items[i][0], [items[i]])
        return job, errors, dead, alone

    with ThreadPoolExecutor(8) as pool:
        for f in as_completed([pool.submit(one, j) for j in jobs]):
            if f.result() is None:
                continue
            (v, k, items), errors, dead, alone = f.result()
            for i, m in dead.items():
                violation(items[i], m)
            for i, (e, d) in alone.items():
                if d:
                    violation(items[i], d[0])
                elif e:
                    late += 1
                else:
                    violation(items[i], "malformed, but accepted")
            if v == BAD:
                rejected += len(errors)
            else:
                accepted += len(items) - len(errors) - len(dead)
                for i, m in errors.items():
                    violation(items[i], "well formed, but not accepted:\n" + m)
    violations.sort(key=lambda v: len(v["msg"]))
    cov = dict(
        programs_explored=rejected + late + accepted + len(violations), states=rejected + late + accepted + len(violations),
        transitions=sum(len(x[2].split()) for l in (BAD, GOOD) for x in cases[l]),
        traces_validated_against_impl=rejected + late + accepted + len(violations),
        executions_of_the_implementation=rejected + late + accepted + len(violations), compiler_runs=compiler.runs,
        expected=dict(accept=len(cases[GOOD]), reject=len(cases[BAD]), left_open_and_not_run=len(cases["left open"])),
        rejected_by_the_macro=rejected, rejected_later_by_the_compiler=late, accepted=accepted,
        samples=[f"{k}: {x[1]}: {x[2]}" for k in (BAD, GOOD) for x in cases[k][7::max(1, len(cases[k]) // 8)]][:20],
        rule="A state is one attribute word at one place: a model of the attribute grammar says whether it is well formed, and the derive macro, run by the compiler, "
             "has to accept or reject it accordingly. Every word is run.")
    return violations, cov
