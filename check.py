#!/usr/bin/env python3
"""Decides one property by exhaustive bounded exploration of the real code.

    check.py ID [quick|thorough]      explore, write evidence/ID.json
    check.py ID --replay FILE         show one recorded violation again

Exit 0: held on everything explored. 1: VIOLATION line printed. 2: no answer.
"""
import hashlib
import json
import os
import shutil
import struct
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE + "/gen")
REPO = "/repo"
BUILD = HERE + "/build"
SHARDS = 8
WORDS = 4096  # of mc/src/crumb.rs
RUN_LIMIT = {"quick": 600, "thorough": 6 * 3600}

import core  # noqa: E402
from props import PROPS, HIST, LONG, DRIVERS, REJECT  # noqa: E402


class NoAnswer(Exception):
    pass


def environment():
    home = BUILD + "/cargo-home"
    os.makedirs(home, exist_ok=True)
    core.write(home + "/config.toml", open(HERE + "/tools/cargo-config.toml").read())
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO", "RUST"))}
    e.update(
        HOME=e.get("HOME", "/root"), RUSTUP_HOME="/root/.rustup", CARGO_HOME=home, CARGO_NET_OFFLINE="true",
        PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        RUSTUP_TOOLCHAIN="nightly-2021-08-29-x86_64-unknown-linux-gnu", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0",
        CARGO_TARGET_DIR=BUILD + "/target", RUST_BACKTRACE="0")
    return e


def sources_changed():
    """Cargo looks at modification times; a tree that was copied or restored may have old ones."""
    h = hashlib.sha256()
    for top in ("nommy", "nommy-derive"):
        for d, ds, fs in sorted(os.walk(f"{REPO}/{top}")):
            ds[:] = sorted(x for x in ds if x != "target")
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode() + b"\0" + open(p, "rb").read() + b"\0")
    stamp = BUILD + "/repo.sha256"
    old = open(stamp).read() if os.path.exists(stamp) else ""
    return h.hexdigest(), stamp, old != h.hexdigest()


def cargo(env, crate, *args, **kw):
    return subprocess.run(["cargo", *args, "--offline"], cwd=crate, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def spans(msg):
    for s in msg.get("spans", []):
        while s:
            yield s["file_name"], s["line_start"], s.get("is_primary", True)
            s = (s.get("expansion") or {}).get("span")


def build(env, crate, lines, prop):
    """Builds the shards. Returns {program id: compiler message} of programs that are rejected."""
    digest, stamp, changed = sources_changed()
    if changed and os.path.exists(BUILD + "/target"):
        cargo(env, crate, "clean", "-p", "nommy", "-p", "nommy-derive", "-p", "mc")
        cargo(env, HERE + "/long", "clean", "-p", "nommy", "-p", "nommy-derive", "-p", "long")
    r = cargo(env, crate, "build", "--message-format=json", "--bins")
    if prop in LONG:
        l = cargo(env, HERE + "/long", "build", "--locked")
        if l.returncode and not r.returncode:
            raise NoAnswer("cannot build the long inputs:\n" + l.stderr[-3000:])
    with open(stamp, "w") as f:
        f.write(digest)
    if r.returncode == 0:
        return {}
    bad, other = {}, []
    for l in r.stdout.splitlines():
        if not l.startswith("{"):
            continue
        m = json.loads(l)
        if m.get("reason") != "compiler-message" or m["message"]["level"] != "error":
            continue
        if not m["message"].get("spans"):
            continue
        hit = None
        for f, n, primary in spans(m["message"]):
            for a, b, pid in lines.get(f, []):
                if a <= n <= b:
                    hit = hit or pid
        if hit:
            bad.setdefault(hit, m["message"].get("rendered") or m["message"]["message"])
        else:
            other.append(m["message"].get("rendered") or m["message"]["message"])
    if not bad:
        raise NoAnswer("cannot build:\n" + "\n".join(other)[:4000] + "\n" + r.stderr[-3000:])
    return bad


def crumbs(path):
    """(program index, tokens, ended) of the executions that were under way."""
    r = []
    try:
        data = open(path, "rb").read()
    except OSError:
        return r
    for w in range(len(data) // (4 * WORDS)):
        words = struct.unpack_from(f"<{WORDS}I", data, w * 4 * WORDS)
        if words[2] == 1:
            r.append((words[1], list(words[8:8 + words[4]])))
    return r


class Shard:
    def __init__(self, exe, tier, jobs, env):
        self.exe, self.tier, self.env = exe, tier, env
        self.name = os.path.basename(exe)
        self.out = f"{BUILD}/run/{self.name}.json"
        self.crumb = f"{BUILD}/run/{self.name}.crumb"
        self.log = f"{BUILD}/run/{self.name}.log"
        for f in (self.out, self.crumb):
            if os.path.exists(f):
                os.remove(f)
        self.proc = subprocess.Popen(
            [exe, "--" + tier, "--crumb", self.crumb, "--out", self.out, "--jobs", str(jobs)],
            stdout=open(self.log, "w"), stderr=subprocess.STDOUT, env=env)

    def run(self, *args, timeout):
        try:
            r = subprocess.run([self.exe, "--" + self.tier, *args], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               timeout=timeout, env=self.env, errors="replace")
            return r.returncode, r.stdout
        except subprocess.TimeoutExpired:
            return None, ""

    def programs(self):
        rc, out = self.run("--list", timeout=60)
        return [l.split("\t")[0] for l in out.splitlines() if "\t" in l]

    def diagnose(self, rc):
        """The process was killed, ran out of memory or did not end: which execution did that?"""
        ids = self.programs()
        what = {77: "allocates without end", 78: "does not end"}.get(rc, f"kills the process (exit {rc})")
        found = []
        suspects = crumbs(self.crumb)
        for i, toks in suspects:
            if i >= len(ids):
                continue
            c = f"{BUILD}/run/{self.name}.again"
            code, out = self.run("--crumb", c, "--replay", ids[i], json.dumps(toks), timeout=120)
            if code != 0:
                how = {77: "allocates without end", 78: "does not end", None: "does not end", 1: "fails"}.get(code, f"kills the process (exit {code})")
                found.append(dict(prog=ids[i], toks=toks, msg=out.strip() + f"\n  this execution {how}"))
        if not found:
            for i, toks in suspects[:4]:
                if i < len(ids):
                    c = f"{BUILD}/run/{self.name}.again"
                    code, out = self.run("--crumb", c, "--jobs", "1", "--only", ids[i], timeout=600)
                    # (a whole program may take longer than this)
                    if code not in (0, None):
                        found.append(dict(prog=ids[i], toks=toks, whole=True,
                                          msg=f"exploring this program {what}, at the latest here:\n{out[-2000:]}"))
                        break
        if not found:
            raise NoAnswer(f"{self.name} {what}, and this cannot be shown again")
        return found


LONG_TIME = 120  # seconds without any progress, of steps that take at most a few


class Long:
    """The repeating constructs on long inputs: /verif/long."""

    PARTS = 4

    def __init__(self, prop, tier, env):
        self.exe, self.prop, self.env = BUILD + "/target/debug/long", prop, env
        self.logs = [f"{BUILD}/run/long-{prop}-{i}.log" for i in range(self.PARTS)]
        most = {"quick": 20, "thorough": 21}[tier]
        self.procs = [
            subprocess.Popen([self.exe, prop, str(most), str(i), str(self.PARTS)], stdout=open(l, "w"), stderr=subprocess.STDOUT, env=env)
            for i, l in enumerate(self.logs)]

    def finish(self):
        """(violations, coverage)"""
        size, since = {}, {}
        while any(p.poll() is None for p in self.procs):
            time.sleep(0.2)
            for i, p in enumerate(self.procs):
                n = os.path.getsize(self.logs[i])
                if size.get(i) != n:
                    size[i], since[i] = n, time.time()
                elif p.poll() is None and time.time() - since[i] > LONG_TIME:
                    p.kill()
        bad, cases, done, most, slow = [], set(), 0, 0, []
        for p, l in zip(self.procs, self.logs):
            last = None
            for line in open(l, errors="replace"):
                f = line.rstrip("\n").split("\t")
                if f[0] == "at":
                    last = f[1:]
                elif f[0] == "done":
                    last, done, most = None, done + 1, max(most, int(f[2]))
                    cases.add(f[1])
                elif f[0] == "bad":
                    last = None
                    bad.append(self.violation(f[1], f[2], f[3]))
                elif f[0] == "slow":
                    slow.append(f[1])
            if p.returncode != 0:
                if last is None:
                    raise NoAnswer(f"long inputs: exit {p.returncode}\n" + open(l, errors="replace").read()[-1000:])
                how = f"does not end within {LONG_TIME} s" if p.returncode == -9 else f"kills the process (exit {p.returncode})"
                bad.append(self.violation(*last, how))
        return bad, dict(families=len(cases), inputs=done, most_repetitions=most, not_to_the_greatest_length=slow)

    @staticmethod
    def violation(name, n, how):
        return dict(prog="long", toks=[name, int(n)], msg=f"{name}, {n} repetitions: {how}")


def shard_names(prop, tier, lines):
    return [os.path.basename(f)[:-3] for f in sorted(lines)]


def known_findings(prop):
    """Lines `known: property=<id> program=<id> input=<toks>  <what fails>` of known-findings.txt."""
    r = {}
    path = HERE + "/known-findings.txt"
    for l in open(path) if os.path.exists(path) else []:
        if l.startswith(f"known: property={prop} "):
            key, _, what = l[len(f"known: property={prop} "):].strip().partition("  ")
            r[key] = what
    return r


def save_replay(prop, tier, v, source):
    os.makedirs(HERE + "/replays", exist_ok=True)
    key = hashlib.sha256(json.dumps([v["prog"], v.get("toks"), v["msg"]]).encode()).hexdigest()[:10]
    path = f"{HERE}/replays/{prop}-{v['prog']}-{key}.json"
    with open(path, "w") as f:
        json.dump(dict(property=prop, tier=tier, program=v["prog"], tokens=v.get("toks"), message=v["msg"], shard=v.get("shard"), source=source), f, indent=1)
    return path


def prepare(prop, tier):
    make, conf = PROPS[prop]
    out = f"{BUILD}/{prop}-{tier}"
    os.makedirs(out, exist_ok=True)
    os.makedirs(BUILD + "/run", exist_ok=True)
    made = make(tier == "thorough")
    lines = core.emit(out, prop, tier, made, conf(), SHARDS, mc=HERE + "/mc", repo=REPO, hist=prop in HIST, driver=DRIVERS.get(prop, "run"))
    return out, lines, made


def main():
    prop = sys.argv[1]
    args = sys.argv[2:]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    if args and args[0] == "--replay":
        replay = json.load(open(args[1]))
        tier = replay["tier"]
    elif args:
        tier = args[0]
    if prop not in PROPS or tier not in RUN_LIMIT:
        sys.exit("usage: check.py ID [quick|thorough | --replay FILE]")
    start = time.time()
    env = environment()
    if prop in REJECT:
        return words(prop, tier, env, replay, start)
    crate, lines, made = prepare(prop, tier)
    bad = build(env, crate, lines, prop)
    built = time.time()
    sources = {p.id: p.source() for p in made}
    violations, reports, longs = [], [], None
    if bad:
        for pid, msg in bad.items():
            violations.append(dict(prog=pid, toks=None, msg="this definition is no longer accepted by the compiler:\n" + msg))
        if replay:
            print("\n".join(v["msg"] for v in violations if v["prog"] == replay["program"]) or "held")
            sys.exit(1 if replay["program"] in bad else 0)
    elif replay:
        for f, l in lines.items():
            name = os.path.basename(f)[:-3]
            if name == replay.get("shard") or not replay.get("shard") and any(pid == replay["program"] for _, _, pid in l):
                exe = f"{BUILD}/target/debug/{name}"
                c = BUILD + "/run/replay.crumb"
                if replay["tokens"] is None:
                    print("held: the definition is accepted")
                    sys.exit(0)
                sys.exit(subprocess.run([exe, "--" + tier, "--crumb", c, "--replay", replay["program"], json.dumps(replay["tokens"])], env=env).returncode)
        if replay["program"] == "long":
            name, n = replay["tokens"]
            try:
                rc = subprocess.run([BUILD + "/target/debug/long", "--replay", name, str(n), prop], env=env, timeout=LONG_TIME).returncode
            except subprocess.TimeoutExpired:
                rc = None
            if rc not in (0, 1):
                print("does not end" if rc is None else f"kills the process (exit {rc})")
            sys.exit(1 if rc != 0 else 0)
        sys.exit("no such program")
    else:
        long = Long(prop, tier, env) if prop in LONG else None
        shards = [Shard(f"{BUILD}/target/debug/{n}", tier, 3, env) for n in shard_names(prop, tier, lines)]
        problem = None
        for s in shards:
            left = RUN_LIMIT[tier] - (time.time() - built)
            try:
                rc = s.proc.wait(timeout=max(left, 1))
            except subprocess.TimeoutExpired:
                s.proc.kill()
                s.proc.wait()
                problem = f"{s.name} did not end in time"
                continue
            if rc in (0, 1):
                rep = json.load(open(s.out))
                reports.append(rep)
                violations += [dict(v, shard=s.name) for v in rep["violations"]]
                if (rc == 1) != bool(rep["violations"]):
                    problem = f"{s.name}: exit {rc} does not fit its report"
            elif rc == 2:
                problem = f"{s.name}: " + open(s.log).read()[-2000:]
            else:
                try:
                    violations += s.diagnose(rc)
                except NoAnswer as e:
                    problem = str(e)
        if long:
            try:
                more, longs = long.finish()
                violations += more
            except NoAnswer as e:
                problem = problem or str(e)
        if problem and not violations:
            raise NoAnswer(problem)

    news = unlisted(prop, violations)
    evidence(prop, tier, coverage(reports, longs, made, built - start), news, time.time() - start)
    announce(prop, tier, news, sources)
    total = lambda k: sum(r[k] for r in reports)
    print(f"{prop} {tier}: held on {total('programs')} programs, {total('leaves')} behaviours, {total('execs')} executions "
          f"({built - start:.0f} s build, {time.time() - built:.0f} s exploration)")


def unlisted(prop, violations):
    """Those that are not known findings."""
    known = known_findings(prop)
    news = []
    for v in violations:
        key = f"program={v['prog']} input={json.dumps(v.get('toks'), separators=(',', ':'))}"
        if key in known:
            print(f"KNOWN-FINDING: property={prop} {key} {known[key]}")
        else:
            news.append(v)
    return news


def announce(prop, tier, news, sources):
    if not news:
        return
    news.sort(key=lambda v: (len(v.get("toks") or []), v["prog"] if v.get("toks") else ""))
    for v in news[:5]:
        path = save_replay(prop, tier, v, v.get("source") or sources.get(v["prog"], ""))
        print(v["prog"] + ": " + v["msg"])
        print(f"VIOLATION property={prop} replay={path}")
    sys.exit(1)


def words(prop, tier, env, replay, start):
    """A property of the derive macro's verdict on attribute words."""
    import reject
    out = f"{BUILD}/{prop}-{tier}"
    reject.prepare(out, REPO)
    if build(env, out, {}, prop):
        raise NoAnswer("cannot build")
    r = cargo(env, out, "build", "--message-format=json")
    compiler = reject.Compiler(out, reject.artifact(r.stdout), BUILD + "/target/debug/deps", env)
    built = time.time()
    if replay:
        bad, _ = reject.explore(compiler, tier, replay["program"])
        print("\n".join(v["msg"] for v in bad) or "held")
        sys.exit(1 if bad else 0)
    violations, cov = reject.explore(compiler, tier)
    cov["build_s"] = round(built - start, 1)
    news = unlisted(prop, violations)
    evidence(prop, tier, cov, news, time.time() - start, ["the toolchain and the vendored dependencies are correct"])
    announce(prop, tier, news, {})
    print(f"{prop} {tier}: held on {cov['states']} attribute words, {cov['rejected_by_the_macro']} of them rejected "
          f"({built - start:.0f} s build, {time.time() - built:.0f} s exploration)")


def coverage(reports, longs, made, build_s):
    t = lambda k: sum(r[k] for r in reports)
    samples = [s for r in reports for s in r["samples"]]
    cov = dict(
        programs_explored=t("programs"), programs_generated=len(made),
        states=t("states"), transitions=t("transitions"),
        traces_validated_against_impl=t("leaves") + t("pumped") + t("edits"),
        complete_trees=t("closed_programs"),
        executions_of_the_implementation=t("execs"),
        long_or_special_inputs=t("pumped"),
        sentences_and_single_edits=dict(inputs=t("edits"), accepted=t("edits_ok"), programs_without_sentences=t("no_sentence")),
        expected=dict(accept=t("ok"), reject=t("err"), panic=t("empty"), unspecified=t("unspec")),
        exhaustive_source_length=dict(least=min((r["min_len"] for r in reports if r["programs"]), default=0),
                                      most=max((r["max_len"] for r in reports), default=0)),
        samples=samples[:24],
        rule="A state is a decision point of the environment's tree of answers to the program under test (next token or end) or one of its leaves; "
             "a transition one of its answers. Every leaf is executed on the real code and, at the same time, on the reference model or a second run of the real code; both read the same tape.",
        notes=[n for r in reports for n in r["notes"]][:20],
        build_s=round(build_s, 1),
    )
    if longs:
        cov["ladder_of_lengths"] = longs
    return cov


def evidence(prop, tier, cov, news, wall, assumptions=None):
    os.makedirs(HERE + "/evidence", exist_ok=True)
    with open(f"{HERE}/evidence/{prop}.json", "w") as f:
        json.dump(dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="model_checking", coverage=cov,
                       assumptions=assumptions or ["the toolchain and the vendored dependencies are correct",
                                    "debug assertions are on, as in the tests",
                                    "sources longer than the stated bounds behave like those explored"],
                       wall_s=round(wall, 1), violations=len(news)), f, indent=1)


if __name__ == "__main__":
    try:
        main()
    except NoAnswer as e:
        print("no answer: " + str(e), file=sys.stderr)
        sys.exit(2)
