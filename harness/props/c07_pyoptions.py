#!/usr/bin/env python3
"""C07: Python options against a dictionary model (argument lists, histories, YAML round trip)."""
import argparse, contextlib, io, json, math, multiprocessing as mp, os, random, shutil, sys, tempfile, time, traceback

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(REPO, "pyvirg"))


class Fail(Exception):
    pass


class Gen:
    """Choice sequence: random when made from a seed, replayed (0 beyond the end) when made from a list."""
    def __init__(self, seed=None, choices=None):
        self.r = random.Random(seed) if choices is None else None
        self.inp, self.pos, self.out, self.nt, self.notes = choices, 0, [], False, []

    def draw(self, bound):
        if self.r is not None:
            v = self.r.randint(0, bound)
        else:
            v = min(self.inp[self.pos], bound) if self.pos < len(self.inp) else 0
            self.pos += 1
        self.out.append(v)
        return v

    def u(self, lo, hi): return lo + self.draw(hi - lo)
    def b(self, p=0.5): return self.draw(999) >= 1000 * (1 - p)
    def pick(self, seq): return seq[self.draw(len(seq) - 1)]
    def note(self, s): self.notes.append(s)


def check(c, msg):
    if not c:
        raise Fail(msg)


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, float) and math.isnan(a):
        return math.isnan(b)
    return a == b


WORDS = ["", " ", "abc", "yes", "no", "on", "Off", "null", "~", "None", "true", "False", "1", "0x1F", "017", "1e5", "1.5", ".5", "nan", ".inf",
         "1:30", "2001-01-01", "a: b", "a #b", "# c", "- x", "-", "--", "?", "[1]", "{a: 1}", "'q'", '"d"', "&a", "*a", "!t", "|", ">", "%x", "@y", "`z",
         "tab\there", "new\nline", "end\n", " lead", "trail ", "caf\u00e9", "\u263a", "\U0001f600", "\u0085", "\\n", "back\\slash", "a,b", "=", "<<", "_", "1_000"]


def gen_value(g, t):
    if t is str:
        k = g.draw(3)
        if k < 2:
            return g.pick(WORDS)
        n = g.u(0, 12) if k == 2 else g.u(0, 200)
        return "".join(g.pick("ab01 :-#'\"\\,\n\t{}[]&*!|>%@`~\u00e9\u4e2d\x7f\x01") for _ in range(n))
    if t is int:
        k = g.draw(3)
        return g.u(0, 20) - 10 if k == 0 else g.pick([0, -1, 42, 2**31, -2**63, 10**30, 8, 9, 10]) if k == 1 else g.u(0, 10**6) - 500000
    if t is float:
        k = g.draw(3)
        if k == 0:
            return g.pick([0.0, -0.0, 1.0, 1e20, 1e-7, 1e16, 1e22, -1e300, 5e-324, 1.7976931348623157e308, float("inf"), float("-inf"), float("nan"), 3.1415926])
        return (g.u(0, 2000) - 1000) / 8.0 if k == 1 else (g.draw(2**53) / 2**53 - 0.5) * 10.0 ** (g.u(0, 60) - 30)
    return g.b()


RESERVED = {"h", "help", "from_yaml"}


def gen_spec(g):
    """[(title, [(short, long, type, default)])] with distinct keys and switches."""
    keys, switches, groups = set(RESERVED), {"h"}, []
    longs = ["alpha", "beta-two", "gamma_three", "yes", "no", "on", "null", "true", "max-n-iter", "x1", "long-name-with-many-parts", "off", "out", "y", "n",
             "from", "yaml", "Alpha", "123x"]
    for gi in range(g.u(0, 3)):
        items = []
        for _ in range(g.u(0, 4)):
            kind = g.draw(2)   # both, short only, long only
            s = g.pick("abcdefgijkmnopqrstuvwxyzABCXYZ") if kind != 2 else None
            l = g.pick(longs) if kind != 1 else None
            key = (l if l is not None else s).replace("-", "_")
            if key in keys or (s in switches) or (l is not None and ("--" + l) in switches):
                continue
            # argparse accepts unambiguous prefixes: exact names always win, so this is not a restriction on names
            keys.add(key)
            if s: switches.add(s)
            if l: switches.add("--" + l)
            t = g.pick([str, int, float, bool])
            d = None if g.b(0.3) else gen_value(g, t)
            items.append((s, l, t, d))
        groups.append((g.pick(["simple", "input/output", "Group: 1", "[x]", ""]), items))
    return groups


def build(groups):
    from virg.nexus.options import OptionItem, OptionGroup, Options
    return Options([OptionGroup(t, [OptionItem(s, l, ty, d, "help") for s, l, ty, d in its]) for t, its in groups])


def key_of(it): return (it[1] if it[1] is not None else it[0]).replace("-", "_")


def gen_args(g, groups, allow_str=True):
    """argument list and the values it stands for"""
    items = [it for _, its in groups for it in its]
    exp = {key_of(it): (bool(it[3]) if it[2] is bool else it[3]) for it in items}
    args, n = [], 0
    if items:
        for _ in range(g.u(0, 7)):
            it = g.pick(items)
            s, l, t, d = it
            use_long = l is not None and (s is None or g.b())
            name = ("--" + l) if use_long else "-" + s
            if t is bool:
                args.append(name)
                exp[key_of(it)] = True
            else:
                v = gen_value(g, t)
                if t is str:
                    v = "-" if v == "--" else v     # argparse itself drops a value '--'
                    txt = v
                elif t is int:
                    txt = str(v)
                else:
                    txt = repr(v)
                if use_long and (txt.startswith("-") or g.b()):
                    args.append(name + "=" + txt)
                elif txt.startswith("-"):
                    args.append(name + txt) if not use_long else args.append(name + "=" + txt)
                else:
                    args += [name, txt]
                exp[key_of(it)] = v
            n += 1
    return args, exp, n


def quiet(f):
    """runs f; returns (exit code or None, result)"""
    with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
        try:
            return None, f()
        except SystemExit as e:
            return (e.code if e.code is not None else 0), None


def agree(opt, groups, exp, what, alias=None):
    d = opt.to_dict()
    check(set(d) == set(exp), "%s: dictionary has keys %r, expected %r" % (what, sorted(d), sorted(exp)))
    for k in exp:
        check(same(d[k], exp[k]), "%s: option %r is %r, expected %r" % (what, k, d[k], exp[k]))
    for gi, (t, its) in enumerate(groups):
        check(len(opt.options[gi]) == len(its), "%s: group %d has %d items" % (what, gi, len(opt.options[gi])))
        for ii, it in enumerate(its):
            o = opt.options[gi][ii]
            check(o.key_name == key_of(it), "%s: key name %r" % (what, o.key_name))
            check(same(o.value, exp[key_of(it)]), "%s: item %r holds %r, expected %r" % (what, o.key_name, o.value, exp[key_of(it)]))


def f_history(g, tmp):
    """0-4 groups of 0-5 options (all types, with or without default), then 1-6 steps: parse an argument list, save to YAML, load a saved file directly or by --from-yaml (in the same or another object), set from a dictionary; after every step all values are compared with a dictionary model. Non-trivial: an argument or a file was used"""
    groups = gen_spec(g)
    objs = [build(groups), build(groups)]
    defaults = {key_of(it): it[3] for _, its in groups for it in its}
    cur = [dict(defaults), dict(defaults)]
    saved = []
    g.note("options %s" % [(it[0], it[1], it[2].__name__, it[3]) for _, its in groups for it in its])
    for o, c in zip(objs, cur):
        agree(o, groups, c, "initially")
    for step in range(g.u(1, 6)):
        k = g.u(0, 1)
        op = g.draw(9)
        if op <= 3 or (4 <= op and op <= 7 and op >= 6 and not saved):
            args, exp, n = gen_args(g, groups)
            g.note("parse %r" % args)
            parser = argparse.ArgumentParser(prog="p") if g.b(0.3) else None
            extra = parser is not None and g.b()
            if extra:
                parser.add_argument("--zzz-extra", type=int, default=5)
            code, res = quiet(lambda: objs[k].parse_args(list(args), parser) if parser else objs[k].parse_args(list(args)))
            check(code is None, "parse of %r was refused (exit %r)" % (args, code))
            for key in exp:
                check(key in res, "parse of %r: no %r in the result" % (args, key))
                check(same(res[key], exp[key]), "parse of %r: result[%r] is %r, expected %r" % (args, key, res[key], exp[key]))
            if extra:
                check(res["zzz_extra"] == 5, "extra argument of the caller's parser lost")
            cur[k] = exp
            g.nt = g.nt or n > 0
        elif op <= 5:
            fn = os.path.join(tmp, "o%d.yaml" % g.u(0, 1))
            g.note("save %d to %s" % (k, os.path.basename(fn)))
            objs[k].save_yaml(fn)
            saved = [s for s in saved if s[0] != fn] + [(fn, dict(cur[k]))]
        elif op <= 7:
            fn, exp = g.pick(saved)
            sw = g.b()
            g.note("load %s into %d%s" % (os.path.basename(fn), k, " by --from-yaml" if sw else ""))
            if sw:
                args, _, _ = gen_args(g, groups)
                args = args + ["--from-yaml", fn] if g.b() else ["--from-yaml=" + fn] + args
                code, res = quiet(lambda: objs[k].parse_args(args))
                check(code is None, "parse of %r was refused" % args)
            else:
                res = objs[k].load_yaml(fn)
            for key in exp:
                check(key in res and same(res[key], exp[key]), "loaded YAML: result[%r] is %r, saved as %r" % (key, res.get(key), exp[key]))
            cur[k] = dict(exp)
            g.nt = True
        elif op == 8:
            d = {kk: v for kk, v in cur[1 - k].items() if g.b(0.7)}
            r = objs[k].from_dict(dict(d))
            check(r is objs[k], "from_dict does not return the object")
            g.note("from_dict %r" % sorted(d))
            cur[k] = {kk: d.get(kk, defaults[kk]) for kk in defaults}
        else:
            txt = str(objs[k])
            for t, its in groups:
                check("# " + t + "\n" in txt, "group title %r missing from the printed form" % t)
        for j in range(2):
            agree(objs[j], groups, cur[j], "after step %d, object %d" % (step, j))


def f_reject(g, tmp):
    """1-4 groups of options and an argument list with one fault (unknown switch, malformed int or float, missing value, stray word) at a random place: the parse is refused and no value changes. Non-trivial: always"""
    groups = gen_spec(g)
    opt = build(groups)
    a0, exp0, _ = gen_args(g, groups)
    quiet(lambda: opt.parse_args(a0))
    args, exp, _ = gen_args(g, groups)
    items = [it for _, its in groups for it in its]
    num = [it for it in items if it[2] in (int, float)]
    val = [it for it in items if it[2] is not bool]
    kind = g.draw(3)
    name = lambda it: ("--" + it[1]) if it[1] else "-" + it[0]
    if kind == 1 and num:
        bad = [name(g.pick(num)), g.pick(["x", "", "1.5.2", "12a", "one", "0b"])]
        args = bad + args if g.b() else args + bad
    elif kind == 2 and val:
        args = args + [name(g.pick(val))]
    elif kind == 3:
        args = ["stray"] + args
    else:
        args = args + ["--qqq-unknown"] if g.b() else ["-9z"] + args
    g.nt = True
    g.note("refuse %r" % args)
    code, res = quiet(lambda: opt.parse_args(args))
    check(code is not None and code != 0, "faulty argument list %r was accepted: %r" % (args, res))
    agree(opt, groups, exp0, "after a refused parse")


def f_partial(g, tmp):
    """a hand-written YAML file naming some of the options (plain int, float, bool, quoted strings via JSON) and other keys: named options get the value in the file, the rest their default. Non-trivial: some but not all options named"""
    groups = gen_spec(g)
    opt = build(groups)
    quiet(lambda: opt.parse_args(gen_args(g, groups)[0]))
    defaults = {key_of(it): it[3] for _, its in groups for it in its}
    exp, lines = dict(defaults), []
    for _, its in groups:
        for it in its:
            if g.b(0.6):
                v = gen_value(g, it[2])
                if isinstance(v, float):
                    if not math.isfinite(v) or "e" in repr(v):
                        v = 0.25
                    txt = repr(v)
                elif isinstance(v, bool):
                    txt = "true" if v else "false"
                elif isinstance(v, int):
                    txt = str(v)
                else:
                    v = "".join(c for c in v if 32 <= ord(c) < 127)
                    txt = json.dumps(v)
                lines.append('"%s": %s' % (key_of(it), txt))
                exp[key_of(it)] = v
    if not lines or g.b():
        lines.append("unrelated_key: 7")
    fn = os.path.join(tmp, "h.yaml")
    open(fn, "w").write("\n".join(lines) + "\n")
    g.note("file %r" % lines)
    if g.b():
        opt.load_yaml(fn)
    else:
        code, _ = quiet(lambda: opt.parse_args(["--from-yaml", fn]))
        check(code is None, "refused")
    g.nt = 0 < sum(1 for l in lines if not l.startswith("unrel")) < len(defaults)
    agree(opt, groups, exp, "after loading a partial file")


FACETS = [("history", f_history, 4), ("reject", f_reject, 1), ("partial", f_partial, 1)]


def attempt(fi, seed=None, choices=None, tmp=None):
    g = Gen(seed, choices)
    try:
        FACETS[fi][1](g, tmp)
        return None, g
    except Fail as e:
        return str(e), g
    except Exception as e:   # an exception out of the code under test is a violation too
        tb = traceback.extract_tb(e.__traceback__)
        return "%s: %s (%s)" % (type(e).__name__, e, ", ".join("%s:%d" % (os.path.basename(t.filename), t.lineno) for t in tb[-3:])), g


def shrink(fi, ch, tmp, budget=20.0):
    end, best = time.time() + budget, list(ch)
    msg = attempt(fi, choices=best, tmp=tmp)[0]
    improved = True
    def ok(c):
        nonlocal best, msg
        m, g = attempt(fi, choices=c, tmp=tmp)
        if m and (len(g.out), g.out) < (len(best), best):
            best, msg = list(g.out), m
            return True
        return False
    while improved and time.time() < end:
        improved = False
        size = max(1, len(best) // 2)
        while size >= 1 and time.time() < end:
            i = 0
            while i < len(best) and time.time() < end:
                if ok(best[:i] + best[i + size:]):
                    improved = True
                else:
                    i += size
            size //= 2
        for i in range(len(best)):
            if i >= len(best) or time.time() > end:
                break
            for v in (0, best[i] // 2, best[i] - 1):
                if i < len(best) and 0 <= v < best[i] and ok(best[:i] + [v] + best[i + 1:]):
                    improved = True
                    break
    return best, msg


def worker(w, a, q):
    tmp = tempfile.mkdtemp(prefix="c07_")
    try:
        stats = {n: [0, 0] for n, _, _ in FACETS}
        seen, samples, fail_ = set(), {}, None
        wheel = [i for i, f in enumerate(FACETS) for _ in range(f[2])]
        end, n = time.time() + a.seconds, 0
        while time.time() < end and fail_ is None:
            fi = wheel[n % len(wheel)]
            seed = "%d/%d/%d" % (a.seed, w, n)
            n += 1
            msg, g = attempt(fi, seed=seed, tmp=tmp)
            nm = FACETS[fi][0]
            stats[nm][0] += 1
            if g.nt:
                h = hash((fi, tuple(g.out)))
                if h not in seen:
                    seen.add(h)
                    stats[nm][1] += 1
                    samples.setdefault(nm, "; ".join(g.notes)[:600])
            if msg:
                fail_ = (fi, g.out, msg)
        if fail_:
            best, msg = shrink(fail_[0], fail_[1], tmp)
            fail_ = (fail_[0], best, msg)
        q.put((stats, samples, fail_))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--seconds", type=float, default=10)
    ap.add_argument("--workers", type=int, default=8)
    ap.add_argument("--out")
    ap.add_argument("--replay-dir", default=".")
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        r = json.load(open(a.replay))
        tmp = tempfile.mkdtemp(prefix="c07_")
        msg, g = attempt([f[0] for f in FACETS].index(r["facet"]), choices=r["choices"], tmp=tmp)
        shutil.rmtree(tmp, ignore_errors=True)
        print("\n".join(g.notes))
        print("FAILED: " + msg if msg else "passed")
        return 1 if msg else 0
    import virg.nexus.options  # a tree that does not import is a check error, not a violation
    t0 = time.time()
    q = mp.Queue()
    ps = [mp.Process(target=worker, args=(w, a, q)) for w in range(a.workers)]
    for p in ps: p.start()
    res = []
    for _ in ps:
        try:
            res.append(q.get(timeout=a.seconds + 120))
        except Exception:
            break
    for p in ps:
        p.join(1)
        if p.is_alive(): p.terminate()
    if not res:
        return 3
    fails = [r[2] for r in res if r[2]]
    vp = vm = ""
    if fails:
        fi, ch, vm = min(fails, key=lambda f: len(f[1]))
        os.makedirs(a.replay_dir, exist_ok=True)
        vp = os.path.join(a.replay_dir, "C07-%s.replay" % FACETS[fi][0])
        tmp = tempfile.mkdtemp(prefix="c07_")
        _, g = attempt(fi, choices=ch, tmp=tmp)
        shutil.rmtree(tmp, ignore_errors=True)
        json.dump({"property": "C07", "facet": FACETS[fi][0], "choices": ch, "message": vm, "case": g.notes}, open(vp, "w"), indent=1)
        print("C07 facet %s: %s\n  %s" % (FACETS[fi][0], vm, "\n  ".join(g.notes)))
    ev = sum(s[0] for r in res for s in r[0].values())
    nt = sum(s[1] for r in res for s in r[0].values())
    facets = [{"facet": n, "rule": f.__doc__, "evaluations": sum(r[0][n][0] for r in res), "nontrivial": sum(r[0][n][1] for r in res)} for n, f, _ in FACETS]
    samples = ["%s: %s" % (n, r[1][n]) for n, _, _ in FACETS for r in res[:3] if n in r[1]]
    if a.out:
        json.dump({"evaluations": ev, "distinct_nontrivial": nt, "wall": time.time() - t0, "violations": 1 if fails else 0, "message": vm, "replay": vp,
                   "facets": facets, "samples": samples}, open(a.out, "w"))
    print("C07: %d evaluations, %d non-trivial, %.1f s" % (ev, nt, time.time() - t0))
    return 1 if fails else 0


if __name__ == "__main__":
    sys.exit(main())
