"""C26: generated frozen_map! invocations that are not maps of the declared type, which must not compile.

A valid case of macros.py is spoiled in one place. Whether what results is a list of pairs of the declared type is
decided by rustc, from the same list written without the macro; where that is refused, so must the invocation be.
Each invocation is compiled by itself.
"""
import concurrent.futures
import hashlib
import os
import random
import subprocess
import tempfile

import macros

KEYS = ['"text"', '"7"', "'c'", "1.5", "true", "()", 'b"x"', "-1", "300", "65536", "70000u32", "7u8", "7i8", "7i64", "7usize", "-129", "Some(1)", "(1, 2)", "[1u16, 2]",
        "nowhere", "1u", "0x1_0000_0000_0000_0000", "340282366920938463463374607431768211456", "b'x'", "WORD", "SEVEN", "Color::Red", "Color::Purple", "Vec::<u8>::new()", "7.0f32",
        "-170141183460469231731687303715884105729", "String::from(\"x\")", "\"x\".to_string()", "&\"x\"", "&7", "Box::new(7)", "u8::MAX", "i64::MIN", "|x: u8| x", "std::cell::Cell::new(1)"]
VALUES = ['"text"', "'c'", "1.5", "true", "()", "nowhere", "7u128", "Some(true)", "vec![()]", "{ let x: u8 = 300; x }", "perilous()", "*std::ptr::null::<u32>()", "UNSTEADY",
          "{ perilous(); Default::default() }", "{ UNSTEADY += 1; Default::default() }", "{ return 5 }", "{ break }", "gone.len() as u32", "{ drop(gone); Default::default() }"]
TYPES = ["u8", "i8", "u16", "i32", "u64", "i128", "usize", "char", "bool", "&str", "String", "(u8, i64)", "Color", "Pair", "f64", "f32", "Vec<f64>", "[u16; 2]", "Nowhere", "Option<u8>",
         "std::num::NonZeroU64", "Id", "Name", "Unhashed", "str", "[u8]", "Vec<u8>", "&'static [u8]", "u9", "dyn Debug"]
# in these places, what a map of &str accepts besides is up to the macro
LENIENT = ("'", "String", "to_string", "&\"", "Box")


def spoil(r, c):
    """The spoiled case, what was done to it, and whether plain Rust has a say."""
    c = {**c, "entries": [list(e) for e in c["entries"]], "style": r.choice(("round", "square", "curly", "path", "through")) if c["style"] != "through" else "through"}
    es, how = c["entries"], r.randrange(10)
    i = r.randrange(len(es))
    if how <= 3:
        pool = [k for k in KEYS if "str" not in c["ty"] and c["ty"] != "Name" or not any(x in k for x in LENIENT)]
        es[i][0] = r.choice(pool)
        return c, "a key", True
    if how <= 5:
        es[i][1] = r.choice(VALUES)
        return c, "a value", True
    if how <= 7:
        t = r.choice([t for t in TYPES if t != "&str" or not any(x in e[0] for x in LENIENT for e in es)])
        if t == "Unhashed" and len(es) < 3:
            t = "f64"
        return {**c, "ty": t, "plain": "&'static str" if t == "&str" else t}, "the type", True
    if how == 8:  # used up by two values
        if len(es) < 2:
            es[i][0] = "nowhere"
            return c, "a key", True
        j = r.choice([x for x in range(len(es)) if x != i])
        es[i][1] = es[j][1] = "gone.clone()" if r.random() < 0.1 else "gone"
        for k, e in enumerate(es):
            if k not in (i, j):
                e[1] = "vec![1]"
        return c, "values", True
    return {**c, "style": r.choice(("round", "square", "curly")), "text": (r.choice(("no colon", "no value", "no key", "arrow", "two commas", "no type", "comma first", "semicolon", "two colons")), i)}, "the syntax", False


def text(c):
    """The invocation."""
    if "text" not in c:
        return macros.invocation(c)
    what, i = c["text"]
    parts = [f"{k}: {v}" for k, v in c["entries"]]
    k, v = c["entries"][i]
    parts[i] = {"no colon": f"{k} {v}", "no value": f"{k}:", "no key": f": {v}", "arrow": f"{k} => {v}", "semicolon": f"{k}; {v}", "two colons": f"{k}: : {v}",
                "two commas": parts[i] + ",", "no type": parts[i], "comma first": "," + parts[i]}[what]
    if what == "two commas" and i + 1 == len(parts):
        parts[i] += ","
    body = ("" if what == "no type" else c["ty"] + ", ") + ", ".join(parts)
    o, e = {"square": "[]", "curly": "{}"}.get(c["style"], "()")
    return f"frozen_map!{o}{body}{e}"


EXTRA = '''
unsafe fn perilous() -> u32 { 1 }
static mut UNSTEADY: u32 = 1;
#[derive(PartialEq, Eq, Clone, Debug)]
struct Unhashed(u8);
fn is_map<K: Eq + std::hash::Hash, V>(_: Vec<(K, V)>) {}
'''


def program(c, plain):
    if plain:
        want = ", ".join(f"({k}, {v})" for k, v in c["entries"])
        use = f"let m: Vec<({c['plain']}, _)> = vec![{want}]; is_map(m);"
    else:
        use = f"let m = {text(c)}; drop(m);"
    return macros.PRELUDE + EXTRA + f"fn case() {{ let gone: Vec<u8> = vec![1, 2]; {use} }}\nfn main() {{ case() }}\n"


class Judge:
    def __init__(self, cc, NoAnswer):
        self.cc, self.NoAnswer = cc, NoAnswer

    def refused(self, c, plain):
        """What rustc says against it; the empty string if it compiles."""
        with tempfile.TemporaryDirectory(dir=self.cc.dir) as d:
            src = os.path.join(d, "p.rs")
            with open(src, "w") as f:
                f.write(program(c, plain))
            cmd = ["rustc", "--edition", "2021", src, "--out-dir", d, "--emit=metadata", "--crate-type=bin", "--extern", "frozen_collections=" + self.cc.rlib,
                   "-L", "dependency=" + os.path.join(os.path.dirname(self.cc.rlib), "deps"), "-L", "dependency=" + os.path.dirname(self.cc.rlib)]
            try:
                r = subprocess.run(cmd, cwd=macros.CRATE, env=self.cc.env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=300)
            except subprocess.TimeoutExpired:
                raise self.NoAnswer("rustc takes too long")
            if r.returncode == 0:
                return ""
            if r.returncode != 1 or "error" not in r.stdout:
                raise self.NoAnswer(f"rustc ended with {r.returncode}: {r.stdout[-500:]}")
            return next(ln for ln in r.stdout.splitlines() if ln.startswith("error"))

    def judge(self, item):
        """(whether it counts, why plain Rust refuses it, whether the macro accepts it)"""
        c, _, plain = item
        why = self.refused(c, True) if plain else "it is not of the form described"
        return why, bool(why) and not self.refused(c, False)


def gen(seed, i):
    r = random.Random(f"refusals/{seed}/{i}")
    size = r.choice((1, 2, 2, 3, 3, 4, 5, 7, r.randrange(1, 13)))
    for k in range(20):
        c = macros.gen_case(seed, f"refused/{i}/{k}", size)
        if c["entries"] and not c["before"]:
            break
    c.update(before="", after="", around="")
    return spoil(r, c)


def shrink(j, item):
    c, what, plain = item
    if "text" in c:
        return item
    changed = True
    while changed:
        changed = False
        for k in range(len(c["entries"])):
            cand = {**c, "entries": c["entries"][:k] + c["entries"][k + 1:]}
            if cand["entries"] and j.judge((cand, what, plain))[1]:
                c, changed = cand, True
                break
    return c, what, plain


def run(pid, tier, seed, env, save_replay, Violation, NoAnswer):
    total = 1600 if tier == "quick" else 30000
    cc = macros.Compiler(env, NoAnswer)
    try:
        j = Judge(cc, NoAnswer)
        items = [gen(seed, i) for i in range(total)]
        with concurrent.futures.ThreadPoolExecutor(8) as pool:
            verdicts = []
            for item, v in zip(items, pool.map(j.judge, items)):
                if v[1]:
                    pool.shutdown(wait=False, cancel_futures=True)
                    c, what, plain = shrink(j, item)
                    why = j.judge((c, what, plain))[0]
                    message = f"an invocation spoiled in {what} compiles, which it must not: {why}"
                    path = save_replay(pid, {"property": pid, "script": "refusals", "case": c, "what": what, "plain": plain, "message": message, "source": text(c)})
                    raise Violation(f"{message}\n  case: {text(c)[:1500]}", path)
                verdicts.append(v)
        classes, texts = {}, set()
        for (c, what, _), (why, _) in zip(items, verdicts):
            if why:
                texts.add(hashlib.sha256(text(c).encode()).hexdigest())
                k = f"spoiled in {what}"
                classes[k] = classes.get(k, 0) + 1
                k = "refused for " + why.split(":")[0][:20]
                classes[k] = classes.get(k, 0) + 1
            else:
                classes["not spoiled after all"] = classes.get("not spoiled after all", 0) + 1
        shown = [f"{text(c)[:300]} -- {why}" for (c, _, _), (why, _) in zip(items, verdicts) if why][:3]
        return {"evaluations": total, "distinct": len(texts),
                "rule": "a frozen_map! invocation that is refused, and of which plain Rust refuses the list of pairs (or which is not of the form described); distinct by its text",
                "samples": shown, "detail": dict(sorted(classes.items()))}
    finally:
        cc.close()


def replay(d, env):
    class NoAnswer(Exception):
        pass
    cc = macros.Compiler(env, NoAnswer)
    try:
        j = Judge(cc, NoAnswer)
        why, bad = j.judge((d["case"], d["what"], d["plain"]))
        print(text(d["case"]))
        print(f"compiles, although refused without the macro: {why}" if bad else "held")
        return 1 if bad else 0
    finally:
        cc.close()
