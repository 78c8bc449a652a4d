"""C20: index symbols are distinct and path numberings convert losslessly."""
import numpy as np
import opt_einsum as oe
from opt_einsum import parser, paths

from .. import gen, oracle
from ..core import Family, Skip, Violation

RULE = "distinct blocks of symbol numbers, used sets, equations renamed, and paths converted whose results were compared with an independent simulation"
ASSUMPTIONS = ["symbol numbers run from 0 to the end of Unicode; equations renamed to NumPy's alphabet have at most 52 indices and no whitespace"]

LAST = 0x110000 - 2048  # as many symbols as Unicode has room for, from the implementation's documentation
RESERVED = set(".,->") | set(" \t\n")
BLOCK = 20000


def surrogate(c):
    return 0xD800 <= ord(c) <= 0xDFFF


def sym_ok(c, what):
    if not isinstance(c, str) or len(c) != 1:
        raise Violation(f"{what} is {c!r}, not a single character")
    if c in RESERVED:
        raise Violation(f"{what} is {c!r}, which is reserved in equations")


def fam_symbols(rng, mon):
    """All symbols are drawn, a block at a time, against all of them."""
    seen = {}
    for i in range(LAST):
        c = parser.get_symbol(i)
        if i % 997 == 0 or i < 60000:
            sym_ok(c, f"get_symbol({i})")
        if c in seen:
            raise Violation(f"get_symbol({i}) and get_symbol({seen[c]}) are both {c!r}")
        if i < 52 and c != gen.LETTERS[i]:
            raise Violation(f"get_symbol({i}) is {c!r}")
        if surrogate(c) and not 55156 <= i <= 55295:
            raise Violation(f"get_symbol({i}) is a surrogate, {c!r}")
        seen[c] = i
        if i % BLOCK == 0:
            mon.sig("block", i // BLOCK)
    if any(len(c) != 1 or c in RESERVED for c in seen):
        raise Violation("a symbol is reserved or not a single character")
    mon.ev("symbols compared", len(seen))


def fam_surrogates(rng, mon):
    i = rng.randint(55140, 55310)
    c = oe.get_symbol(i)
    mon.describe(number=i)
    mon.ev("symbols around the surrogates")
    if surrogate(c):
        raise Violation(f"get_symbol({i}) is the surrogate {c!r}", finding="get-symbol-surrogates" if 55156 <= i <= 55295 else None)
    mon.sig("near", i)


def fam_unused(rng, mon):
    k = rng.choice(("prefix", "letters", "exotic", "mixed", "holes", "big"))
    if k == "prefix":
        used = "".join(parser.get_symbol(i) for i in range(rng.randint(0, 80)))
    elif k == "letters":
        used = "".join(rng.choice(gen.LETTERS) for _ in range(rng.randint(0, 60)))
    elif k == "exotic":
        used = "".join(rng.choice(gen.EXOTIC) for _ in range(rng.randint(0, 60)))
    elif k == "holes":
        used = "".join(parser.get_symbol(i) for i in range(120) if rng.random() < 0.7)
    elif k == "big":
        used = "".join(parser.get_symbol(i) for i in range(rng.randint(300, 3000)) if rng.random() < 0.99)
    else:
        used = ",".join("".join(rng.choice(list(gen.LETTERS) + gen.EXOTIC) for _ in range(rng.randint(0, 6))) for _ in range(5)) + "->"
    n = rng.choice((0, 1, 2, 3, 10, 60, 200))
    mon.describe(used=used[:200], n=n)
    got = list(parser.gen_unused_symbols(used, n))
    if len(got) != n or len(set(got)) != n:
        raise Violation(f"gen_unused_symbols({used[:60]!r}, {n}) gave {len(set(got))} distinct symbols: {got[:80]}")
    for c in got:
        sym_ok(c, "an unused symbol")
        if c in used:
            raise Violation(f"gen_unused_symbols({used[:60]!r}, {n}) gave {c!r}, which is used")
    mon.ev("unused symbols", n)
    mon.sig(used, n)


def random_eq(rng, alphabet, maxlab, ell=0.3):
    labs = rng.sample(alphabet, min(maxlab, len(alphabet)))
    terms = []
    for _ in range(rng.randint(1, 6)):
        t = [rng.choice(labs) for _ in range(rng.choice((0, 1, 2, 3, 3, 8)))]
        if rng.random() < ell:
            t.insert(rng.randint(0, len(t)), "...")
        terms.append("".join(t))
    eq = ",".join(terms)
    if rng.random() < 0.7:
        have = sorted(set(eq) - set(".,"))
        o = rng.sample(have, rng.randint(0, len(have)))
        if "..." in eq and rng.random() < 0.8:
            o.insert(rng.randint(0, len(o)), "...")
        eq += "->" + "".join(o)
    return eq


def bijective(a, b, what):
    """b is a renamed."""
    if len(a) != len(b):
        raise Violation(f"{what}: {a!r} became {b!r}")
    f, g = {}, {}
    for x, y in zip(a, b):
        if x in ".,->" or y in ".,->":
            if x != y:
                raise Violation(f"{what}: {a!r} became {b!r}")
            continue
        if f.setdefault(x, y) != y or g.setdefault(y, x) != x:
            raise Violation(f"{what}: {a!r} became {b!r}, which is another contraction")


def fam_rename(rng, mon):
    alphabet = list(dict.fromkeys({"letters": list(gen.LETTERS), "exotic": gen.EXOTIC, "mixed": list(gen.LETTERS) + gen.EXOTIC,
                                   "order": [chr(x) for x in range(0x100, 0x180)] + list("zZyYaAbB")}[rng.choice(("letters", "exotic", "mixed", "order"))]))
    eq = random_eq(rng, alphabet, rng.choice((1, 3, 10, 26, 52)))
    mon.describe(eq=eq)
    v = parser.convert_to_valid_einsum_chars(eq)
    bijective(eq, v, "convert_to_valid_einsum_chars")
    if not all(c in gen.LETTERS or c in ".,->" for c in v) or not parser.has_valid_einsum_chars_only(v):
        raise Violation(f"convert_to_valid_einsum_chars({eq!r}) is {v!r}, not in NumPy's alphabet")
    if parser.has_valid_einsum_chars_only(eq) != all(c in gen.LETTERS or c in ".,->" for c in eq):
        raise Violation(f"has_valid_einsum_chars_only({eq!r}) is {parser.has_valid_einsum_chars_only(eq)}")
    # order is kept, so that implicit outputs stay the same
    labs = [c for c in dict.fromkeys(eq) if c not in ".,->"]
    if [v[eq.index(c)] for c in sorted(labs)] != sorted((v[eq.index(c)] for c in labs), key=gen.LETTERS.index):
        raise Violation(f"convert_to_valid_einsum_chars({eq!r}) is {v!r}, the order of the symbols changed")
    a = parser.alpha_canonicalize(eq)
    bijective(eq, a, "alpha_canonicalize")
    m = dict(zip(labs, rng.sample(list(gen.LETTERS) + gen.EXOTIC, len(labs))))
    eq2 = "".join(m.get(c, c) for c in eq)
    if parser.alpha_canonicalize(eq2) != a:
        raise Violation(f"alpha_canonicalize gives {a!r} for {eq!r} and {parser.alpha_canonicalize(eq2)!r} for {eq2!r}")
    if parser.alpha_canonicalize(a) != a:
        raise Violation(f"alpha_canonicalize({a!r}) is {parser.alpha_canonicalize(a)!r}")
    mon.ev("equations renamed")
    mon.sig(eq)
    mon.sample({"eq": eq, "numpy": v, "canonical": a})


def fam_manylabels(rng, mon):
    """Canonical names of more indices than NumPy has letters."""
    alphabet = list(gen.LETTERS) + gen.EXOTIC
    eq = ",".join("".join(rng.choice(alphabet) for _ in range(rng.randint(1, 12))) for _ in range(rng.randint(5, 40)))
    mon.describe(eq=eq)
    a = parser.alpha_canonicalize(eq)
    bijective(eq, a, "alpha_canonicalize")
    bijective(eq, parser.convert_to_valid_einsum_chars(eq), "convert_to_valid_einsum_chars")
    mon.ev("equations renamed")
    mon.sig(eq)


def lin_steps(path, n):
    s = [frozenset([i]) for i in range(n)]
    out = []
    for st in path:
        parts = [s.pop(i) for i in sorted(st, reverse=True)]
        s.append(frozenset().union(*parts))
        out.append((frozenset(parts), len(parts)))
    if len(s) != 1:
        raise Violation(f"the path {path} leaves {len(s)} of {n} terms")
    return out


def ssa_steps(path, n):
    s = {i: frozenset([i]) for i in range(n)}
    out, nxt = [], n
    for st in path:
        parts = [s.pop(i) for i in st]
        s[nxt] = frozenset().union(*parts)
        out.append((frozenset(parts), len(parts)))
        nxt += 1
    if len(s) != 1:
        raise Violation(f"the path {path} leaves {len(s)} of {n} terms")
    return out


def to_ssa(path, n):
    ids, nxt, out = list(range(n)), n, []
    for st in path:
        out.append(tuple(ids[i] for i in st))
        for i in sorted(st, reverse=True):
            ids.pop(i)
        ids.append(nxt)
        nxt += 1
    return out


def judge(path, n, mon, what):
    want = lin_steps(path, n)
    try:
        ssa = paths.linear_to_ssa(path)
        if ssa_steps(ssa, n) != want:
            raise Violation(f"linear_to_ssa({path}) is {ssa}, which are other steps {what}")
        back = paths.ssa_to_linear(ssa)
        if lin_steps(back, n) != want:
            raise Violation(f"ssa_to_linear({ssa}) is {back}, which are other steps than {path} {what}")
        if [tuple(sorted(x)) for x in back] != [tuple(sorted(x)) for x in path]:
            raise Violation(f"{path} becomes {back} when converted and back {what}")
        mine = to_ssa(path, n)
        lin = paths.ssa_to_linear(mine)
        if lin_steps(lin, n) != want:
            raise Violation(f"ssa_to_linear({mine}) is {lin}, which are other steps {what}")
        if [set(x) for x in paths.linear_to_ssa(lin)] != [set(x) for x in mine]:
            raise Violation(f"{mine} becomes {paths.linear_to_ssa(lin)} when converted and back {what}")
        oracle.check_path(lin, n)
    except oracle.BadPath as e:
        raise Violation(f"converted path {lin}: {e}")
    except (KeyError, IndexError) as e:
        raise Violation(f"converting {path} gives a path that cannot be followed: {type(e).__name__} {e}")
    mon.ev("paths converted")
    mon.ev("steps compared", len(path))


def fam_paths(rng, mon):
    n = rng.choice((1, 2, 3, 4, 5, 8, 13, 30))
    path = gen.random_path(rng, n)
    if rng.random() < 0.3:
        path = [tuple(np.int64(x) for x in p) for p in path]
    if rng.random() < 0.3:
        path = [list(p) for p in path]
    mon.describe(path=path, n=n)
    judge(path, n, mon, "")
    mon.sig(tuple(tuple(int(x) for x in p) for p in path))


def fam_longpaths(rng, mon):
    n = rng.randint(60, 1500)
    path = gen.random_path(rng, n, rng.choice(("pair", "nary")))
    mon.describe(n=n)
    judge(path, n, mon, f"({n} terms)")
    mon.sig(n, path[0], path[-1], len(path))


def fam_searched(rng, mon):
    """Paths as the searches return them."""
    con = gen.contraction(rng, 3, 12, budget=None, sizes=(1, 2, 3, 9))
    s = rng.choice(("greedy", "branch-1", "random-greedy", "auto"))
    sym = gen.symbols(rng, con)
    p, _ = oe.contract_path(con.eq(sym), *con.shapes(), shapes=True, optimize=s)
    mon.describe(con=con.describe(), strategy=s)
    judge(p, con.n, mon, f"({s} on {con.describe()})")
    mon.sig(con.key(), s)


FAMILIES = [
    Family("symbols", fam_symbols, 1, 1),
    Family("surrogates", fam_surrogates, 60, 400),
    Family("unused", fam_unused, 3000, 30000),
    Family("rename", fam_rename, 20000, 300000),
    Family("manylabels", fam_manylabels, 1000, 10000),
    Family("paths", fam_paths, 20000, 300000),
    Family("longpaths", fam_longpaths, 60, 800),
    Family("searched", fam_searched, 2000, 20000),
]
