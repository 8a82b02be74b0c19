"""C08: build decisions and content fingerprints (builders/deciders).  Bytes are modelled as text, one character per byte."""
from pyvc.contract import *
from pyvc.theory import *
from pyvc.interp import StarSeq
import pyvc.source as src
from pyvc.engine import Unsupported, is_val

NL, PATH, HF, K = S("\n"), z3.Const("path", Val), z3.Const("hashfunc", Val), z3.Int("chunk_size")


def content(p):
    """the content of the file at a path"""
    return uf("content", p, sort=Str)


def digest(hf, s):
    return uf("digest", hf, s)


def hexdigest(hf, s):
    return uf("hexdigest", hf, s)


def text(v):
    """the bytes of a bytes value"""
    return ite(Val.is_str(v), Val.s(v), uf("bytes_text", v, sort=Str))


def isref(v):
    return And(Val.is_ref(v), Val.r(v) < 0, uf("refclass", v, sort=Int) == 0)


# -- files and hash objects --------------------------------------------------------------------
def opened(e, a, kw):
    return e.new_obj("file", {"content": Val.str(content(e.V(a[0]))), "pos": vint(0)})


def read(e, o, a, kw):
    """file.read(n) for n > 0: the next n bytes, fewer at the end, none after it"""
    b = e.box(o)
    c, pos = Val.s(b.attrs["content"]), Val.i(b.attrs["pos"])
    n = e.intval(a[0])
    if not e.entails(n > 0):
        raise Unsupported("read of an unknown amount")
    chunk = z3.SubString(c, pos, n)
    e.set_attr(o, "pos", Val.int(pos + z3.Length(chunk)))
    return Val.str(chunk)


def hasher(e, fv, a, kw):
    """hashfunc(data): a new hash object over the data"""
    if not e.entails(e.V(fv) == HF) or kw or len(a) > 1:
        raise Unsupported("call of " + str(fv)[:40])
    return e.new_obj("hash", {"data": Val.str(text(e.V(a[0]))) if a else vstr("")})


def update(e, o, a, kw):
    e.set_attr(o, "data", Val.str(z3.Concat(Val.s(e.box(o).attrs["data"]), text(e.V(a[0])))))
    return NONE


HOOKS = {"open": opened, "call": hasher, ".read": read, ".update": update,
         ".digest": lambda e, o, a, kw: digest(HF, Val.s(e.box(o).attrs["data"])),
         ".hexdigest": lambda e, o, a, kw: hexdigest(HF, Val.s(e.box(o).attrs["data"]))}


class Hash(Contract):
    text_bytes = True
    ext = HOOKS
    trusted = ("file.read(n) returns the next n bytes of the file, fewer only at its end",
               "a hash object's digest is a function of the concatenation of the data it was given (no collisions assumed)")

    def common(self, e):
        e.assume(And(isref(PATH), isref(HF), K > 0))
        return {"filepath": PATH, "chunk_size": Val.int(K), "hashfunc": HF}

    def setup(self, e):
        return self.common(e)


# -- whole files -----------------------------------------------------------------------------------
def file_step(s, p):
    chunk, data, pos = s
    c = z3.SubString(p[0], pos, p[1])
    return [Val.str(c), z3.Concat(data, c), pos + z3.Length(c)]


def file_inv(s, p):
    chunk, data, pos = s
    return And(0 <= pos, pos <= z3.Length(p[0]), data == z3.SubString(p[0], 0, pos), Or(Val.is_int(chunk), Val.is_str(chunk)),
               Implies(chunk == vstr(""), pos == z3.Length(p[0])))


reading = While("reading", ["val", "str", "int"], lambda s, p: s[0] != vstr(""), file_step, params=["str", "int"], inv=file_inv,
                measure=None)


def read_facts(c, pos, n):
    """facts about the chunk read at pos (lemma_read)"""
    k = z3.SubString(c, pos, n)
    ok = And(0 <= pos, pos <= z3.Length(c), n > 0)
    return [Implies(ok, z3.Length(k) == ite(n <= z3.Length(c) - pos, n, z3.Length(c) - pos)),
            Implies(ok, z3.SubString(c, 0, pos + z3.Length(k)) == z3.Concat(z3.SubString(c, 0, pos), k)),
            Implies(And(ok, pos == z3.Length(c)), z3.SubString(c, 0, pos) == c)]


def lemma_read(pv):
    for i, g in enumerate(read_facts(z3.Const("any_c", Str), z3.Int("any_pos"), z3.Int("any_n"))):
        pv.oblige("lemma chunk read/%d" % i, [], g)


LEMMAS = [lemma_read]


class HashFile(Hash):
    """the fingerprint of a file is the digest of its whole content, whatever the size of the chunks it is read in"""
    target = "disseminate.builders.deciders.utils_hash:hash_file"
    loops = [LoopUse(reading, params=lambda e: [content(PATH), K], hints=lambda e, s, p: read_facts(p[0], s[2], p[1]))]

    def spec(self, e, filepath, hashfunc):
        return digest(e.V(hashfunc), content(e.V(filepath)))


CONTRACTS = [HashFile]


# -- lines -------------------------------------------------------------------------------------------
def split(s):
    return uf("str_split", s, NL, sort=SeqV)


def last(xs):
    return Val.s(xs[z3.Length(xs) - 1])


def init(xs):
    return z3.SubSeq(xs, 0, z3.Length(xs) - 1)


def split_nil():
    return split(S("")) == unit(vstr(""))


def split_snoc(s, c):
    """definition of str.split at a newline, one character at a time"""
    return split(z3.Concat(s, c)) == ite(c == NL, cat(split(s), unit(vstr(""))), cat(init(split(s)), unit(Val.str(z3.Concat(last(split(s)), c)))))


def split_some(s):
    """the parts are strings and there is at least one"""
    return And(z3.Length(split(s)) >= 1, Val.is_str(split(s)[z3.Length(split(s)) - 1]))


def last_alone(a):
    return split(last(split(a))) == unit(Val.str(last(split(a))))


def split_cat(a, b):
    return split(z3.Concat(a, b)) == cat(init(split(a)), split(z3.Concat(last(split(a)), b)))


def lemma_split(pv):
    """splitting a ++ b is splitting a and then the last part of a together with b"""
    a, b, c = z3.Const("any_a", Str), z3.Const("any_b", Str), z3.Const("any_c", Str)
    one = [z3.Length(c) == 1, split_nil()]
    pv.oblige("lemma split/parts/base", one, split_some(S("")))
    pv.oblige("lemma split/parts/step", one + [split_some(a), split_snoc(a, c)], split_some(z3.Concat(a, c)))
    pv.oblige("lemma split/last part/base", one, last_alone(S("")))
    pv.oblige("lemma split/last part/step", one + [split_some(a), split_snoc(a, c), last_alone(a), split_snoc(last(split(a)), c)], last_alone(z3.Concat(a, c)))
    t, i = z3.Const("any_t", Str), z3.Const("any_i", SeqV)
    ab, tb = z3.Const("any_ab", Str), z3.Const("any_tb", Str)
    pv.oblige("lemma split/parts of a ++ b/base", [split_some(a), last_alone(a)], split_cat(a, S("")))
    # ab = a ++ b, tb = t ++ b with t the last part of a and i the parts before it
    pv.oblige("lemma split/parts of a ++ b/step", one + [split_some(ab), split_some(tb), split(ab) == cat(i, split(tb)), split_snoc(ab, c), split_snoc(tb, c)],
              split(z3.Concat(ab, c)) == cat(i, split(z3.Concat(tb, c))))


LEMMAS.append(lemma_split)


def lines_step(s, p):
    tail, out, pos = Val.s(s[0]), s[1], s[2]
    c = z3.SubString(p[0], pos, p[1])
    parts = split(z3.Concat(tail, c))
    end = z3.Length(c) == 0
    return [Val.str(ite(end, tail, last(parts))), ite(end, cat(out, unit(Val.str(tail))), cat(out, init(parts))), pos + z3.Length(c)]


def lines_inv(s, p):
    tail, out, pos = Val.s(s[0]), s[1], s[2]
    return And(Val.is_str(s[0]), 0 <= pos, pos <= z3.Length(p[0]), cat(out, unit(Val.str(tail))) == split(z3.SubString(p[0], 0, pos)))


def lines_hints(e, s, p):
    tail, out, pos = Val.s(s[0]), s[1], s[2]
    c, a = z3.SubString(p[0], pos, p[1]), z3.SubString(p[0], 0, pos)
    return read_facts(p[0], pos, p[1]) + [split_nil(), split_some(a), split_some(z3.Concat(tail, c)), split_cat(a, c)]


lines = While("lines", ["val", "seq", "int"], lambda s, p: z3.BoolVal(True), lines_step, params=["str", "int"], inv=lines_inv,
              exits=lambda s, p: [(z3.Length(z3.SubString(p[0], s[2], p[1])) == 0, "break", None)],
              left=lambda s, p: s[1] == split(p[0]))


class LineSplitter(Hash):
    """the lines of a file are its content split at the newlines, whatever the size of the chunks it is read in"""
    target = "disseminate.builders.deciders.utils_hash:line_splitter"
    loops = [LoopUse(lines, params=lambda e: [content(PATH), K], hints=lines_hints)]
    trusted = ("str.split(newline) is the function defined one character at a time",)

    def setup(self, e):
        self.common(e)
        e.assume(split_nil())
        self.file = opened(e, [PATH], {})
        return {"file": self.file, "newline": Val.str(NL), "chunk_size": Val.int(K), "tail": vstr("")}

    ignore = ("state#1.pos",)

    def pre(self, e, file, newline, chunk_size, tail):
        b = e.box(file)
        return And(Val.i(b.attrs["pos"]) == 0, e.V(newline) == Val.str(NL), Val.i(e.V(chunk_size)) > 0, e.V(tail) == vstr(""))

    def spec(self, e, file, newline, chunk_size, tail):
        return e.new_list(split(Val.s(e.box(file).attrs["content"])))


CONTRACTS += [LineSplitter]


# -- pdf files ---------------------------------------------------------------------------------------
VOLATILE = ("/CreationDate", "/ModDate", "/ID")


def volatile(l):
    return Or(*[z3.PrefixOf(S(v), l) for v in VOLATILE])


kept = Fold("kept_lines", ["str"], lambda h, s, p: ite(volatile(Val.s(h)), s[0], z3.Concat(s[0], Val.s(h), NL)))


def pdf_text(c):
    """what the fingerprint of a pdf file covers: every line but those starting with a volatile entry"""
    return kept.app1(split(c), [S("")])


class HashPdf(Hash):
    """the fingerprint of a pdf file is the digest of its lines without the creation date, modification date and id lines"""
    target = "disseminate.builders.deciders.utils_hash:hash_pdf"
    loops = [LoopUse(kept)]

    def elem(self, e, h, s):
        e.assume(Val.is_str(h))

    def spec(self, e, filepath, hashfunc):
        return digest(e.V(hashfunc), pdf_text(content(e.V(filepath))))


# -- several items --------------------------------------------------------------------------------------
ITEMS = z3.Const("items", SeqV)
SUFFIX = z3.Const("H0_a_suffix", AttrA)
SORT = z3.Const("sort", Bool)


def isbytes(v):
    return And(Val.is_oth(v), uf("isa_bytes", v, sort=Bool))


def item_hash(h, hf):
    """files count with their content, anything else with its text"""
    ispath = And(Val.is_ref(h), uf("isa_Path", h, sort=Bool))
    pdf = z3.Select(SUFFIX, Val.r(h)) == vstr(".pdf")
    return ite(ispath, digest(hf, ite(pdf, pdf_text(content(h)), content(h))),
               digest(hf, ite(isbytes(h), text(h), ite(Val.is_str(h), Val.s(h), uf("py_str", h, sort=Str)))))


hashes = Fold("item_hashes", ["seq"], lambda h, s, p: cat(s[0], unit(item_hash(h, p[0]))), params=["val"])
joined = Fold("joined_hashes", ["str"], lambda h, s, p: z3.Concat(s[0], text(h)))
bag = Fold("bag", ["map"], lambda h, s, p: z3.Store(s[0], h, Val.int(Val.i(s[0][h]) + 1)))
item_bag = Fold("item_bag", ["map"], lambda h, s, p: z3.Store(s[0], item_hash(h, p[0]), Val.int(Val.i(s[0][item_hash(h, p[0])]) + 1)), params=["val"])
NOBAG = z3.K(Val, vint(0))
acc_hashes = Appends(hashes)


def in_order(m):
    """the sorted sequence with this multiset of elements"""
    return uf("sorted_bag", m, sort=SeqV)


def same_bag(xs, a, m, hf):
    return bag.app1(hashes.app1(xs, [EMPTY], [hf]), [m]) == item_bag.app1(xs, [m], [hf])


def lemma_bag(pv):
    """the multiset of the hashes of the items, taken item by item"""
    m, hf = z3.Const("any_m", MapV), z3.Const("any_hf", Val)
    ht = lambda t: hashes.app1(t, [EMPTY], [hf])
    pv.induct("lemma multiset of hashes", lambda xs: same_bag(xs, EMPTY, m, hf),
              lambda: [hashes.nil([EMPTY], [hf]), bag.nil([m]), item_bag.nil([m], [hf])],
              lambda h, t: [hashes.cons(h, t, [EMPTY], [hf]), acc_hashes.inst(t, unit(item_hash(h, hf)), [hf]),
                            bag.cons(item_hash(h, hf), ht(t), [m]), item_bag.cons(h, t, [m], [hf])],
              ih=lambda h, t: [same_bag(t, EMPTY, item_bag.step(h, [m], [hf])[0], hf)])


def lemma_swap(pv):
    """the multiset does not depend on the order: counting two items commutes"""
    m, hf, a, b = z3.Const("any_m", MapV), z3.Const("any_hf", Val), z3.Const("any_a", Val), z3.Const("any_b", Val)
    st = lambda h, m: item_bag.step(h, [m], [hf])[0]
    pv.oblige("lemma multiset/order", [], st(a, st(b, m)) == st(b, st(a, m)))


LEMMAS += [acc_hashes.lemma, lemma_bag, lemma_swap]


def fingerprint(xs, hf):
    return hexdigest(hf, joined.app1(in_order(item_bag.app1(xs, [NOBAG], [hf])), [S("")]))


def sort_hashes(e, a, kw):
    if kw:
        raise Unsupported("sorted with a key")
    return e.new_list(in_order(bag.app1(e.seq_of(a[0]), [NOBAG])))


class HashItems(Hash):
    """the fingerprint of items is the digest of their sorted fingerprints: a function of the multiset of the contents, whatever
    the order and the size of the chunks the files are read in"""
    target = "disseminate.builders.deciders.utils_hash:hash_items"
    loops = [LoopUse(hashes, params=lambda e: [HF]), LoopUse(joined)]
    ext = dict(HOOKS, sorted=sort_hashes)
    attrs = {"suffix": True}
    trusted = ("sorted() of hashes depends on their multiset only", "text is encoded injectively")

    def elem(self, e, h, s):
        e.assume(Or(Val.is_str(h), isbytes(h), Val.is_int(h), Val.is_tup(h), isref(h)))

    def setup(self, e):
        a = self.common(e)
        e.arr("a_suffix")
        return {"chunk_size": a["chunk_size"], "hashfunc": HF, "sort": Val.bool(SORT)}

    def star_args(self, e):
        return [StarSeq(ITEMS)]

    def pre(self, e, chunk_size):
        return Val.i(e.V(chunk_size)) > 0

    def spec(self, e, items, hashfunc, sort):
        xs, hf = e.seq_of(items), e.V(hashfunc)
        e.assume(same_bag(xs, EMPTY, NOBAG, hf))
        if e.branch(e.truth(sort)):
            e.assume(Val.is_str(fingerprint(xs, hf)))
            return fingerprint(xs, hf)
        return hexdigest(hf, joined.app1(hashes.app1(xs, [EMPTY], [hf]), [S("")]))


CONTRACTS += [HashPdf, HashItems]


# -- decisions -------------------------------------------------------------------------------------------
INPUTS, OUT, RESET = z3.Const("inputs", SeqV), z3.Const("output", Val), z3.Const("reset", Bool)
MD5 = uf("ext:hashlib.md5")


def ispath(v):
    return And(Val.is_ref(v), uf("isa_Path", v, sort=Bool))


def exists(p):
    return uf("exists", p, sort=Bool)


paths = Fold("paths", ["seq"], lambda h, s, p: ite(ispath(h), cat(s[0], unit(h)), s[0]))
absent = Fold("some_absent", [], lambda h, s, p: [], exits=lambda h, s, p: [(Not(exists(h)), "break", None)])
path_absent = Fold("some_path_absent", [], lambda h, s, p: [], exits=lambda h, s, p: [(And(ispath(h), Not(exists(h))), "break", None)])
acc_paths = Appends(paths)


def same_absent(xs):
    return absent.code(paths.app1(xs, [EMPTY]), [], []) == path_absent.code(xs, [], [])


def lemma_absent(pv):
    pv.induct("lemma some input is absent", same_absent, lambda: [paths.nil([EMPTY]), absent.nil(), path_absent.nil()],
              lambda h, t: [paths.cons(h, t, [EMPTY]), acc_paths.inst(t, unit(h)), absent.cons(h, paths.app1(t, [EMPTY])), path_absent.cons(h, t)])


LEMMAS += [acc_paths.lemma, lemma_absent]


def missing(xs, out):
    return Or(path_absent.code(xs, [], []) == 1, And(ispath(out), Not(exists(out))))


def permuted(e, a, kw):
    """sorted(inputs, key=str): a permutation of the inputs"""
    s = e.seq_of(a[0])
    p = uf("sorted_by", s, sort=SeqV)
    e.assume(item_bag.app1(p, [NOBAG], [MD5]) == item_bag.app1(s, [NOBAG], [MD5]))
    return e.new_list(p)


class Decide(Contract):
    text_bytes = True
    loops = [LoopUse(paths), LoopUse(absent), LoopUse(path_absent)]
    ext = {".exists": lambda e, o, a, kw: exists(o)}
    cls = ("disseminate.builders.deciders.decider", "Decision")
    trusted = ("the inputs are texts, numbers, tuples or paths; a path exists or not throughout one decision",)

    def decision(self, e):
        for a in ("suffix",):
            e.arr("a_" + a)
        return e.new_obj(e.from_resolved(src.resolve(*self.cls), self.cls[1]), {})

    def args(self, e):
        e.assume(And(z3.Length(INPUTS) > 0, Or(Val.is_none(OUT), isref(OUT))))
        return {"self": self.decision(e), "inputs": e.new_list(INPUTS), "output": OUT}

    def elem(self, e, h, s):
        e.assume(Or(Val.is_str(h), isbytes(h), Val.is_int(h), Val.is_tup(h), isref(h)))


class Missing(Decide):
    """a build is needed when an input file or the output file is missing"""
    target = "disseminate.builders.deciders.decider:Decision.build_needed"

    def setup(self, e):
        return dict(self.args(e), reset=Val.bool(RESET))

    def spec(self, e, self_, inputs, output):
        xs = e.seq_of(inputs)
        e.assume(same_absent(xs))
        return Val.bool(missing(xs, e.V(output)))


class CalculateHash(Decide):
    """the fingerprints of the inputs (as a multiset) and of the output"""
    target = "disseminate.builders.deciders.md5decider:Md5Decision.calculate_hash"
    ext = {"sorted": permuted}
    attrs = {"suffix": True}

    def setup(self, e):
        e.assume(z3.Length(INPUTS) > 0)
        e.arr("a_suffix")
        return {"inputs": e.new_list(INPUTS), "output": OUT}

    def spec(self, e, inputs, output):
        a, b = fingerprint(e.seq_of(inputs), MD5), fingerprint(unit(e.V(output)), MD5)
        e.assume(And(Val.is_str(a), Val.is_str(b)))         # a hexdigest is a text
        return tup(a, b)


DBK, DBM, DBD = z3.Const("db_keys", SeqV), z3.Const("db_map", MapV), z3.Const("db_dom", DomV)
COMPLETED = z3.Const("completed", Val)


class Changed(Decide):
    """a build is needed when a file is missing, or when the fingerprint of the output is neither the one recorded for the fingerprint
    of the inputs nor that of this decision's own last completed build from these inputs; with reset the current fingerprints become
    the recorded ones, unless a file is missing"""
    target = "disseminate.builders.deciders.md5decider:Md5Decision.build_needed"
    cls = ("disseminate.builders.deciders.md5decider", "Md5Decision")
    trusted = Decide.trusted + ("diskcache.Cache is a dictionary",)
    attrs = {"suffix": True}

    def setup(self, e):
        a = dict(self.args(e), reset=Val.bool(RESET))
        self.db = e.new_dict(D(DBK, DBM, DBD))
        decider = e.new_obj("Md5Decider", {"db": self.db})
        e.assume(Or(Val.is_none(COMPLETED), And(Val.is_tup(COMPLETED), z3.Length(Val.titems(COMPLETED)) == 2)))
        e.assume(Implies(DBD[fingerprint(INPUTS, MD5)], Val.is_str(DBM[fingerprint(INPUTS, MD5)])))
        e.set_attr(a["self"], "parent_decider", decider)
        e.set_attr(a["self"], "completed", COMPLETED)
        return a

    def spec(self, e, self_, inputs, output, reset):
        xs, out = e.seq_of(inputs), e.V(output)
        if e.branch(missing(xs, out)):
            return vbool(True)
        now, made = fingerprint(xs, MD5), fingerprint(unit(out), MD5)
        d = D(DBK, DBM, DBD)
        if e.branch(Val.b(reset)):
            e.setbox(self.db, d=d.set(now, made))
            e.set_attr(self_, "completed", tup(now, made))
            return vbool(False)
        return Val.bool(And(d.get(now) != made, COMPLETED != tup(now, made)))


CONTRACTS += [Missing, CalculateHash, Changed]


PARAMS, ACTION, DECISION = z3.Const("parameters", SeqV), z3.Const("action", Val), z3.Const("decision", Val)


def decide(e, o, a, kw):
    if a and not kw or set(kw) - {"inputs", "output", "reset"}:
        raise Unsupported("build_needed arguments")
    return uf("decided", o, Val.lst(e.seq_of(kw["inputs"])), e.V(kw["output"]), e.V(kw.get("reset", vbool(False))))


class BuilderNeeded(Contract):
    """a build step decides with its own decision (asked for once and kept) over its parameters and its action, and its output"""
    target = "disseminate.builders.builder:Builder.build_needed"
    ext = {".parameters?": lambda e, o: e.new_list(PARAMS), ".outfilepath?": lambda e, o: OUT, ".build_needed": decide}

    def setup(self, e):
        c = e.from_resolved(src.resolve("disseminate.builders.builder", "Builder"), "Builder")
        e.assume(And(Or(Val.is_none(DECISION), isref(DECISION)), Or(Val.is_none(ACTION), Val.is_str(ACTION)), isref(z3.Const("new_decision", Val))))
        env = e.new_obj("Environment", {"decider": e.new_obj("Md5Decider", {"decision": z3.Const("new_decision", Val)})})
        return {"self": e.new_obj(c, {"decision": DECISION, "action": ACTION, "env": env}), "reset": Val.bool(RESET)}

    def spec(self, e, self_, reset):
        d = DECISION
        if e.branch(Val.is_none(DECISION)):
            d = z3.Const("new_decision", Val)
            e.set_attr(self_, "decision", d)
        xs = PARAMS
        if e.branch(e.truth(ACTION)):
            xs = cat(xs, unit(ACTION))
        return uf("decided", d, Val.lst(xs), OUT, e.V(reset))


CONTRACTS += [BuilderNeeded]
