"""C13: sequence and mapping utilities (utils/list.py, utils/dict.py)."""
from pyvc.contract import *
from pyvc.theory import *

k0 = z3.Const("k0", Val)


# -- dupes ---------------------------------------------------------------------
def keyfn(e, h):
    return uf("key", h)


def mk_dup(key):
    K = (lambda h: uf("key", h)) if key else (lambda h: h)
    tag = "_key" if key else ""

    def inv(s, p, done):
        km = uf("map_key", done, sort=SeqV) if key else done
        return z3.ForAll([k0], And(s[2][k0] == (count(km, k0) > 0),
                                   Implies(s[2][k0], s[1][k0] == Val.int(count(km, k0)))))

    def hints(e, head, s, p, done, rest):
        if key:
            mk = lambda x: uf("map_key", x, sort=SeqV)
            return [mk(EMPTY) == EMPTY, mk(cat(done, unit(head))) == cat(mk(done), unit(K(head))),
                    count_snoc(mk(done), K(head)), count_nil(), count_nonneg(mk(done), K(head))]
        return [count_snoc(done, head), count_nil(), count_nonneg(done, head)]
    tally = Fold("tally" + tag, ["seq", "map", "dom"],
                 lambda h, s, p: D(*s).set(K(h), Val.int(ite(s[2][K(h)], Val.i(s[1][K(h)]), 0) + 1)).terms(), inv=inv)
    # declarative: keep the elements whose key occurs more than once in the whole list
    keep = Fold("keep_repeated" + tag, ["seq"], params=["seq"],
                step=lambda h, s, p: ite(count(p[0], K(h)) > 1, cat(s[0], unit(h)), s[0]))

    def khints(e, head, s, p, done, rest):
        if key:
            mk = lambda x: uf("map_key", x, sort=SeqV)
            return [mk(cat(done, unit(head), rest)) == cat(mk(done), unit(K(head)), mk(rest))] + occurs_hints(mk(done), K(head), mk(rest))
        return occurs_hints(done, head, rest)
    return tally, hints, keep, khints


T0, H0_, K0, KH0 = mk_dup(False)
T1, H1_, K1, KH1 = mk_dup(True)
LST = z3.Const("lst", SeqV)


def keyed(e):
    return Ext("user.key")


class Dupes(Contract):
    """dupes(lst) lists exactly the elements whose number of occurrences in lst exceeds one, in order; lst unchanged."""
    target = "disseminate.utils.list:dupes"
    key = False
    loops = [LoopUse(T0, hints=H0_), LoopUse(K0, params=lambda e: [LST], hints=KH0)]

    def setup(self, e):
        e.pv.axioms.append(count_nil())
        return dict(lst=sym_list(e, "lst"), key=NONE)

    def spec(self, e, lst):
        xs = e.seq_of(lst)
        k, fin, v = run_fold(e, K0, xs, [EMPTY], [xs])
        return e.new_list(fin[0])


class DupesKey(Dupes):
    """same, with occurrences counted by key(element)"""
    loops = [LoopUse(T1, hints=H1_), LoopUse(K1, params=lambda e: [uf("map_key", LST, sort=SeqV)], hints=KH1)]
    ext = {"user.key": lambda e, a, kw: uf("key", e.V(a[0]))}

    def setup(self, e):
        e.pv.axioms += [count_nil(), uf("map_key", EMPTY, sort=SeqV) == EMPTY]
        return dict(lst=sym_list(e, "lst"), key=Ext("user.key"))

    def spec(self, e, lst):
        xs = e.seq_of(lst)
        k, fin, v = run_fold(e, K1, xs, [EMPTY], [uf("map_key", xs, sort=SeqV)])
        return e.new_list(fin[0])


# -- uniq ------------------------------------------------------------------------
def mk_uniq(key):
    K = (lambda h: uf("key", h)) if key else (lambda h: h)

    def mk(x):
        return uf("map_key", x, sort=SeqV) if key else x

    def inv(s, p, done):
        return z3.ForAll([k0], s[0][k0] == (count(mk(done), k0) > 0))

    def hints(e, head, s, p, done, rest):
        o = [mk(EMPTY) == EMPTY] if key else []
        return o + [mk(cat(done, unit(head))) == cat(mk(done), unit(K(head))), count_snoc(mk(done), K(head)), count_nil(),
                    count_nonneg(mk(done), K(head))]
    return Fold("first_seen" + ("_key" if key else ""), ["dom", "seq"],
                lambda h, s, p: [z3.Store(s[0], K(h), z3.BoolVal(True)), ite(s[0][K(h)], s[1], cat(s[1], unit(h)))], inv=inv), hints


U0, UH0 = mk_uniq(False)
U1, UH1 = mk_uniq(True)


class Uniq(Contract):
    """unique_everseen yields, in order, each element that has not occurred before it (invariant: the seen set is
    exactly the set of elements consumed so far)."""
    target = "disseminate.utils.list:unique_everseen"
    loops = [LoopUse(U0, hints=UH0)]
    U = U0

    def setup(self, e):
        e.pv.axioms.append(count_nil())
        return dict(iterable=sym_list(e, "lst"), key=NONE)

    def spec(self, e, iterable):
        k, fin, v = run_fold(e, self.U, e.seq_of(iterable), [NODOM, EMPTY])
        return e.new_list(fin[1])


class UniqKey(Uniq):
    loops = [LoopUse(U1, hints=UH1)]
    ext = {"user.key": lambda e, a, kw: uf("key", e.V(a[0]))}
    U = U1

    def setup(self, e):
        e.pv.axioms += [count_nil(), uf("map_key", EMPTY, sort=SeqV) == EMPTY]
        return dict(iterable=sym_list(e, "lst"), key=Ext("user.key"))


class UniqTop(Contract):
    target = "disseminate.utils.list:uniq"

    def setup(self, e):
        return dict(lst=sym_list(e, "lst"), key=NONE)

    def spec(self, e, lst):
        k, fin, v = run_fold(e, U0, e.seq_of(lst), [NODOM, EMPTY])
        return e.new_list(fin[1])


# -- flatten / unwrap ---------------------------------------------------------------
leaves = Fold("leaves", ["seq"], None)
leaves.step_ = lambda h, s, p: ite(Val.is_lst(h), cat(s[0], leaves.app1(Val.litems(h), [EMPTY])), cat(s[0], unit(h)))


def plain_elem(e, h, s):
    """elements are immutable values or nested lists (value semantics)"""
    e.assume(Implies(Val.is_ref(h), uf("refclass", h, sort=Int) == 0))


class Flatten(Contract):
    """flatten(lst) = the leaves of lst in order; partial correctness, recursive calls by contract"""
    target = "disseminate.utils.list:flatten"
    loops = [LoopUse(leaves)]
    elem = staticmethod(plain_elem)

    def setup(self, e):
        return dict(lst=sym_list(e, "lst"))

    def spec(self, e, lst):
        return e.new_list(leaves.app1(e.deep(e.seq_of(lst)), [EMPTY]))


def unwrapped(v):
    return uf("unwrapped", v)


class Unwrap(Contract):
    """unwrap(v) = unwrap of its only element when v is a one-element list, else v"""
    target = "disseminate.utils.list:unwrap"

    def setup(self, e):
        v = sym(e, "lst")
        e.assume(Not(Val.is_ref(v)))
        n = z3.Const("n_", Val)
        one = And(Val.is_lst(v), z3.Length(Val.litems(v)) == 1)
        e.assume(unwrapped(v) == ite(one, unwrapped(Val.litems(v)[0]), v))
        x = Val.litems(v)[0]
        e.assume(Implies(one, Not(Val.is_ref(x))))
        e.assume(unwrapped(x) == ite(And(Val.is_lst(x), z3.Length(Val.litems(x)) == 1), unwrapped(Val.litems(x)[0]), x))
        return dict(lst=v)

    def spec(self, e, lst):
        return unwrapped(e.V(lst))


# -- chunks ---------------------------------------------------------------------------
pieces = Fold("pieces", ["seq"], params=["seq", "int"],
              step=lambda h, s, p: cat(s[0], unit(Val.lst(z3.SubSeq(p[0], Val.i(h), ite(Val.i(h) + p[1] > z3.Length(p[0]),
                                                                                      z3.Length(p[0]) - Val.i(h), p[1]))))))
NN = z3.Int("N")


class Chunks(Contract):
    """chunks(lst, N): the slices [i, i+N) for i = 0, N, 2N, ... below len(lst)"""
    target = "disseminate.utils.list:chunks"
    loops = [LoopUse(pieces, params=lambda e: [LST, NN],
                     hints=lambda e, h, s, p, d, r: [Val.is_int(h), Val.i(h) >= 0, Val.i(h) < z3.Length(p[0])])]
    trusted = ("range(0, n, N) yields integers in [0, n)",)

    def setup(self, e):
        e.assume(NN > 0)
        return dict(lst=sym_list(e, "lst"), N=Val.int(NN))

    def spec(self, e, lst, N):
        xs = e.seq_of(lst)
        rng = uf("seq_range", z3.IntVal(0), z3.Length(xs), Val.i(N), sort=SeqV)
        return e.new_list(pieces.app1(rng, [EMPTY], [xs, Val.i(N)]))


# -- transpose ---------------------------------------------------------------------------
aslist = Fold("rows", ["seq"], lambda h, s, p: cat(s[0], unit(Val.lst(Val.titems(h)))))


class Transpose(Contract):
    target = "disseminate.utils.list:transpose"
    loops = [LoopUse(aslist)]
    trusted = ("zip(*rows) yields the columns (builtin)",)

    def setup(self, e):
        return dict(lst=sym_list(e, "lst"))

    def spec(self, e, lst):
        return e.new_list(aslist.app1(uf("zip_star", e.seq_of(lst), sort=SeqV), [EMPTY]))


# -- find_entry ----------------------------------------------------------------------------
def trial(p, n):
    """the first n keys joined by sep"""
    return uf("str_join", p["sep"], z3.SubSeq(p["keys"], 0, n), sort=Str)


KEYS, SEP, SUF = z3.Const("keys", SeqV), z3.Const("sep", Str), z3.Const("suffix", Val)
DM, DD = z3.Const("H0_$map", MapA), z3.Const("H0_$dom", DomA)


def cands(p, n):
    t = trial(p, n)
    with_suffix = ite(Val.is_none(p["suffix"]), t, z3.Concat(t, p["sep"], Val.s(p["suffix"])))
    return Val.str(with_suffix), Val.str(t)


def fe_p(p):
    return dict(keys=p[0], sep=p[1], suffix=p[2], map=p[3], dom=p[4])


def fe_exits(s, p):
    q = fe_p(p)
    a, b = cands(q, s[0])
    return [(q["dom"][a], "ret", q["map"][a]), (q["dom"][b], "ret", q["map"][b])]


# longest prefix first; suffixed before plain
longest = While("longest_prefix", ["int"], guard=lambda s, p: s[0] > 0, step=lambda s, p: [s[0] - 1],
                params=["seq", "str", "val", "map", "dom"], exits=fe_exits, measure=lambda s, p: s[0],
                inv=lambda s, p: And(s[0] <= z3.Length(p[0]), s[0] >= 0))


def in_dict(h):
    return [KEYS, SEP, SUF, DM[Val.r(h)], DD[Val.r(h)]]


def fd_exits(h, s, p):
    q = in_dict(h)
    n = z3.Length(KEYS)
    return [(longest.code([n], q) == 1, "ret", longest.value([n], q)), (longest.code([n], q) == 2, "ret", longest.value([n], q))]


first_dict = Fold("first_dict", [], lambda h, s, p: [], exits=fd_exits)


def dictelem(e, h, s):
    e.assume(And(Val.is_ref(h), Val.r(h) < 0, uf("refclass", h, sort=Int) == 2))


class FindEntry(Contract):
    """first dictionary, then longest key prefix, then suffixed before plain; KeyError when there is none"""
    target = "disseminate.utils.dict:find_entry"
    loops = [LoopUse(longest, params=lambda e: in_dict(e.heads[-1])), LoopUse(first_dict)]
    elem = staticmethod(dictelem)

    def setup(self, e):
        e.arr("$map", MapA), e.arr("$dom", DomA)
        e.assume(Or(Val.is_none(SUF), Val.is_str(SUF)))
        self.ks = KEYS
        return dict(dicts=e.new_list(z3.Const("dicts", SeqV)), suffix=SUF, sep=Val.str(SEP))

    def star_args(self, e):
        from pyvc.interp import StarSeq
        return [StarSeq(KEYS)]

    def spec(self, e, dicts):
        k, fin, v = run_fold(e, first_dict, e.seq_of(dicts))
        if k == "ret":
            raise Ret(v)
        raise PyRaise("KeyError")


CONTRACTS = [FindEntry, Dupes, DupesKey, Uniq, UniqKey, UniqTop, Flatten, Unwrap, Chunks, Transpose]
LEMMAS = [lemma_count]
