"""C06: label registry (label_manager/label_manager.py, register_orders.py, receivers.py)."""
from pyvc.contract import *
from pyvc.theory import *
import pyvc.source as src

LK, LM_, LD = z3.Const("lab_keys", SeqV), z3.Const("lab_map", MapV), z3.Const("lab_dom", DomV)
RSM, RSD = z3.Const("resets_map", MapV), z3.Const("resets_dom", DomV)
AKIND, AORDER = z3.Const("H0_a_kind", AttrA), z3.Const("H0_a_order", AttrA)


def attr(name, l):
    return z3.Select(z3.Const("H0_a_" + name, AttrA), Val.r(l))


def islabel(v):
    return And(Val.is_ref(v), Val.r(v) < 0, uf("refclass", v, sort=Int) == 0, Val.is_str(attr("doc_id", v)), Val.is_str(attr("id", v)))


def ispair(v):
    return And(Val.is_tup(v), z3.Length(Val.titems(v)) == 2, Val.is_int(Val.titems(v)[0]), islabel(Val.titems(v)[1]))


# -- orders ---------------------------------------------------------------------
def cnt(s, k):
    return ite(s[2][k], Val.i(s[1][k]), 0)


zero = Fold("zero_counts", ["seq", "map", "dom"], lambda h, s, p: D(*s).set(h, vint(0)).terms())


def bump(h, s, p):
    d = D(*s[:3]).set(h, Val.int(cnt(s, h) + 1))
    z = zero.app(Val.titems(p[0][h]), d.terms())
    r = [ite(p[1][h], a, b) for a, b in zip(z, d.terms())]
    return r + [cat(s[3], unit(Val.int(ite(r[2][h], Val.i(r[1][h]), 0))))]


kinds = Fold("count_kinds", ["seq", "map", "dom", "seq"], bump, params=["map", "dom"])


def number(h, s, p):
    k = Val.titems(attr("kind", h))
    r = kinds.app(k, list(s[:3]) + [EMPTY], p)
    return r[:3] + [z3.Store(s[3], Val.r(h), Val.tup(r[3]))]


orders = Fold("number_labels", ["seq", "map", "dom", "arr"], number, params=["map", "dom"])
with_kind = Fold("with_kind", ["seq"], lambda h, s, p: ite(Val.is_none(attr("kind", p[0][h])), s[0], cat(s[0], unit(p[0][h]))), params=["map"])


ROOT = z3.Const("root_document", Val)
ROOTIDS = z3.Select(z3.Const("H0_a_doc_ids", AttrA), Val.r(ROOT))


def lab(h, p):
    return p[0][h]


def label_val(e, o, k, v):
    """values of the registry are labels"""
    if z3.eq(o, e.contract.labels):
        e.assume(islabel(v))
    elif z3.eq(o, e.contract.resets):
        e.assume(Val.is_tup(v))


ids_of = Fold("doc_ids_of_labels", ["seq"], lambda h, s, p: cat(s[0], unit(attr("doc_id", lab(h, p)))), params=["map"])
known = Fold("labels_of_known_documents", ["seq"],
             lambda h, s, p: ite(z3.Contains(p[1], unit(attr("doc_id", lab(h, p)))), cat(s[0], unit(lab(h, p))), s[0]), params=["map", "seq"])
numbered = Fold("with_position", ["int", "seq"], lambda h, s, p: [s[0] + 1, cat(s[1], unit(tup(Val.int(s[0]), h)))])
registry = lambda h, s, p: islabel(p[0][h])       # the values of the registry are labels
kinds_given = Members(with_kind, lambda v, p: And(islabel(v), Not(Val.is_none(attr("kind", v)))), hyp=registry)
known_members = Members(known, lambda v, p: islabel(v), hyp=registry)
pair_members = Members(numbered, lambda v, p: ispair(v), i=1, hyp=lambda h, s, p: islabel(h))
refill = Fold("registry_of", ["seq", "map", "dom"],
              lambda h, s, p: D(*s).set(tup(attr("doc_id", Val.titems(h)[1]), attr("id", Val.titems(h)[1])), Val.titems(h)[1]).terms())


def ids(e):
    return ids_of.app1(LK, [EMPTY], [LM_]) if e.entails(Val.is_none(ROOT)) else Val.litems(ROOTIDS)


def rs(e):
    return [RSM, RSD] if e.entails(z3.Bool("has_resets")) else [NOMAP, NODOM]


def bykey(e, a, kw):
    """sorted(pairs, key): the key is checked to be (position of the document in the project, creation position)"""
    s, key = e.deep(e.seq_of(a[0])), kw["key"]
    if len(a) > 1 or set(kw) != {"key"}:
        raise Unsupported("sorted")
    h = z3.Const("any_pair", Val)
    l = Val.titems(h)[1]
    sv = e.snapshot()
    e.assume(And(ispair(h), z3.Contains(ids(e), unit(attr("doc_id", l)))))
    k = e.call(key, [h], {})
    exp = tup(Val.int(z3.IndexOf(ids(e), unit(attr("doc_id", l)), 0)), Val.titems(h)[0])
    e.pv.oblige(e.contract.label + "/sort key is (document position, creation position)", e.pc, e.V(k) == exp)
    e.restore(sv)
    return e.new_list(uf("sorted_by_document", s, ids(e), sort=SeqV))


class Registry(Contract):
    attrs = {"kind": lambda e, o, v: e.assume(Or(Val.is_none(v), Val.is_tup(v))), "order": True,
             "doc_id": True, "id": True, "doc_ids": lambda e, o, v: e.assume(Val.is_lst(v))}
    ext = {"dictvalue": label_val, "sorted": bykey}
    trusted = ("sorted(pairs, key) is the stable permutation of the pairs in increasing order of the key (builtin)",
               "a document's doc_ids is the list of the ids of the documents of its project in order (C07)")

    def elem(self, e, h, s):
        if any(m.assume(e, h, s) for m in (kinds_given, known_members, pair_members)):
            return
        if str(s).startswith("sorted_by_document"):
            e.assume(ispair(h))         # a permutation of pairs

    def world(self, e):
        self.labels = e.new_dict(D(LK, LM_, LD), "OrderedDict")
        self.resets = e.new_dict(D(z3.Const("resets_keys", SeqV), RSM, RSD))
        has = z3.Bool("has_resets")
        ck, cm, cd = z3.Const("ctx_keys", SeqV), z3.Const("ctx_map", MapV), z3.Const("ctx_dom", DomV)
        e.assume(cd[vstr("label_resets")] == has)
        e.assume(Or(Val.is_none(ROOT), And(Val.is_ref(ROOT), Val.r(ROOT) < 0, uf("refclass", ROOT, sort=Int) == 0)))
        e.assume(Val.is_lst(ROOTIDS))
        self.ctx = e.new_obj("DocumentContext", {"root_document": ROOT}, d=D(ck, z3.Store(cm, vstr("label_resets"), self.resets), cd))
        for a in ("kind", "order", "doc_id", "id", "doc_ids"):
            e.arr("a_" + a)
        return {"labels": self.labels, "root_context": self.ctx}

    setup = world


def reorder(e):
    if e.branch(Val.is_none(ROOT)):
        run_fold(e, ids_of, LK, [EMPTY], [LM_])
    flt = run_fold(e, known, LK, [EMPTY], [LM_, ids(e)])[1][0]
    prs = run_fold(e, numbered, flt, [z3.IntVal(0), EMPTY])[1][1]
    fin = run_fold(e, refill, uf("sorted_by_document", prs, ids(e), sort=SeqV), [EMPTY, NOMAP, NODOM])[1]
    e.setbox(e.contract.labels, d=D(*fin))
    return D(*fin)


class Reorder(Registry):
    """the registry holds, under their own ids, exactly the labels of documents in the project, by position of the
    document and, within a document, of creation"""
    target = "disseminate.label_manager.register_orders:reorder_and_purge_labels_by_doc_id"
    loops = [LoopUse(ids_of, params=lambda e: [LM_]), LoopUse(known, params=lambda e: [LM_, ids(e)]), LoopUse(numbered), LoopUse(refill)]

    def spec(self, e, labels, root_context):
        reorder(e)
        return NONE


class Orders(Registry):
    """after registration label.order holds, for each of the label's kinds in order, the number of labels of this kind
    since the counter was last reset (counters of the kinds that k resets are zeroed when k is counted); labels without
    kinds keep their order; nothing else changes"""
    target = "disseminate.label_manager.register_orders:register_orders"
    trusted = Registry.trusted + ("the counted entries of a Counter are integers, missing ones count 0 (builtin)",)

    loops = [LoopUse(with_kind, params=lambda e: [e.box(e.contract.labels).d.map]), LoopUse(orders, params=rs), LoopUse(kinds, params=rs), LoopUse(zero)]

    def spec(self, e, labels, root_context):
        d = reorder(e)
        fl = run_fold(e, with_kind, d.keys, [EMPTY], [d.map])[1][0]
        e.branch(z3.Bool("has_resets"))
        p = rs(e)
        fin = run_fold(e, orders, fl, [EMPTY, NOMAP, NODOM, e.arr("a_order")], p)[1]
        e.arrs["a_order"] = fin[3]
        return NONE


LEMMAS = [kinds_given.lemma, known_members.lemma, pair_members.lemma]
CONTRACTS = [Reorder, Orders]


# -- the manager ------------------------------------------------------------------
REG = z3.Const("registered", Bool)
CK, CM, CD = z3.Const("doc_ctx_keys", SeqV), z3.Const("doc_ctx_map", MapV), z3.Const("doc_ctx_dom", DomV)
ID, KIND, TITLE, DOCID = z3.Const("id", Str), z3.Const("kind", Val), z3.Const("title", Val), z3.Const("doc_id", Val)


def sep_of(e, context):
    """the separator of document and label ids: the context's, else the default"""
    if e.branch(And(Not(Val.is_none(e.V(context))), e.box(context).d.dom[vstr("label_sep")]) if e.box(context) is not None else z3.BoolVal(False)):
        return Val.s(e.box(context).d.map[vstr("label_sep")])
    return S("::")


def split_id(e, id, context):
    parts = uf("str_split", Val.s(id), sep_of(e, context), sort=SeqV)
    e.assume(z3.Length(parts) >= 1)
    if e.branch(z3.Length(parts) == 2):
        return parts[0], parts[1]
    return NONE, parts[0]


def strings_of(e, o, args, kw):
    """str.split(sep): a non-empty list of strings"""
    s = uf("str_split", Val.s(e.V(o)), Val.s(e.V(args[0])), sort=SeqV)
    e.assume(And(z3.Length(s) >= 1, Val.is_str(s[0]), Implies(z3.Length(s) > 1, Val.is_str(s[1]))))
    return e.new_list(s)


def ctx_values(e, o, k, v):
    label_val(e, o, k, v)
    if z3.eq(z3.simplify(k), vstr("label_sep")) or z3.eq(z3.simplify(k), vstr("doc_id")):
        e.assume(Val.is_str(v))
    if z3.eq(o, e.contract.labels):
        e.assume(And(Val.is_tup(k), z3.Length(Val.titems(k)) == 2, Val.is_str(Val.titems(k)[0]), Val.is_str(Val.titems(k)[1]), Val.is_tup(attr("kind", v))))


class Manager(Registry):
    ext = {"dictvalue": ctx_values, ".split": strings_of, ".root_context?": lambda e, o: e.contract.ctx,
           "threading.Lock": lambda e, a, kw: Ext("lock"), ".is_valid": lambda e, o, a, kw: uf("ctx_valid", sort=Bool),
           "lock.acquire": lambda e, a, kw: NONE, "lock.locked": lambda e, a, kw: z3.Const("locked", Bool), "lock.release": lambda e, a, kw: NONE,
           "register_content_labels": lambda e, a, kw: NONE,
           "call": lambda e, fv, a, kw: e.new_obj("Label", dict(kw, label_class=fv))}
    trusted = Registry.trusted + ("str.split(sep) yields a non-empty list of strings (builtin)",
                                  "registry entries: keys are pairs of strings, values are labels with a tuple of kinds (established by add_label)",
                                  "register_content_labels changes only the *_label references of labels (contract in C19)")

    def manager(self, e):
        self.world(e)
        self.doc_ctx = e.new_obj("DocumentContext", {}, d=D(CK, CM, CD))
        r = e.from_resolved(src.resolve("disseminate.label_manager.label_manager", "LabelManager"), "LabelManager")
        self.man = e.new_obj(r, {"labels": self.labels, "registered": Val.bool(REG)})
        return self.man


class ParseId(Manager):
    """an id splits at the separator into document id and label id, or is a label id alone"""
    target = "disseminate.label_manager.label_manager:parse_id"

    def setup(self, e):
        self.manager(e)
        return {"id": Val.str(ID), "context": self.doc_ctx}

    variants = ()

    def spec(self, e, id, context):
        d, l = split_id(e, id, context)
        return tup(d, l)


class AddLabel(Manager):
    """a label whose (document, label id) is taken is refused and the registry stays as it was; otherwise it is created with
    these ids and kinds, without a number, appended to the registry, and the registry is marked for renumbering"""
    target = "disseminate.label_manager.label_manager:LabelManager.add_label"

    def setup(self, e):
        m = self.manager(e)
        e.assume(Or(Val.is_str(KIND), Val.is_tup(KIND)))
        e.assume(Val.is_ref(z3.Const("label_cls", Val)))
        return {"self": m, "id": Val.str(ID), "kind": KIND, "context": self.doc_ctx, "label_cls": z3.Const("label_cls", Val), "title": TITLE}

    def spec(self, e, self_, id, kind, context, label_cls):
        e.set_attr(self.man, "registered", Val.bool(z3.BoolVal(False)))
        d, l = split_id(e, id, context)
        if e.branch(Val.is_none(d)):
            if not e.branch(uf("ctx_valid", sort=Bool)):
                raise PyRaise("AssertionError")
            if not e.branch(CD[vstr("doc_id")]):
                raise PyRaise("KeyError")
            d = CM[vstr("doc_id")]
        key = tup(d, l)
        if e.branch(LD[key]):
            raise PyRaise("DuplicateLabel")
        k = ite(Val.is_str(kind), tup(kind), kind)
        new = e.new_obj("Label", {"doc_id": d, "id": l, "kind": k, "order": NONE, "title": TITLE, "label_class": label_cls})
        e.setbox(self.labels, d=D(LK, LM_, LD).set(key, new))
        return new


CONTRACTS += [ParseId, AddLabel]


# -- reset ---------------------------------------------------------------------------
DOCIDS = z3.Const("doc_ids", Val)


def in_docs(h, p):
    return z3.Select(p[0], Val.titems(h)[0])


of_docs = Fold("keys_of_documents", ["seq"], lambda h, s, p: ite(in_docs(h, p), cat(s[0], unit(h)), s[0]), params=["dom"])
of_docs_members = Members(of_docs, lambda v, p: And(in_docs(v, p), LD[v]), hyp=lambda h, s, p: LD[h])


def dropped(s, p, done):
    return z3.ForAll([k_], s[1][k_] == And(LD[k_], count(done, k_) == 0), patterns=[s[1][k_]])


def drop_step(h, s, p):
    d = D(s[0], None, s[1]).drop(h)
    return [d.keys, d.dom]


drop_keys = Fold("drop_keys", ["seq", "dom"], drop_step, inv=dropped)


class Reset(Manager):
    """reset() empties the registry; reset(doc_ids) removes exactly the entries whose document id is among doc_ids (invariant:
    an entry is present iff it was and its key has not been reached); a removal never fails; the registry is marked for
    renumbering"""
    target = "disseminate.label_manager.label_manager:LabelManager.reset"
    loops = [LoopUse(of_docs, params=lambda e: [e.contract.ids_dom(e)]),
             LoopUse(drop_keys, hints=lambda e, h, s, p, done, rest: [count_snoc(done, h), count_nil(), count_nonneg(done, h), count(done, h) == 0])]
    trusted = Manager.trusted + ("iterating over a set yields each of its elements once (builtin)",
                                 "removing a key from a dictionary keeps the order of the others (builtin)")

    def ids_dom(self, e):
        if e.entails(Val.is_str(DOCIDS)):
            return z3.Store(NODOM, DOCIDS, z3.BoolVal(True))
        return self.given

    def elem(self, e, h, s):
        if s.eq(LK):
            e.assume(And(LD[h], Val.is_tup(h), z3.Length(Val.titems(h)) == 2))
        elif str(s).startswith("set_order"):
            e.assume(And(LD[h], z3.Select(self.ids_dom(e), Val.titems(h)[0])))
            e.assume(And(Val.is_tup(h), z3.Length(Val.titems(h)) == 2))
        else:
            of_docs_members.assume(e, h, s)

    def none(self, e):
        return {"self": self.manager(e), "doc_ids": NONE}

    def one(self, e):
        m = self.manager(e)
        e.assume(count_nil())
        e.assume(Val.is_str(DOCIDS))
        return {"self": m, "doc_ids": DOCIDS}

    def some(self, e):
        m = self.manager(e)
        e.assume(count_nil())
        self.given = z3.Const("given_ids", DomV)
        return {"self": m, "doc_ids": e.new_set(self.given)}

    @property
    def variants(self):
        return [("all", self.none), ("one document", self.one), ("documents", self.some)]

    def spec(self, e, self_, doc_ids):
        e.set_attr(self.man, "registered", Val.bool(z3.BoolVal(False)))
        if e.entails(Val.is_none(e.V(doc_ids))):
            e.setbox(self.labels, d=D())
            return NONE
        sel = run_fold(e, of_docs, LK, [EMPTY], [self.ids_dom(e)])[1][0]
        fin = run_fold(e, drop_keys, uf("set_order", uf("seq_dom", sel, sort=DomV), sort=SeqV), [LK, LD])[1]
        e.setbox(self.labels, d=D(fin[0], LM_, fin[1]))
        return NONE


LEMMAS += [of_docs_members.lemma]
CONTRACTS += [Reset]


# -- registration and lookup -----------------------------------------------------------
Orders.pre = lambda self, e, labels, root_context: And(e.V(labels) == e.contract.labels, e.V(root_context) == e.contract.ctx)


def register(e):
    """numbers the labels unless that was done since the last change"""
    if not e.branch(Val.b(e.V(e.get_attr(e.contract.man, "registered")))):
        Orders.spec(e.contract, e, None, None)
        e.set_attr(e.contract.man, "registered", Val.bool(z3.BoolVal(True)))


class Register(Manager):
    """register() numbers the labels and fills their heading references, once per change of the registry"""
    target = "disseminate.label_manager.label_manager:LabelManager.register"

    def setup(self, e):
        return {"self": self.manager(e), "context": NONE}

    def pre(self, e, self_, context):
        return And(e.V(self_) == e.contract.man, e.V(context) == NONE)

    def spec(self, e, self_, context):
        register(e)
        return NONE


with_id = Fold("labels_with_id", ["seq"], lambda h, s, p: ite(Val.titems(h)[1] == p[1], cat(s[0], unit(p[0][h])), s[0]), params=["map", "val"])


def ctx_sep(e):
    """the separator in the project's context"""
    d = e.box(e.contract.ctx).d
    return ite(d.dom[vstr("label_sep")], Val.s(d.map[vstr("label_sep")]), S("::"))


def parts_of(k, sep):
    """(document id or None, label id) of an id"""
    parts = uf("str_split", Val.s(k), sep, sort=SeqV)
    two = z3.Length(parts) == 2
    return ite(two, parts[0], NONE), ite(two, parts[1], parts[0]), two


def found(k, sep, d):
    """-> (present, label): the label under its full id, else the first one with this label id"""
    doc, lab_, two = parts_of(k, sep)
    key = tup(doc, lab_)
    m = with_id.app1(d.keys, [EMPTY], [d.map, lab_])
    return Or(d.dom[key], And(doc == NONE, z3.Length(m) > 0)), ite(d.dom[key], d.map[key], m[0])


reg_keys = lambda h, s, p: islabel(p[0][h])
with_id_members = Members(with_id, lambda v, p: islabel(v), hyp=reg_keys)


class GetLabel(Manager):
    """the label registered under the full id, or for a label id alone the first label of any document with it;
    LabelNotFound when there is none; afterwards the labels are numbered"""
    target = "disseminate.label_manager.label_manager:LabelManager.get_label"
    loops = [LoopUse(with_id, params=lambda e: [e.box(e.contract.labels).d.map, e.contract.lid(e)])]

    def setup(self, e):
        return {"self": self.manager(e), "id": Val.str(ID), "context": NONE}

    def lid(self, e):
        return parts_of(Val.str(ID), ctx_sep(e))[1]

    def elem(self, e, h, s):
        if not with_id_members.assume(e, h, s):
            Manager.elem(self, e, h, s)
        k = z3.Const("key_", Val)

    def pre(self, e, self_, context):
        return And(e.V(self_) == e.contract.man, e.V(context) == NONE)

    def spec(self, e, self_, id, context):
        register(e)
        d = e.box(e.contract.labels).d
        sep = ctx_sep(e)
        parts = uf("str_split", Val.s(e.V(id)), sep, sort=SeqV)
        e.assume(And(z3.Length(parts) >= 1))
        ok, l = found(e.V(id), sep, d)
        if e.branch(ok):
            return l
        raise PyRaise("LabelNotFound")


lookups = Fold("labels_by_id", ["seq"], lambda h, s, p: cat(s[0], unit(found(h, p[3], D(*p[:3]))[1])), params=["seq", "map", "dom", "str"],
               exits=lambda h, s, p: [(Not(found(h, p[3], D(*p[:3]))[0]), ("raise", "LabelNotFound"), None)])


class ById(Manager):
    """the labels with the given ids, in the order of the ids; LabelNotFound when one is missing"""
    target = "disseminate.label_manager.label_manager:LabelManager.get_labels_by_id"
    loops = [LoopUse(lookups, params=lambda e: e.box(e.contract.labels).d.terms() + [ctx_sep(e)])]

    def elem(self, e, h, s):
        if str(s) == "ids":
            e.assume(Val.is_str(h))
        else:
            Manager.elem(self, e, h, s)

    def several(self, e):
        m = self.manager(e)
        return {"self": m, "ids": sym_list(e, "ids"), "context": NONE}

    def single(self, e):
        return {"self": self.manager(e), "ids": Val.str(ID), "context": NONE}

    @property
    def variants(self):
        return [("list", self.several), ("one", self.single)]

    def spec(self, e, self_, ids):
        xs = unit(e.V(ids)) if e.entails(Val.is_str(e.V(ids))) else e.seq_of(ids)
        register(e)
        d = e.box(e.contract.labels).d
        if e.entails(Val.is_str(e.V(ids))):
            ok, l = found(e.V(ids), ctx_sep(e), d)
            if not e.branch(ok):
                raise PyRaise("LabelNotFound")
            return e.new_list(unit(l))
        k, fin, v = run_fold(e, lookups, xs, [EMPTY], d.terms() + [ctx_sep(e)])
        if k != "done":
            raise PyRaise("LabelNotFound")
        return e.new_list(fin[0])


of_doc = Fold("labels_of_document", ["seq"], lambda h, s, p: ite(attr("doc_id", p[0][h]) == p[1], cat(s[0], unit(p[0][h])), s[0]), params=["map", "val"])
of_doc_members = Members(of_doc, lambda v, p: And(islabel(v), Val.is_tup(attr("kind", v))), hyp=lambda h, s, p: And(islabel(p[0][h]), Val.is_tup(attr("kind", p[0][h]))))
has_kind = lambda l, k: z3.Contains(Val.titems(attr("kind", l)), unit(k))
of_kind = Fold("labels_of_kind", ["seq"], lambda h, s, p: ite(has_kind(h, p[0]), cat(s[0], unit(h)), s[0]), params=["val"])
of_kind_all = Fold("registry_of_kind", ["seq"], lambda h, s, p: ite(has_kind(p[1][h], p[0]), cat(s[0], unit(p[1][h])), s[0]), params=["val", "map"])
of_kinds = Fold("labels_of_kinds", ["seq"], lambda h, s, p: cat(s[0], of_kind.app1(p[0], [EMPTY], [h])), params=["seq"])
of_kinds_all = Fold("registry_of_kinds", ["seq"], lambda h, s, p: cat(s[0], of_kind_all.app1(p[0], [EMPTY], [h, p[1]])), params=["seq", "map"])
DOC, KINDS = z3.Const("doc_id", Val), z3.Const("kinds", Val)


def kind_now(e):
    """the kind of the current round"""
    return e.heads[-1] if e.heads else KINDS


class ByKind(Manager):
    """for each requested kind in turn, the labels with this kind in registry order; without kinds all labels; only those of
    the given document when one is given"""
    target = "disseminate.label_manager.label_manager:LabelManager.get_labels_by_kind"
    loops = [LoopUse(of_doc, params=lambda e: [e.box(e.contract.labels).d.map, DOC]), LoopUse(of_kind, params=lambda e: [kind_now(e)]),
             LoopUse(of_kind_all, params=lambda e: [kind_now(e), e.box(e.contract.labels).d.map]),
             LoopUse(of_kinds, params=lambda e: [e.contract.docs(e)]),
             LoopUse(of_kinds_all, params=lambda e: e.box(e.contract.labels).d.terms()[:2])]

    def docs(self, e):
        d = e.box(self.labels).d
        return of_doc.app1(d.keys, [EMPTY], [d.map, DOC])

    def elem(self, e, h, s):
        if not of_doc_members.assume(e, h, s):
            Manager.elem(self, e, h, s)

    def mk(self, doc, kinds):
        def f(e):
            m = self.manager(e)
            if doc:
                e.assume(Not(Val.is_none(DOC)))
            k = {"none": lambda: NONE, "one": lambda: KINDS, "list": lambda: e.new_list(z3.Const("kind_list", SeqV)), "tuple": lambda: Val.tup(z3.Const("kind_list", SeqV))}[kinds]()
            if kinds == "one":
                e.assume(And(Val.is_str(KINDS), z3.Length(Val.s(KINDS)) > 0))
            return {"self": m, "doc_id": DOC if doc else NONE, "kinds": k}
        return f

    @property
    def variants(self):
        return [("%s, kinds %s" % ("document" if d else "all", k), self.mk(d, k)) for d in (0, 1) for k in ("none", "one", "list", "tuple")]

    def spec(self, e, self_, doc_id, kinds):
        kinds = e.V(kinds)
        one = e.entails(Val.is_str(kinds))
        xs = EMPTY if e.entails(Val.is_none(kinds)) else unit(kinds) if one else e.seq_of(kinds)
        register(e)
        d = e.box(e.contract.labels).d
        every = e.entails(Val.is_none(e.V(doc_id)))
        if e.branch(z3.Length(xs) > 0):
            if one:
                return e.new_list(of_kind_all.app1(d.keys, [EMPTY], [kinds, d.map]) if every else of_kind.app1(self.docs(e), [EMPTY], [kinds]))
            return e.new_list(of_kinds_all.app1(xs, [EMPTY], d.terms()[:2]) if every else of_kinds.app1(xs, [EMPTY], [self.docs(e)]))
        return e.new_list(uf("dict_values", d.keys, d.map, sort=SeqV) if every else self.docs(e))


LEMMAS += [with_id_members.lemma, of_doc_members.lemma]
CONTRACTS += [Register, GetLabel, ById, ByKind]
