"""Specification functions over sequences, with the definitional axioms the
contracts may instantiate and the lemmas proved about them (by induction)."""
from .core import *

k_ = z3.Const("k!", Val)


def count(xs, k):
    return uf("count", xs, k, sort=Int)


def count_snoc(xs, h):
    """definition of count at xs ++ [h]"""
    x = cat(xs, unit(h))
    return z3.ForAll([k_], count(x, k_) == count(xs, k_) + ite(k_ == h, 1, 0), patterns=[count(x, k_)])


def count_nil():
    return z3.ForAll([k_], count(EMPTY, k_) == 0, patterns=[count(EMPTY, k_)])


def count_cat(a, b, k):
    """lemma count/cat (proved by induct_count_cat)"""
    return count(cat(a, b), k) == count(a, k) + count(b, k)


def count_nonneg(a, k):
    return count(a, k) >= 0


def lemma_count(pv):
    a = z3.Const("la", SeqV)
    kk = z3.Const("lk", Val)
    pv.induct_snoc("lemma count/append", lambda b: count_cat(a, b, kk),
                   lambda: [count_nil()],
                   lambda t, h: [count_snoc(t, h), count_snoc(cat(a, t), h)])
    pv.induct_snoc("lemma count/non-negative", lambda b: count_nonneg(b, kk),
                   lambda: [count_nil()], lambda t, h: [count_snoc(t, h)])


def occurs_hints(done, head, rest):
    """instances: head occurs in done ++ [head] ++ rest at least once"""
    h1 = cat(done, unit(head))
    return [count_snoc(done, head), count_nil(), count_snoc(EMPTY, head),
            count_cat(h1, rest, head), count_nonneg(done, head), count_nonneg(rest, head),
            cat(done, unit(head), rest) == cat(h1, rest)]


# every element of a filtering fold satisfies a predicate ------------------------------------------
class Members:
    """P holds for every element of the i-th (sequence) component of fold(xs, s0) when s0's is empty: the step either
    leaves the component or appends one element satisfying P (checked as a lemma; the rest is induction on xs)."""

    def __init__(self, fold, P, i=0, hyp=lambda h, s, p: True):
        self.fold, self.P, self.i, self.hyp = fold, P, i, hyp

    def lemma(self, pv):
        f = self.fold
        h = z3.Const("any_h", Val)
        s = [z3.Const("any_s%d" % k, SORTS[q]) for k, q in enumerate(f.state)]
        p = [z3.Const("any_p%d" % k, SORTS[q]) for k, q in enumerate(f.psorts)]
        old, new = s[self.i], f.step(h, s, p)[self.i]
        v = new[z3.Length(old)]
        pv.oblige("lemma: members of %s satisfy the filter" % f.name, [And(self.hyp(h, s, p))],
                  Or(new == old, And(new == cat(old, unit(v)), self.P(v, p))))

    def assume(self, e, h, s):
        """h is an element of the sequence term s: assume P when s is this fold started with the empty sequence"""
        t = z3.simplify(s)
        nm = "fold_%s_%d" % (self.fold.name, self.i)
        if z3.is_app(t) and t.decl().name() == nm:
            a = t.children()
            np = len(self.fold.psorts)
            if a[1 + np + self.i].eq(z3.simplify(EMPTY)):
                e.assume(self.P(h, a[1:1 + np]))
                return True
        return False


# accumulating folds -------------------------------------------------------------------------------
class Appends:
    """fold(xs, a) == a ++ fold(xs, []) for a fold with one sequence of state whose step appends to it (lemma by induction)"""

    def __init__(self, fold, hyp=lambda h, p: True):
        self.fold, self.hyp = fold, hyp

    def params(self):
        return [z3.Const("any_p%d" % k, SORTS[q]) for k, q in enumerate(self.fold.psorts)]

    def inst(self, xs, a, p=()):
        return self.fold.app1(xs, [a], list(p)) == cat(a, self.fold.app1(xs, [EMPTY], list(p)))

    def lemma(self, pv):
        f, p, a = self.fold, self.params(), z3.Const("any_a", SeqV)
        step = lambda h, s: f.step(h, [s], p)[0]
        h0 = z3.Const("ind_h", Val)
        pv.induct("lemma %s/accumulator" % f.name, lambda xs: self.inst(xs, a, p),
                  lambda: [f.nil([a], p), f.nil([EMPTY], p)],
                  lambda h, t: [f.cons(h, t, [a], p), f.cons(h, t, [EMPTY], p)],
                  ih=lambda h, t: [self.inst(t, step(h, a), p), self.inst(t, step(h, EMPTY), p)])


def fold_step(fold, h, t, s, p=()):
    """unfolding of a fold at h::t"""
    return fold.cons(h, t, list(s), list(p))
