"""F03: what an FSA object reports always reflects its current content."""
import random

import torch
import k2
from hypothesis import strategies as st

from vlib import fsa as F, gen, attrs
from vlib.core import Sub, check, check_eq, close, raises, Violation

TECHNIQUE = 'model-based stateful testing: histories of queries and edits on FSA objects, compared with freshly built objects'
NOTE = ('After every step the queried quantities, and at the end all quantities of all live objects, are compared bit for bit '
        'with those of an FSA built from the model content.')
RULE = ('hist: 1-3 start vectors and histories of 2-14 queries/edits/copies. big: the same on larger machines. '
        'Non-trivial: an edit happened after a score or posterior had been queried.')

QUERIES = ['tot', 'fwd', 'bwd', 'post', 'best', 'paths', 'props', 'attrs', 'grad', 'cdf', 'str']
EDITS = ['scores', 'scores', 'scale', 'neg_grad', 'labels', 'int', 'float', 'ragged', 'obj', 'del', 'rename', 'rename_labels',
         'rename_to_labels', 'rename_scores', 'rename_to_scores', 'invert_', 'stochastic', 'requires_grad', 'to_ragged', 'filler',
         'same_name', 'bad']
COPIES = ['clone', 'clone', 'detach', 'item', 'vec', 'to', 'index', 'invert']
TN = ['foo', 'bar', 'aux_labels', 'zed']
NN = ['foo_sym', 'bar_filler', 'labels_sym', 'aux_labels_sym', 'note', 'foo', 'zed']


@st.composite
def hist(draw):
    fs = draw(st.lists(gen.fsa_vec(1, 3, max_states=5, max_arcs=6), min_size=1, max_size=3))
    ops = draw(st.lists(st.tuples(
        st.sampled_from(QUERIES + EDITS + COPIES), st.integers(0, 10**6)), min_size=2, max_size=14))
    return {'fs': fs, 'ops': ops}


@st.composite
def big(draw):
    fs = [draw(gen.big_vec(3, 15, 30))]
    ops = draw(st.lists(st.tuples(
        st.sampled_from(QUERIES + EDITS + COPIES), st.integers(0, 10**6)), min_size=4, max_size=24))
    return {'fs': fs, 'ops': ops}


def f32(x):
    return torch.tensor(x, dtype=torch.float32).tolist()


class Obj:
    """An FSA object and what it should contain."""

    def __init__(self, fsa, ns, st_, labels, scores, t, o, single=False):
        self.fsa, self.ns, self.st, self.labels, self.scores = fsa, ns, st_, labels, scores
        self.t, self.o, self.single = t, o, single      # tensor attributes, other attributes
        self.queried = False
        self.exact = True

    @property
    def m(self):
        return len(self.labels)

    def members(self):
        out, k = [], 0
        for n, c in self.ns:
            out.append((n, [self.st[j] + (self.labels[j], self.scores[j]) for j in range(k, k + c)]))
            k += c
        return out

    def fresh_arcs(self):
        s1, s2, rows = [0], [0], []
        for n, arcs in self.members():
            s1.append(s1[-1] + n)
            cnt = [0] * n
            for a in arcs:
                cnt[a[0]] += 1
            for x in cnt:
                s2.append(s2[-1] + x)
            rows += arcs
        t = torch.zeros((len(rows), 4), dtype=torch.int32)
        if rows:
            t[:, :3] = torch.tensor([r[:3] for r in rows], dtype=torch.int32)
            t[:, 3] = torch.tensor(self.scores, dtype=torch.float32).view(torch.int32)
        shape = F._shape2(s2) if self.single else F._shape2(s1).compose(F._shape2(s2))
        return F._k2.RaggedArc(shape, t)

    def fresh(self):
        return k2.Fsa(self.fresh_arcs())

    def copy(self, fsa):
        x = Obj(fsa, list(self.ns), list(self.st), list(self.labels), list(self.scores),
                {a: (b, list(v)) for a, (b, v) in self.t.items()}, dict(self.o), self.single)
        x.exact = self.exact
        x.queried = self.queried
        return x

    def slice(self, fsa, idx, single=False):
        off = [0]
        for n, c in self.ns:
            off.append(off[-1] + c)
        js = [j for i in idx for j in range(off[i], off[i + 1])]
        x = Obj(fsa, [self.ns[i] for i in idx], [self.st[j] for j in js], [self.labels[j] for j in js],
                [self.scores[j] for j in js], {a: (b, [v[j] for j in js]) for a, (b, v) in self.t.items()}, dict(self.o), single)
        x.exact = self.exact
        return x

    # -------------------------------------------------- checks
    def check_content(self, what):
        f = self.fsa
        got = F.rd(f)
        check_eq(got, self.members(), 'arcs', what)
        check_eq(f.labels.tolist(), self.labels, 'labels', what)
        check_eq(f.scores.tolist(), self.scores, 'scores', what)
        check_eq(sorted(n for n, _ in f.named_tensor_attr(False)), sorted(self.t), 'tensor attributes', what)
        check_eq({n: v for n, v in f.named_non_tensor_attr()}, self.o, 'other attributes', what)
        for n, (kind, v) in self.t.items():
            x = getattr(f, n)
            check(isinstance(x, k2.RaggedTensor if kind == 'r' else torch.Tensor), 'kind of', n, what)
            check_eq(x.tolist(), v, n, what)
        for n, v in self.o.items():
            check(getattr(f, n) is v or getattr(f, n) == v, 'attribute', n, what)
        for n in set(TN + NN) - set(self.t) - set(self.o):
            check(not hasattr(f, n), 'leftover attribute', n, what)

    def grad(self, f, dbl, log):
        tot = f.get_tot_scores(dbl, log)
        tot = tot[tot > float('-inf')]
        if tot.numel() == 0:
            return None
        g, = torch.autograd.grad(tot.sum(), f.scores, retain_graph=True)
        return g.tolist()

    def query(self, q, r, what):
        f = self.fsa
        what = f'{q} {what}'
        if q == 'attrs':
            return self.check_content(what)
        if q == 'props':
            check_eq(f.properties, self.fresh().properties, 'properties', what)
            check_eq(f.properties_str, self.fresh().properties_str, what)
            return
        if q == 'str':
            check(isinstance(str(f), str) and isinstance(f.to_str(openfst=True), str), what)
            return
        if self.single:
            return
        g = self.fresh()
        dbl, log = r.random() < .5, r.random() < .5
        self.queried = True
        if q == 'tot':
            same(f.get_tot_scores(dbl, log), g.get_tot_scores(dbl, log), what, dbl, log)
        elif q == 'fwd':
            same(f.get_forward_scores(dbl, log), g.get_forward_scores(dbl, log), what, dbl, log)
        elif q == 'bwd':
            same(f.get_backward_scores(dbl, log), g.get_backward_scores(dbl, log), what, dbl, log)
        elif q == 'post':
            same(f.get_arc_post(dbl, log), g.get_arc_post(dbl, log), what, dbl, log)
        elif q == 'best':
            a, b = k2.shortest_path(f, dbl), k2.shortest_path(g, dbl)
            if self.exact:
                check_eq(F.rd(a), F.rd(b), what)
            else:
                for x, y in zip(F.rd(a), F.rd(b)):
                    check(close(sum(t[3] for t in x[1]), sum(t[3] for t in y[1])), what, x, y)
        elif q == 'cdf':
            same(f._get_arc_cdf(dbl, log), g._get_arc_cdf(dbl, log), what, dbl, log)
        elif q == 'paths':
            check_eq(k2.random_paths(f, dbl, 3).tolist(), k2.random_paths(g, dbl, 3).tolist(), what)
        elif q == 'grad':
            if f.scores.requires_grad and self.exact:
                g.requires_grad_(True)
                check_eq(self.grad(f, dbl, log), self.grad(g, dbl, log), what, dbl, log)

    def all_queries(self, what):
        r = random.Random(0)
        for q in QUERIES:
            self.query(q, r, what)
        if self.single:
            return
        g = self.fresh()
        for dbl in (True, False):
            for log in (True, False):
                for nm in ('get_tot_scores', 'get_forward_scores', 'get_backward_scores', 'get_arc_post', '_get_arc_cdf'):
                    same(getattr(self.fsa, nm)(dbl, log), getattr(g, nm)(dbl, log), nm, what, dbl, log)
        for nm in ('_get_state_batches', '_get_incoming_arcs', '_get_entering_arc_batches', '_get_leaving_arc_batches'):
            check_eq(getattr(self.fsa, nm)().tolist(), getattr(g, nm)().tolist(), nm, what)
        check_eq(self.fsa._get_dest_states().tolist(), g._get_dest_states().tolist(), what)

    # -------------------------------------------------- edits
    def edit(self, e, r):
        """Returns whether something was done."""
        f, m = self.fsa, self.m
        fin = [l == -1 for l in self.labels]

        def drop(n):
            self.t.pop(n, None)
            self.o.pop(n, None)

        def rename_o(src, dst):
            out = {}
            for n, v in self.o.items():
                if n.startswith(src):
                    out[dst + n[len(src):]] = v
            for n, v in self.o.items():
                if not n.startswith(src) and not n.startswith(dst):
                    out[n] = v
            self.o = out
        if e == 'scores':
            v = [r.randint(-40, 40) / 8 for _ in range(m)]
            x = torch.tensor(v, dtype=torch.float32)
            if r.random() < .3:
                x = (x.requires_grad_(True) * 2) / 2
            f.scores = x
            self.scores, self.exact = v, True
        elif e == 'scale':
            if f.scores.requires_grad and r.random() < .5 or m == 0:
                return False
            if r.random() < .5:
                f.scores = f.scores * 2
            else:
                try:
                    f.scores *= 2
                except RuntimeError:       # in-place on a leaf that requires grad: torch refuses
                    check(f.scores.requires_grad, 'scores *= 2 refused')
                    return False
            self.scores = f32([x * 2 for x in self.scores])
        elif e == 'neg_grad':
            f.scores = -f.scores.detach()
            self.scores = [-x for x in self.scores]
        elif e == 'labels':
            v = [-1 if x else r.randint(0, 3) for x in fin]
            f.labels = torch.tensor([r.choice([0, -1]) if x else r.choice([l, -1]) if l == 0 else l for x, l in zip(fin, v)],
                                    dtype=torch.int32)
            self.labels = v
        elif e == 'int':
            n = r.choice(TN)
            v = [-1 if x else r.randint(0, 3) for x in fin] if n == 'aux_labels' else [r.randint(-3, 9) for _ in range(m)]
            setattr(f, n, torch.tensor(v, dtype=torch.int32))
            drop(n)
            self.t[n] = ('t', v)
        elif e == 'float':
            n = r.choice(['foo', 'bar', 'zed'])
            v = [r.randint(-40, 40) / 8 for _ in range(m)]
            setattr(f, n, torch.tensor(v, dtype=torch.float32))
            drop(n)
            self.t[n] = ('t', v)
        elif e == 'ragged':
            n = r.choice(TN)
            v = [[r.randint(1, 5) for _ in range(r.randint(0, 2))] for _ in range(m)]
            setattr(f, n, attrs.rag(v))
            drop(n)
            self.t[n] = ('r', v)
        elif e in ('obj', 'same_name'):
            n = r.choice(NN) if e == 'obj' else r.choice(sorted(self.t) or ['note'])
            v = r.choice(['x', 3, ('a', 1), 2.5])
            if n.endswith('_filler'):
                v = 7
            if n == 'aux_labels':
                return False
            setattr(f, n, v)
            drop(n)
            self.o[n] = v
        elif e == 'filler':
            n = r.choice(['foo', 'bar', 'zed'])
            setattr(f, n + '_filler', r.randint(-1, 5))
            self.o[n + '_filler'] = getattr(f, n + '_filler')
            check_eq(f.get_filler(n), self.o[n + '_filler'], 'filler')
            check_eq(f.get_filler('nothing'), 0, 'filler')
        elif e == 'del':
            ns = sorted(set(self.t) | set(self.o))
            if not ns:
                raises(lambda: delattr(f, 'foo'), 'deleting nothing', exc=AttributeError)
                return False
            n = r.choice(ns)
            delattr(f, n)
            drop(n)
        elif e == 'rename':
            if not self.t:
                return False
            a = r.choice(sorted(self.t))
            b = r.choice([x for x in TN if x != a])
            if b == 'aux_labels' and getattr(f, a + '_filler', 0) != 0:
                return False    # aux_labels cannot have another filler
            f.rename_tensor_attribute_(a, b)
            v = self.t.pop(a)
            self.t[b] = v
            rename_o(a, b)
        elif e == 'rename_labels':
            b = r.choice(TN)
            f.rename_tensor_attribute_('labels', b)
            self.t[b] = ('t', list(self.labels))
            rename_o('labels', b)
        elif e == 'rename_to_labels':
            c = [n for n, (k, v) in self.t.items() if k == 't' and getattr(f, n).dtype == torch.int32 and
                 all(x >= -1 and (not b or x <= 0) for x, b in zip(v, fin))]
            if not c:
                return False
            a = r.choice(sorted(c))
            f.rename_tensor_attribute_(a, 'labels')
            v = self.t.pop(a)[1]
            self.labels = [-1 if b else max(x, 0) for x, b in zip(v, fin)]
            rename_o(a, 'labels')
        elif e == 'rename_scores':
            b = r.choice(['foo', 'zed'])
            f.rename_tensor_attribute_('scores', b)
            self.t[b] = ('t', list(self.scores))
            rename_o('scores', b)
        elif e == 'rename_to_scores':
            c = [n for n, (k, v) in self.t.items() if k == 't' and getattr(f, n).dtype == torch.float32]
            if not c:
                return False
            a = r.choice(sorted(c))
            f.rename_tensor_attribute_(a, 'scores')
            self.scores = self.t.pop(a)[1]
            rename_o(a, 'scores')
        elif e == 'invert_':
            k, v = self.t.get('aux_labels', (None, None))
            if k != 't':
                raises(lambda: f.invert_(), 'invert_ without plain output labels')
                return False
            if any(b and x > 0 for x, b in zip(v, fin)) or any(x < -1 for x in v) or getattr(f, 'aux_labels').dtype != torch.int32:
                return False
            check(f.invert_() is f, 'invert_ returns the object')
            self.inverted()
        elif e == 'stochastic':
            x = torch.tensor([r.randint(-40, 40) / 8 for _ in range(m)], dtype=torch.float32)
            f.set_scores_stochastic_(x)
            got = f.scores.tolist()
            check_eq(len(got), m, 'stochastic')
            grp = {}
            k = 0
            for i, (n, c) in enumerate(self.ns):
                for j in range(k, k + c):
                    grp.setdefault((i, self.st[j][0]), []).append(j)
                k += c
            for js in grp.values():
                z = F.logsum([x[j].item() for j in js])
                for j in js:
                    check(close(got[j], x[j].item() - z), 'normalised score', got[j], x[j].item() - z)
            self.scores, self.exact = got, False
        elif e == 'requires_grad':
            if f.scores.is_leaf:
                v = r.random() < .7
                check(f.requires_grad_(v) is f, 'requires_grad_')
                check_eq((f.requires_grad, f.scores.requires_grad), (v, v), 'requires_grad')
        elif e == 'to_ragged':
            c = [n for n, (k, v) in self.t.items() if k == 't' and getattr(f, n).dtype == torch.int32]
            if not c:
                return False
            a, rm = r.choice(sorted(c)), r.random() < .5
            check(f.convert_attr_to_ragged_(a, remove_eps=rm) is f, 'convert_attr_to_ragged_')
            self.t[a] = ('r', [[x] if x != 0 or not rm else [] for x in self.t[a][1]])
        elif e == 'bad':
            # refused assignments change nothing
            k = r.randint(0, 3)
            if k == 0:
                raises(lambda: setattr(f, 'foo', torch.zeros(m + 1)), 'attribute of a wrong length')
            elif k == 1:
                raises(lambda: setattr(f, 'foo', attrs.rag([[1]] * (m + 1))), 'ragged attribute of a wrong length')
            elif k == 2:
                raises(lambda: setattr(f, 'properties', 3), 'assigning properties')
            else:
                raises(lambda: setattr(f, 'labels', torch.zeros(m)), 'float labels')
            return False
        return True

    def inverted(self):
        """Model of inverting."""
        fin = [l == -1 for l in self.labels]
        v = self.t['aux_labels'][1]
        self.t['aux_labels'] = ('t', list(self.labels))
        self.labels = [-1 if b else max(x, 0) for x, b in zip(v, fin)]
        out = {}
        for n, x in self.o.items():
            if n.startswith('aux_labels'):
                out['labels' + n[10:]] = x
            elif n.startswith('labels'):
                out['aux_labels' + n[6:]] = x
            else:
                out[n] = x
        self.o = out


def same(a, b, *what):
    check_eq(a.dtype, b.dtype, *what)
    x, y = a.detach(), b.detach()
    if not torch.equal(x, y):
        raise Violation(f'{" ".join(map(str, what))}: got {x.tolist()} want {y.tolist()}'[:3000])


def run(c):
    pool = []
    for fs in c['fs']:
        f = F.mk_vec(fs)
        pool.append(Obj(f, [(x['n'], len(x['arcs'])) for x in fs], [(a[0], a[1]) for x in fs for a in x['arcs']],
                        [a[2] for x in fs for a in x['arcs']], [F.f8(a[3]) for x in fs for a in x['arcs']], {}, {}))
    nontriv = False
    labels = set()
    for i, (op, k) in enumerate(c['ops']):
        r = random.Random(k)
        x = pool[r.randrange(len(pool))]
        what = f'after {[o for o, _ in c["ops"][:i + 1]]}'
        if op in QUERIES:
            x.query(op, r, what)
        elif op in EDITS:
            q = x.queried
            if x.edit(op, r):
                labels.add(op)
                nontriv |= q
                x.check_content(what)
        else:
            if x.m > 150:
                continue
            labels.add(op)
            if op == 'clone':
                y = x.copy(x.fsa.clone())
            elif op == 'detach':
                # shares data with the original by definition: the original is not used any more
                y = x.copy(x.fsa.detach())
                check(not y.fsa.requires_grad, 'detached')
                pool.remove(x)
            elif op == 'to':
                y = x.copy(x.fsa.to('cpu'))
                check(y.fsa is x.fsa, 'to() the same device')
                continue
            elif op == 'invert':
                kk, v = x.t.get('aux_labels', (None, None))
                fin = [l == -1 for l in x.labels]
                if kk != 't' or any(b and z > 0 for z, b in zip(v, fin)) or any(z < -1 for z in v) or \
                        x.fsa.aux_labels.dtype != torch.int32:
                    continue
                y = x.copy(x.fsa.invert())
                y.inverted()
            elif op == 'item':
                if x.single or not x.ns:
                    continue
                j = r.randrange(len(x.ns))
                y = x.slice(x.fsa[j], [j], True)
            elif op == 'index':
                if x.single or not x.ns:
                    continue
                js = [r.randrange(len(x.ns)) for _ in range(r.randint(1, 3))]
                y = x.slice(k2.index_fsa(x.fsa, torch.tensor(js, dtype=torch.int32)), js)
            else:
                if not x.single:
                    continue
                n = r.randint(1, 2)
                f = k2.create_fsa_vec([x.fsa] * n)
                y = x.slice(f, [0] * n, False)
            pool.append(y)
            y.check_content(what)
            if len(pool) > 6:
                pool.pop(0)
    for j, x in enumerate(pool):
        x.check_content('at the end')
        x.all_queries(f'at the end, after {[o for o, _ in c["ops"]]}')
        x.check_content('at the end, after queries')
    return nontriv, sorted(labels)


# ------------------------------------------------------------------ gradients of quantities computed earlier
LATER = ['labels', 'int', 'float', 'ragged', 'obj', 'rename', 'invert_', 'filler', 'requery', 'clone_scores', 'clone_labels',
         'item_scores', 'results', 'del']


@st.composite
def later(draw):
    return {'fs': draw(gen.fsa_vec(1, 3, max_states=5, max_arcs=7)), 'dbl': draw(st.booleans()), 'log': draw(st.booleans()),
            'q': draw(st.sampled_from(['tot', 'fwd', 'bwd', 'post'])),
            # assigning scores in between is a known finding (findings/F03-backward-after-edit.json), replayed, not generated
            'edits': draw(st.lists(st.tuples(st.sampled_from(LATER), st.integers(0, 10**6)), min_size=1, max_size=5))}


def quantity(f, q, dbl, log):
    return {'tot': f.get_tot_scores, 'fwd': f.get_forward_scores, 'bwd': f.get_backward_scores, 'post': f.get_arc_post}[q](dbl, log)


def run_later(c):
    fs = c['fs']
    fresh = F.mk_vec(fs)
    fresh.requires_grad_(True)
    f = F.mk_vec(fs)
    x = f.scores.clone().requires_grad_(True)
    f.scores = x
    o = Obj(f, [(y['n'], len(y['arcs'])) for y in fs], [(a[0], a[1]) for y in fs for a in y['arcs']],
            [a[2] for y in fs for a in y['arcs']], [F.f8(a[3]) for y in fs for a in y['arcs']], {}, {})
    a, b = quantity(f, c['q'], c['dbl'], c['log']), quantity(fresh, c['q'], c['dbl'], c['log'])
    keep = a.detach() > float('-inf')
    for e, k in c['edits']:
        r = random.Random(k)
        if e == 'requery':
            o.query(r.choice(['tot', 'fwd', 'bwd', 'post', 'best', 'paths']), r, 'between')
        elif e in ('clone_scores', 'clone_labels'):
            y = o.copy(f.clone())
            y.edit('scores' if e == 'clone_scores' else 'labels', r)
        elif e == 'item_scores':
            if fs:
                m = f[r.randrange(len(fs))]
                m.scores = m.scores * 3 + 1
        elif e == 'results':
            z = k2.shortest_path(f, False)
            z.scores = z.scores * 0
            k2.connect(f.clone()).scores *= 1
        else:
            o.edit(e, r)
    n = int(keep.sum())
    if n == 0:
        return False, ['nothing reachable']
    w = torch.arange(1, n + 1, dtype=a.dtype)
    (a[keep] * w).sum().backward()
    (b[keep] * w).sum().backward()
    same(x.grad, fresh.scores.grad, 'gradient of', c['q'], 'after', [e for e, _ in c['edits']])
    return True, [c['q']] + sorted({e for e, _ in c['edits']})


SUBS = [Sub('hist', hist, run, 5000), Sub('big', big, run, 1500), Sub('later', later, run_later, 2500)]
