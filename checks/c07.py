"""C07: registry and trees reflect the history of operations."""

import contextlib
import gc
import io

import numpy as np
import rigid_body_motion as rbm
from hypothesis import strategies as st

from lib import model as m
from lib.harness import close, ensure, facet, raises, same_rotation

PROPERTY = "C07"
RULE = (
    "Histories of 3 to 25 operations (create, register with/without update, "
    "register_frame with/without update, deregister by name or object, "
    "clear, re-register, failing definitions, dropping frame objects, "
    "rendering) over four names, so that names collide; a model of registry "
    "and trees is compared after every operation (names, parents) and at "
    "lookups. Non-trivial: the history contains an update or a name "
    "collision and at least one non-trivial lookup afterwards."
)

NAMES = ["a", "b", "c", "d"]
# names that look alike
ALIKE = [
    NAMES, NAMES, NAMES, NAMES, ["a", "/a", "a/", "A"],
    ["base", "base_link", "base_link/x", "tf/base"], ["1", "01", "1.0", "-1"],
    ["\u00e9", "e\u0301", "e", "E"], ["None", "none", "root", "world"],
    ["a b", "a_b", "a  b", "a-b"], ["a.b", "a", "b", "a/b"],
]
KINDS = (
    ["create"] * 3 + ["register_frame"] * 6 + ["register"] * 3
    + ["deregister"] + ["deregister_obj"] + ["lookup"] * 4 + ["render"]
    + ["bad"] + ["forget"] + ["clear?"]
)
num = st.integers(0, 7)
name = st.sampled_from(NAMES)
op = st.fixed_dictionaries(dict(
    op=st.sampled_from(KINDS), name=name,
    parent=st.one_of(num, num, name, st.none()), i=num, j=num,
    how=st.integers(0, 3), update=st.booleans(), by=st.booleans(),
    seed=st.integers(0, 10**6)))


def transform(seed):
    return dict(t=m.bulk(seed, 3, 1).tolist(),
                q=m.bulk_unit(seed, (4,), 2).tolist(), inverse=seed % 3 == 0)


class World:
    """Model and library side by side."""

    def __init__(self):
        self.frames = {}  # id -> dict(name, parent id, t, q)
        self.objs = {}
        self.registry = {}  # name -> id
        self.counter = 0

    def pick(self, i):
        ids = sorted(self.objs)
        return ids[i % len(ids)] if ids else None

    def add(self, nm, par, tf, obj):
        t, q = np.zeros(3), np.array([1.0, 0, 0, 0])
        if par is not None:
            t, q = np.array(tf["t"]), np.array(tf["q"])
            if tf["inverse"]:
                q = m.qconj(q)
                t = -m.qrot(q, t)
        i = self.counter
        self.counter += 1
        self.frames[i] = dict(name=nm, parent=par, t=t, q=q)
        self.objs[i] = obj
        return i

    def do_register(self, i, update):
        nm = self.frames[i]["name"]
        old = self.registry.get(nm)
        if old is not None:
            if not update:
                return False
            if old != i:
                self.frames[old]["parent"] = None
        self.registry[nm] = i
        return True

    def chain(self, i):
        out = [i]
        while self.frames[out[-1]]["parent"] is not None:
            out.append(self.frames[out[-1]]["parent"])
        return out

    def to_root(self, i):
        t, q = np.zeros(3), np.array([1.0, 0, 0, 0])
        for j in self.chain(i)[:-1]:
            f = self.frames[j]
            t = m.qrot(f["q"], t) + f["t"]
            q = m.qmul(f["q"], q)
        return t, q

    def nested(self, i):
        kids = [j for j in self.frames if self.frames[j]["parent"] == i]
        # the name of unnamed frames is up to the implementation
        return (str(self.frames[i]["name"]),
                sorted(self.nested(j) for j in kids))

    def check(self, what):
        names = set(rbm.registry)
        ensure(names == set(self.registry), "%s: registered %s, expected %s",
               what, sorted(names), sorted(self.registry))
        for nm, i in self.registry.items():
            ensure(rbm.registry[nm] is self.objs[i],
                   "%s: %s resolves to the wrong frame", what, nm)
        for i, f in self.frames.items():
            par = None if f["parent"] is None else self.objs[f["parent"]]
            ensure(self.objs[i].parent is par,
                   "%s: parent of frame %s is %s, expected %s", what,
                   f["name"], self.objs[i].parent, par)
            kids = {id(self.objs[j]) for j in self.frames
                    if self.frames[j]["parent"] == i}
            ensure({id(c) for c in self.objs[i].children} == kids,
                   "%s: children of %s", what, f["name"])


def parse_render(text):
    stack, root = [], None
    for line in text.splitlines():
        nm = line.lstrip("│├└─ ")
        depth = (len(line) - len(nm)) // 4
        node = (nm, [])
        if depth == 0:
            if root is not None:
                return None
            root = node
        else:
            stack[depth - 1][1].append(node)
        stack[depth:] = [node]

    def canon(n):
        return (n[0], sorted(canon(c) for c in n[1]))

    return None if root is None else canon(root)


def resolve_parent(w, p):
    """(model id or None, library argument, resolvable)."""
    if p is None:
        return None, None, True
    if isinstance(p, str):
        return w.registry.get(p), p, p in w.registry
    i = w.pick(p)
    return i, None if i is None else w.objs[i], True


def kwargs(par, tf):
    return {} if par is None else dict(
        translation=tf["t"], rotation=tf["q"], inverse=tf["inverse"])


histories = st.integers(4, 25).flatmap(
    lambda n: st.fixed_dictionaries(
        dict(ops=st.lists(op, min_size=n, max_size=n),
             names=st.sampled_from(ALIKE))))


@facet(histories, quick=6000)
def history(case, rec):
    w = World()
    collided = False
    called = dict(zip(NAMES, case["names"]))
    rec.label("names alike", case["names"] != NAMES)
    for n, o in enumerate(case["ops"]):
        o = dict(o, name=called[o["name"]],
                 parent=called.get(o["parent"], o["parent"]))
        kind = o["op"]
        what = f"op {n} ({kind})"
        tf = transform(o["seed"])
        if kind in ("create", "register_frame"):
            pid, parg, ok = resolve_parent(w, o["parent"])
            kw = kwargs(parg, tf)
            # frames need a name for registration only
            called_as = o["name"]
            if kind == "create" and o["how"] == 0 and o["update"]:
                called_as = None
                rec.label("unnamed")
            if kind == "create":
                def make():
                    return rbm.ReferenceFrame(called_as, parg, **kw)
            else:
                def make():
                    return rbm.register_frame(
                        o["name"], parg, update=o["update"], **kw)
            if not ok:
                raises(make, ValueError, what=f"{what}: unknown parent")
            elif kind == "create":
                w.add(called_as, pid, tf, make())
            elif o["name"] in w.registry and not o["update"]:
                collided = True
                rec.label("collision rejected")
                raises(make, ValueError, what=f"{what}: name taken")
            else:
                # the parent may itself be replaced by the update
                if o["name"] in w.registry:
                    collided = True
                    rec.label("update")
                    old = w.registry[o["name"]]
                    if pid is not None and old in w.chain(pid):
                        rec.label("update of an ancestor")
                make()
                i = w.add(o["name"], pid, tf, rbm.registry[o["name"]])
                w.do_register(i, o["update"])
        elif kind == "register":
            i = w.pick(o["i"])
            if i is None:
                continue
            nm = w.frames[i]["name"]
            if nm in w.registry:
                collided = True
                rec.label("register same object" if w.registry[nm] == i
                          else "register other object")
            if nm is None:
                raises(lambda: w.objs[i].register(update=o["update"]),
                       ValueError, what=f"{what}: no name")
            elif nm in w.registry and not o["update"]:
                raises(lambda: w.objs[i].register(update=False), ValueError,
                       what=f"{what}: name taken")
            else:
                w.objs[i].register(update=o["update"])
                w.do_register(i, o["update"])
        elif kind == "deregister":
            if o["name"] in w.registry:
                rbm.deregister_frame(o["name"])
                del w.registry[o["name"]]
            else:
                raises(lambda: rbm.deregister_frame(o["name"]), ValueError,
                       what=f"{what}: not registered")
        elif kind == "deregister_obj":
            i = w.pick(o["i"])
            if i is None:
                continue
            nm = w.frames[i]["name"]
            if w.registry.get(nm) == i:
                w.objs[i].deregister()
                del w.registry[nm]
            else:
                rec.label("deregister of unregistered object")
                raises(lambda: w.objs[i].deregister(),
                       *([ValueError] if nm is not None else []),
                       what=f"{what}: not registered")
        elif kind == "clear?":
            if o["how"]:
                continue
            rec.label("clear")
            rbm.clear_registry()
            w.registry.clear()
        elif kind == "bad":
            pid, parg, ok = resolve_parent(w, o["parent"])
            bad = [
                dict(parent=parg, translation=[1.0, 2.0]),
                dict(parent=parg, rotation=np.ones((2, 4))),
                dict(parent=parg, discrete=True),
                dict(parent="no such frame"),
            ][o["how"]]
            raises(lambda: rbm.ReferenceFrame(o["name"], **bad), ValueError,
                   what=f"{what}: invalid definition")
            gc.collect(0)
        elif kind == "forget":
            i = w.pick(o["i"])
            if i is None or w.frames[i]["parent"] is not None or any(
                f["parent"] == i for f in w.frames.values()
            ) or i in w.registry.values():
                continue
            rec.label("forget")
            rec.label("forget namesake", w.frames[i]["name"] in w.registry)
            del w.frames[i], w.objs[i]
            gc.collect(0)
        elif kind == "render":
            i = w.pick(o["i"])
            if i is None:
                continue
            buf = io.StringIO()
            arg = w.objs[i]
            if i in w.registry.values():
                arg = w.frames[i]["name"]
            with contextlib.redirect_stdout(buf):
                rbm.render_tree(arg)
            tree = w.nested(i)
            rec.label("render nested", any(c[1] for c in tree[1]))
            ensure(parse_render(buf.getvalue()) == tree,
                   "%s: rendered %r, expected %s", what, buf.getvalue(), tree)
        elif kind == "lookup":
            i, j = w.pick(o["i"]), w.pick(o["j"])
            if i is None:
                continue
            A, B = w.objs[i], w.objs[j]
            nm = w.frames[i]["name"]
            if nm is None:
                rec.label("lookup from an unnamed frame")
            elif o["by"] and nm not in w.registry:
                raises(lambda: rbm.lookup_transform(nm, B), ValueError,
                       what=f"{what}: unregistered name")
            elif o["by"]:
                i, A = w.registry[nm], nm
            if w.chain(i)[-1] != w.chain(j)[-1]:
                raises(lambda: rbm.lookup_transform(A, B),
                       what=f"{what}: different trees")
            else:
                ti, qi = w.to_root(i)
                tj, qj = w.to_root(j)
                t, r = rbm.lookup_transform(A, B)
                close(t, m.qrot(m.qconj(qj), ti - tj), 1e-9,
                      f"{what}: translation")
                same_rotation(r, m.qmul(m.qconj(qj), qi), 1e-9,
                              f"{what}: rotation")
                rec.note(collided and i != j, "lookup after collision")
        w.check(what)
    # finally everything, whether or not registered
    ids = sorted(w.objs)
    for i, j in zip(ids, ids[3:] + ids[1:4]):
        if w.chain(i)[-1] == w.chain(j)[-1] and i != j:
            ti, qi = w.to_root(i)
            tj, qj = w.to_root(j)
            t, r = rbm.lookup_transform(w.objs[j], w.objs[i])
            close(t, m.qrot(m.qconj(qi), tj - ti), 1e-9, "final translation")
            same_rotation(r, m.qmul(m.qconj(qi), qj), 1e-9, "final rotation")
            rec.note(collided, "final lookup")


@facet(st.fixed_dictionaries(dict(
    specs=m.tree_spec(min_frames=1, max_frames=8), root=st.integers(0, 7),
    named=st.booleans())), quick=800)
def render(case, rec):
    specs = case["specs"]
    rfs = m.build(specs)
    i = case["root"] % len(specs)
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        rbm.render_tree(specs[i]["name"] if case["named"] else rfs[i])

    def nested(i):
        return (specs[i]["name"], sorted(
            nested(j) for j in range(len(specs))
            if specs[j]["parent"] == i))

    tree = nested(i)
    rec.note(bool(tree[1]))
    rec.label("not the root", i > 0)
    ensure(parse_render(buf.getvalue()) == tree, "rendered %r, expected %s",
           buf.getvalue(), tree)
    for nm in ("unknown", "/" + specs[i]["name"], specs[i]["name"].upper(),
               specs[i]["name"] + " ", ""):
        raises(lambda: rbm.render_tree(nm), ValueError,
               what=f"rendering {nm!r}")
