"""Entities: templates, methods, entity variables, groups.

Extends the language of acv.lang and the generator of acv.gen with

expressions
  ('self',)                      ('upcast', e, T)
  ('enew', T, args, kws)         creation
  ('mcall', recv, name, args, kws, static_type, cast)
  ('tcall', T, name, args, kws)  static method through the template
  ('pos', x, y, z)  ('posof', e, dy)
  ('gnew', T)  ('gcopy', g)  ('gsize', g)  ('gempty', g)  ('ghas', g, e)
  ('gone', g)                    group with one member -> entity
  ('xnew',)  ('resolve', x, T)   group of entities without template
  ('str', s)
statements
  ('tmpl', name, bases, fields, [(qualifier, def)], new|None)
       new: (inline, params, body)
  ('mknew', base|None, args, kws)   inside a constructor
  ('see', n, e)                  raw command naming the entity
  ('tag', e, tag, add)           raw tag command on the entity
  ('gop', g, [(op, [arg, ...]), ...])    chain of group methods
  ('gaug', op, g, h)
  ('gfor', name, g, body)
filters
  ('flt', [(method, [strings])])
"""
from . import kit, vm as vmmod
from . import lang
from .lang import (Ref, UB, Cell, Const, Scope, Func, StructV, Style, text,
                   toks, comma, lines, def_tokens, INT_MAX, INT_MIN)
from .gen import Gen, FuncInfo, overlap, Var

ENTITY = "Entity"


# --- printing ---------------------------------------------------------------

def _q(s):
    return '"%s"' % s


def _num(x):
    s = repr(float(x))
    return s


def _args(args, kws, style):
    return ["("] + comma([toks(a, style) for a in args]
                         + [[n, "="] + toks(a, style) for n, a in kws],
                         style) + [")"]


def _pnum(x):
    s = _num(abs(x))
    return (["-"] if x < 0 else []) + [s]


def _p_pos(e, st):
    return ["Pos", "("] + comma([_pnum(e[1]), _pnum(e[2]), _pnum(e[3])],
                                st, False) + [")"]


def _p_posof(e, st):
    t = ["Pos", "("] + toks(e[1], st) + [")"]
    if e[2]:
        t += [".", "offset", "(", "y", "="] + _pnum(e[2]) + [")"]
    return t


def _p_flt(e, st):
    t = ["Enfilter", "(", ")"]
    for m, a in e[1]:
        if m in LIMITS:
            t += [".", m, "("] + toks(a[0], st)
            if a[1] != 1:
                t += [",", "limit", "=", str(a[1])]
            t += [")"]
            continue
        t += [".", m, "("] + comma([[_q(x)] for x in a], st, False) + [")"]
    return t


LIMITS = ("nearest_from", "farthest_from")


lang.EXPR_PRINT.update({
    "self": lambda e, st: ["self"],
    "str": lambda e, st: [_q(e[1])],
    "upcast": lambda e, st: ["upcast", "("] + toks(e[1], st)
    + [",", e[2], ")"],
    "enew": lambda e, st: [e[1]] + _args(e[2], e[3], st),
    "mcall": lambda e, st: toks(e[1], st, 8) + [".", e[2]]
    + _args(e[3], e[4], st),
    "tcall": lambda e, st: [e[1], ".", e[2]] + _args(e[3], e[4], st),
    "pos": _p_pos, "posof": _p_posof, "flt": _p_flt,
    "gnew": lambda e, st: ["Engroup", "[", e[1], "]", "(", ")"],
    "xnew": lambda e, st: ["ExternEngroup", "(", ")"],
    "resolve": lambda e, st: toks(e[1], st, 8) + [".", "resolve", "(", e[2],
                                                  ")"],
    "gcopy": lambda e, st: toks(e[1], st, 8) + [".", "copy", "(", ")"],
    "gsize": lambda e, st: toks(e[1], st, 8) + [".", "size", "(", ")"],
    "gempty": lambda e, st: toks(e[1], st, 8) + [".", "is_empty", "(", ")"],
    "gone": lambda e, st: toks(e[1], st, 8) + [".", "to_single", "(", ")"],
    "ghas": lambda e, st: toks(e[1], st, 8) + [".", "has", "("]
    + toks(e[2], st) + [")"],
})


def _p_tmpl(s, st, d, out):
    _, name, bases, fields, methods, new = s
    t = ["entity", name]
    if bases:
        t += ["extends"] + comma([[b] for b in bases], st, False)
    out.append((d, t + [":"]))
    n0 = len(out)
    for f, ty in fields:
        out.append((d + 1, [f, ":", ty]))
    if new is not None:
        inline, params, body = new
        h = def_tokens("def", "", params, None, st)
        h = (["inline"] if inline else []) + ["new"] + h
        out.append((d + 1, h + [":"]))
        lines(body, st, d + 2, out)
    for q, m in methods:
        _, kind, mn, params, rt, body = m
        out.append((d + 1, ([q] if q else [])
                    + def_tokens(kind, mn, params, rt, st) + [":"]))
        lines(body, st, d + 2, out)
    if len(out) == n0:
        out.append((d + 1, ["pass"]))


def _p_chain(s, st, d, out):
    t = toks(s[1], st, 8)
    for op, args in s[2]:
        t = t + [".", op, "("] + comma([toks(a, st) for a in args], st) \
            + [")"]
    out.append((d, t))


def _p_gfor(s, st, d, out):
    out.append((d, ["for", s[1], "in"] + toks(s[2], st) + [":"]))
    lines(s[3], st, d + 1, out)


def cmdtok(*parts):
    """one source token: a raw command; expressions are spliced in"""
    st = Style()
    return "".join(p if isinstance(p, str)
                   else "${" + lang.join(toks(p, st)) + "}" for p in parts)


lang.STMT_PRINT.update({
    "tmpl": _p_tmpl,
    "mknew": lambda s, st, d, out: out.append(
        (d, ([s[1], "."] if s[1] else []) + ["new"]
         + _args(s[2], s[3], st))),
    "see": lambda s, st, d, out: out.append(
        (d, [cmdtok("/see %d " % s[1], s[2])])),
    "tag": lambda s, st, d, out: out.append(
        (d, [cmdtok("/tag ", s[1], " %s %s" % ("add" if s[3] else "remove",
                                               s[2]))])),
    "gop": _p_chain, "gfor": _p_gfor,
    "gaug": lambda s, st, d, out: out.append(
        (d, toks(s[2], st, 8) + [s[1] + "="] + toks(s[3], st))),
})


# --- reference world ----------------------------------------------------------

def world_pos(uid):
    """where the uid-th entity of the initial world stands"""
    return (3.0 * uid + .25, float(uid), -2.0 * uid)


class Ent:
    __slots__ = ("uid", "type", "name", "pos", "tags", "tmpl", "fields",
                 "event", "made")

    def __init__(self, uid, type_, name, pos, tmpl=None, event=None):
        self.made = tmpl is not None
        self.uid, self.type, self.name, self.pos = uid, type_, name, pos
        self.tags = set()
        self.tmpl = tmpl
        self.fields = {}
        self.event = event

    def __repr__(self):
        return "<%s %s%d>" % (self.tmpl, self.type, self.uid)


class Tmpl:
    def __init__(self, name, bases, fields, methods, new, scope, cls):
        self.name, self.bases, self.own = name, bases, fields
        self.methods = {m[2]: (q, m) for q, m in methods}
        self.new, self.scope, self.cls = new, scope, cls


class ERef(Ref):
    def __init__(self, step_limit=6000, world=()):
        super().__init__(step_limit)
        self.tm = {}
        self.clsroot = type(ENTITY, (), {})
        self.n_uid = 1                      # the player
        self.world = [Ent(1, "player", "Player1", (100.5, 64.0, 200.5))]
        for ty, name, tags in world:
            self.n_uid += 1
            e = Ent(self.n_uid, ty, name, world_pos(self.n_uid))
            e.tags = set(tags)
            self.world.append(e)
        self.making = []
        self.stats.update(created=0, vcalls=0, overridden=0, mcalls=0,
                          upcasts=0, groupops=0, members=0, sees=0,
                          resolved=0, limits=0)

    # templates
    def mro(self, name):
        return [c.__name__ for c in self.tm[name].cls.__mro__][:-1] \
            if name != ENTITY else [ENTITY]

    def fields_of(self, name):
        out = {}
        for c in self.mro(name):
            if c != ENTITY:
                out.update(self.tm[c].own)
        return out

    def find(self, name, m):
        for c in self.mro(name):
            if c != ENTITY and m in self.tm[c].methods:
                return c, self.tm[c].methods[m]
        raise UB("no method %s for %s" % (m, name))

    def find_new(self, name):
        if name == ENTITY:
            return None
        t = self.tm[name]
        if t.new is not None:
            return t
        return self.find_new(self.mro(name)[1])

    def issub(self, a, b):
        return b in self.mro(a)

    # values
    def new_loc(self, ty):
        return super().new_loc(ty)

    def loc_of(self, e, sc):
        if e[0] == "f":
            b = e[1]
            if b[0] in ("v", "f", "scb"):
                l = self.loc_of(b, sc)
                if isinstance(l, StructV):
                    return l[e[2]]
                base = self.load(l)
            else:
                base = self.ev(b, sc)
            if isinstance(base, Ent):
                if e[2] not in base.fields:
                    raise UB("entity of another template")
                return base.fields[e[2]]
            return base[e[2]]
        if e[0] == "self":
            return sc.get("self")
        return super().loc_of(e, sc)

    def evc(self, e, sc):
        if e[0] == "f":
            if e[1][0] in ("new",):
                return super().evc(e, sc)
            loc = self.loc_of(e, sc)
            return self.load(loc), False
        return super().evc(e, sc)

    def ev_ext(self, e, sc):
        k = e[0]
        if k == "self":
            v = self.load(sc.get("self"))
            return v, False
        if k == "str":
            return e[1], True
        if k == "upcast":
            self.stats["upcasts"] += 1
            return self.ev(e[1], sc), False
        if k == "pos":
            return (e[1], e[2], e[3]), True
        if k == "posof":
            p = self.ev(e[1], sc).pos
            return (p[0], p[1] + (e[2] or 0), p[2]), True
        if k == "enew":
            return self.create(e[1], e[2], e[3], sc), False
        if k == "mcall":
            return self.mcall(e, sc)
        if k == "tcall":
            _, (q, m) = self.find(e[1], e[2])
            t = self.tm[self.find(e[1], e[2])[0]]
            self.stats["mcalls"] += 1
            return self.unwrap(self.apply(Func(m, t.scope), e[3], e[4], sc))
        if k in ("gnew", "xnew"):
            return frozenset(), False
        if k == "resolve":
            g = self.ev(e[1], sc)
            for m in g:
                if m.tmpl not in (None, e[2]):
                    raise UB("entity of two templates")
                if m.tmpl is None:
                    m.tmpl = e[2]
                    for f, t in self.fields_of(e[2]).items():
                        m.fields[f] = self.new_loc(t)
            self.stats["resolved"] += len(g)
            return g, False
        if k == "gcopy":
            return self.ev(e[1], sc), False
        if k == "gsize":
            return len(self.ev(e[1], sc)), False
        if k == "gempty":
            return not self.ev(e[1], sc), False
        if k == "ghas":
            return self.ev(e[2], sc) in self.ev(e[1], sc), False
        if k == "gone":
            g = self.ev(e[1], sc)
            if len(g) != 1:
                raise UB("to_single of %d" % len(g))
            return next(iter(g)), False
        if k == "flt":
            return e, True
        raise AssertionError(e)

    @staticmethod
    def unwrap(v):
        if isinstance(v, Const):
            return v.v, True
        return v, False

    def mcall(self, e, sc):
        _, recv, name, args, kws, st, cast = e
        ent = self.ev(recv, sc)
        self.stats["mcalls"] += 1
        owner, (q, m) = self.find(cast or st, name)
        if q in ("virtual", "override") and not cast:
            if ent.tmpl is None or not self.issub(ent.tmpl, st):
                raise UB("virtual call on a foreign entity")
            o2, (q, m) = self.find(ent.tmpl, name)
            self.stats["vcalls"] += 1
            self.stats["overridden"] += o2 != owner
            owner = o2
        bind = None
        if q != "static":
            bind = {"self": Cell(ent)}
        return self.unwrap(self.apply(Func(m, self.tm[owner].scope), args,
                                      kws, sc, bind=bind))

    def create(self, name, args, kws, sc):
        self.stats["created"] += 1
        self.making.append([name, None])
        self.construct(name, args, kws, sc, Cell())
        ent = self.making.pop()[1]
        if ent is None:
            raise UB("constructor creates nothing")
        return ent

    def construct(self, name, args, kws, sc, selfcell):
        t = self.find_new(name)
        if t is None:
            self.default_new(args, kws, sc)
            selfcell.v = self.making[-1][1]
            return
        inline, params, body = t.new
        f = Func(("def", "inline" if inline else "def", "new", params, None,
                  body), t.scope)
        inner = Cell()
        self.apply(f, args, kws, sc, bind={"self": inner})
        selfcell.v = self.making[-1][1]

    def default_new(self, args, kws, sc):
        names = ["type", "pos", "name", "event"]
        given = dict(zip(names, args))
        given.update(kws)
        if self.making[-1][1] is not None:
            raise UB("created twice")
        pos = self.ev(given["pos"], sc)
        ty = self.ev(given["type"], sc)
        nm = self.ev(given["name"], sc) if "name" in given else ""
        ev = self.ev(given["event"], sc) if "event" in given else None
        self.n_uid += 1
        ent = Ent(self.n_uid, ty, nm, pos, self.making[-1][0], ev)
        for f, t in self.fields_of(ent.tmpl).items():
            ent.fields[f] = self.new_loc(t)
        self.world.append(ent)
        self.making[-1][1] = ent

    def match(self, flt, among=None):
        """the entities among `among` (the whole world) the filter keeps"""
        out = self.world if among is None else \
            [e for e in self.world if e in among]
        for m, a in flt[1]:
            if m in LIMITS:
                self.stats["limits"] += 1
                p = self.ev(a[0], None)

                def d2(e):
                    return sum((x - y) ** 2 for x, y in zip(e.pos, p))
                out = sorted(out, key=d2, reverse=m == "farthest_from")
                k = a[1]
                if len(out) > k and abs(d2(out[k]) - d2(out[k - 1])) < .05:
                    raise UB("as far as another one")
                out = out[:k]
                continue
            ok = {
                "has_tag": lambda e: all(x in e.tags for x in a),
                "has_no_tag": lambda e: not any(x in e.tags for x in a),
                "is_type": lambda e: e.type == a[0],
                "is_not_type": lambda e: e.type not in a,
                "is_name": lambda e: e.name == a[0],
                "is_not_name": lambda e: e.name not in a,
            }[m]
            out = [e for e in out if ok(e)]
        return frozenset(out)

    def gop(self, cur, op, args, sc):
        self.stats["groupops"] += 1
        if op in ("add", "remove"):
            s = {self.ev(a, sc) for a in args}
            return cur | s if op == "add" else cur - s
        if op == "clear":
            return frozenset()
        if op in ("select", "drop", "filter"):
            m = self.match(args[0], None if op == "select" else cur)
            return cur | m if op == "select" else \
                cur - m if op == "drop" else cur & m
        o = self.ev(args[0], sc)
        return cur | o if op == "extend" else \
            cur - o if op == "subtract" else cur & o

    def stmt_ext(self, s, sc):
        k = s[0]
        if k == "tmpl":
            _, name, bases, fields, methods, new = s
            bs = tuple(self.tm[b].cls for b in bases) or (self.clsroot,)
            cls = type(name, bs, {})
            t = Tmpl(name, bases, dict(fields), methods, new, sc, cls)
            self.tm[name] = t
        elif k == "mknew":
            me = sc.get("self")
            self.construct(s[1] or ENTITY, s[2], s[3], sc, me)
        elif k == "see":
            self.stats["sees"] += 1
            self.trace.append((s[1], (("uid", self.ev(s[2], sc).uid),)))
        elif k == "tag":
            e = self.ev(s[1], sc)
            (e.tags.add if s[3] else e.tags.discard)(s[2])
        elif k == "gop":
            loc = self.loc_of(s[1], sc)
            for op, args in s[2]:
                loc.v = self.gop(self.load(loc), op, args, sc)
        elif k == "gaug":
            loc = self.loc_of(s[2], sc)
            loc.v = self.gop(self.load(loc), "extend" if s[1] == "+"
                             else "subtract", [s[3]], sc)
        elif k == "gfor":
            for m in sorted(self.ev(s[2], sc), key=lambda e: e.uid):
                self.stats["members"] += 1
                inner = Scope(sc)
                inner.names[s[1]] = Cell(m)
                self.run(s[3], inner)
        else:
            raise AssertionError(s)

    def final(self):
        return [(e.uid, e.type, e.name, tuple(round(float(x), 3)
                                              for x in e.pos),
                 tuple(sorted(t for t in e.tags if t.startswith("ut"))))
                for e in self.world]


def vm_final(v):
    return [(e.uid, e.type, e.name, tuple(round(x, 3) for x in e.pos),
             tuple(sorted(t for t in e.tags if t.startswith("ut"))))
            for e in v.entities]


# --- generator ----------------------------------------------------------------

class Sig:
    """a method family"""
    __slots__ = ("name", "params", "rtype", "effect", "virtual", "static",
                 "idx", "owner")


class TInfo:
    __slots__ = ("name", "bases", "mro", "fields", "methods", "ctor",
                 "ctor_idx", "inline")


TAGS = ["ut1", "ut2", "ut3"]
MOBS = ["pig", "cow", "armor_stand"]

EDEFAULTS = dict(
    templates=3, templates2=1, methods=1.2, ctors=0.8, virtuals=0.6,
    statics=0.2, inline_methods=0.3, ent_stmts=0.45, groups=0.5, creates=1.0,
    mcalls=1.0, upcasts=0.25, tags=0.5, sees=0.8, efields=2, multi=0.35,
    estructs=0, extern=True, reruns=0.2, externs=0,
    structs=0, funcs=1, inlines=1, n_top=10, block=2, depth=2, scb=0.4,
    limits=0,
    big=0.05,
)


def gty(t):
    return "Engroup[%s]" % t


class EGen(Gen):
    def __init__(self, rng, **knobs):
        k = dict(EDEFAULTS)
        k.update(knobs)
        super().__init__(rng, **k)
        self.tm = {}
        self.order = []
        self.idx = 0
        self.max_idx = None         # only call what is older than this
        self.selft = None
        self.in_inline_m = False
        self.world = []

    # --- types and places
    def sub(self, a, b):
        return a in self.tm and b in self.tm[a].mro

    def types(self):
        t = super().types()
        es = [x for x in self.order if self.places(x)]
        t += self.r.sample(es, min(2, len(es)))
        if self.k["groups"] and self.chance(0.3):
            gs = [gty(x) for x in self.order if self.places(gty(x))]
            t += gs[:1]
        return t

    def writable_here(self, i, v):
        if v.kind != "var":
            return False
        if self.pure and i < self.pure_base:
            return False
        if v.type in self.tm and i == 0 and self.in_func:
            return False
        return True

    def places(self, type_, writable=False):
        out = []
        seen = set()
        want_t = type_ in self.tm
        for i, sc in reversed(list(enumerate(self.scopes))):
            for v in reversed(sc):
                if v.name in seen:
                    continue
                seen.add(v.name)
                base = ("self",) if v.name == "self" else ("v", v.name)
                w = self.writable_here(i, v)
                self._rec(base, v.type, type_, writable, w, out, want_t, 0)
        if type_ == "int" and not self.pure:
            for h in self.scb_init:
                out.append(("scb", h))
        return out

    def _rec(self, base, t, type_, writable, w, out, want_t, d):
        if t == type_ or (want_t and not writable and self.sub(t, type_)):
            if not writable or w:
                out.append(base)
        if d > 3:
            return
        if t in self.structs and (w or not writable):
            for f, ft in self.structs[t][1]:
                self._rec(("f", base, f), ft, type_, writable, w, out,
                          want_t, d + 1)
        elif t in self.tm and not (writable and self.pure):
            for f, ft in self.tm[t].fields.items():
                self._rec(("f", base, f), ft, type_, writable, True, out,
                          want_t, d + 1)

    def _fields(self, base, st, type_, out):
        raise AssertionError

    def etype(self, e):
        """static type of an entity place or expression"""
        k = e[0]
        if k == "self":
            return self.selft
        if k == "v":
            return next(v.type for v in self.visible() if v.name == e[1])
        if k == "f":
            b = self.etype(e[1])
            if b in self.tm:
                return self.tm[b].fields[e[2]]
            return dict(self.structs[b][1])[e[2]]
        if k == "enew":
            return e[1]
        if k == "call":
            return next(f.rtype for f in self.funcs if f.name == e[1])
        if k in ("mcall_", "tcall"):
            return e[-1]
        if k == "upcast":
            return self.etype(e[1])
        raise AssertionError(e)

    def value(self, t, d):
        if t in self.tm:
            return self.ent(t, d)
        if t.startswith("Engroup["):
            ps = self.places(t)
            p = self.r.choice(ps)
            return ("gcopy", p) if self.chance(0.3) else p
        if d > 0 and t in ("int", "bool") and self.chance(0.12):
            c = self.method_expr(t, d)
            if c is not None:
                return c
        return super().value(t, d)

    def _int(self, d):
        if d > 0 and self.tm and self.chance(0.12):
            c = self.method_expr("int", d)
            if c is not None:
                return c, None
        if d > 0 and self.k["groups"] and self.chance(0.06):
            g = self.anygroup()
            if g:
                return ("gsize", g), None
        return super()._int(d)

    def bool_(self, d):
        if d > 0 and self.tm and self.chance(0.1):
            c = self.method_expr("bool", d)
            if c is not None:
                return c
        if d > 0 and self.k["groups"] and self.chance(0.12):
            g = self.anygroup()
            if g:
                t = self.etype(g)[8:-1]
                ps = self.places(t)
                if ps and self.chance(0.6):
                    return ("ghas", g, self.r.choice(ps))
                return ("gempty", g)
        return super().bool_(d)

    def anygroup(self, writable=False):
        gs = []
        for t in self.order:
            gs += self.places(gty(t), writable)
        return self.r.choice(gs) if gs else None

    def ent(self, t, d):
        ps = self.places(t)
        if d > 0 and self.chance(0.15):
            c = self.method_expr(t, d)
            if c is not None:
                return c
            c = self.call_expr(t, d)
            if c is not None:
                return c
        if not ps:
            raise UB("no entity to name")
        return self.r.choice(ps)

    # --- calls
    def older(self, idx):
        return self.max_idx is None or idx < self.max_idx

    def call_expr(self, rtype, d, effect=False):
        fs = [f for f in self.funcs if f.rtype == rtype
              and f.effect == effect and self.older(f.idx)]
        if not fs:
            return None
        f = self.r.choice(fs)
        self.last_port = f.rport
        return self.call_of(f, d)

    def effect_call(self, out):
        fs = [f for f in self.funcs if (f.effect or self.chance(0.3))
              and self.older(f.idx)]
        if not fs:
            return
        c = self.call_of(self.r.choice(fs), 2)
        if c is not None:
            out.append(("expr", c))

    def call_of(self, f, d):
        if any(p[1] in self.tm or p[1].startswith("Engroup")
               for p in f.params):
            for p in f.params:
                if p[2] != "const" and not self.places(p[1], p[2] == "&"):
                    return None
        return super().call_of(f, d)

    def method_expr(self, rtype, d, effect=False):
        """a method call giving rtype (or any, if rtype is 'any')"""
        cand = []
        for t in self.order:
            for n, s in self.tm[t].methods.items():
                if s.effect == effect and self.older(s.idx) and \
                        (rtype == "any" or s.rtype == rtype):
                    cand.append((t, s))
        self.r.shuffle(cand)
        if self.chance(0.6):
            cand.sort(key=lambda c: not c[1].virtual)
        for t, s in cand[:4]:
            f = FuncInfo()
            f.name, f.params = "m", s.params
            c = self.call_of(f, d)
            if c is None:
                continue
            _, _, args, kws = c
            if s.static and t != self.cur and self.chance(0.5):
                return ("tcall", t, s.name, args, kws, s.rtype)
            ps = self.places(t)
            if not ps:
                continue
            recv = self.r.choice(ps)
            st = self.etype(recv)
            cast = None
            if recv == ("self",) and self.in_inline_m and not s.virtual:
                # (`self` is as specific as the expression the inline
                # method is called on)
                continue
            if self.chance(self.k["upcasts"]):
                cs = [x for x in self.tm[st].mro
                      if x not in (ENTITY, self.cur)
                      and s.name in self.tm[x].methods]
                if cs and not (recv == ("self",) and self.in_inline_m):
                    cast = self.r.choice(cs)
                    recv = ("upcast", recv, cast)
            return ("mcall_", recv, s.name, args, kws, st, cast, s.rtype)
        return None

    # --- statements
    def mstmt(self, out):
        c = self.method_expr("any", 2, effect=not self.pure and
                             self.chance(0.8))
        if c is None:
            return
        if c[-1] is not None and self.chance(0.5):
            t = c[-1]
            if self.chance(0.5):
                n = self.name()
                out.append(("vardef", n, t, c)
                           if self.chance(0.5) and t != self.cur
                           else ("auto", n, c))
                self.add(n, t)
                return
            ps = self.places(t, writable=True)
            if ps:
                out.append(("assign", self.r.choice(ps), c))
                return
        out.append(("expr", c))

    def pos(self):
        if self.chance(0.25):
            es = [p for t in self.order for p in self.places(t)
                  if p != ("self",) or self.self_ok]
            if es:
                return ("posof", self.r.choice(es),
                        self.r.choice([None, 1.5, -2.0]))
        r = self.r
        return ("pos", r.randint(-40, 40) + .5, float(r.randint(0, 99)),
                r.randint(-40, 40) + .5)

    self_ok = True
    cur = None      # template being defined: its name is not known yet

    def dflt_args(self):
        r = self.r
        kws = [("type", ("str", r.choice(MOBS))), ("pos", self.pos())]
        if self.chance(0.5):
            kws.append(("name", ("str", self.name("n"))))
        if self.chance(0.2):
            kws.append(("event", ("str", "ev:" + self.name("x"))))
        k = r.randint(0, 2)
        args = [v for _, v in kws[:k]]
        kws = kws[k:]
        r.shuffle(kws)
        return args, kws

    def creation(self, sub=None):
        ts = [t for t in self.order if self.older(self.tm[t].ctor_idx)
              and t != self.cur
              and (sub is None or self.sub(t, sub))]
        if not ts:
            return None
        t = self.r.choice(ts)
        a = self.ctor_args(t)
        if a is None:
            return None
        return ("enew", t, a[0], a[1])

    def ctor_args(self, t):
        c = self.tm[t].ctor
        if c is None:
            return self.dflt_args()
        f = FuncInfo()
        f.name, f.params = "new", c
        c = self.call_of(f, 2)
        return None if c is None else (c[2], c[3])

    def create_stmt(self, out):
        if self.pure:
            return
        c = self.creation()
        if c is None:
            return
        t = c[1]
        x = self.r.random()
        if x < 0.35:
            ps = [p for b in self.tm[t].mro if b != ENTITY
                  for p in self.places(b, writable=True)]
            if ps:
                out.append(("assign", self.r.choice(ps), c))
                return
        n = self.name("e")
        if x < 0.65:
            b = self.r.choice([b for b in self.tm[t].mro if b != ENTITY])
            out.append(("vardef", n, b, c))
            self.add(n, b)
        else:
            out.append(("auto", n, c))
            self.add(n, t)

    def anyent(self):
        es = [p for t in self.order for p in self.places(t)]
        return self.r.choice(es) if es else None

    def see_stmt(self, out, e=None):
        e = e or self.anyent()
        if e is None:
            return
        self.snap_n += 1
        out.append(("see", self.snap_n, e))

    def tag_stmt(self, out):
        e = self.anyent()
        if e is not None:
            out.append(("tag", e, self.r.choice(TAGS), self.chance(0.7)))

    def flt(self):
        r = self.r
        cs = []
        for _ in range(r.choice([1, 1, 2, 3])):
            m = r.choice(["has_tag", "has_no_tag", "is_type", "is_not_type",
                          "has_tag", "is_name"])
            if m == "has_tag":
                a = r.sample(TAGS, r.choice([1, 1, 2]))
            elif m == "has_no_tag":
                a = [r.choice(TAGS)]
            elif m == "is_type":
                a = [r.choice(MOBS)]
            elif m == "is_not_type":
                a = r.sample(MOBS, r.choice([1, 2]))
            else:
                a = [r.choice(["zed", "n1", "n2", "n3", "n4"])]
            cs.append((m, a))
        if self.chance(self.k["limits"]):
            # (the positions are irregular so that few entities tie)
            c = (r.choice(LIMITS), [
                ("pos", r.randint(-30, 30) + .5, float(r.randint(0, 60)),
                 r.randint(-30, 30) + .5), r.choice([1, 1, 2, 3])])
            cs = cs[:r.choice([0, 0, 1, 2])]
            cs.insert(r.choice([len(cs)] * 3 + [0]), c)
        return ("flt", cs)

    def group_stmt(self, out, depth):
        r = self.r
        if self.pure or not self.order:
            return
        t = r.choice(self.order)
        if t == self.cur:
            return
        g = self.anygroup(True)
        x = r.random()
        if g is None or x < 0.2:
            n = self.name("g")
            y = r.random()
            ps = self.places(gty(t))
            if ps and y < 0.4:
                e = r.choice(ps)
                if self.chance(0.5):
                    e = ("gcopy", e)
                out.append(("auto", n, e) if self.chance(0.5)
                           else ("vardef", n, gty(t), e))
            else:
                out.append(("auto", n, ("gnew", t)))
            self.add(n, gty(t))
            return
        t = self.etype(g)[8:-1]
        if x < 0.65:
            chain = []
            for _ in range(r.choice([1, 1, 2, 3])):
                op = r.choice(["add", "add", "add", "remove", "select",
                               "drop", "filter", "extend", "subtract",
                               "intersect", "clear"])
                if op in ("add", "remove"):
                    es = self.places(t)
                    if not es:
                        continue
                    a = [r.choice(es) for _ in range(r.choice([1, 1, 2, 3]))]
                elif op in ("select", "drop", "filter"):
                    a = [self.flt()]
                elif op == "clear":
                    a = []
                else:
                    gs = [p for s in self.order if self.sub(s, t)
                          for p in self.places(gty(s))]
                    a = [r.choice(gs)]
                chain.append((op, a))
            if chain:
                out.append(("gop", g, chain))
        elif x < 0.75:
            gs = [p for s in self.order if self.sub(s, t)
                  for p in self.places(gty(s))]
            out.append(("gaug", r.choice("+-"), g, r.choice(gs)))
        elif x < 0.82:
            es = self.places(t)
            if es:
                out.append(("gop", g, [("clear", []), ("add",
                                                       [r.choice(es)])]))
                n = self.name("e")
                out.append(("auto", n, ("gone", g)))
                self.add(n, t)
        elif x < 0.9:
            gs = self.places(gty(t))
            out.append(("assign", g, r.choice(gs)))
        else:
            self.gfor(out, depth)

    def ext_stmt(self, out, depth):
        """groups of entities that have no template (yet)"""
        r = self.r
        X = gty("?")
        xs = self.places(X, True)
        x = r.random()
        if not xs or x < 0.12:
            n = self.name("x")
            if xs and self.chance(0.5):
                e = r.choice(xs)
                if self.chance(0.5):
                    e = ("gcopy", e)
            else:
                e = ("xnew",)
            out.append(("auto", n, e) if self.chance(0.5)
                       else ("vardef", n, "ExternEngroup", e))
            self.add(n, X)
            return
        g = r.choice(xs)
        if x < 0.6:
            chain = []
            for _ in range(r.choice([1, 1, 2, 3])):
                op = r.choice(["select", "select", "select", "add", "remove",
                               "drop", "filter", "extend", "subtract",
                               "intersect", "clear"])
                if op in ("add", "remove"):
                    es = self.places("?")
                    if not es:
                        continue
                    a = [r.choice(es) for _ in range(r.choice([1, 1, 2]))]
                elif op in ("select", "drop", "filter"):
                    a = self.flt()
                    if op == "select" and self.chance(0.75):
                        # (no entity the program creates is named so)
                        a = ("flt", a[1][:1] + [("is_name", ["zed"])])
                    a = [a]
                else:
                    a = [] if op == "clear" else [r.choice(xs)]
                chain.append((op, a))
            if chain:
                out.append(("gop", g, chain))
        elif x < 0.65:
            out.append(("gaug", r.choice("+-"), g, r.choice(xs)))
        elif x < 0.7:
            out.append(("assign", g, r.choice(xs)))
        elif x < 0.8:
            b = r.choice(["gsize", "gempty"])
            out.append(("assign", ("scb", "d0"), (b, g) if b == "gsize" else
                        ("int", (b, g))))
            out.append(self.snap())
        elif x < 0.9:
            self.gfor(out, depth, g)
        else:
            t = r.choice(self.order)
            if t == self.cur:
                return
            n = self.name("g")
            out.append(("auto", n, ("resolve", g, t)))
            self.add(n, gty(t))

    def gfor(self, out, depth, g=None):
        g = g or self.anygroup()
        if g is None:
            return
        t = self.etype(g)[8:-1]
        n = self.name("m")
        mark = [len(s) for s in self.scopes]
        self.scopes.append([])
        self.add(n, t, "ctr")
        self.cond_depth += 1
        body = []
        self.see_stmt(body, ("v", n))
        for _ in range(self.r.randint(0, 2)):
            self.statement(body, depth - 1)
        self.cond_depth -= 1
        self.scopes.pop()
        self._cut(mark)
        out.append(("gfor", n, g, body))

    def statement(self, out, depth):
        k = self.k
        try:
            if self.tm and self.chance(k["ent_stmts"]):
                opts = [("create", k["creates"] * (0 if self.pure else 1)),
                        ("mcall", k["mcalls"] * 1.5)]
                if not self.pure:
                    opts += [("see", k["sees"]), ("tag", k["tags"])]
                    opts += [("group", k["groups"] * 2)]
                    opts += [("ext", k["externs"])]
                    if depth > 0:
                        opts += [("gfor", k["groups"])]
                x = self.r.random() * sum(w for _, w in opts)
                for what, w in opts:
                    x -= w
                    if x < 0:
                        break
                if what == "create":
                    self.create_stmt(out)
                elif what == "mcall":
                    self.mstmt(out)
                elif what == "see":
                    self.see_stmt(out)
                elif what == "tag":
                    self.tag_stmt(out)
                elif what == "group":
                    self.group_stmt(out, depth)
                elif what == "gfor":
                    self.gfor(out, depth)
                elif what == "ext":
                    self.ext_stmt(out, depth)
                return
            super().statement(out, depth)
        except UB:
            pass

    def vardef(self, out):
        t = self.r.choice(self.types())
        if t == gty(self.cur):
            return
        if t in self.tm or t.startswith("Engroup"):
            e = self.value(t, self.k["depth"])
            n = self.name("e")
            st = t
            if t in self.tm and (self.chance(0.5) or t == self.cur):
                try:
                    st = self.etype(e) if e[0] != "mcall_" else e[-1]
                except (AssertionError, KeyError):
                    st = t
                if e == ("self",) and self.in_inline_m:
                    raise UB("how specific is it?")
                out.append(("auto", n, e))
            else:
                out.append(("vardef", n, t, e))
            self.add(n, st)
            return
        n = self.name()
        e = self.value(t, self.k["depth"])
        if t in self.structs and e[0] == "new":
            e = self.new_(t, self.k["depth"])
        out.append(("vardef", n, t, e) if self.chance(0.5)
                   else ("auto", n, e))
        self.add(n, t)

    def _dump(self, e, t, out, n):
        if t == "?":
            self.see_stmt(out, e)
            return n
        if t in self.tm:
            self.see_stmt(out, e)
            for f, ft in self.tm[t].fields.items():
                n = self._dump(("f", e, f), ft, out, n)
            return n
        if t.startswith("Engroup"):
            out.append(("assign", ("scb", "d%d" % n), ("gsize", e)))
            m = self.name("m")
            b = []
            self.see_stmt(b, ("v", m))
            out.append(("gfor", m, e, b))
            return n + 1
        return super()._dump(e, t, out, n)

    def dump(self, out):
        n = 0
        for v in self.visible():
            if v.kind == "ro" and self.chance(0.5):
                continue
            e = ("self",) if v.name == "self" else ("v", v.name)
            n = self._dump(e, v.type, out, n)
        if n:
            out.append(self.snap())

    def refplaces(self, t):
        # (a reference to a field of an entity is one to that field of
        # whatever entity the variable holds)
        return [p for p in super().refplaces(t) if not self.through(p)]

    def through(self, p):
        while p[0] == "f":
            p = p[1]
            if self.etype(p) in self.tm:
                return p[0] != "self" or self.in_inline_m
        return False

    def ref_(self, out):
        t = self.r.choice(self.types())
        ps = self.refplaces(t)
        if not ps:
            return
        n = self.name("r")
        out.append(("ref", n, None if self.cur and self.cur in t
                    else self.r.choice([None, t]), self.r.choice(ps)))
        self.add(n, t)

    # --- definitions
    inline_f = False

    def add(self, name, type_, kind=None):
        if kind is None:
            kind = "var"
        super().add(name, type_, kind)

    def func(self, out, kind):
        self.idx += 1
        self.inline_f = kind == "inline"
        super().func(out, kind)
        self.inline_f = False
        self.funcs[-1].idx = self.idx
        # (the body was generated before the function was registered, so
        # it only refers to older ones)

    def body_env(self, t, params, pure, idx, static=False, inline=False):
        saved = (self.scopes, self.pure, self.pure_base, self.cond_depth,
                 self.in_func, self.max_idx, self.selft, self.self_ok,
                 self.cur, self.in_inline_m)
        self.scopes = [self.scopes[0], []]
        self.pure = pure
        self.pure_base = 1
        self.cond_depth = 0
        self.in_func += 1
        self.max_idx = idx
        self.selft = None if static else t
        self.cur = t
        if not static:
            self.add("self", t, "ctr")
        for n, ty, port, d in params:
            self.add(n, ty, "ro" if port == "const" else
                     ("var" if not pure else "ctr") if port == "&" else
                     "var")
        return saved

    def restore(self, saved):
        (self.scopes, self.pure, self.pure_base, self.cond_depth,
         self.in_func, self.max_idx, self.selft, self.self_ok,
         self.cur, self.in_inline_m) = saved

    def params_(self, inline=False, ent_ok=True):
        ps = []
        dflt = False
        for _ in range(self.r.choice([0, 1, 1, 2])):
            ty = self.r.choice(["int", "int", "bool"] + list(self.structs)
                               + (self.order[:2] if ent_ok else []))
            port = ""
            if inline and ty in ("int", "bool") and self.chance(0.25):
                port = "const"
            d = None
            if ty in ("int", "bool") and (dflt or self.chance(0.25)):
                d = ("i", self.r.randint(-9, 9)) if ty == "int" else \
                    ("b", self.chance(0.5))
                dflt = True
            elif dflt:
                break
            ps.append((self.name("p"), ty, port, d))
        return ps

    def method_body(self, t, sig, params, inline):
        saved = self.body_env(t, params, not sig.effect, sig.idx,
                              sig.static, inline)
        self.in_inline_m = inline
        body = []
        try:
            if sig.effect and self.chance(0.6):
                if sig.static:
                    out = []
                    self.observe(body)
                else:
                    self.see_stmt(body, ("self",))
            for _ in range(self.r.randint(0, 2)):
                self.statement(body, 1)
            if sig.rtype is not None:
                if sig.rtype in self.structs:
                    e = self.new_(sig.rtype, 2)
                else:
                    e = self.value(sig.rtype, 2)
                body.append(("result", e))
            if sig.effect:
                self.observe(body)
        finally:
            self.restore(saved)
        return body

    def tmpl(self, out, first=False):
        r = self.r
        ti = TInfo()
        ti.name = self.name("T")
        for _ in range(6):
            ti.bases = []
            for b in r.sample(self.order, len(self.order)):
                if (not ti.bases and self.chance(0.75)) or \
                        (ti.bases and self.chance(self.k["multi"])):
                    ti.bases.append(b)
            m = c3(ti.name, [self.tm[b].mro for b in ti.bases])
            if m is not None and self.static_ok(ti.bases):
                break
        else:
            ti.bases = []
            m = [ti.name, ENTITY]
        ti.mro = m
        ti.fields = {}
        own = []
        for _ in range(r.randint(0, self.k["efields"])):
            own.append((self.name("a"), r.choice(
                ["int", "int", "bool"] + [s for s in self.structs
                                          if not self.has_ent(s)])))
        ti.fields.update(own)
        for b in ti.bases:
            ti.fields.update(self.tm[b].fields)
        ti.methods = {}
        for b in reversed(m[1:-1]):
            ti.methods.update(self.tm[b].methods)
        # methods: redefinitions of inherited ones, and new families
        todo = []
        for n, s in list(ti.methods.items()):
            if self.chance(0.45):
                todo.append((s, "override" if s.virtual else
                             "static" if s.static else ""))
        fresh = []
        nnew = int(self.k["methods"] * 2 * r.random() + 0.5)
        if len(self.order) == 0 and self.k["methods"] > 1:
            nnew = max(nnew, 2)
        for _ in range(nnew):
            s = Sig()
            s.name = self.name("m")
            s.static = self.chance(self.k["statics"])
            s.virtual = not s.static and self.chance(self.k["virtuals"])
            s.effect = self.chance(0.6)
            s.rtype = r.choice(["int", "int", "bool"]
                               + list(self.structs) + self.order[:2])
            if s.effect and self.chance(0.3):
                s.rtype = None
            s.params = self.params_()
            self.idx += 1
            s.idx = self.idx
            s.owner = ti.name
            fresh.append((s, "virtual" if s.virtual else
                          "static" if s.static else ""))
        todo += fresh
        r.shuffle(todo)
        ti.ctor = None
        self.idx += 1
        ti.ctor_idx = self.idx
        new_params = self.params_(ent_ok=True), \
            self.params_(True, ent_ok=True)
        self.order.append(ti.name)
        self.tm[ti.name] = ti
        for s, _ in fresh:
            ti.methods[s.name] = s
        ok = []
        for s, q in todo:
            inline = self.chance(self.k["inline_methods"])
            ps = list(s.params)
            if inline and not s.virtual:
                pass
            try:
                body = self.method_body(ti.name, s, ps, inline)
            except UB:
                if (s, q) in fresh:
                    ti.methods.pop(s.name, None)
                    for x in out:
                        pass
                continue
            # an override may have its own default values
            if q == "override" and self.chance(0.3):
                ps = [(n, ty, po, None if d is None else
                       ("i", r.randint(-9, 9)) if ty == "int" else
                       ("b", self.chance(.5))) for n, ty, po, d in ps]
            rt = None if s.rtype is None else ("", s.rtype)
            ok.append((q, ("def", "inline" if inline else "def", s.name, ps,
                           rt, body)))
        # constructor
        parent = m[1]
        inherit = None if parent == ENTITY else self.tm[parent].ctor
        if own or self.chance(self.k["ctors"]):
            inline = self.chance(0.3)
            ps = new_params[inline]
            new = (inline, ps, self.ctor_body(ti, own, ps, inline))
            ti.ctor = ps
        else:
            new = None
            ti.ctor = inherit
        need = self.unset(ti, new is not None)
        if need and new is None:
            new = (False, [], self.ctor_body(ti, own, [], False))
            ti.ctor = []
        out.append(("tmpl", ti.name, ti.bases, own, ok, new))
        return ti

    def unset(self, ti, has):
        # several parents: the inherited constructor only sets the fields
        # of the first one
        return not has and len(ti.bases) > 1

    def has_ent(self, s):
        return any(t in self.tm or t.startswith("Engroup")
                   or (t in self.structs and self.has_ent(t))
                   for _, t in self.structs[s][1])

    def static_ok(self, bases):
        """would inheriting from these be a conflict?  (families have
        unique names, so only C3 can fail)"""
        return True

    def ctor_body(self, ti, own, ps, inline):
        saved = self.body_env(ti.name, ps, False, ti.ctor_idx, False,
                              inline)
        self.self_ok = False
        # before the entity exists only parameters may be used
        hid = self.scopes[1].pop(0)
        body = []
        try:
            for _ in range(self.r.choice([0, 0, 1])):
                self.observe(body)
            bases = [b for b in ti.bases]
            done = set()
            mk = None
            if bases and self.chance(0.85):
                b = self.r.choice(bases)
                a = self.ctor_args(b)
                if a is not None:
                    mk = ("mknew", b, a[0], a[1])
                    if self.sets_all(b):
                        done = set(self.tm[b].fields)
            if mk is None:
                a, kw = self.dflt_args()
                mk = ("mknew", None, a, kw)
            body.append(mk)
            self.scopes[1].insert(0, hid)
            self.self_ok = True
            hold = ti.fields
            ti.fields = {f: t for f, t in hold.items() if f in done}
            for f, t in hold.items():
                if f in done and self.chance(0.7):
                    continue
                if t in self.structs:
                    e = self.new_(t, 2)
                else:
                    e = self.value(t, 2)
                body.append(("assign", ("f", ("self",), f), e))
                ti.fields[f] = t
            ti.fields = hold
            if self.chance(0.5):
                self.see_stmt(body, ("self",))
            for _ in range(self.r.choice([0, 0, 1, 2])):
                self.statement(body, 1)
        finally:
            self.restore(saved)
        return body

    def sets_all(self, b):
        return True

    def program(self):
        out = []
        k = self.k
        if k["extern"] and self.chance(1 if k["externs"] else 0.5):
            for _ in range(self.r.randint(2, 7) if k["externs"] else
                           self.r.randint(1, 3)):
                self.world.append((self.r.choice(MOBS),
                                   self.r.choice(["", "zed"]),
                                   self.r.sample(TAGS, self.r.randint(0, 2))))
        for i in range(self.r.choice([0, 0, 1, 2])):
            self.world.append(("player", "Player%d" % (i + 2),
                               self.r.sample(TAGS, self.r.randint(0, 1))))
        for _ in range(k["structs"]):
            self.struct(out)
        for _ in range(2):
            self.vardef(out)
        todo = ["tmpl"] * max(0, k["templates"] - 1) + ["stmt"] * 2
        out0 = []
        self.tmpl(out)
        self.global_of(out, self.order[-1])
        for t in todo:
            if t == "tmpl":
                self.tmpl(out)
                self.global_of(out, self.order[-1])
            else:
                self.statement(out, 1)
        for _ in range(k["estructs"]):
            self.estruct(out)
        if k["groups"]:
            t = self.r.choice(self.order)
            n = self.name("g")
            out.append(("auto", n, ("gnew", t)))
            self.add(n, gty(t))
        todo = ["def"] * k["funcs"] + ["inline"] * k["inlines"] + \
            ["iface"] * k["ifaces"] + ["stmt"] * k["n_top"] + \
            ["tmpl"] * k["templates2"]
        self.r.shuffle(todo)
        todo.sort(key=lambda t: self.r.random()
                  * (1.0 if t == "stmt" else 0.6))
        for t in todo:
            if t == "stmt":
                self.statement(out, k["block"])
            elif t == "iface":
                self.iface(out)
            elif t == "tmpl":
                self.tmpl(out)
                self.global_of(out, self.order[-1])
            else:
                self.func(out, t)
        self.observe(out)
        self.dump(out)
        return fix(out)

    def estruct(self, out):
        n = self.name("S")
        own = []
        for _ in range(self.r.randint(1, 3)):
            own.append((self.name("q"), self.r.choice(
                ["int", "bool"] + self.order)))
        out.append(("struct", n, [], own))
        self.structs[n] = ([], own)

    def global_of(self, out, t):
        a = self.ctor_args(t)
        if a is None:
            raise UB("constructor arguments")
        n = self.name("e")
        out.append(("auto", n, ("enew", t, a[0], a[1])))
        self.add(n, t)
        up = [b for b in self.tm[t].mro[1:] if b != ENTITY]
        if up:
            # a base-typed variable holding it, or a new one
            b = self.r.choice(up)
            m = self.name("e")
            e = ("v", n)
            if self.chance(0.4):
                a = self.ctor_args(t)
                if a is not None:
                    e = ("enew", t, a[0], a[1])
            out.append(("vardef", m, b, e))
            self.add(m, b)


def fix(x):
    """drop the result type the generator keeps in method calls"""
    if isinstance(x, tuple):
        if x and x[0] == "mcall_":
            x = ("mcall",) + x[1:7]
        elif x and x[0] == "tcall":
            x = x[:5]
        return tuple(fix(y) if isinstance(y, (tuple, list)) else y
                     for y in x)
    return [fix(y) if isinstance(y, (tuple, list)) else y for y in x]


def c3(name, mros):
    """method resolution order, with the builtin base last"""
    try:
        root = type(ENTITY, (), {})
        made = {}

        def build(m):
            if m[0] == ENTITY:
                return root
            return made[m[0]]
        # rebuild the hierarchy from the known orders
        return _c3(name, mros)
    except TypeError:
        return None


def _c3(name, mros):
    seqs = [list(m) for m in mros] + [[m[0] for m in mros]]
    if not mros:
        return [name, ENTITY]
    out = [name]
    seqs = [s for s in seqs if s]
    while seqs:
        for s in seqs:
            c = s[0]
            if not any(c in t[1:] for t in seqs):
                break
        else:
            return None
        out.append(c)
        seqs = [[x for x in t if x != c] for t in seqs]
        seqs = [t for t in seqs if t]
    return out


# --- harness ------------------------------------------------------------------

def make(rng, tries=60, step_limit=3000, **knobs):
    """(program, schedule, reference, world) or None"""
    for _ in range(tries):
        g = EGen(rng, **knobs)
        try:
            prog = g.program()
        except UB:
            continue
        sched = []
        if g.iface_paths or rng.random() < g.k["reruns"]:
            # (None: the main function once more)
            sched = [rng.choice(g.iface_paths + [None] * (
                rng.random() < g.k["reruns"]) or [None])
                for _ in range(rng.randint(1, 4))]
        ref = ERef(step_limit, g.world)
        try:
            ref.run_main(prog)
            for p in sched:
                ref.run_main(prog) if p is None else ref.run_iface(p)
        except UB:
            continue
        if ref.stats["created"] > 40:
            continue
        return prog, sched, ref, g.world
    return None


def run_world(files, sched, world=(), main="main", root="", budget=300000,
              **kw):
    v = vmmod.VM(files, budget=budget, user_objectives=("obs",), **kw)
    for ty, name, tags in world:
        v.add_entity(ty, name=name, tags=tags,
                     pos=world_pos(len(v.entities) + 1))
    trace = []

    def on_raw(vm, ctx, line):
        if line.startswith("snap "):
            trace.append((int(line[5:]), tuple(sorted(
                (h, val) for (h, o), val in vm.scores.items()
                if o == "obs"))))
            return True
        if line.startswith("see "):
            _, n, sel = line.split(" ", 2)
            es = [e.uid for e in vm.select(sel, ctx)]
            trace.append((int(n), (("uid", es[0] if len(es) == 1
                                    else tuple(es)),)))
            return True
        return False
    v.on_raw = on_raw
    pre = root + "/" if root else ""
    v.run_function(pre + main)
    for p in sched:
        v.run_function(pre + (main if p is None else p))
    return trace, v


def world_diff(want, got):
    a, b = {x[0]: x for x in want}, {x[0]: x for x in got}
    for u in sorted(set(a) | set(b)):
        if a.get(u) != b.get(u):
            return "entity %s should be %s but is %s" % (u, a.get(u),
                                                         b.get(u))
    return None


def check(mon, prog, sched, ref, world, cfg=None, key="", style=None,
          srcs=None, faults=("syntax", "literal-range", "missing-func",
                             "undeclared-obj"),
          tolerate=("by 0", "by zero", "Integer overflows")):
    from .gen import diff
    cfg = cfg or {}
    src = srcs or text(prog, style)
    r = kit.compile_src(src, **cfg)
    if not r.ok:
        if r.kind == "error" and any(t in r.message for t in tolerate):
            mon.count("discarded")
            return None
        mon.violation(key + ("refused" if r.kind == "error" else "crash"),
                      "legal program %s: %s" % (
                          "refused" if r.kind == "error" else
                          "crashes the compiler", r.message),
                      source=src, config=cfg, traceback=r.tb or "")
        return None
    try:
        got, v = run_world(r.functions(), sched, world,
                           root=cfg.get("root_folder") or "",
                           main=cfg.get("main_file") or "main")
    except vmmod.BudgetExceeded:
        mon.violation(key + "endless", "generated commands do not stop",
                      source=src, config=cfg)
        return None
    d = diff(ref.trace, got) or world_diff(ref.final(), vm_final(v))
    if d:
        mon.violation(key + "diff", d, source=src, config=cfg,
                      schedule=sched, world=[list(map(str, w))
                                             for w in world])
        return None
    evs = [e[3] for e in v.events if e[0] == "summon"]
    want = [e.event for e in ref.world if e.made]
    if evs != want:
        mon.violation(key + "event", "spawn events should be %s, are %s"
                      % (want, evs), source=src, config=cfg)
        return None
    bad = [f for f in v.faults if f[0] in faults]
    if bad:
        mon.violation(key + "fault", "%s: %s" % bad[0], source=src,
                      config=cfg)
        return None
    return v


def run_case(mon, knobs, seed, need="created", **kw):
    """one random program of the entity language"""
    import random
    rng = random.Random(seed)
    m = make(rng, **knobs)
    if m is None:
        mon.count("discarded")
        return None
    prog, sched, ref, world = m
    v = check(mon, prog, sched, ref, world, **kw)
    mon.evaluated()
    if v is None:
        return None
    mon.count("programs")
    for k, n in ref.stats.items():
        mon.count(k, n)
    mon.count("world_entities", len(ref.world))
    mon.count("commands_executed", v.executed)
    src = text(prog)
    if ref.stats[need]:
        mon.nontrivial(src, world)
    if rng.random() < .01:
        mon.sample(src)
    return m
