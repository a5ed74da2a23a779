"""C23: attribute names."""

import os

from contracts.common import Contract, Concrete, outcome
from contracts import harness
from pyvc.spec import all_same
from libff.registry import Registry
from libff.attribute import Attribute
from libff.exceptions import BaseError, BadAttributeError
from libff.type import Number, String


# ------------------------------------------------------------------------------------ concrete runs
PLUGIN = '''
class {cls}(Plugin):
    """Test plugin."""
    attributes = {attributes}

    def can_handle(self, entry):
        return True

    def process(self, entry, cached):
        return [(name, {n}) for name, _, _ in self.attributes]
'''


def plugin_files(root, plugins):
    for n, (name, attrs) in enumerate(plugins):
        with open(os.path.join(root, f"{name}.py"), "w", encoding="utf-8") as f:
            f.write("from libff.plugin import *\n" + PLUGIN.format(n=n, cls=name.capitalize(), attributes="[" +
                ", ".join(f"({a!r}, Number, 'x')" for a in attrs) + "]"))


def expected(plugins, name):
    """(plugin, attribute) or None if it must be rejected."""
    table = dict((p, list(a)) for p, a in plugins)
    if "." in name:
        p, a = name.split(".", 1)
        return (p, a) if p in table and a in table[p] else None
    owners = [p for p, attrs in table.items() if name in attrs]
    if "file" in owners:
        return "file", name
    return (owners[0], name) if len(owners) == 1 else None


def run_registry(inp):
    plugins, names = inp
    root = harness.scratch("c23")
    try:
        plugin_files(root, plugins)

        class Own(Registry):
            registered_types, registered_plugins, plugins, attributes = set(), {}, {}, {}

            def iter_plugin_dirs(self):
                yield "system", root
        reg = Own(harness.context())
        for name in names:
            want = expected(plugins, name)
            k, a = outcome(lambda: reg.setup_attribute(name))
            if k == "return":
                k, t = outcome(reg.get_attribute_type, a)
                if k == "raise":
                    a = t
            if k == "raise":
                if not isinstance(a, BadAttributeError):
                    return f"{name} of {plugins}: {a!r}"
                if want is not None:
                    return f"{name} of {plugins} is rejected: {a.message}"
            elif want is None or (a.plugin, a.name) != want:
                return f"{name} of {plugins} is {a.plugin}.{a.name}, not {want}"
            elif want[0] != "file":
                k, v = outcome(reg.get_attribute, harness.FakeEntry(), a)
                if (k, v) != ("return", [p for p, _ in plugins].index(want[0])):
                    return f"{name} of {plugins} has the value {v!r}"
    finally:
        harness.remove(root)
    return None


PLUGINS, ATTRS = ["file", "git", "a", "fil", "zz"], ["x", "y", "size", "a", "file"]


def gen_registry(rng):
    ps = rng.sample(PLUGINS, rng.randint(1, 4))
    plugins = [[p, rng.sample(ATTRS, rng.randint(1, 3))] for p in ps]
    names = list(ATTRS) + [p + "." + a for p in PLUGINS for a in rng.sample(ATTRS, 2)] + \
        ["nope", "a.b.c", "", ".x", "a.", "file.file.x"]
    rng.shuffle(names)
    return [plugins, names]


def run_ff(inp):
    """The same name in every place that takes an attribute."""
    plugins, name = inp
    root = harness.scratch("c23ff")
    try:
        os.makedirs(root + "/plugins")
        plugin_files(root + "/plugins", plugins)
        harness.tree(root, {"t/a": "12345"})
        want = expected([["file", ["size", "name", "depth"]], ["grep", ["text"]]] + plugins, name)
        value = None if want is None else {"size": 5, "depth": 0}[want[1]] if want[0] == "file" \
            else [p for p, _ in plugins].index(want[0])
        runs = [([f"{name}={value}"], "a\n"), (["-o", name], f"{value}\n"), (["-S", name], "a\n"),
            (["--exclude", f"{name}={value}"], ""),
            (["--exec", "echo", "{" + name + "}"], f"{value}\n"),
            (["--exec-batch", "echo", "{" + name + "}"], f"{value}\n"), (["--count", name], None)]
        for argv, out in runs:
            r = harness.ff(["--no-cache", "-j1"] + argv, root + "/t",
                {"FF_PLUGIN_DIRS": root + "/plugins"})
            if want is None and (r[0] != 11 or r[1]):
                return f"ff {argv} with {plugins} is not rejected: {r}"
            if want is not None and (r[0] != 0 or out is not None and r[1] != out):
                return f"ff {argv} with {plugins} gives {r}, not {out!r}"
    finally:
        harness.remove(root)
    return None


CONCRETE = [
    Concrete("registry", run_registry, gen_registry, [
        [[["file", ["x"]], ["a", ["x"]], ["git", ["x"]]], ["x", "a.x", "file.x", "git.x"]],
        [[["a", ["x"]], ["git", ["x"]]], ["x", "a.x", "git.x", "file.x"]],
        [[["a", ["x"]]], ["x", "a.x", "a.y", "y", "a"]]], count=3000),
    Concrete("ff", run_ff, None, [[[["pp", ["pa", "size"]], ["qq", ["qa", "both"]],
        ["rr", ["both"]]], n] for n in ("pa", "pp.pa", "size", "pp.size", "file.size", "both",
        "qq.both", "rr.both", "none", "pp.none", "none.pa", "depth")], timeout=60),
]


# ---------------------------------------------------------------------------------------- contracts
class Attr:
    """An attribute in the contracts."""


def world(E):
    from pyvc.values import Opaque, STR, SObj
    attr_ty = Opaque("Attr", attrs={"plugin": STR, "name": STR})
    attributes = E.list_input("attributes", attr_ty)

    def make(E, *args, **kw):
        names = ["plugin", "name", "alias"]
        if len(args) > 3:
            E.throw(TypeError, "arguments")
        fields = {**dict(zip(names, args)), **kw}
        if "plugin" not in fields or "name" not in fields:
            E.throw(TypeError, "arguments")
        return SObj(E, Attr, {"alias": None, **fields})
    E.model(Attribute, make)
    return attributes, attr_ty


def owners(attributes, name):
    return [a.plugin for a in attributes if a.name == name]


def resolved(plugin, name, wanted, attributes):
    """A bare name is resolved as documented."""
    if name != wanted:
        return False
    found = owners(attributes, wanted)
    if "file" in found:
        return plugin == "file"
    return plugin in found and all(p == plugin for p in found)


def resolvable(wanted, attributes):
    found = owners(attributes, wanted)
    return "file" in found or len(found) > 0 and all_same(found)


def c_bare(E):
    from pyvc.values import STR, SObj
    attributes, _ = world(E)
    name = E.input("name", STR)
    E.assume(E.spec(lambda n: "." not in n, name))
    reg = SObj(E, Registry, {"attributes": attributes})
    k, r = E.call_outcome(Registry.parse_attribute, reg, name)
    if k == "return":
        E.ensure("a bare name is the file attribute or that of the only plugin that has it",
            E.spec(resolved, E.getattr(r, "plugin"), E.getattr(r, "name"), name, attributes))
    else:
        E.ensure("an unknown or ambiguous name is an attribute error",
            E.is_exc(r, BadAttributeError))
        E.ensure("only an unknown or ambiguous name is rejected",
            E.spec(lambda n, a: not resolvable(n, a), name, attributes))


def c_qualified(E):
    from pyvc.values import STR, SObj
    attributes, _ = world(E)
    p, a = E.input("plugin", STR), E.input("attribute", STR)
    E.assume(E.spec(lambda p: "." not in p, p))
    reg = SObj(E, Registry, {"attributes": attributes})
    name = E.spec(lambda p, a: p + "." + a, p, a)
    k, r = E.call_outcome(Registry.parse_attribute, reg, name)
    E.ensure("a qualified name is understood", k == "return")
    if k == "return":
        E.ensure("a qualified name is that plugin's attribute", E.spec(
            lambda rp, ra, p, a: rp == p and ra == a, E.getattr(r, "plugin"), E.getattr(r, "name"),
            p, a))


class Lock:
    def __enter__(self):
        return self

    def __exit__(self, *exc):
        return False


class Env:
    """Context."""


def c_setup(E):
    """setup_attribute: an attribute of an unknown plugin is rejected, otherwise it is set up."""
    from pyvc.values import STR, SObj
    world(E)
    registered, ready = E.list_input("registered", STR), E.list_input("ready", STR)
    p, a = E.input("plugin", STR), E.input("attribute", STR)
    attribute = SObj(E, Attr, {"plugin": p, "name": a, "alias": a})
    E.model(Registry.parse_attribute, lambda E, reg, name: attribute)
    E.ghosts["inited"] = E.new_list([], ty=STR)

    def init(E, reg, name):
        E.ghosts["inited"].pieces.append(name)
    E.model(Registry.init_plugin, init)
    ctx = SObj(E, Env, {"global_lock": SObj(E, Lock)})
    reg = SObj(E, Registry, {"registered_plugins": registered, "plugins": ready, "context": ctx})
    k, r = E.call_outcome(Registry.setup_attribute, reg, "x")
    if k == "return":
        E.ensure("only attributes of known plugins are accepted",
            E.spec(lambda p, l: p in l, p, registered))
        E.ensure("the attribute is the one that was resolved", E.spec(
            lambda rp, ra, p, a: rp == p and ra == a, E.getattr(r, "plugin"), E.getattr(r, "name"),
            p, a))
        E.ensure("the plugin of the attribute, and no other, has been set up", E.spec(set_up, p,
            ready, E.ghosts["inited"]))
    else:
        E.ensure("an unknown plugin is an attribute error", E.is_exc(r, BadAttributeError))
        E.ensure("only attributes of unknown plugins are rejected",
            E.spec(lambda p, l: p not in l, p, registered))


def set_up(p, ready, inited):
    return (p in ready or p in inited) and all(x == p for x in inited)


def c_type(E):
    """get_attribute_type: the type of a known attribute, an attribute error otherwise."""
    from pyvc.values import Opaque, SData, SObj, BOOL
    import z3
    known = E.input("known", BOOL)
    type_ty = Opaque("TypeCls")
    t = SData(z3.Const("type", type_ty.sort()), type_ty)

    def lookup(E, o, key, default=None):
        if not E.truth(known):
            E.throw(KeyError, "attribute")
        return t
    table_ty = Opaque("Table", methods={"__getitem__": lookup, "get": lambda E, o, key, default=None:
        t if E.truth(known) else default, "__contains__": lambda E, o, key: known})
    table = SData(z3.Const("table", table_ty.sort()), table_ty)
    reg = SObj(E, Registry, {"attributes": table})
    attribute = SObj(E, Attr, {"plugin": "p", "name": "n", "alias": "n"})
    k, r = E.call_outcome(Registry.get_attribute_type, reg, attribute)
    if k == "return":
        E.ensure("a known attribute has its type", E.spec(lambda k, r, t: k and r is t, known, r, t))
    else:
        E.ensure("an unknown attribute is an attribute error", E.is_exc(r, BadAttributeError))
        E.ensure("only unknown attributes are rejected", E.spec(lambda k: not k, known))


def from_model(label, inputs):
    attrs = {}
    names = set()
    for a in inputs.get("attributes", []):
        attrs.setdefault(a.get("plugin") or "p", set()).add(a.get("name") or "x")
        names.add(a.get("name") or "x")
    ok = lambda s: s.isidentifier()
    if all(ok(p) and all(map(ok, s)) for p, s in attrs.items()):
        yield [[[p, sorted(s)] for p, s in attrs.items()], sorted(names) + [inputs.get("name", "x")]]


CONTRACTS = [
    Contract("parse_attribute/bare", c_bare, "registry", from_model),
    Contract("parse_attribute/qualified", c_qualified, "registry", from_model),
    Contract("setup_attribute", c_setup),
    Contract("get_attribute_type", c_type),
]
ASSUMPTIONS = ["the table of attributes, filled when the plugins are loaded, is a list of "
    "(plugin, name) pairs"]
cleanup = harness.cleanup
