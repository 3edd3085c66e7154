#!/usr/bin/env python3
"""Emits src/gen.rs: the simulated schemas with the glue that drives them.

A field is (name, tag, type[, "ns"]); "ns" marks a field that isn't state.
"""

out = []
P = out.append

DERIVES = "Clone, PartialEq, Debug, State"


def attr(parts):
    return "#[steit(%s)]" % ", ".join(parts) if parts else ""


class Flags(str):
    """Truthy if the field isn't state; knows the name of the field in C#, if given."""
    cs = None
    more = ""
    eq = True


def flags(text):
    parts = text.split(",") if text else []
    x = Flags("ns" if "ns" in parts else "")
    for p in parts:
        if p.startswith("cs="):
            x.cs = p[3:]
        if p in ("no_eq_hash", "no_hash"):
            x.more += ", " + p
        if p == "no_eq_hash":
            x.eq = False
    return x


def split_fields(fields):
    return [(f[0], f[1], f[2], f[3] if len(f) > 3 and isinstance(f[3], Flags) else flags(f[3] if len(f) > 3 else "")) for f in fields]


def extra(ns):
    """Attributes after the tag."""
    return (", no_state" if ns else "") + (", csharp_name = \"%s\"" % ns.cs if ns.cs else "") + ns.more


def camel(name):
    return "".join(p[:1].upper() + p[1:] for p in name.split("_"))


def class_name(name, attrs):
    for a in attrs:
        if a.startswith("csharp_name"):
            return a.split('"')[1]
    return name


def node(ty, ns):
    return "<%s as %s>" % (ty, "Leaf" if ns else "Node")


# Types that contain a `Map` or `HashMap` somewhere.
NO_HASH = {"Vault", "Shape", "Tree", "Doc", "Mess", "Crate", "Slot", "Gallery", "DocV1", "DocV2", "KindV2", "Album", "Tuples"}


def hashable(ty):
    import re
    return not any(w in NO_HASH or w in ("Map", "HashMap", "Items") for w in re.findall(r"\w+", ty))


def derives(base, name):
    return base + ", Hash" if hashable(name) else base


def field_meta(name, tag, ty, ns, cs=None):
    cs = cs or camel((isinstance(ns, Flags) and ns.cs) or name)
    return "Field { name: %s, cs: \"%s\", tag: %d, state: %s, eq: %s, ty: %s::ty(reg) }" % (
        '"%s"' % name, cs, tag, "false" if ns else "true", "false" if isinstance(ns, Flags) and not ns.eq else "true", node(ty, ns))


def gen_header(generics, bound="Node"):
    if not generics:
        return "", ""
    return ("<%s>" % ", ".join("%s: %s" % (g, bound) for g in generics),
            "<%s>" % ", ".join(generics))


def struct(name, fields, tup=False, attrs=(), ctor="new", generics=(), meta=True, split=()):
    fields = split_fields(fields)
    attrs = list(attrs)
    if not meta:
        attrs.append("no_meta")
    if ctor != "new":
        attrs.append('ctor_prefix = "%s"' % ctor)
    impl_g, ty_g = gen_header(generics)
    P("#[steit_derive(%s)]" % derives(DERIVES, name))
    P(attr(attrs))
    decl_g = "<%s>" % ", ".join("%s: State" % g for g in generics) if generics else ""
    if tup:
        P("pub struct %s%s(%s);" % (name, decl_g, ", ".join(
            "#[steit(tag = %d%s)] pub %s" % (t, extra(ns), ty)
            for (_, t, ty, ns) in fields)))
        alias = ["f%d" % i for i in range(len(fields))]
        access = ["%d" % i for i in range(len(fields))]
    else:
        P("pub struct %s%s {" % (name, decl_g))
        for (n, t, ty, ns) in fields:
            P("    #[steit(tag = %d%s)] pub %s: %s," % (t, extra(ns), n, ty))
        P("}")
        alias = [n for (n, _, _, _) in fields]
        access = alias
    P("impl%s Node for %s%s {" % (impl_g, name, ty_g))
    P("    fn ty(reg: &mut Reg) -> Ty {")
    P("        reg.def(std::any::type_name::<Self>(), |reg| Def { name: \"%s\".to_string(), cs: \"%s\", state: true, kind: Kind::Struct(vec![" % (name, class_name(name, attrs)))
    for i, (n, t, ty, ns) in enumerate(fields):
        P("            %s," % field_meta(alias[i], t, ty, ns))
    P("        ]) })")
    P("    }")
    P("    fn build(v: &Val, rt: Runtime) -> Self {")
    P("        let mut s = Self::%s(rt);" % ctor)
    P("        let xs = v.list();")
    for i, (n, t, ty, ns) in enumerate(fields):
        if ns:
            P("        s.set_%s(Leaf::build(&xs[%d]));" % (alias[i], i))
        elif i % 2:
            P("        s.set_%s(Node::build(&xs[%d], Runtime::new()));" % (alias[i], i))
        else:
            P("        s.set_%s_with(|rt| Node::build(&xs[%d], rt));" % (alias[i], i))
    P("        s")
    P("    }")
    P("    fn obs(&self) -> Val {")
    P("        Val::L(vec![%s])" % ", ".join(
        "%s::obs(&self.%s)" % (node(ty, ns), access[i]) for i, (n, t, ty, ns) in enumerate(fields)))
    P("    }")
    P("    fn aside(&self) {")
    P("        let x = Self::%s(self.runtime().clone());" % ctor)
    P("        assert!(x == Self::with_runtime(self.runtime().nested(1)), \"what the constructor makes\");")
    for i, (n, t, ty, ns) in enumerate(fields):
        if not ns:
            P("        self.%s.aside();" % access[i])
    P("    }")
    P("    fn act(&mut self, path: &[u32], act: &Act, cx: &mut Cx) -> bool {")
    P("        if let Some((&tag, rest)) = path.split_first() {")
    P("            return match tag {")
    for i, (n, t, ty, ns) in enumerate(fields):
        if not ns:
            P("                %d => self.%s.act(rest, act, cx)," % (t, access[i]))
    P("                _ => false,")
    P("            };")
    P("        }")
    P("        match act {")
    for i, (n, t, ty, ns) in enumerate(fields):
        if ns:
            P("            Act::SetNs { tag: %d, val } => { self.set_%s(Leaf::build(val)); true }" % (t, alias[i]))
        else:
            P("            Act::Set { tag: %d, val, how } => attach!(%s, val, how, cx, |x| { self.set_%s(x); }, |f| { self.set_%s_with(f); })," % (t, ty, alias[i], alias[i]))
    P("            _ => false,")
    P("        }")
    P("    }")
    P("}")
    if split:
        P("impl Split for %s {" % name)
        P("    fn split(&mut self) -> Vec<(Vec<u32>, Box<dyn Actor + Send + '_>)> {")
        P("        let mut parts: Vec<(Vec<u32>, Box<dyn Actor + Send + '_>)> = Vec::new();")
        for i, (n, t, ty, ns) in enumerate(fields):
            if ns:
                continue
            if n in split:
                P("        for (i, x) in self.%s.iter_mut().enumerate() { parts.push((vec![%d, i as u32], Box::new(x))); }" % (access[i], t))
            else:
                P("        parts.push((vec![%d], Box::new(&mut self.%s)));" % (t, access[i]))
        P("        parts")
        P("    }")
        P("}")
    P("")


def enum(name, variants, ctor="new", attrs=(), generics=(), meta=True):
    """variants: (Name, snake, tag, style, fields); style in unit, tup, named"""
    attrs = list(attrs)
    if not meta:
        attrs.append("no_meta")
    if ctor != "new":
        attrs.append('ctor_prefix = "%s"' % ctor)
    impl_g, ty_g = gen_header(generics)
    P("#[steit_derive(%s)]" % derives(DERIVES, name))
    P(attr(attrs))
    P("pub enum %s%s {" % (name, "<%s>" % ", ".join("%s: State" % g for g in generics) if generics else ""))
    vs = []
    for (vn, snake, vtag, style, fields) in variants:
        fields = split_fields(fields)
        P("    #[steit(tag = %d)]" % vtag)
        if style == "unit":
            P("    %s," % vn)
        elif style == "tup":
            P("    %s(%s)," % (vn, ", ".join(
                "#[steit(tag = %d%s)] %s" % (t, extra(ns), ty) for (_, t, ty, ns) in fields)))
        else:
            P("    %s { %s }," % (vn, ", ".join(
                "#[steit(tag = %d%s)] %s: %s" % (t, extra(ns), n, ty) for (n, t, ty, ns) in fields)))
        alias = ["f%d" % i if style == "tup" else f[0] for i, f in enumerate(fields)]
        if style == "tup":
            pat = "%s::%s(%s)" % (name, vn, ", ".join(alias + [".."]))
        else:
            pat = "%s::%s { %s }" % (name, vn, ", ".join(alias + [".."]))
        vs.append((vn, snake, vtag, fields, alias, pat))
    P("}")
    P("impl%s Node for %s%s {" % (impl_g, name, ty_g))
    P("    fn ty(reg: &mut Reg) -> Ty {")
    P("        reg.def(std::any::type_name::<Self>(), |reg| Def { name: \"%s\".to_string(), cs: \"%s\", state: true, kind: Kind::Enum(vec![" % (name, class_name(name, attrs)))
    for (vn, snake, vtag, fields, alias, pat) in vs:
        P("            Variant { name: \"%s\", tag: %d, fields: vec![%s] }," % (vn, vtag, ", ".join(
            field_meta(alias[i], t, ty, ns) for i, (n, t, ty, ns) in enumerate(fields))))
    P("        ]) })")
    P("    }")
    P("    #[allow(unused_mut, unused_variables)]")
    P("    fn build(v: &Val, rt: Runtime) -> Self {")
    P("        let (tag, xs) = v.variant();")
    P("        match tag {")
    for (vn, snake, vtag, fields, alias, pat) in vs:
        P("            %d => {" % vtag)
        P("                let mut s = Self::%s_%s(rt);" % (ctor, snake))
        for i, (n, t, ty, ns) in enumerate(fields):
            setter = "set_%s_%s" % (snake, alias[i])
            if ns:
                P("                s.%s(Leaf::build(&xs[%d]));" % (setter, i))
            elif i % 2:
                P("                s.%s(Node::build(&xs[%d], Runtime::new()));" % (setter, i))
            else:
                P("                s.%s_with(|rt| Node::build(&xs[%d], rt));" % (setter, i))
        P("                s")
        P("            }")
    P("            _ => unreachable!(),")
    P("        }")
    P("    }")
    P("    fn obs(&self) -> Val {")
    P("        match self {")
    for (vn, snake, vtag, fields, alias, pat) in vs:
        P("            %s => Val::E(%d, vec![%s])," % (pat, vtag, ", ".join(
            "%s::obs(%s)" % (node(ty, ns), alias[i]) for i, (n, t, ty, ns) in enumerate(fields))))
    P("        }")
    P("    }")
    P("    #[allow(unused_variables)]")
    P("    fn aside(&self) {")
    for (vn, snake, vtag, fields, alias, pat) in vs:
        P("        let x = Self::%s_%s(self.runtime().nested(%d));" % (ctor, snake, vtag))
        P("        assert!(Node::obs(&x).variant().0 == %d, \"what the constructor makes\");" % vtag)
    P("        match self {")
    for (vn, snake, vtag, fields, alias, pat) in vs:
        P("            %s => {" % pat)
        for i, (n, t, ty, ns) in enumerate(fields):
            if not ns:
                P("                %s.aside();" % alias[i])
        P("            }")
    P("        }")
    P("    }")
    P("    #[allow(unused_variables)]")
    P("    fn act(&mut self, path: &[u32], act: &Act, cx: &mut Cx) -> bool {")
    P("        if path.len() > 1 {")
    P("            return match (path[0], path[1], self) {")
    for (vn, snake, vtag, fields, alias, pat) in vs:
        for i, (n, t, ty, ns) in enumerate(fields):
            if not ns:
                P("                (%d, %d, %s) => %s.act(&path[2..], act, cx)," % (vtag, t, pat, alias[i]))
    P("                _ => false,")
    P("            };")
    P("        }")
    P("        if !path.is_empty() { return false; }")
    P("        match act {")
    for (vn, snake, vtag, fields, alias, pat) in vs:
        for i, (n, t, ty, ns) in enumerate(fields):
            setter = "set_%s_%s" % (snake, alias[i])
            if ns:
                P("            Act::VSetNs { vtag: %d, tag: %d, val } => { self.%s(Leaf::build(val)); true }" % (vtag, t, setter))
            else:
                P("            Act::VSet { vtag: %d, tag: %d, val, how } => attach!(%s, val, how, cx, |x| { self.%s(x); }, |f| { self.%s_with(f); })," % (vtag, t, ty, setter, setter))
    P("            _ => false,")
    P("        }")
    P("    }")
    P("}")
    P("")


def message(name, fields, generics=(), tup=False):
    fields = split_fields(fields)
    impl_g, ty_g = gen_header(generics, "Leaf + Default + steit::meta::HasMeta")
    P("#[steit_derive(%s)]" % derives("Clone, PartialEq, Eq, Debug, Serialize, Deserialize", name))
    if tup:
        P("pub struct %s%s(%s);" % (name, ty_g, ", ".join("#[steit(tag = %d)] pub %s" % (t, ty) for (_, t, ty, _) in fields)))
        fields = [("f%d" % i, t, ty, ns) for i, (_, t, ty, ns) in enumerate(fields)]
    else:
        P("pub struct %s%s {" % (name, ty_g))
        for (n, t, ty, ns) in fields:
            P("    #[steit(tag = %d)] pub %s: %s," % (t, n, ty))
        P("}")
    access = [str(i) if tup else f[0] for i, f in enumerate(fields)]
    P("impl%s Leaf for %s%s {" % (impl_g, name, ty_g))
    P("    fn ty(reg: &mut Reg) -> Ty {")
    P("        reg.def(std::any::type_name::<Self>(), |reg| Def { name: \"%s\".to_string(), cs: \"%s\", state: false, kind: Kind::Struct(vec![" % (name, name))
    for (n, t, ty, ns) in fields:
        P("            %s," % field_meta(n, t, ty, True))
    P("        ]) })")
    P("    }")
    P("    fn build(v: &Val) -> Self {")
    P("        #[allow(unused_mut)] let mut s = Self::new();")
    P("        let _ = v;")
    for i, (n, t, ty, ns) in enumerate(fields):
        P("        s.%s = Leaf::build(&v.list()[%d]);" % (access[i], i))
    P("        s")
    P("    }")
    P("    fn obs(&self) -> Val { Val::L(vec![%s]) }" % ", ".join(
        "<%s as Leaf>::obs(&self.%s)" % (ty, access[i]) for i, (n, t, ty, ns) in enumerate(fields)))
    P("}")
    P("")


def message_enum(name, variants):
    P("#[steit_derive(%s)]" % derives("Clone, PartialEq, Eq, Debug, Serialize, Deserialize", name))
    P("pub enum %s {" % name)
    # Fields without names make a tuple variant, None makes a unit variant.
    shapes = {}
    named = []
    for (vn, snake, vtag, fields) in variants:
        if fields is None:
            P("    #[steit(tag = %d)] %s," % (vtag, vn))
            shapes[vn] = "unit"
            fields = []
        elif fields and not fields[0][0]:
            P("    #[steit(tag = %d)] %s(%s)," % (vtag, vn, ", ".join("#[steit(tag = %d)] %s" % (t, ty) for (n, t, ty) in fields)))
            shapes[vn] = "tup"
            fields = [("f%d" % i, t, ty) for i, (n, t, ty) in enumerate(fields)]
        else:
            P("    #[steit(tag = %d)] %s { %s }," % (vtag, vn, ", ".join("#[steit(tag = %d)] %s: %s" % (t, n, ty) for (n, t, ty) in fields)))
            shapes[vn] = "named"
        named.append((vn, snake, vtag, fields))
    variants = named

    def pattern(vn, fields):
        names = ", ".join([n for (n, _, _) in fields] + [".."])
        return "%s::%s%s" % (name, vn, "(%s)" % names if shapes[vn] == "tup" else " { %s }" % names)

    P("}")
    P("impl Leaf for %s {" % name)
    P("    fn ty(reg: &mut Reg) -> Ty {")
    P("        reg.def(std::any::type_name::<Self>(), |reg| Def { name: \"%s\".to_string(), cs: \"%s\", state: false, kind: Kind::Enum(vec![" % (name, name))
    for (vn, snake, vtag, fields) in variants:
        P("            Variant { name: \"%s\", tag: %d, fields: vec![%s] }," % (vn, vtag, ", ".join(field_meta(n, t, ty, True) for (n, t, ty) in fields)))
    P("        ]) })")
    P("    }")
    P("    fn build(v: &Val) -> Self {")
    P("        let (tag, xs) = v.variant();")
    P("        let _ = xs;")
    P("        match tag {")
    for (vn, snake, vtag, fields) in variants:
        P("            %d => {" % vtag)
        P("                #[allow(unused_mut)] let mut s = Self::new_%s();" % snake)
        if fields:
            P("                if let %s = &mut s { %s }" % (
                pattern(vn, fields),
                " ".join("*%s = Leaf::build(&xs[%d]);" % (n, i) for i, (n, t, ty) in enumerate(fields))))
        P("                s")
        P("            }")
    P("            _ => unreachable!(),")
    P("        }")
    P("    }")
    P("    fn obs(&self) -> Val {")
    P("        match self {")
    for (vn, snake, vtag, fields) in variants:
        P("            %s => Val::E(%d, vec![%s])," % (
            pattern(vn, fields), vtag,
            ", ".join("<%s as Leaf>::obs(%s)" % (ty, n) for (n, t, ty) in fields)))
    P("        }")
    P("    }")
    P("}")
    P("")


P("// Generated by gen.py; do not edit.")
P("use super::node::*;\nuse super::{generate, hash_of, schema, Schema};")
P("")

# Every primitive, with tags around the sizes of their encodings.
struct("Prims", [
    ("a", 0, "u8"), ("b", 1, "u16"), ("c", 15, "u32"), ("d", 16, "u64"),
    ("e", 127, "i8"), ("f", 128, "i16"), ("g", 2047, "i32"), ("h", 2048, "i64"),
    ("i", 262144, "bool"), ("j", 536870911, "u64"),
])
struct("Item", [("id", 0, "u32"), ("score", 1, "i32"), ("on", 2, "bool")], ctor="fresh")
message("Note", [("at", 0, "u64"), ("text", 1, "String"), ("refs", 5, "Vec<u32>")])
message_enum("Mood", [("Calm", "calm", 0, []), ("Wild", "wild", 9, [("level", 0, "i16"), ("why", 3, "Option<String>")])])
message("Coin", [("", 0, "u64"), ("", 4, "Bytes"), ("", 2, "Option<i8>")], tup=True)
message("Nil", [], tup=False)
message_enum("Face", [
    ("Tails", "tails", 3, [("", 0, "i32"), ("", 6, "Coin")]), ("Edge", "edge", 0, None),
    ("Heads", "heads", 1, [("coin", 5, "Coin"), ("nil", 0, "Nil"), ("next", 9, "Vec<Face>")]),
])
# Values that are opaque to the log.
struct("Profile", [
    ("name", 0, "String", "ns"), ("level", 1, "u16"), ("tags", 2, "Vec<u32>", "ns"),
    ("notes", 3, "Vec<String>", "ns"), ("title", 4, "Option<String>", "ns"), ("blob", 5, "Bytes", "ns"),
    ("grid", 6, "[u16; 3]", "ns"), ("note", 7, "Note", "ns"), ("mood", 8, "Mood", "ns"),
    ("history", 9, "Vec<Note>", "ns"), ("friends", 10, "List<u64>"), ("seen", 11, "bool", "ns"),
    ("lucky", 12, "Option<u8>", "ns"),
])
struct("Vault", [
    ("coins", 0, "HashMap<u8, String>", "ns"), ("pair", 1, "(u8, String)", "ns"),
    ("trio", 2, "Vec<(u16, bool, i64)>", "ns"), ("by_color", 3, "Map<Color, u32>"),
    ("owners", 4, "Map<Color, Item>"), ("counts", 5, "HashMap<String, Vec<i32>>", "ns"),
], meta=False)
struct("Pair", [("", 0, "i32"), ("", 1, "List<u8>"), ("", 2, "Maybe<u16>"), ("", 9, "String", "ns")], tup=True)
struct("Bare", [("x", 0, "i64"), ("inner", 1, "BareInner"), ("xs", 2, "List<BareInner>")], attrs=["no_size_cache"])
struct("BareInner", [("y", 0, "u32"), ("z", 1, "List<i16>")], attrs=["no_size_cache"])
struct("Renamed", [("size_cache", 0, "u32"), ("runtime", 1, "List<u32>"), ("path", 2, "Maybe<Item>")],
       attrs=['size_cache_renamed = "sc"', 'runtime_renamed = "rt"'])
struct("Empty", [])
enum("Shape", [
    ("Nothing", "nothing", 0, "unit", []),
    ("Dot", "dot", 3, "tup", [("", 0, "i32"), ("", 1, "u8")]),
    ("Group", "group", 200, "named", [("label", 0, "String", "ns"), ("items", 1, "List<Item>"), ("by_key", 2, "Map<u8, i64>"), ("best", 3, "Item")]),
    ("Deep", "deep", 4, "named", [("inner", 7, "Maybe<Item>"), ("weight", 1, "u64")]),
    ("Blank", "blank", 5, "named", []),
])
# The default variant carries data; its tag 0 is not first.
enum("Mode", [
    ("Off", "off", 1, "unit", []),
    ("Run", "run", 0, "named", [("speed", 0, "u32"), ("steps", 1, "List<u16>")]),
    ("Jump", "jump", 2, "tup", [("", 4, "Box<Item>")]),
], ctor="make")
struct("Wrap", [("value", 0, "T"), ("version", 1, "u32")], generics=("T",))
enum("Either", [
    ("Left", "left", 0, "tup", [("", 0, "A")]),
    ("Right", "right", 1, "named", [("b", 0, "B"), ("extra", 1, "u8")]),
], generics=("A", "B"))
struct("Tree", [("value", 0, "i32"), ("children", 1, "List<Tree>"), ("link", 2, "Maybe<Box<Tree>>"), ("named", 3, "Map<u16, Tree>")])
struct("Doc", [
    ("title", 0, "String", "ns"), ("rev", 1, "u64"), ("items", 2, "List<Item>"), ("index", 3, "Map<u16, Item>"),
    ("shape", 4, "Shape"), ("focus", 5, "Maybe<Item>"), ("boxed", 6, "Box<Item>"), ("matrix", 7, "List<List<i32>>"),
    ("groups", 8, "Map<u8, List<Maybe<u32>>>"), ("flags", 9, "List<bool>"), ("shapes", 10, "Map<u32, Shape>"),
    ("twice", 11, "Maybe<Maybe<u8>>"), ("mode", 12, "Mode"), ("profile", 13, "Profile"), ("wrapped", 14, "Wrap<List<u32>>"),
    ("choice", 15, "Either<Item, Map<u8, u16>>"), ("pairs", 16, "List<Pair>"), ("prims", 17, "Prims"),
    ("boxes", 18, "List<Box<Shape>>"), ("empty", 19, "List<Empty>"), ("tries", 20, "Map<u8, Map<u8, Item>>"),
])
struct("Mess", [("vault", 0, "Vault"), ("vaults", 1, "List<Vault>"), ("bare", 2, "Bare"), ("renamed", 3, "Map<u8, Renamed>"), ("pad", 4, "u32")], meta=False)

# Shareable between threads (no `Map`, which is neither `Send` nor `Sync`).
struct("Member", [("hp", 0, "i32"), ("mana", 1, "u64"), ("bag", 2, "List<Item>"), ("shape", 3, "Mode"), ("pet", 4, "Maybe<Item>"), ("name", 5, "String", "ns")])
struct("Team", [("members", 0, "List<Member>"), ("score", 1, "Item"), ("log", 2, "List<u32>"), ("mode", 3, "Mode"), ("inner", 4, "Wrap<List<Item>>"), ("lead", 5, "Maybe<Member>"), ("boxed", 6, "Box<Member>"), ("choice", 7, "Either<Item, List<u32>>"), ("bare", 8, "Bare"), ("about", 9, "Profile"), ("rows", 10, "List<List<i16>>"), ("pair", 11, "Pair")], split=("members",))

# For clients: types behind aliases and boxes, names of their own, messages of every kind.
struct("Lid", [("angle", 0, "i16"), ("seal", 3, "Seal")])
enum("Seal", [("Open", "open", 0, "unit", []), ("Shut", "shut", 6, "tup", [("", 0, "Wax"), ("", 5, "u64")])])
struct("Wax", [("drops", 0, "List<u8>"), ("color_code", 4, "u32")])
struct("Crate", [("lid", 0, "Lid"), ("slots", 1, "Map<u8, Slot>"), ("weight_kg", 2, "i64", "cs=mass")], attrs=['csharp_name = "Chest"'])
struct("Slot", [("used", 0, "bool"), ("inside", 2, "Maybe<Box<Crate>>")])
P("pub type Items = Map<u16, Item>;")
P("pub type Row = List<i32>;")
P("pub type Held = Box<Lid>;")
message("Label", [("text", 0, "String"), ("weight", 1, "i8"), ("spots", 2, "Vec<[i64; 2]>"), ("raw", 3, "Bytes"), ("mood", 7, "Option<Mood>")])
message("Tagged", [("mark", 0, "u8"), ("body", 1, "T"), ("more", 2, "Vec<T>")], generics=("T",))
struct("Gallery", [
    ("crate_box", 0, "Box<Crate>"), ("items", 1, "Items"), ("rows", 2, "List<Row>"), ("held", 3, "Held"),
    ("label", 4, "Label", "ns"), ("labels", 5, "Vec<Option<Label>>", "ns"), ("by_row", 6, "Either<Items, Row>"),
    ("maybe_map", 7, "Maybe<Items>"), ("user_id", 8, "u64", "cs=owner_number"), ("wrapped", 9, "Wrap<Wrap<Items>>"),
    ("tagged", 10, "Tagged<u32>", "ns"), ("tagged_note", 11, "Tagged<Note>", "ns"), ("opt_vec", 12, "Option<Vec<bool>>", "ns"),
    ("vecs", 13, "Vec<Vec<Bytes>>", "ns"), ("seal", 14, "Seal"), ("tree", 15, "Tree"),
    ("lists", 16, "Wrap<Map<u8, Box<Mode>>>"), ("in_order", 17, "List<Maybe<Map<u16, Seal>>>"),
])

# Messages and leaves of every shape.
struct("Purse", [
    ("coin", 0, "Coin", "ns"), ("nil", 1, "Nil", "ns"), ("face", 2, "Face", "ns"), ("faces", 3, "Vec<Face>", "ns"),
    ("ones", 4, "[u8; 1]", "ns"), ("fours", 5, "[i64; 4]", "ns"), ("fives", 6, "[bool; 5]", "ns"), ("sixes", 7, "[Coin; 6]", "ns"),
    ("sevens", 8, "[String; 7]", "ns"), ("boxed", 9, "Box<Face>", "ns"), ("twice", 10, "Option<Option<u8>>", "ns"),
    ("nils", 11, "Vec<Nil>", "ns"), ("maybe_nil", 12, "Option<Nil>", "ns"), ("rows", 13, "[[u16; 2]; 3]", "ns"),
    ("detached", 14, "Option<Box<Coin>>", "ns"), ("kept", 15, "List<Item>"),
], attrs=["reserved_tags(16, 17)"])
struct("Tuples", [
    ("four", 0, "(u8, i16, bool, String)", "ns"), ("five", 1, "(u64, Bytes, i64, u32, Face)", "ns"),
    ("six", 2, "(Coin, u8, Nil, i8, Vec<u8>, bool)", "ns"), ("seven", 3, "Vec<(u8, u16, u32, u64, i8, i16, Option<(u8, String)>)>", "ns"),
    ("deep", 4, "HashMap<(u8, bool), HashMap<String, Coin>>", "ns"), ("purse", 5, "Maybe<Purse>"),
], meta=False)

# Fields that don't take part in comparisons.
struct("Ledger", [
    ("id", 0, "u32"), ("memo", 1, "String", "ns,no_eq_hash"), ("total", 2, "u64", "no_hash"), ("rows", 3, "List<Row>", "no_eq_hash"),
    ("last", 4, "Stamp"), ("stamps", 5, "List<Stamp>"),
])
enum("Stamp", [
    ("Blank", "blank", 0, "named", [("note", 0, "u16", "no_eq_hash")]),
    ("Dated", "dated", 1, "tup", [("", 0, "u64"), ("", 1, "Maybe<Item>", "no_hash"), ("", 2, "String", "ns,no_eq_hash")]),
])
struct("Album", [("ledgers", 0, "Map<u8, Ledger>"), ("cover", 1, "Box<Ledger>"), ("shapes", 2, "Map<u16, Maybe<Shape>>")])

# What the generated code gets wrong (see known-findings.txt).
struct("Postcard", [("number", 0, "u8"), ("stamp", 1, "Tagged<String>", "ns")])

# Two versions of one schema.
struct("PartV1", [("id", 0, "u32"), ("gone", 3, "List<u16>"), ("size", 4, "i32")])
struct("PartV2", [("id", 0, "u32"), ("size", 4, "i32"), ("owner", 6, "Item"), ("memo", 9, "String", "ns")])
enum("KindV1", [
    ("None", "none", 0, "unit", []),
    ("Some", "some", 1, "named", [("a", 0, "u32"), ("old", 1, "List<u8>")]),
])
enum("KindV2", [
    ("None", "none", 0, "named", [("hint", 2, "u64")]),
    ("Some", "some", 1, "named", [("a", 0, "u32"), ("new", 4, "Map<u8, Item>")]),
    ("More", "more", 2, "tup", [("", 0, "Item")]),
])
struct("DocV1", [
    ("rev", 0, "u64"), ("part", 1, "PartV1"), ("parts", 2, "List<PartV1>"), ("by_id", 3, "Map<u16, PartV1>"),
    ("retyped", 4, "u32"), ("back", 5, "List<i32>"), ("kind", 6, "KindV1"), ("opt", 7, "Maybe<PartV1>"),
    ("small", 20, "u64"), ("name", 30, "String", "ns"), ("kinds", 31, "List<KindV1>"), ("shrunk", 32, "Map<u8, u32>"), 
])
struct("DocV2", [
    ("rev", 0, "u64"), ("part", 1, "PartV2"), ("parts", 2, "List<PartV2>"), ("by_id", 3, "Map<u16, PartV2>"),
    ("retyped", 4, "List<u8>"), ("back", 5, "u64"), ("kind", 6, "KindV2"), ("opt", 7, "Maybe<PartV2>"),
    ("shape", 8, "Shape"), ("big", 300, "u64"), ("neg", 301, "i64"), ("note", 302, "Note", "ns"),
    ("tree", 303, "Map<u32, Tree>"), ("name", 30, "String", "ns"), ("kinds", 31, "List<KindV2>"), ("shrunk", 32, "Map<u8, Item>"),
])

ROOTS = [
    "Prims", "Item", "Profile", "Vault", "Pair", "Bare", "Renamed", "Shape", "Mode", "Tree", "Doc", "Mess",
    "Wrap<Shape>", "Wrap<Map<u16, Item>>", "Either<Item, List<u32>>", "List<Item>", "List<u64>", "Map<u32, Item>",
    "Map<u8, List<i16>>", "Map<Color, Shape>", "Maybe<Item>", "Maybe<Box<Shape>>", "Box<Item>", "Box<Shape>",
    "List<Shape>", "List<List<List<u8>>>", "Member", "Team", "DocV1", "DocV2", "Gallery", "Box<Crate>", "Map<u8, Crate>", "Crate", "Wrap<Gallery>", "List<Postcard>", "Ledger", "Album", "Stamp", "Purse", "Tuples", "List<Purse>",
]
NO_META = {"Vault", "Mess", "Tuples", "Map<Color, Shape>"}
P("pub fn roots(reg: &mut Reg) -> Vec<Schema> {")
P("    vec![")
for r in ROOTS:
    m = "None" if r in NO_META else "Some(generate::<%s>)" % r
    h = "Some(hash_of::<%s>)" % r if hashable(r) else "None"
    P("        schema::<%s>(reg, \"%s\", %s, %s)," % (r, r, m, h))
P("    ]")
P("}")

import os, sys
path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "src", "gen.rs")
open(path, "w").write("\n".join(x for x in out if x is not None) + "\n")
