//! A client that knows a schema only through the C# code generated for it.
//!
//! The generated classes are read as tables - which property a tag stands for, how it is decoded,
//! where nested states are - and driven by the rules of the client runtime (`State`,
//! `StateReplayer`, `StateList`, ... in steit-csharp).

use std::collections::BTreeMap;

use model::wire::{unzigzag, Entry, Rd, POP, PUSH, REMOVE, UPDATE};
use model::*;

pub type E<T> = Result<T, String>;

// ---- Text ----

fn tokens(text: &str) -> Vec<String> {
    let b: Vec<char> = text.chars().collect();
    let mut out = Vec::new();
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        let start = i;
        if c.is_whitespace() {
            i += 1;
            continue;
        }
        if c == '/' && b.get(i + 1) == Some(&'/') {
            while i < b.len() && b[i] != '\n' {
                i += 1;
            }
            continue;
        }
        if c == '/' && b.get(i + 1) == Some(&'*') {
            i += 2;
            while i < b.len() && !(b[i] == '/' && b[i - 1] == '*') {
                i += 1;
            }
            i += 1;
            continue;
        }
        if c.is_alphanumeric() || c == '_' {
            while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_') {
                i += 1;
            }
        } else if c == '"' {
            i += 1;
            while i < b.len() && b[i] != '"' {
                i += 1 + (b[i] == '\\') as usize;
            }
            i += 1;
        } else {
            i += 1;
        }
        out.push(b[start..i.min(b.len())].iter().collect());
    }
    out
}

fn ident(t: &str) -> bool {
    t.chars().next().map_or(false, |c| c.is_alphabetic() || c == '_')
}

#[derive(Clone, PartialEq, Debug)]
pub struct Texp {
    pub name: String,
    pub args: Vec<Texp>,
}

#[derive(Clone, PartialEq, Debug)]
enum Init {
    New(Texp, u32),
    Construct(Texp, u32),
}

#[derive(Clone, PartialEq, Debug)]
enum Wire {
    Is(u8),
    IfState(Texp, u8, u8),
}

#[derive(Clone, PartialEq, Debug)]
enum Read {
    Prim(String),
    Class(Texp, u32),
    Param(Texp, u32),
}

#[derive(Default, Debug)]
pub struct Cls {
    name: String,
    params: Vec<String>,
    is_enum: bool,
    props: BTreeMap<String, Texp>,
    inits: Vec<(String, Init)>,
    wires: BTreeMap<u32, Wire>,
    nested: BTreeMap<u32, String>,
    reads: BTreeMap<u32, (String, Read)>,
    consts: BTreeMap<String, u32>,
    inner: BTreeMap<String, Cls>,
    /// For enums.
    default_tag: u32,
    ctor: BTreeMap<u32, (String, u32)>,
    replace: BTreeMap<u32, (String, u32)>,
}

struct P<'a> {
    t: &'a [String],
    i: usize,
}

impl<'a> P<'a> {
    fn peek(&self) -> &'a str {
        self.t.get(self.i).map_or("", |s| s)
    }

    fn next(&mut self) -> &'a str {
        let s = self.peek();
        self.i += 1;
        s
    }

    fn eat(&mut self, s: &str) -> bool {
        let ok = self.peek() == s;
        self.i += ok as usize;
        ok
    }

    fn want(&mut self, s: &str) -> E<()> {
        for part in s.split_whitespace() {
            if !self.eat(part) {
                return Err(format!("expected `{}`, got `{}`", part, self.rest(8)));
            }
        }
        Ok(())
    }

    /// Whether these tokens come next; takes them if so.
    fn take(&mut self, s: &str) -> bool {
        let at = self.i;
        let ok = self.want(s).is_ok();
        if !ok {
            self.i = at;
        }
        ok
    }

    fn rest(&self, n: usize) -> String {
        self.t[self.i.min(self.t.len())..].iter().take(n).cloned().collect::<Vec<_>>().join(" ")
    }

    fn name(&mut self) -> E<String> {
        let s = self.next();
        if ident(s) {
            Ok(s.to_string())
        } else {
            Err(format!("expected a name, got `{}`", s))
        }
    }

    fn num(&mut self) -> E<u32> {
        let s = self.next();
        s.trim_end_matches(|c| c == 'U' || c == 'u').parse().map_err(|_| format!("expected a number, got `{}`", s))
    }

    fn texp(&mut self) -> E<Texp> {
        let mut name = self.name()?;
        while self.peek() == "." && self.t.get(self.i + 1).map_or(false, |s| ident(s) && s != "Deserialize") {
            self.i += 1;
            name = self.name()?;
        }
        let mut args = Vec::new();
        if self.eat("<") {
            loop {
                args.push(self.texp()?);
                if self.eat(">") {
                    break;
                }
                self.want(",")?;
            }
        }
        Ok(Texp { name, args })
    }

    /// The tokens up to the brace that closes the block just entered.
    fn block(&mut self) -> E<&'a [String]> {
        let start = self.i;
        let mut depth = 1;
        while depth > 0 {
            match self.next() {
                "{" => depth += 1,
                "}" => depth -= 1,
                "" => return Err("a brace is missing".to_string()),
                _ => {}
            }
        }
        Ok(&self.t[start..self.i - 1])
    }

    fn wire(&mut self) -> E<u8> {
        self.want("WireType .")?;
        match self.next() {
            "Varint" => Ok(0),
            "Sized" => Ok(2),
            s => Err(format!("wire type {}", s)),
        }
    }

    fn nested_path(&mut self) -> E<u32> {
        self.want("this . Path . GetNested (")?;
        let n = self.num()?;
        self.want(")")?;
        Ok(n)
    }
}

const MODIFIERS: &[&str] = &["public", "private", "internal", "protected", "sealed", "partial", "static", "const", "readonly"];

fn file(text: &str) -> E<Vec<Cls>> {
    let t = tokens(text);
    let mut p = P { t: &t, i: 0 };
    let mut out = Vec::new();
    while p.eat("using") {
        while p.next() != ";" {
            if p.i > t.len() {
                return Err("using".to_string());
            }
        }
    }
    p.want("namespace")?;
    while p.next() != "{" {
        if p.i > t.len() {
            return Err("namespace".to_string());
        }
    }
    while !p.eat("}") {
        out.push(class(&mut p)?);
    }
    if p.i != t.len() {
        return Err(format!("unexpected `{}`", p.rest(8)));
    }
    Ok(out)
}

fn class(p: &mut P) -> E<Cls> {
    while MODIFIERS.contains(&p.peek()) {
        p.i += 1;
    }
    p.want("class")?;
    let mut c = Cls {
        name: p.name()?,
        ..Cls::default()
    };
    if p.eat("<") {
        loop {
            c.params.push(p.name()?);
            if p.eat(">") {
                break;
            }
            p.want(",")?;
        }
    }
    p.want(":")?;
    match p.next() {
        "IState" => {}
        "IEnumState" => c.is_enum = true,
        s => return Err(format!("{} implements {}", c.name, s)),
    }
    p.want("{")?;
    let mut ctors = 0;
    while !p.eat("}") {
        member(p, &mut c, &mut ctors).map_err(|e| format!("{}: {}", c.name, e))?;
    }
    if ctors == 0 {
        return Err(format!("{} has no constructor", c.name));
    }
    Ok(c)
}

fn member(p: &mut P, c: &mut Cls, ctors: &mut usize) -> E<()> {
    let start = p.i;
    while MODIFIERS.contains(&p.peek()) {
        p.i += 1;
    }
    if p.peek() == "class" {
        p.i = start;
        let inner = class(p)?;
        let name = inner.name.clone();
        if c.inner.insert(name.clone(), inner).is_some() {
            return Err(format!("two classes {}", name));
        }
        return Ok(());
    }
    // The header.
    let head_at = p.i;
    while !["{", ";", "=", ""].contains(&p.peek()) || p.peek() == "=" && p.t[head_at..p.i].contains(&"(".to_string()) {
        p.i += 1;
    }
    let head = &p.t[head_at..p.i];
    let modifiers = &p.t[start..head_at];
    match p.next() {
        "=" => {
            // A constant.
            let n = p.num()?;
            p.want(";")?;
            if modifiers.contains(&"const".to_string()) {
                c.consts.insert(head.last().unwrap().clone(), n);
            }
            Ok(())
        }
        ";" => Ok(()),
        "{" => {
            let body = p.block()?;
            let body = P { t: body, i: 0 };
            match head.iter().position(|t| t == "(") {
                Some(1) if head[0] == c.name => {
                    *ctors += 1;
                    ctor(head, body, c)
                }
                Some(n) if n > 0 => {
                    // The name may be followed by type parameters.
                    let mut n = n - 1;
                    if head[n] == ">" {
                        while head[n] != "<" {
                            n -= 1;
                        }
                        n -= 1;
                    }
                    method(&head[n], body, c)
                }
                _ => {
                    let settable = body.t.iter().any(|t| t == "set");
                    let name = head.last().ok_or("a property without a name")?.clone();
                    let mut h = P { t: &head[..head.len() - 1], i: 0 };
                    let ty = h.texp()?;
                    if settable && c.props.insert(name.clone(), ty).is_some() {
                        return Err(format!("two properties {}", name));
                    }
                    Ok(())
                }
            }
        }
        _ => Err("an unfinished member".to_string()),
    }
}

fn ctor(head: &[String], mut b: P, c: &mut Cls) -> E<()> {
    // `Name(Path path = null) : this(path, 0)`
    if let Some(i) = head.iter().position(|t| t == ":") {
        let mut h = P { t: head, i: i + 1 };
        h.want("this ( path ,")?;
        c.default_tag = h.num()?;
        return Ok(());
    }
    while b.i < b.t.len() {
        if b.take("StateFactory . ValidateType ( typeof (") {
            b.texp()?;
            b.want(") ) ;")?;
        } else if b.take("this . Path = path ? ? Path . Root ;") || c.is_enum && b.take("this . Tag = tag ;") {
        } else if c.is_enum && b.take("switch ( tag ) {") {
            let mut inner = P { t: b.block()?, i: 0 };
            while inner.i < inner.t.len() {
                let tag = if inner.eat("default") {
                    None
                } else {
                    inner.want("case")?;
                    Some(inner.num()?)
                };
                inner.want(": this . Variant = new")?;
                let name = inner.name()?;
                inner.want("(")?;
                let n = inner.nested_path()?;
                inner.want(") ; break ;")?;
                if let Some(tag) = tag {
                    if c.ctor.insert(tag, (name, n)).is_some() {
                        return Err(format!("two variants {}", tag));
                    }
                }
            }
        } else {
            b.want("this .")?;
            let prop = b.name()?;
            b.want("=")?;
            let init = if b.eat("new") {
                let ty = b.texp()?;
                b.want("(")?;
                Init::New(ty, b.nested_path()?)
            } else {
                b.want("StateFactory . Construct <")?;
                let ty = b.texp()?;
                b.want("> (")?;
                Init::Construct(ty, b.nested_path()?)
            };
            b.want(") ;")?;
            c.inits.push((prop, init));
        }
    }
    Ok(())
}

/// Splits `switch (tag) { case N: ... default: ... }`.
fn cases<'a>(b: &mut P<'a>) -> E<(Vec<(u32, P<'a>)>, P<'a>)> {
    b.want("switch ( tag ) {")?;
    let t = b.block()?;
    let mut out = Vec::new();
    let mut default = None;
    let mut i = 0;
    while i < t.len() {
        let mut h = P { t, i };
        let tag = if h.eat("default") {
            None
        } else {
            h.want("case")?;
            Some(h.num()?)
        };
        h.want(":")?;
        let start = h.i;
        let mut end = start;
        while end < t.len() && !["case", "default"].contains(&&*t[end]) {
            end += 1;
        }
        let p = P { t: &t[start..end], i: 0 };
        match tag {
            Some(tag) => {
                if out.iter().any(|(t, _)| *t == tag) {
                    return Err(format!("two cases {}", tag));
                }
                out.push((tag, p));
            }
            None => default = Some(p),
        }
        i = end;
    }
    Ok((out, default.ok_or("no default case")?))
}

fn method(name: &str, mut b: P, c: &mut Cls) -> E<()> {
    match name {
        "GetWireType" => {
            let (cs, mut default) = cases(&mut b)?;
            for (tag, mut p) in cs {
                p.want("return")?;
                let w = if p.take("StateFactory . IsStateType ( typeof (") {
                    let ty = p.texp()?;
                    p.want(") ) ?")?;
                    let a = p.wire()?;
                    p.want(":")?;
                    Wire::IfState(ty, a, p.wire()?)
                } else {
                    Wire::Is(p.wire()?)
                };
                p.want(";")?;
                c.wires.insert(tag, w);
            }
            default.want("return null ;")
        }
        "GetNested" if c.is_enum => b.want("return tag = = this . Tag ? this . Variant : null ;"),
        "GetNested" => {
            let (cs, mut default) = cases(&mut b)?;
            for (tag, mut p) in cs {
                p.want("return this .")?;
                let prop = p.name()?;
                p.take("as IState");
                p.want(";")?;
                c.nested.insert(tag, prop);
            }
            default.want("return null ;")
        }
        "ReplaceAt" => {
            let (cs, mut default) = cases(&mut b)?;
            for (tag, mut p) in cs {
                if c.is_enum {
                    p.want("this . UpdateAndNotify (")?;
                    let n = p.num()?;
                    p.want(",")?;
                    let variant = p.name()?;
                    p.want(". Deserialize ( reader ,")?;
                    let at = p.nested_path()?;
                    p.want(") , shouldNotify ) ; break ;")?;
                    if n != tag {
                        return Err(format!("variant {} is announced as {}", tag, n));
                    }
                    c.replace.insert(tag, (variant, at));
                    continue;
                }
                p.want("this .")?;
                let prop = p.name()?;
                p.want("= this . MaybeNotify (")?;
                let n = p.num()?;
                p.want(",")?;
                let read = if p.take("reader .") {
                    let f = p.name()?;
                    p.want("( )")?;
                    Read::Prim(f.strip_prefix("Read").ok_or("what to read")?.to_string())
                } else if p.take("StateFactory . Deserialize <") {
                    let ty = p.texp()?;
                    p.want("> ( reader , this . Path ,")?;
                    let at = p.num()?;
                    p.want(")")?;
                    Read::Param(ty, at)
                } else {
                    let ty = p.texp()?;
                    p.want(". Deserialize ( reader ,")?;
                    let at = p.nested_path()?;
                    p.want(")")?;
                    Read::Class(ty, at)
                };
                p.want(", this .")?;
                let old = p.name()?;
                p.want(",")?;
                let event = p.name()?;
                p.want(", shouldNotify ) ; break ;")?;
                if n != tag || old != prop || event != format!("On{}Update", prop) {
                    return Err(format!("field {} announces the update of {} ({}) by {}", tag, old, n, event));
                }
                c.reads.insert(tag, (prop, read));
            }
            if c.is_enum {
                default.want("reader . SkipToEnd ( ) ; break ;")
            } else {
                default.want("reader . SkipField ( wireType ) ; break ;")
            }
        }
        _ => Ok(()),
    }
}

// ---- Client ----

pub struct Client {
    classes: BTreeMap<String, Cls>,
}

/// A type with all of its parameters known.
#[derive(Clone, PartialEq, Debug)]
pub struct G {
    name: String,
    args: Vec<G>,
    /// The enum, for a variant.
    outer: Option<Box<G>>,
}

pub type Path = Vec<u32>;

#[derive(Clone, Debug)]
pub enum CV {
    Null,
    U(u64),
    I(i64),
    B(bool),
    S(String),
    Bytes(Vec<u8>),
    Vector(Vec<CV>),
    Opt(Option<Box<CV>>),
    List(Path, G, Vec<CV>),
    Map(Path, G, BTreeMap<u32, CV>),
    St(Path, G, BTreeMap<String, CV>),
    En(Path, G, u32, Box<CV>),
}

const PRIMS: &[&str] = &[
    "Byte", "UInt16", "UInt32", "UInt64", "SByte", "Int16", "Int32", "Int64", "Boolean", "String",
];

impl G {
    fn prim(&self) -> bool {
        PRIMS.contains(&&*self.name)
    }

    fn arg(&self) -> E<&G> {
        match &self.args[..] {
            [x] => Ok(x),
            _ => Err(format!("{} takes one type, not {}", self.name, self.args.len())),
        }
    }
}

fn sub(path: &[u32], tag: u32) -> Path {
    path.iter().copied().chain(Some(tag)).collect()
}

fn trap<T>(r: wire::R<T>) -> E<T> {
    r.map_err(|e| format!("can't decode ({})", e))
}

fn read_prim(name: &str, r: &mut Rd) -> E<CV> {
    let unsigned = |r: &mut Rd| trap(r.varint(64));
    Ok(match name {
        "Byte" => CV::U(unsigned(r)? as u8 as u64),
        "UInt16" => CV::U(unsigned(r)? as u16 as u64),
        "UInt32" => CV::U(unsigned(r)? as u32 as u64),
        "UInt64" => CV::U(unsigned(r)?),
        "SByte" => CV::I(unzigzag(unsigned(r)?) as i8 as i64),
        "Int16" => CV::I(unzigzag(unsigned(r)?) as i16 as i64),
        "Int32" => CV::I(unzigzag(unsigned(r)?) as i32 as i64),
        "Int64" => CV::I(unzigzag(unsigned(r)?)),
        "Boolean" => CV::B(unsigned(r)? != 0),
        "String" => {
            let s = String::from_utf8(r.b[r.i..].to_vec()).map_err(|_| "not a string".to_string())?;
            r.i = r.b.len();
            CV::S(s)
        }
        _ => return Err(format!("can't read a {}", name)),
    })
}

fn default_prim(name: &str) -> CV {
    match name {
        "Boolean" => CV::B(false),
        "String" => CV::S(String::new()),
        n if n == "Byte" || n.starts_with('U') => CV::U(0),
        _ => CV::I(0),
    }
}

impl Client {
    pub fn new(files: &[(String, String)]) -> E<Client> {
        let mut classes = BTreeMap::new();
        for (name, text) in files {
            for c in file(text).map_err(|e| format!("{}: {}", name, e))? {
                let n = c.name.clone();
                if classes.insert(n.clone(), c).is_some() {
                    return Err(format!("two classes {}", n));
                }
            }
        }
        Ok(Client { classes })
    }

    fn class(&self, g: &G) -> E<&Cls> {
        match &g.outer {
            Some(o) => self.class(o)?.inner.get(&g.name),
            None => self.classes.get(&g.name),
        }
        .ok_or_else(|| format!("no class {} was generated", g.name))
    }

    /// What a type in the code of a class stands for.
    fn resolve(&self, t: &Texp, here: &G) -> E<G> {
        let mut scope = Some(here);
        while let Some(g) = scope {
            let c = self.class(g)?;
            if let Some(i) = c.params.iter().position(|p| *p == t.name) {
                return g.args.get(i).cloned().ok_or_else(|| format!("{} lacks type arguments", g.name));
            }
            if c.inner.contains_key(&t.name) {
                return Ok(G { name: t.name.clone(), args: Vec::new(), outer: Some(Box::new(g.clone())) });
            }
            scope = g.outer.as_deref();
        }
        let args = t.args.iter().map(|a| self.resolve(a, here)).collect::<E<_>>()?;
        Ok(G { name: t.name.clone(), args, outer: None })
    }

    pub fn construct(&self, g: &G, path: Path) -> E<CV> {
        if g.prim() {
            return Ok(default_prim(&g.name));
        }
        Ok(match &*g.name {
            "Bytes" => CV::Bytes(Vec::new()),
            "Vector" => CV::Vector(Vec::new()),
            "Option" => CV::Opt(None),
            "StateList" => CV::List(path, g.arg()?.clone(), Vec::new()),
            "StateMap" => CV::Map(path, g.arg()?.clone(), BTreeMap::new()),
            _ => {
                let c = self.class(g)?;
                if c.params.len() != g.args.len() {
                    return Err(format!("{} takes {} types, not {}", g.name, c.params.len(), g.args.len()));
                }
                if c.is_enum {
                    return self.variant(g, path, c.default_tag);
                }
                let mut props = BTreeMap::new();
                for (p, t) in &c.props {
                    let g2 = self.resolve(t, g)?;
                    props.insert(p.clone(), if g2.prim() { default_prim(&g2.name) } else { CV::Null });
                }
                for (p, init) in &c.inits {
                    let (t, n) = match init {
                        Init::New(t, n) | Init::Construct(t, n) => (t, n),
                    };
                    let g2 = self.resolve(t, g)?;
                    if c.props.get(p).map(|t| self.resolve(t, g)) != Some(Ok(g2.clone())) {
                        return Err(format!("{}.{} isn't a {}", g.name, p, g2.name));
                    }
                    props.insert(p.clone(), self.construct(&g2, sub(&path, *n))?);
                }
                CV::St(path, g.clone(), props)
            }
        })
    }

    fn inner(&self, g: &G, name: &str) -> G {
        G { name: name.to_string(), args: Vec::new(), outer: Some(Box::new(g.clone())) }
    }

    fn variant(&self, g: &G, path: Path, tag: u32) -> E<CV> {
        let c = self.class(g)?;
        let (name, n) = c.ctor.get(&tag).ok_or_else(|| format!("{} can't construct variant {}", g.name, tag))?;
        let v = self.construct(&self.inner(g, name), sub(&path, *n))?;
        Ok(CV::En(path, g.clone(), tag, Box::new(v)))
    }

    pub fn deserialize(&self, g: &G, r: &mut Rd, path: Path) -> E<CV> {
        if g.prim() {
            return read_prim(&g.name, r);
        }
        Ok(match &*g.name {
            "Bytes" => {
                let b = r.b[r.i..].to_vec();
                r.i = r.b.len();
                CV::Bytes(b)
            }
            "Vector" => {
                let mut xs = Vec::new();
                while !r.eof() {
                    xs.push(self.value(g.arg()?, r, sub(&path, xs.len() as u32))?);
                }
                CV::Vector(xs)
            }
            "Option" => CV::Opt(match r.eof() {
                true => None,
                false => Some(Box::new(self.value(g.arg()?, r, sub(&path, 0))?)),
            }),
            "StateList" => {
                let mut xs = Vec::new();
                while !r.eof() {
                    xs.push(self.value(g.arg()?, r, sub(&path, xs.len() as u32))?);
                }
                CV::List(path, g.arg()?.clone(), xs)
            }
            "StateMap" => {
                let mut m = BTreeMap::new();
                while !r.eof() {
                    let (tag, _) = trap(r.tag())?;
                    m.insert(tag, self.value(g.arg()?, r, sub(&path, tag))?);
                }
                CV::Map(path, g.arg()?.clone(), m)
            }
            _ => {
                let mut v = self.construct(g, path)?;
                self.replace(&mut v, r)?;
                v
            }
        })
    }

    fn value(&self, g: &G, r: &mut Rd, path: Path) -> E<CV> {
        if g.prim() && g.name != "String" {
            return read_prim(&g.name, r);
        }
        let b = trap(r.sized())?;
        self.deserialize(g, &mut Rd::new(b), path)
    }

    fn wire_type(&self, v: &CV, tag: u32) -> E<Option<u8>> {
        Ok(match v {
            CV::List(_, t, _) | CV::Map(_, t, _) => Some(if t.prim() { 0 } else { 2 }),
            CV::St(_, g, _) | CV::En(_, g, _, _) => match self.class(g)?.wires.get(&tag) {
                None => None,
                Some(Wire::Is(w)) => Some(*w),
                Some(Wire::IfState(t, a, b)) => Some(if self.resolve(t, g)?.prim() { *b } else { *a }),
            },
            _ => None,
        })
    }

    /// `State.Replace` of a generated class.
    fn replace(&self, v: &mut CV, r: &mut Rd) -> E<()> {
        if let CV::En(..) = v {
            let tag = trap(r.varint(32))? as u32;
            return self.replace_at(v, tag, 2, r);
        }
        while !r.eof() {
            let (tag, wire) = trap(r.tag())?;
            let expected = self.wire_type(v, tag)?;
            if wire == 2 {
                let b = trap(r.sized())?;
                if expected.map_or(true, |e| e == wire) {
                    self.replace_at(v, tag, wire, &mut Rd::new(b))?;
                }
            } else if expected.map_or(true, |e| e == wire) {
                self.replace_at(v, tag, wire, r)?;
            } else {
                trap(r.skip(0))?;
            }
        }
        Ok(())
    }

    fn replace_at(&self, v: &mut CV, tag: u32, wire: u8, r: &mut Rd) -> E<()> {
        match v {
            CV::List(path, t, xs) => {
                let new = self.deserialize(t, r, sub(path, tag))?;
                *xs.get_mut(tag as usize).ok_or_else(|| format!("no item {}", tag))? = new;
                Ok(())
            }
            CV::Map(path, t, m) => {
                let new = self.deserialize(t, r, sub(path, tag))?;
                m.insert(tag, new);
                Ok(())
            }
            CV::En(path, g, now, x) => {
                let c = self.class(g)?;
                match c.replace.get(&tag) {
                    Some((name, at)) => {
                        **x = self.deserialize(&self.inner(g, name), r, sub(path, *at))?;
                        *now = tag;
                    }
                    None => r.i = r.b.len(),
                }
                Ok(())
            }
            CV::St(path, g, props) => {
                let c = self.class(g)?;
                let (prop, read) = match c.reads.get(&tag) {
                    Some(x) => x,
                    None if wire == 0 => return trap(r.skip(0)),
                    None => {
                        r.i = r.b.len();
                        return Ok(());
                    }
                };
                let declared = c.props.get(prop).ok_or_else(|| format!("{} has no {}", g.name, prop))?;
                let declared = self.resolve(declared, g)?;
                let (got, new) = match read {
                    Read::Prim(f) => (G { name: f.clone(), args: Vec::new(), outer: None }, read_prim(f, r)?),
                    Read::Class(t, at) | Read::Param(t, at) => {
                        let t = self.resolve(t, g)?;
                        let x = self.deserialize(&t, r, sub(path, *at))?;
                        (t, x)
                    }
                };
                if got != declared {
                    return Err(format!("{}.{} is a {}, not a {}", g.name, prop, declared.name, got.name));
                }
                props.insert(prop.clone(), new);
                Ok(())
            }
            _ => Err("no nested values to replace".to_string()),
        }
    }

    fn at<'a>(&self, v: &'a mut CV, path: &[u32]) -> E<Option<&'a mut CV>> {
        let (&tag, rest) = match path.split_first() {
            None => return Ok(Some(v)),
            Some(x) => x,
        };
        let nested = match v {
            CV::List(_, t, xs) if !t.prim() => xs.get_mut(tag as usize),
            CV::Map(_, t, m) if !t.prim() => m.get_mut(&tag),
            CV::En(_, _, now, x) if *now == tag => Some(&mut **x),
            CV::St(_, g, props) => match self.class(g)?.nested.get(&tag) {
                Some(prop) => match props.get_mut(prop) {
                    Some(CV::U(_)) | Some(CV::I(_)) | Some(CV::B(_)) | Some(CV::S(_)) | Some(CV::Null) | None => None,
                    x => x,
                },
                None => None,
            },
            _ => None,
        };
        match nested {
            Some(x) => self.at(x, rest),
            None => Ok(None),
        }
    }

    /// `StateReplayer.Replay`.
    pub fn replay(&self, root: &mut CV, g: &G, e: &Entry) -> E<()> {
        let mut path = &e.path[..];
        let mut tag = 0;
        if e.kind == UPDATE {
            match path.split_last() {
                Some((&last, rest)) => {
                    tag = last;
                    path = rest;
                }
                None => {
                    *root = self.deserialize(g, &mut Rd::new(&e.value), Vec::new())?;
                    return Ok(());
                }
            }
        }
        let v = match self.at(root, path)? {
            Some(v) => v,
            None => return Ok(()),
        };
        let mut r = Rd::new(&e.value);
        match (e.kind, &mut *v) {
            (UPDATE, _) => match self.wire_type(v, tag)? {
                Some(w) => self.replace_at(v, tag, w, &mut r),
                None => Ok(()),
            },
            (PUSH, CV::List(at, t, xs)) => {
                let at = sub(at, xs.len() as u32);
                xs.push(self.deserialize(t, &mut r, at)?);
                Ok(())
            }
            (POP, CV::List(_, _, xs)) => xs.pop().map(|_| ()).ok_or_else(|| "pop from an empty list".to_string()),
            (REMOVE, CV::Map(_, _, m)) => m.remove(&e.key).map(|_| ()).ok_or_else(|| format!("no key {}", e.key)),
            _ => Err("the operation isn't supported".to_string()),
        }
    }

    /// How the client's value differs from what it should be.
    pub fn diff(&self, v: &CV, ty: &Ty, val: &Val, path: Option<&[u32]>) -> E<()> {
        let bad = || Err(format!("at {:?}: got {:.300}, want {:.300}", path, format!("{:?}", v), format!("{:?}", val)));
        let here = |p: &Path| match path {
            Some(want) if want != &p[..] => Err(format!("the value at {:?} has path {:?}", want, p)),
            _ => Ok(()),
        };
        let below = |tag: u32| path.map(|p| sub(p, tag));
        match (v, ty, val) {
            (CV::U(x), Ty::U(_), Val::U(y)) if x == y => Ok(()),
            (CV::I(x), Ty::I(_), Val::I(y)) if x == y => Ok(()),
            (CV::B(x), Ty::B, Val::B(y)) if x == y => Ok(()),
            (CV::S(x), Ty::Str, Val::S(y)) if x == y => Ok(()),
            (CV::Bytes(x), Ty::Bytes, Val::Y(y)) if x == y => Ok(()),
            (CV::Vector(xs), Ty::Vec(t), Val::L(ys)) | (CV::Vector(xs), Ty::Arr(_, t), Val::L(ys)) => {
                // An array nobody has set is empty over there.
                if xs.is_empty() && matches!(ty, Ty::Arr(..)) && *val == ty.default() {
                    return Ok(());
                }
                if xs.len() != ys.len() {
                    return bad();
                }
                xs.iter().zip(ys).try_for_each(|(x, y)| self.diff(x, t, y, None))
            }
            (CV::Opt(None), Ty::Opt(_), Val::O(None)) => Ok(()),
            (CV::Opt(Some(x)), Ty::Opt(t), Val::O(Some(y))) => self.diff(x, t, y, None),
            (CV::List(p, _, xs), Ty::List(t), Val::L(ys)) if xs.len() == ys.len() => {
                here(p)?;
                xs.iter().zip(ys).enumerate().try_for_each(|(i, (x, y))| self.diff(x, t, y, below(i as u32).as_deref()))
            }
            (CV::Map(p, _, xs), Ty::Map(_, t), Val::M(ys)) if xs.keys().eq(ys.keys()) => {
                here(p)?;
                xs.iter().zip(ys.values()).try_for_each(|((k, x), y)| self.diff(x, t, y, below(*k).as_deref()))
            }
            (CV::St(p, g, props), Ty::Def(i), Val::L(ys)) => {
                here(p)?;
                let d = def(*i);
                if g.name != d.cs || g.outer.is_some() {
                    return Err(format!("{} is a {} over there", d.cs, g.name));
                }
                self.diff_fields(props, ty.fields().unwrap(), ys, &d.name, path)
            }
            (CV::En(p, g, tag, x), Ty::Def(i), Val::E(want, ys)) => {
                here(p)?;
                let d = def(*i);
                let variant = find_variant(ty.variants().unwrap(), *want).unwrap();
                if g.name != d.cs {
                    return Err(format!("{} is a {} over there", d.cs, g.name));
                }
                if tag != want {
                    return bad();
                }
                let c = self.class(g)?;
                if c.consts.get(&format!("{}Tag", variant.name)) != Some(want) {
                    return Err(format!("{}.{}Tag isn't {}", g.name, variant.name, want));
                }
                match &**x {
                    CV::St(p, g, props) if g.name == variant.name && g.outer.is_some() => {
                        let path = below(*want);
                        if let Some(want) = &path {
                            if want != p {
                                return Err(format!("the value at {:?} has path {:?}", want, p));
                            }
                        }
                        self.diff_fields(props, &variant.fields, ys, variant.name, path.as_deref())
                    }
                    _ => bad(),
                }
            }
            _ => bad(),
        }
    }

    fn diff_fields(&self, props: &BTreeMap<String, CV>, fields: &[Field], ys: &[Val], name: &str, path: Option<&[u32]>) -> E<()> {
        for (f, y) in fields.iter().zip(ys) {
            let x = props.get(f.cs).ok_or_else(|| format!("{} has no property {}", name, f.cs))?;
            // Only states have addresses of their own.
            let path = if f.state { path.map(|p| sub(p, f.tag)) } else { None };
            self.diff(x, &f.ty, y, path.as_deref()).map_err(|e| format!("{}.{} {}", name, f.cs, e))?;
        }
        if props.len() != fields.len() {
            return Err(format!("{} has {} properties instead of {}", name, props.len(), fields.len()));
        }
        Ok(())
    }
}

/// The client's name for a Rust type.
pub fn root_type(name: &str) -> G {
    let t = tokens(name);
    let mut p = P { t: &t, i: 0 };
    rust(&p.texp().expect("a type name"))
}

fn rust(t: &Texp) -> G {
    let mut args: Vec<G> = t.args.iter().map(rust).collect();
    let name = match &*t.name {
        "u8" => "Byte",
        "u16" => "UInt16",
        "u32" => "UInt32",
        "u64" => "UInt64",
        "i8" => "SByte",
        "i16" => "Int16",
        "i32" => "Int32",
        "i64" => "Int64",
        "bool" => "Boolean",
        "List" => "StateList",
        "Map" => {
            args.remove(0);
            "StateMap"
        }
        "Box" => return args.remove(0),
        n => {
            let d = schemas::class_name(n);
            return G { name: d.to_string(), args, outer: None };
        }
    };
    G { name: name.to_string(), args, outer: None }
}
