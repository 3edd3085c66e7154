// Generated by gen.py; do not edit.
use super::node::*;
use super::{generate, hash_of, schema, Schema};

#[steit_derive(Clone, PartialEq, Debug, State, Hash)]

pub struct Prims {
    #[steit(tag = 0)] pub a: u8,
    #[steit(tag = 1)] pub b: u16,
    #[steit(tag = 15)] pub c: u32,
    #[steit(tag = 16)] pub d: u64,
    #[steit(tag = 127)] pub e: i8,
    #[steit(tag = 128)] pub f: i16,
    #[steit(tag = 2047)] pub g: i32,
    #[steit(tag = 2048)] pub h: i64,
    #[steit(tag = 262144)] pub i: bool,
    #[steit(tag = 536870911)] pub j: u64,
}
impl Node for Prims {
    fn ty(reg: &mut Reg) -> Ty {
        reg.def(std::any::type_name::<Self>(), |reg| Def { name: "Prims".to_string(), cs: "Prims", state: true, kind: Kind::Struct(vec![
            Field { name: "a", cs: "A", tag: 0, state: true, eq: true, ty: <u8 as Node>::ty(reg) },
            Field { name: "b", cs: "B", tag: 1, state: true, eq: true, ty: <u16 as Node>::ty(reg) },
            Field { name: "c", cs: "C", tag: 15, state: true, eq: true, ty: <u32 as Node>::ty(reg) },
            Field { name: "d", cs: "D", tag: 16, state: true, eq: true, ty: <u64 as Node>::ty(reg) },
            Field { name: "e", cs: "E", tag: 127, state: true, eq: true, ty: <i8 as Node>::ty(reg) },
            Field { name: "f", cs: "F", tag: 128, state: true, eq: true, ty: <i16 as Node>::ty(reg) },
            Field { name: "g", cs: "G", tag: 2047, state: true, eq: true, ty: <i32 as Node>::ty(reg) },
            Field { name: "h", cs: "H", tag: 2048, state: true, eq: true, ty: <i64 as Node>::ty(reg) },
            Field { name: "i", cs: "I", tag: 262144, state: true, eq: true, ty: <bool as Node>::ty(reg) },
            Field { name: "j", cs: "J", tag: 536870911, state: true, eq: true, ty: <u64 as Node>::ty(reg) },
        ]) })
    }
    fn build(v: &Val, rt: Runtime) -> Self {
        let mut s = Self::new(rt);
        let xs = v.list();
        s.set_a_with(|rt| Node::build(&xs[0], rt));
        s.set_b(Node::build(&xs[1], Runtime::new()));
        s.set_c_with(|rt| Node::build(&xs[2], rt));
        s.set_d(Node::build(&xs[3], Runtime::new()));
        s.set_e_with(|rt| Node::build(&xs[4], rt));
        s.set_f(Node::build(&xs[5], Runtime::new()));
        s.set_g_with(|rt| Node::build(&xs[6], rt));
        s.set_h(Node::build(&xs[7], Runtime::new()));
        s.set_i_with(|rt| Node::build(&xs[8], rt));
        s.set_j(Node::build(&xs[9], Runtime::new()));
        s
    }
    fn obs(&self) -> Val {
        Val::L(vec![<u8 as Node>::obs(&self.a), <u16 as Node>::obs(&self.b), <u32 as Node>::obs(&self.c), <u64 as Node>::obs(&self.d), <i8 as Node>::obs(&self.e), <i16 as Node>::obs(&self.f), <i32 as Node>::obs(&self.g), <i64 as Node>::obs(&self.h), <bool as Node>::obs(&self.i), <u64 as Node>::obs(&self.j)])
    }
    fn aside(&self) {
        let x = Self::new(self.runtime().clone());
        assert!(x == Self::with_runtime(self.runtime().nested(1)), "what the constructor makes");
        self.a.aside();
        self.b.aside();
        self.c.aside();
        self.d.aside();
        self.e.aside();
        self.f.aside();
        self.g.aside();
        self.h.aside();
        self.i.aside();
        self.j.aside();
    }
    fn act(&mut self, path: &[u32], act: &Act, cx: &mut Cx) -> bool {
        if let Some((&tag, rest)) = path.split_first() {
            return match tag {
                0 => self.a.act(rest, act, cx),
                1 => self.b.act(rest, act, cx),
                15 => self.c.act(rest, act, cx),
                16 => self.d.act(rest, act, cx),
                127 => self.e.act(rest, act, cx),
                128 => self.f.act(rest, act, cx),
                2047 => self.g.act(rest, act, cx),
                2048 => self.h.act(rest, act, cx),
                262144 => self.i.act(rest, act, cx),
                536870911 => self.j.act(rest, act, cx),
                _ => false,
            };
        }
        match act {
            Act::Set { tag: 0, val, how } => attach!(u8, val, how, cx, |x| { self.set_a(x); }, |f| { self.set_a_with(f); }),
            Act::Set { tag: 1, val, how } => attach!(u16, val, how, cx, |x| { self.set_b(x); }, |f| { self.set_b_with(f); }),
            Act::Set { tag: 15, val, how } => attach!(u32, val, how, cx, |x| { self.set_c(x); }, |f| { self.set_c_with(f); }),
            Act::Set { tag: 16, val, how } => attach!(u64, val, how, cx, |x| { self.set_d(x); }, |f| { self.set_d_with(f); }),
            Act::Set { tag: 127, val, how } => attach!(i8, val, how, cx, |x| { self.set_e(x); }, |f| { self.set_e_with(f); }),
            Act::Set { tag: 128, val, how } => attach!(i16, val, how, cx, |x| { self.set_f(x); }, |f| { self.set_f_with(f); }),
            Act::Set { tag: 2047, val, how } => attach!(i32, val, how, cx, |x| { self.set_g(x); }, |f| { self.set_g_with(f); }),
            Act::Set { tag: 2048, val, how } => attach!(i64, val, how, cx, |x| { self.set_h(x); }, |f| { self.set_h_with(f); }),
            Act::Set { tag: 262144, val, how } => attach!(bool, val, how, cx, |x| { self.set_i(x); }, |f| { self.set_i_with(f); }),
            Act::Set { tag: 536870911, val, how } => attach!(u64, val, how, cx, |x| { self.set_j(x); }, |f| { self.set_j_with(f); }),
            _ => false,
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, State, Hash)]
#[steit(ctor_prefix = "fresh")]
pub struct Item {
    #[steit(tag = 0)] pub id: u32,
    #[steit(tag = 1)] pub score: i32,
    #[steit(tag = 2)] pub on: bool,
}
impl Node for Item {
    fn ty(reg: &mut Reg) -> Ty {
        reg.def(std::any::type_name::<Self>(), |reg| Def { name: "Item".to_string(), cs: "Item", state: true, kind: Kind::Struct(vec![
            Field { name: "id", cs: "Id", tag: 0, state: true, eq: true, ty: <u32 as Node>::ty(reg) },
            Field { name: "score", cs: "Score", tag: 1, state: true, eq: true, ty: <i32 as Node>::ty(reg) },
            Field { name: "on", cs: "On", tag: 2, state: true, eq: true, ty: <bool as Node>::ty(reg) },
        ]) })
    }
    fn build(v: &Val, rt: Runtime) -> Self {
        let mut s = Self::fresh(rt);
        let xs = v.list();
        s.set_id_with(|rt| Node::build(&xs[0], rt));
        s.set_score(Node::build(&xs[1], Runtime::new()));
        s.set_on_with(|rt| Node::build(&xs[2], rt));
        s
    }
    fn obs(&self) -> Val {
        Val::L(vec![<u32 as Node>::obs(&self.id), <i32 as Node>::obs(&self.score), <bool as Node>::obs(&self.on)])
    }
    fn aside(&self) {
        let x = Self::fresh(self.runtime().clone());
        assert!(x == Self::with_runtime(self.runtime().nested(1)), "what the constructor makes");
        self.id.aside();
        self.score.aside();
        self.on.aside();
    }
    fn act(&mut self, path: &[u32], act: &Act, cx: &mut Cx) -> bool {
        if let Some((&tag, rest)) = path.split_first() {
            return match tag {
                0 => self.id.act(rest, act, cx),
                1 => self.score.act(rest, act, cx),
                2 => self.on.act(rest, act, cx),
                _ => false,
            };
        }
        match act {
            Act::Set { tag: 0, val, how } => attach!(u32, val, how, cx, |x| { self.set_id(x); }, |f| { self.set_id_with(f); }),
            Act::Set { tag: 1, val, how } => attach!(i32, val, how, cx, |x| { self.set_score(x); }, |f| { self.set_score_with(f); }),
            Act::Set { tag: 2, val, how } => attach!(bool, val, how, cx, |x| { self.set_on(x); }, |f| { self.set_on_with(f); }),
            _ => false,
        }
    }
}

#[steit_derive(Clone, PartialEq, Eq, Debug, Serialize, Deserialize, Hash)]
pub struct Note {
    #[steit(tag = 0)] pub at: u64,
    #[steit(tag = 1)] pub text: String,
    #[steit(tag = 5)] pub refs: Vec<u32>,
}
impl Leaf for Note {
    fn ty(reg: &mut Reg) -> Ty {
        reg.def(std::any::type_name::<Self>(), |reg| Def { name: "Note".to_string(), cs: "Note", state: false, kind: Kind::Struct(vec![
            Field { name: "at", cs: "At", tag: 0, state: false, eq: true, ty: <u64 as Leaf>::ty(reg) },
            Field { name: "text", cs: "Text", tag: 1, state: false, eq: true, ty: <String as Leaf>::ty(reg) },
            Field { name: "refs", cs: "Refs", tag: 5, state: false, eq: true, ty: <Vec<u32> as Leaf>::ty(reg) },
        ]) })
    }
    fn build(v: &Val) -> Self {
        #[allow(unused_mut)] let mut s = Self::new();
        let _ = v;
        s.at = Leaf::build(&v.list()[0]);
        s.text = Leaf::build(&v.list()[1]);
        s.refs = Leaf::build(&v.list()[2]);
        s
    }
    fn obs(&self) -> Val { Val::L(vec![<u64 as Leaf>::obs(&self.at), <String as Leaf>::obs(&self.text), <Vec<u32> as Leaf>::obs(&self.refs)]) }
}

#[steit_derive(Clone, PartialEq, Eq, Debug, Serialize, Deserialize, Hash)]
pub enum Mood {
    #[steit(tag = 0)] Calm {  },
    #[steit(tag = 9)] Wild { #[steit(tag = 0)] level: i16, #[steit(tag = 3)] why: Option<String> },
}
impl Leaf for Mood {
    fn ty(reg: &mut Reg) -> Ty {
        reg.def(std::any::type_name::<Self>(), |reg| Def { name: "Mood".to_string(), cs: "Mood", state: false, kind: Kind::Enum(vec![
            Variant { name: "Calm", tag: 0, fields: vec![] },
            Variant { name: "Wild", tag: 9, fields: vec![Field { name: "level", cs: "Level", tag: 0, state: false, eq: true, ty: <i16 as Leaf>::ty(reg) }, Field { name: "why", cs: "Why", tag: 3, state: false, eq: true, ty: <Option<String> as Leaf>::ty(reg) }] },
        ]) })
    }
    fn build(v: &Val) -> Self {
        let (tag, xs) = v.variant();
        let _ = xs;
        match tag {
            0 => {
                #[allow(unused_mut)] let mut s = Self::new_calm();
                s
            }
            9 => {
                #[allow(unused_mut)] let mut s = Self::new_wild();
                if let Mood::Wild { level, why, .. } = &mut s { *level = Leaf::build(&xs[0]); *why = Leaf::build(&xs[1]); }
                s
            }
            _ => unreachable!(),
        }
    }
    fn obs(&self) -> Val {
        match self {
            Mood::Calm { .. } => Val::E(0, vec![]),
            Mood::Wild { level, why, .. } => Val::E(9, vec![<i16 as Leaf>::obs(level), <Option<String> as Leaf>::obs(why)]),
        }
    }
}

#[steit_derive(Clone, PartialEq, Eq, Debug, Serialize, Deserialize, Hash)]
pub struct Coin(#[steit(tag = 0)] pub u64, #[steit(tag = 4)] pub Bytes, #[steit(tag = 2)] pub Option<i8>);
impl Leaf for Coin {
    fn ty(reg: &mut Reg) -> Ty {
        reg.def(std::any::type_name::<Self>(), |reg| Def { name: "Coin".to_string(), cs: "Coin", state: false, kind: Kind::Struct(vec![
            Field { name: "f0", cs: "F0", tag: 0, state: false, eq: true, ty: <u64 as Leaf>::ty(reg) },
            Field { name: "f1", cs: "F1", tag: 4, state: false, eq: true, ty: <Bytes as Leaf>::ty(reg) },
            Field { name: "f2", cs: "F2", tag: 2, state: false, eq: true, ty: <Option<i8> as Leaf>::ty(reg) },
        ]) })
    }
    fn build(v: &Val) -> Self {
        #[allow(unused_mut)] let mut s = Self::new();
        let _ = v;
        s.0 = Leaf::build(&v.list()[0]);
        s.1 = Leaf::build(&v.list()[1]);
        s.2 = Leaf::build(&v.list()[2]);
        s
    }
    fn obs(&self) -> Val { Val::L(vec![<u64 as Leaf>::obs(&self.0), <Bytes as Leaf>::obs(&self.1), <Option<i8> as Leaf>::obs(&self.2)]) }
}

#[steit_derive(Clone, PartialEq, Eq, Debug, Serialize, Deserialize, Hash)]
pub struct Nil {
}
impl Leaf for Nil {
    fn ty(reg: &mut Reg) -> Ty {
        reg.def(std::any::type_name::<Self>(), |reg| Def { name: "Nil".to_string(), cs: "Nil", state: false, kind: Kind::Struct(vec![
        ]) })
    }
    fn build(v: &Val) -> Self {
        #[allow(unused_mut)] let mut s = Self::new();
        let _ = v;
        s
    }
    fn obs(&self) -> Val { Val::L(vec![]) }
}

#[steit_derive(Clone, PartialEq, Eq, Debug, Serialize, Deserialize, Hash)]
pub enum Face {
    #[steit(tag = 3)] Tails(#[steit(tag = 0)] i32, #[steit(tag = 6)] Coin),
    #[steit(tag = 0)] Edge,
    #[steit(tag = 1)] Heads { #[steit(tag = 5)] coin: Coin, #[steit(tag = 0)] nil: Nil, #[steit(tag = 9)] next: Vec<Face> },
}
impl Leaf for Face {
    fn ty(reg: &mut Reg) -> Ty {
        reg.def(std::any::type_name::<Self>(), |reg| Def { name: "Face".to_string(), cs: "Face", state: false, kind: Kind::Enum(vec![
            Variant { name: "Tails", tag: 3, fields: vec![Field { name: "f0", cs: "F0", tag: 0, state: false, eq: true, ty: <i32 as Leaf>::ty(reg) }, Field { name: "f1", cs: "F1", tag: 6, state: false, eq: true, ty: <Coin as Leaf>::ty(reg) }] },
            Variant { name: "Edge", tag: 0, fields: vec![] },
            Variant { name: "Heads", tag: 1, fields: vec![Field { name: "coin", cs: "Coin", tag: 5, state: false, eq: true, ty: <Coin as Leaf>::ty(reg) }, Field { name: "nil", cs: "Nil", tag: 0, state: false, eq: true, ty: <Nil as Leaf>::ty(reg) }, Field { name: "next", cs: "Next", tag: 9, state: false, eq: true, ty: <Vec<Face> as Leaf>::ty(reg) }] },
        ]) })
    }
    fn build(v: &Val) -> Self {
        let (tag, xs) = v.variant();
        let _ = xs;
        match tag {
            3 => {
                #[allow(unused_mut)] let mut s = Self::new_tails();
                if let Face::Tails(f0, f1, ..) = &mut s { *f0 = Leaf::build(&xs[0]); *f1 = Leaf::build(&xs[1]); }
                s
            }
            0 => {
                #[allow(unused_mut)] let mut s = Self::new_edge();
                s
            }
            1 => {
                #[allow(unused_mut)] let mut s = Self::new_heads();
                if let Face::Heads { coin, nil, next, .. } = &mut s { *coin = Leaf::build(&xs[0]); *nil = Leaf::build(&xs[1]); *next = Leaf::build(&xs[2]); }
                s
            }
            _ => unreachable!(),
        }
    }
    fn obs(&self) -> Val {
        match self {
            Face::Tails(f0, f1, ..) => Val::E(3, vec![<i32 as Leaf>::obs(f0), <Coin as Leaf>::obs(f1)]),
            Face::Edge { .. } => Val::E(0, vec![]),
            Face::Heads { coin, nil, next, .. } => Val::E(1, vec![<Coin as Leaf>::obs(coin), <Nil as Leaf>::obs(nil), <Vec<Face> as Leaf>::obs(next)]),
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, State, Hash)]

pub struct Profile {
    #[steit(tag = 0, no_state)] pub name: String,
    #[steit(tag = 1)] pub level: u16,
    #[steit(tag = 2, no_state)] pub tags: Vec<u32>,
    #[steit(tag = 3, no_state)] pub notes: Vec<String>,
    #[steit(tag = 4, no_state)] pub title: Option<String>,
    #[steit(tag = 5, no_state)] pub blob: Bytes,
    #[steit(tag = 6, no_state)] pub grid: [u16; 3],
    #[steit(tag = 7, no_state)] pub note: Note,
    #[steit(tag = 8, no_state)] pub mood: Mood,
    #[steit(tag = 9, no_state)] pub history: Vec<Note>,
    #[steit(tag = 10)] pub friends: List<u64>,
    #[steit(tag = 11, no_state)] pub seen: bool,
    #[steit(tag = 12, no_state)] pub lucky: Option<u8>,
}
impl Node for Profile {
    fn ty(reg: &mut Reg) -> Ty {
        reg.def(std::any::type_name::<Self>(), |reg| Def { name: "Profile".to_string(), cs: "Profile", state: true, kind: Kind::Struct(vec![
            Field { name: "name", cs: "Name", tag: 0, state: false, eq: true, ty: <String as Leaf>::ty(reg) },
            Field { name: "level", cs: "Level", tag: 1, state: true, eq: true, ty: <u16 as Node>::ty(reg) },
            Field { name: "tags", cs: "Tags", tag: 2, state: false, eq: true, ty: <Vec<u32> as Leaf>::ty(reg) },
            Field { name: "notes", cs: "Notes", tag: 3, state: false, eq: true, ty: <Vec<String> as Leaf>::ty(reg) },
            Field { name: "title", cs: "Title", tag: 4, state: false, eq: true, ty: <Option<String> as Leaf>::ty(reg) },
            Field { name: "blob", cs: "Blob", tag: 5, state: false, eq: true, ty: <Bytes as Leaf>::ty(reg) },
            Field { name: "grid", cs: "Grid", tag: 6, state: false, eq: true, ty: <[u16; 3] as Leaf>::ty(reg) },
            Field { name: "note", cs: "Note", tag: 7, state: false, eq: true, ty: <Note as Leaf>::ty(reg) },
            Field { name: "mood", cs: "Mood", tag: 8, state: false, eq: true, ty: <Mood as Leaf>::ty(reg) },
            Field { name: "history", cs: "History", tag: 9, state: false, eq: true, ty: <Vec<Note> as Leaf>::ty(reg) },
            Field { name: "friends", cs: "Friends", tag: 10, state: true, eq: true, ty: <List<u64> as Node>::ty(reg) },
            Field { name: "seen", cs: "Seen", tag: 11, state: false, eq: true, ty: <bool as Leaf>::ty(reg) },
            Field { name: "lucky", cs: "Lucky", tag: 12, state: false, eq: true, ty: <Option<u8> as Leaf>::ty(reg) },
        ]) })
    }
    fn build(v: &Val, rt: Runtime) -> Self {
        let mut s = Self::new(rt);
        let xs = v.list();
        s.set_name(Leaf::build(&xs[0]));
        s.set_level(Node::build(&xs[1], Runtime::new()));
        s.set_tags(Leaf::build(&xs[2]));
        s.set_notes(Leaf::build(&xs[3]));
        s.set_title(Leaf::build(&xs[4]));
        s.set_blob(Leaf::build(&xs[5]));
        s.set_grid(Leaf::build(&xs[6]));
        s.set_note(Leaf::build(&xs[7]));
        s.set_mood(Leaf::build(&xs[8]));
        s.set_history(Leaf::build(&xs[9]));
        s.set_friends_with(|rt| Node::build(&xs[10], rt));
        s.set_seen(Leaf::build(&xs[11]));
        s.set_lucky(Leaf::build(&xs[12]));
        s
    }
    fn obs(&self) -> Val {
        Val::L(vec![<String as Leaf>::obs(&self.name), <u16 as Node>::obs(&self.level), <Vec<u32> as Leaf>::obs(&self.tags), <Vec<String> as Leaf>::obs(&self.notes), <Option<String> as Leaf>::obs(&self.title), <Bytes as Leaf>::obs(&self.blob), <[u16; 3] as Leaf>::obs(&self.grid), <Note as Leaf>::obs(&self.note), <Mood as Leaf>::obs(&self.mood), <Vec<Note> as Leaf>::obs(&self.history), <List<u64> as Node>::obs(&self.friends), <bool as Leaf>::obs(&self.seen), <Option<u8> as Leaf>::obs(&self.lucky)])
    }
    fn aside(&self) {
        let x = Self::new(self.runtime().clone());
        assert!(x == Self::with_runtime(self.runtime().nested(1)), "what the constructor makes");
        self.level.aside();
        self.friends.aside();
    }
    fn act(&mut self, path: &[u32], act: &Act, cx: &mut Cx) -> bool {
        if let Some((&tag, rest)) = path.split_first() {
            return match tag {
                1 => self.level.act(rest, act, cx),
                10 => self.friends.act(rest, act, cx),
                _ => false,
            };
        }
        match act {
            Act::SetNs { tag: 0, val } => { self.set_name(Leaf::build(val)); true }
            Act::Set { tag: 1, val, how } => attach!(u16, val, how, cx, |x| { self.set_level(x); }, |f| { self.set_level_with(f); }),
            Act::SetNs { tag: 2, val } => { self.set_tags(Leaf::build(val)); true }
            Act::SetNs { tag: 3, val } => { self.set_notes(Leaf::build(val)); true }
            Act::SetNs { tag: 4, val } => { self.set_title(Leaf::build(val)); true }
            Act::SetNs { tag: 5, val } => { self.set_blob(Leaf::build(val)); true }
            Act::SetNs { tag: 6, val } => { self.set_grid(Leaf::build(val)); true }
            Act::SetNs { tag: 7, val } => { self.set_note(Leaf::build(val)); true }
            Act::SetNs { tag: 8, val } => { self.set_mood(Leaf::build(val)); true }
            Act::SetNs { tag: 9, val } => { self.set_history(Leaf::build(val)); true }
            Act::Set { tag: 10, val, how } => attach!(List<u64>, val, how, cx, |x| { self.set_friends(x); }, |f| { self.set_friends_with(f); }),
            Act::SetNs { tag: 11, val } => { self.set_seen(Leaf::build(val)); true }
            Act::SetNs { tag: 12, val } => { self.set_lucky(Leaf::build(val)); true }
            _ => false,
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, State)]
#[steit(no_meta)]
pub struct Vault {
    #[steit(tag = 0, no_state)] pub coins: HashMap<u8, String>,
    #[steit(tag = 1, no_state)] pub pair: (u8, String),
    #[steit(tag = 2, no_state)] pub trio: Vec<(u16, bool, i64)>,
    #[steit(tag = 3)] pub by_color: Map<Color, u32>,
    #[steit(tag = 4)] pub owners: Map<Color, Item>,
    #[steit(tag = 5, no_state)] pub counts: HashMap<String, Vec<i32>>,
}
impl Node for Vault {
    fn ty(reg: &mut Reg) -> Ty {
        reg.def(std::any::type_name::<Self>(), |reg| Def { name: "Vault".to_string(), cs: "Vault", state: true, kind: Kind::Struct(vec![
            Field { name: "coins", cs: "Coins", tag: 0, state: false, eq: true, ty: <HashMap<u8, String> as Leaf>::ty(reg) },
            Field { name: "pair", cs: "Pair", tag: 1, state: false, eq: true, ty: <(u8, String) as Leaf>::ty(reg) },
            Field { name: "trio", cs: "Trio", tag: 2, state: false, eq: true, ty: <Vec<(u16, bool, i64)> as Leaf>::ty(reg) },
            Field { name: "by_color", cs: "ByColor", tag: 3, state: true, eq: true, ty: <Map<Color, u32> as Node>::ty(reg) },
            Field { name: "owners", cs: "Owners", tag: 4, state: true, eq: true, ty: <Map<Color, Item> as Node>::ty(reg) },
            Field { name: "counts", cs: "Counts", tag: 5, state: false, eq: true, ty: <HashMap<String, Vec<i32>> as Leaf>::ty(reg) },
        ]) })
    }
    fn build(v: &Val, rt: Runtime) -> Self {
        let mut s = Self::new(rt);
        let xs = v.list();
        s.set_coins(Leaf::build(&xs[0]));
        s.set_pair(Leaf::build(&xs[1]));
        s.set_trio(Leaf::build(&xs[2]));
        s.set_by_color(Node::build(&xs[3], Runtime::new()));
        s.set_owners_with(|rt| Node::build(&xs[4], rt));
        s.set_counts(Leaf::build(&xs[5]));
        s
    }
    fn obs(&self) -> Val {
        Val::L(vec![<HashMap<u8, String> as Leaf>::obs(&self.coins), <(u8, String) as Leaf>::obs(&self.pair), <Vec<(u16, bool, i64)> as Leaf>::obs(&self.trio), <Map<Color, u32> as Node>::obs(&self.by_color), <Map<Color, Item> as Node>::obs(&self.owners), <HashMap<String, Vec<i32>> as Leaf>::obs(&self.counts)])
    }
    fn aside(&self) {
        let x = Self::new(self.runtime().clone());
        assert!(x == Self::with_runtime(self.runtime().nested(1)), "what the constructor makes");
        self.by_color.aside();
        self.owners.aside();
    }
    fn act(&mut self, path: &[u32], act: &Act, cx: &mut Cx) -> bool {
        if let Some((&tag, rest)) = path.split_first() {
            return match tag {
                3 => self.by_color.act(rest, act, cx),
                4 => self.owners.act(rest, act, cx),
                _ => false,
            };
        }
        match act {
            Act::SetNs { tag: 0, val } => { self.set_coins(Leaf::build(val)); true }
            Act::SetNs { tag: 1, val } => { self.set_pair(Leaf::build(val)); true }
            Act::SetNs { tag: 2, val } => { self.set_trio(Leaf::build(val)); true }
            Act::Set { tag: 3, val, how } => attach!(Map<Color, u32>, val, how, cx, |x| { self.set_by_color(x); }, |f| { self.set_by_color_with(f); }),
            Act::Set { tag: 4, val, how } => attach!(Map<Color, Item>, val, how, cx, |x| { self.set_owners(x); }, |f| { self.set_owners_with(f); }),
            Act::SetNs { tag: 5, val } => { self.set_counts(Leaf::build(val)); true }
            _ => false,
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, State, Hash)]

pub struct Pair(#[steit(tag = 0)] pub i32, #[steit(tag = 1)] pub List<u8>, #[steit(tag = 2)] pub Maybe<u16>, #[steit(tag = 9, no_state)] pub String);
impl Node for Pair {
    fn ty(reg: &mut Reg) -> Ty {
        reg.def(std::any::type_name::<Self>(), |reg| Def { name: "Pair".to_string(), cs: "Pair", state: true, kind: Kind::Struct(vec![
            Field { name: "f0", cs: "F0", tag: 0, state: true, eq: true, ty: <i32 as Node>::ty(reg) },
            Field { name: "f1", cs: "F1", tag: 1, state: true, eq: true, ty: <List<u8> as Node>::ty(reg) },
            Field { name: "f2", cs: "F2", tag: 2, state: true, eq: true, ty: <Maybe<u16> as Node>::ty(reg) },
            Field { name: "f3", cs: "F3", tag: 9, state: false, eq: true, ty: <String as Leaf>::ty(reg) },
        ]) })
    }
    fn build(v: &Val, rt: Runtime) -> Self {
        let mut s = Self::new(rt);
        let xs = v.list();
        s.set_f0_with(|rt| Node::build(&xs[0], rt));
        s.set_f1(Node::build(&xs[1], Runtime::new()));
        s.set_f2_with(|rt| Node::build(&xs[2], rt));
        s.set_f3(Leaf::build(&xs[3]));
        s
    }
    fn obs(&self) -> Val {
        Val::L(vec![<i32 as Node>::obs(&self.0), <List<u8> as Node>::obs(&self.1), <Maybe<u16> as Node>::obs(&self.2), <String as Leaf>::obs(&self.3)])
    }
    fn aside(&self) {
        let x = Self::new(self.runtime().clone());
        assert!(x == Self::with_runtime(self.runtime().nested(1)), "what the constructor makes");
        self.0.aside();
        self.1.aside();
        self.2.aside();
    }
    fn act(&mut self, path: &[u32], act: &Act, cx: &mut Cx) -> bool {
        if let Some((&tag, rest)) = path.split_first() {
            return match tag {
                0 => self.0.act(rest, act, cx),
                1 => self.1.act(rest, act, cx),
                2 => self.2.act(rest, act, cx),
                _ => false,
            };
        }
        match act {
            Act::Set { tag: 0, val, how } => attach!(i32, val, how, cx, |x| { self.set_f0(x); }, |f| { self.set_f0_with(f); }),
            Act::Set { tag: 1, val, how } => attach!(List<u8>, val, how, cx, |x| { self.set_f1(x); }, |f| { self.set_f1_with(f); }),
            Act::Set { tag: 2, val, how } => attach!(Maybe<u16>, val, how, cx, |x| { self.set_f2(x); }, |f| { self.set_f2_with(f); }),
            Act::SetNs { tag: 9, val } => { self.set_f3(Leaf::build(val)); true }
            _ => false,
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, State, Hash)]
#[steit(no_size_cache)]
pub struct Bare {
    #[steit(tag = 0)] pub x: i64,
    #[steit(tag = 1)] pub inner: BareInner,
    #[steit(tag = 2)] pub xs: List<BareInner>,
}
impl Node for Bare {
    fn ty(reg: &mut Reg) -> Ty {
        reg.def(std::any::type_name::<Self>(), |reg| Def { name: "Bare".to_string(), cs: "Bare", state: true, kind: Kind::Struct(vec![
            Field { name: "x", cs: "X", tag: 0, state: true, eq: true, ty: <i64 as Node>::ty(reg) },
            Field { name: "inner", cs: "Inner", tag: 1, state: true, eq: true, ty: <BareInner as Node>::ty(reg) },
            Field { name: "xs", cs: "Xs", tag: 2, state: true, eq: true, ty: <List<BareInner> as Node>::ty(reg) },
        ]) })
    }
    fn build(v: &Val, rt: Runtime) -> Self {
        let mut s = Self::new(rt);
        let xs = v.list();
        s.set_x_with(|rt| Node::build(&xs[0], rt));
        s.set_inner(Node::build(&xs[1], Runtime::new()));
        s.set_xs_with(|rt| Node::build(&xs[2], rt));
        s
    }
    fn obs(&self) -> Val {
        Val::L(vec![<i64 as Node>::obs(&self.x), <BareInner as Node>::obs(&self.inner), <List<BareInner> as Node>::obs(&self.xs)])
    }
    fn aside(&self) {
        let x = Self::new(self.runtime().clone());
        assert!(x == Self::with_runtime(self.runtime().nested(1)), "what the constructor makes");
        self.x.aside();
        self.inner.aside();
        self.xs.aside();
    }
    fn act(&mut self, path: &[u32], act: &Act, cx: &mut Cx) -> bool {
        if let Some((&tag, rest)) = path.split_first() {
            return match tag {
                0 => self.x.act(rest, act, cx),
                1 => self.inner.act(rest, act, cx),
                2 => self.xs.act(rest, act, cx),
                _ => false,
            };
        }
        match act {
            Act::Set { tag: 0, val, how } => attach!(i64, val, how, cx, |x| { self.set_x(x); }, |f| { self.set_x_with(f); }),
            Act::Set { tag: 1, val, how } => attach!(BareInner, val, how, cx, |x| { self.set_inner(x); }, |f| { self.set_inner_with(f); }),
            Act::Set { tag: 2, val, how } => attach!(List<BareInner>, val, how, cx, |x| { self.set_xs(x); }, |f| { self.set_xs_with(f); }),
            _ => false,
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, State, Hash)]
#[steit(no_size_cache)]
pub struct BareInner {
    #[steit(tag = 0)] pub y: u32,
    #[steit(tag = 1)] pub z: List<i16>,
}
impl Node for BareInner {
    fn ty(reg: &mut Reg) -> Ty {
        reg.def(std::any::type_name::<Self>(), |reg| Def { name: "BareInner".to_string(), cs: "BareInner", state: true, kind: Kind::Struct(vec![
            Field { name: "y", cs: "Y", tag: 0, state: true, eq: true, ty: <u32 as Node>::ty(reg) },
            Field { name: "z", cs: "Z", tag: 1, state: true, eq: true, ty: <List<i16> as Node>::ty(reg) },
        ]) })
    }
    fn build(v: &Val, rt: Runtime) -> Self {
        let mut s = Self::new(rt);
        let xs = v.list();
        s.set_y_with(|rt| Node::build(&xs[0], rt));
        s.set_z(Node::build(&xs[1], Runtime::new()));
        s
    }
    fn obs(&self) -> Val {
        Val::L(vec![<u32 as Node>::obs(&self.y), <List<i16> as Node>::obs(&self.z)])
    }
    fn aside(&self) {
        let x = Self::new(self.runtime().clone());
        assert!(x == Self::with_runtime(self.runtime().nested(1)), "what the constructor makes");
        self.y.aside();
        self.z.aside();
    }
    fn act(&mut self, path: &[u32], act: &Act, cx: &mut Cx) -> bool {
        if let Some((&tag, rest)) = path.split_first() {
            return match tag {
                0 => self.y.act(rest, act, cx),
                1 => self.z.act(rest, act, cx),
                _ => false,
            };
        }
        match act {
            Act::Set { tag: 0, val, how } => attach!(u32, val, how, cx, |x| { self.set_y(x); }, |f| { self.set_y_with(f); }),
            Act::Set { tag: 1, val, how } => attach!(List<i16>, val, how, cx, |x| { self.set_z(x); }, |f| { self.set_z_with(f); }),
            _ => false,
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, State, Hash)]
#[steit(size_cache_renamed = "sc", runtime_renamed = "rt")]
pub struct Renamed {
    #[steit(tag = 0)] pub size_cache: u32,
    #[steit(tag = 1)] pub runtime: List<u32>,
    #[steit(tag = 2)] pub path: Maybe<Item>,
}
impl Node for Renamed {
    fn ty(reg: &mut Reg) -> Ty {
        reg.def(std::any::type_name::<Self>(), |reg| Def { name: "Renamed".to_string(), cs: "Renamed", state: true, kind: Kind::Struct(vec![
            Field { name: "size_cache", cs: "SizeCache", tag: 0, state: true, eq: true, ty: <u32 as Node>::ty(reg) },
            Field { name: "runtime", cs: "Runtime", tag: 1, state: true, eq: true, ty: <List<u32> as Node>::ty(reg) },
            Field { name: "path", cs: "Path", tag: 2, state: true, eq: true, ty: <Maybe<Item> as Node>::ty(reg) },
        ]) })
    }
    fn build(v: &Val, rt: Runtime) -> Self {
        let mut s = Self::new(rt);
        let xs = v.list();
        s.set_size_cache_with(|rt| Node::build(&xs[0], rt));
        s.set_runtime(Node::build(&xs[1], Runtime::new()));
        s.set_path_with(|rt| Node::build(&xs[2], rt));
        s
    }
    fn obs(&self) -> Val {
        Val::L(vec![<u32 as Node>::obs(&self.size_cache), <List<u32> as Node>::obs(&self.runtime), <Maybe<Item> as Node>::obs(&self.path)])
    }
    fn aside(&self) {
        let x = Self::new(self.runtime().clone());
        assert!(x == Self::with_runtime(self.runtime().nested(1)), "what the constructor makes");
        self.size_cache.aside();
        self.runtime.aside();
        self.path.aside();
    }
    fn act(&mut self, path: &[u32], act: &Act, cx: &mut Cx) -> bool {
        if let Some((&tag, rest)) = path.split_first() {
            return match tag {
                0 => self.size_cache.act(rest, act, cx),
                1 => self.runtime.act(rest, act, cx),
                2 => self.path.act(rest, act, cx),
                _ => false,
            };
        }
        match act {
            Act::Set { tag: 0, val, how } => attach!(u32, val, how, cx, |x| { self.set_size_cache(x); }, |f| { self.set_size_cache_with(f); }),
            Act::Set { tag: 1, val, how } => attach!(List<u32>, val, how, cx, |x| { self.set_runtime(x); }, |f| { self.set_runtime_with(f); }),
            Act::Set { tag: 2, val, how } => attach!(Maybe<Item>, val, how, cx, |x| { self.set_path(x); }, |f| { self.set_path_with(f); }),
            _ => false,
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, State, Hash)]

pub struct Empty {
}
impl Node for Empty {
    fn ty(reg: &mut Reg) -> Ty {
        reg.def(std::any::type_name::<Self>(), |reg| Def { name: "Empty".to_string(), cs: "Empty", state: true, kind: Kind::Struct(vec![
        ]) })
    }
    fn build(v: &Val, rt: Runtime) -> Self {
        let mut s = Self::new(rt);
        let xs = v.list();
        s
    }
    fn obs(&self) -> Val {
        Val::L(vec![])
    }
    fn aside(&self) {
        let x = Self::new(self.runtime().clone());
        assert!(x == Self::with_runtime(self.runtime().nested(1)), "what the constructor makes");
    }
    fn act(&mut self, path: &[u32], act: &Act, cx: &mut Cx) -> bool {
        if let Some((&tag, rest)) = path.split_first() {
            return match tag {
                _ => false,
            };
        }
        match act {
            _ => false,
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, State)]

pub enum Shape {
    #[steit(tag = 0)]
    Nothing,
    #[steit(tag = 3)]
    Dot(#[steit(tag = 0)] i32, #[steit(tag = 1)] u8),
    #[steit(tag = 200)]
    Group { #[steit(tag = 0, no_state)] label: String, #[steit(tag = 1)] items: List<Item>, #[steit(tag = 2)] by_key: Map<u8, i64>, #[steit(tag = 3)] best: Item },
    #[steit(tag = 4)]
    Deep { #[steit(tag = 7)] inner: Maybe<Item>, #[steit(tag = 1)] weight: u64 },
    #[steit(tag = 5)]
    Blank {  },
}
impl Node for Shape {
    fn ty(reg: &mut Reg) -> Ty {
        reg.def(std::any::type_name::<Self>(), |reg| Def { name: "Shape".to_string(), cs: "Shape", state: true, kind: Kind::Enum(vec![
            Variant { name: "Nothing", tag: 0, fields: vec![] },
            Variant { name: "Dot", tag: 3, fields: vec![Field { name: "f0", cs: "F0", tag: 0, state: true, eq: true, ty: <i32 as Node>::ty(reg) }, Field { name: "f1", cs: "F1", tag: 1, state: true, eq: true, ty: <u8 as Node>::ty(reg) }] },
            Variant { name: "Group", tag: 200, fields: vec![Field { name: "label", cs: "Label", tag: 0, state: false, eq: true, ty: <String as Leaf>::ty(reg) }, Field { name: "items", cs: "Items", tag: 1, state: true, eq: true, ty: <List<Item> as Node>::ty(reg) }, Field { name: "by_key", cs: "ByKey", tag: 2, state: true, eq: true, ty: <Map<u8, i64> as Node>::ty(reg) }, Field { name: "best", cs: "Best", tag: 3, state: true, eq: true, ty: <Item as Node>::ty(reg) }] },
            Variant { name: "Deep", tag: 4, fields: vec![Field { name: "inner", cs: "Inner", tag: 7, state: true, eq: true, ty: <Maybe<Item> as Node>::ty(reg) }, Field { name: "weight", cs: "Weight", tag: 1, state: true, eq: true, ty: <u64 as Node>::ty(reg) }] },
            Variant { name: "Blank", tag: 5, fields: vec![] },
        ]) })
    }
    #[allow(unused_mut, unused_variables)]
    fn build(v: &Val, rt: Runtime) -> Self {
        let (tag, xs) = v.variant();
        match tag {
            0 => {
                let mut s = Self::new_nothing(rt);
                s
            }
            3 => {
                let mut s = Self::new_dot(rt);
                s.set_dot_f0_with(|rt| Node::build(&xs[0], rt));
                s.set_dot_f1(Node::build(&xs[1], Runtime::new()));
                s
            }
            200 => {
                let mut s = Self::new_group(rt);
                s.set_group_label(Leaf::build(&xs[0]));
                s.set_group_items(Node::build(&xs[1], Runtime::new()));
                s.set_group_by_key_with(|rt| Node::build(&xs[2], rt));
                s.set_group_best(Node::build(&xs[3], Runtime::new()));
                s
            }
            4 => {
                let mut s = Self::new_deep(rt);
                s.set_deep_inner_with(|rt| Node::build(&xs[0], rt));
                s.set_deep_weight(Node::build(&xs[1], Runtime::new()));
                s
            }
            5 => {
                let mut s = Self::new_blank(rt);
                s
            }
            _ => unreachable!(),
        }
    }
    fn obs(&self) -> Val {
        match self {
            Shape::Nothing { .. } => Val::E(0, vec![]),
            Shape::Dot(f0, f1, ..) => Val::E(3, vec![<i32 as Node>::obs(f0), <u8 as Node>::obs(f1)]),
            Shape::Group { label, items, by_key, best, .. } => Val::E(200, vec![<String as Leaf>::obs(label), <List<Item> as Node>::obs(items), <Map<u8, i64> as Node>::obs(by_key), <Item as Node>::obs(best)]),
            Shape::Deep { inner, weight, .. } => Val::E(4, vec![<Maybe<Item> as Node>::obs(inner), <u64 as Node>::obs(weight)]),
            Shape::Blank { .. } => Val::E(5, vec![]),
        }
    }
    #[allow(unused_variables)]
    fn aside(&self) {
        let x = Self::new_nothing(self.runtime().nested(0));
        assert!(Node::obs(&x).variant().0 == 0, "what the constructor makes");
        let x = Self::new_dot(self.runtime().nested(3));
        assert!(Node::obs(&x).variant().0 == 3, "what the constructor makes");
        let x = Self::new_group(self.runtime().nested(200));
        assert!(Node::obs(&x).variant().0 == 200, "what the constructor makes");
        let x = Self::new_deep(self.runtime().nested(4));
        assert!(Node::obs(&x).variant().0 == 4, "what the constructor makes");
        let x = Self::new_blank(self.runtime().nested(5));
        assert!(Node::obs(&x).variant().0 == 5, "what the constructor makes");
        match self {
            Shape::Nothing { .. } => {
            }
            Shape::Dot(f0, f1, ..) => {
                f0.aside();
                f1.aside();
            }
            Shape::Group { label, items, by_key, best, .. } => {
                items.aside();
                by_key.aside();
                best.aside();
            }
            Shape::Deep { inner, weight, .. } => {
                inner.aside();
                weight.aside();
            }
            Shape::Blank { .. } => {
            }
        }
    }
    #[allow(unused_variables)]
    fn act(&mut self, path: &[u32], act: &Act, cx: &mut Cx) -> bool {
        if path.len() > 1 {
            return match (path[0], path[1], self) {
                (3, 0, Shape::Dot(f0, f1, ..)) => f0.act(&path[2..], act, cx),
                (3, 1, Shape::Dot(f0, f1, ..)) => f1.act(&path[2..], act, cx),
                (200, 1, Shape::Group { label, items, by_key, best, .. }) => items.act(&path[2..], act, cx),
                (200, 2, Shape::Group { label, items, by_key, best, .. }) => by_key.act(&path[2..], act, cx),
                (200, 3, Shape::Group { label, items, by_key, best, .. }) => best.act(&path[2..], act, cx),
                (4, 7, Shape::Deep { inner, weight, .. }) => inner.act(&path[2..], act, cx),
                (4, 1, Shape::Deep { inner, weight, .. }) => weight.act(&path[2..], act, cx),
                _ => false,
            };
        }
        if !path.is_empty() { return false; }
        match act {
            Act::VSet { vtag: 3, tag: 0, val, how } => attach!(i32, val, how, cx, |x| { self.set_dot_f0(x); }, |f| { self.set_dot_f0_with(f); }),
            Act::VSet { vtag: 3, tag: 1, val, how } => attach!(u8, val, how, cx, |x| { self.set_dot_f1(x); }, |f| { self.set_dot_f1_with(f); }),
            Act::VSetNs { vtag: 200, tag: 0, val } => { self.set_group_label(Leaf::build(val)); true }
            Act::VSet { vtag: 200, tag: 1, val, how } => attach!(List<Item>, val, how, cx, |x| { self.set_group_items(x); }, |f| { self.set_group_items_with(f); }),
            Act::VSet { vtag: 200, tag: 2, val, how } => attach!(Map<u8, i64>, val, how, cx, |x| { self.set_group_by_key(x); }, |f| { self.set_group_by_key_with(f); }),
            Act::VSet { vtag: 200, tag: 3, val, how } => attach!(Item, val, how, cx, |x| { self.set_group_best(x); }, |f| { self.set_group_best_with(f); }),
            Act::VSet { vtag: 4, tag: 7, val, how } => attach!(Maybe<Item>, val, how, cx, |x| { self.set_deep_inner(x); }, |f| { self.set_deep_inner_with(f); }),
            Act::VSet { vtag: 4, tag: 1, val, how } => attach!(u64, val, how, cx, |x| { self.set_deep_weight(x); }, |f| { self.set_deep_weight_with(f); }),
            _ => false,
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, State, Hash)]
#[steit(ctor_prefix = "make")]
pub enum Mode {
    #[steit(tag = 1)]
    Off,
    #[steit(tag = 0)]
    Run { #[steit(tag = 0)] speed: u32, #[steit(tag = 1)] steps: List<u16> },
    #[steit(tag = 2)]
    Jump(#[steit(tag = 4)] Box<Item>),
}
impl Node for Mode {
    fn ty(reg: &mut Reg) -> Ty {
        reg.def(std::any::type_name::<Self>(), |reg| Def { name: "Mode".to_string(), cs: "Mode", state: true, kind: Kind::Enum(vec![
            Variant { name: "Off", tag: 1, fields: vec![] },
            Variant { name: "Run", tag: 0, fields: vec![Field { name: "speed", cs: "Speed", tag: 0, state: true, eq: true, ty: <u32 as Node>::ty(reg) }, Field { name: "steps", cs: "Steps", tag: 1, state: true, eq: true, ty: <List<u16> as Node>::ty(reg) }] },
            Variant { name: "Jump", tag: 2, fields: vec![Field { name: "f0", cs: "F0", tag: 4, state: true, eq: true, ty: <Box<Item> as Node>::ty(reg) }] },
        ]) })
    }
    #[allow(unused_mut, unused_variables)]
    fn build(v: &Val, rt: Runtime) -> Self {
        let (tag, xs) = v.variant();
        match tag {
            1 => {
                let mut s = Self::make_off(rt);
                s
            }
            0 => {
                let mut s = Self::make_run(rt);
                s.set_run_speed_with(|rt| Node::build(&xs[0], rt));
                s.set_run_steps(Node::build(&xs[1], Runtime::new()));
                s
            }
            2 => {
                let mut s = Self::make_jump(rt);
                s.set_jump_f0_with(|rt| Node::build(&xs[0], rt));
                s
            }
            _ => unreachable!(),
        }
    }
    fn obs(&self) -> Val {
        match self {
            Mode::Off { .. } => Val::E(1, vec![]),
            Mode::Run { speed, steps, .. } => Val::E(0, vec![<u32 as Node>::obs(speed), <List<u16> as Node>::obs(steps)]),
            Mode::Jump(f0, ..) => Val::E(2, vec![<Box<Item> as Node>::obs(f0)]),
        }
    }
    #[allow(unused_variables)]
    fn aside(&self) {
        let x = Self::make_off(self.runtime().nested(1));
        assert!(Node::obs(&x).variant().0 == 1, "what the constructor makes");
        let x = Self::make_run(self.runtime().nested(0));
        assert!(Node::obs(&x).variant().0 == 0, "what the constructor makes");
        let x = Self::make_jump(self.runtime().nested(2));
        assert!(Node::obs(&x).variant().0 == 2, "what the constructor makes");
        match self {
            Mode::Off { .. } => {
            }
            Mode::Run { speed, steps, .. } => {
                speed.aside();
                steps.aside();
            }
            Mode::Jump(f0, ..) => {
                f0.aside();
            }
        }
    }
    #[allow(unused_variables)]
    fn act(&mut self, path: &[u32], act: &Act, cx: &mut Cx) -> bool {
        if path.len() > 1 {
            return match (path[0], path[1], self) {
                (0, 0, Mode::Run { speed, steps, .. }) => speed.act(&path[2..], act, cx),
                (0, 1, Mode::Run { speed, steps, .. }) => steps.act(&path[2..], act, cx),
                (2, 4, Mode::Jump(f0, ..)) => f0.act(&path[2..], act, cx),
                _ => false,
            };
        }
        if !path.is_empty() { return false; }
        match act {
            Act::VSet { vtag: 0, tag: 0, val, how } => attach!(u32, val, how, cx, |x| { self.set_run_speed(x); }, |f| { self.set_run_speed_with(f); }),
            Act::VSet { vtag: 0, tag: 1, val, how } => attach!(List<u16>, val, how, cx, |x| { self.set_run_steps(x); }, |f| { self.set_run_steps_with(f); }),
            Act::VSet { vtag: 2, tag: 4, val, how } => attach!(Box<Item>, val, how, cx, |x| { self.set_jump_f0(x); }, |f| { self.set_jump_f0_with(f); }),
            _ => false,
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, State, Hash)]

pub struct Wrap<T: State> {
    #[steit(tag = 0)] pub value: T,
    #[steit(tag = 1)] pub version: u32,
}
impl<T: Node> Node for Wrap<T> {
    fn ty(reg: &mut Reg) -> Ty {
        reg.def(std::any::type_name::<Self>(), |reg| Def { name: "Wrap".to_string(), cs: "Wrap", state: true, kind: Kind::Struct(vec![
            Field { name: "value", cs: "Value", tag: 0, state: true, eq: true, ty: <T as Node>::ty(reg) },
            Field { name: "version", cs: "Version", tag: 1, state: true, eq: true, ty: <u32 as Node>::ty(reg) },
        ]) })
    }
    fn build(v: &Val, rt: Runtime) -> Self {
        let mut s = Self::new(rt);
        let xs = v.list();
        s.set_value_with(|rt| Node::build(&xs[0], rt));
        s.set_version(Node::build(&xs[1], Runtime::new()));
        s
    }
    fn obs(&self) -> Val {
        Val::L(vec![<T as Node>::obs(&self.value), <u32 as Node>::obs(&self.version)])
    }
    fn aside(&self) {
        let x = Self::new(self.runtime().clone());
        assert!(x == Self::with_runtime(self.runtime().nested(1)), "what the constructor makes");
        self.value.aside();
        self.version.aside();
    }
    fn act(&mut self, path: &[u32], act: &Act, cx: &mut Cx) -> bool {
        if let Some((&tag, rest)) = path.split_first() {
            return match tag {
                0 => self.value.act(rest, act, cx),
                1 => self.version.act(rest, act, cx),
                _ => false,
            };
        }
        match act {
            Act::Set { tag: 0, val, how } => attach!(T, val, how, cx, |x| { self.set_value(x); }, |f| { self.set_value_with(f); }),
            Act::Set { tag: 1, val, how } => attach!(u32, val, how, cx, |x| { self.set_version(x); }, |f| { self.set_version_with(f); }),
            _ => false,
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, State, Hash)]

pub enum Either<A: State, B: State> {
    #[steit(tag = 0)]
    Left(#[steit(tag = 0)] A),
    #[steit(tag = 1)]
    Right { #[steit(tag = 0)] b: B, #[steit(tag = 1)] extra: u8 },
}
impl<A: Node, B: Node> Node for Either<A, B> {
    fn ty(reg: &mut Reg) -> Ty {
        reg.def(std::any::type_name::<Self>(), |reg| Def { name: "Either".to_string(), cs: "Either", state: true, kind: Kind::Enum(vec![
            Variant { name: "Left", tag: 0, fields: vec![Field { name: "f0", cs: "F0", tag: 0, state: true, eq: true, ty: <A as Node>::ty(reg) }] },
            Variant { name: "Right", tag: 1, fields: vec![Field { name: "b", cs: "B", tag: 0, state: true, eq: true, ty: <B as Node>::ty(reg) }, Field { name: "extra", cs: "Extra", tag: 1, state: true, eq: true, ty: <u8 as Node>::ty(reg) }] },
        ]) })
    }
    #[allow(unused_mut, unused_variables)]
    fn build(v: &Val, rt: Runtime) -> Self {
        let (tag, xs) = v.variant();
        match tag {
            0 => {
                let mut s = Self::new_left(rt);
                s.set_left_f0_with(|rt| Node::build(&xs[0], rt));
                s
            }
            1 => {
                let mut s = Self::new_right(rt);
                s.set_right_b_with(|rt| Node::build(&xs[0], rt));
                s.set_right_extra(Node::build(&xs[1], Runtime::new()));
                s
            }
            _ => unreachable!(),
        }
    }
    fn obs(&self) -> Val {
        match self {
            Either::Left(f0, ..) => Val::E(0, vec![<A as Node>::obs(f0)]),
            Either::Right { b, extra, .. } => Val::E(1, vec![<B as Node>::obs(b), <u8 as Node>::obs(extra)]),
        }
    }
    #[allow(unused_variables)]
    fn aside(&self) {
        let x = Self::new_left(self.runtime().nested(0));
        assert!(Node::obs(&x).variant().0 == 0, "what the constructor makes");
        let x = Self::new_right(self.runtime().nested(1));
        assert!(Node::obs(&x).variant().0 == 1, "what the constructor makes");
        match self {
            Either::Left(f0, ..) => {
                f0.aside();
            }
            Either::Right { b, extra, .. } => {
                b.aside();
                extra.aside();
            }
        }
    }
    #[allow(unused_variables)]
    fn act(&mut self, path: &[u32], act: &Act, cx: &mut Cx) -> bool {
        if path.len() > 1 {
            return match (path[0], path[1], self) {
                (0, 0, Either::Left(f0, ..)) => f0.act(&path[2..], act, cx),
                (1, 0, Either::Right { b, extra, .. }) => b.act(&path[2..], act, cx),
                (1, 1, Either::Right { b, extra, .. }) => extra.act(&path[2..], act, cx),
                _ => false,
            };
        }
        if !path.is_empty() { return false; }
        match act {
            Act::VSet { vtag: 0, tag: 0, val, how } => attach!(A, val, how, cx, |x| { self.set_left_f0(x); }, |f| { self.set_left_f0_with(f); }),
            Act::VSet { vtag: 1, tag: 0, val, how } => attach!(B, val, how, cx, |x| { self.set_right_b(x); }, |f| { self.set_right_b_with(f); }),
            Act::VSet { vtag: 1, tag: 1, val, how } => attach!(u8, val, how, cx, |x| { self.set_right_extra(x); }, |f| { self.set_right_extra_with(f); }),
            _ => false,
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, State)]

pub struct Tree {
    #[steit(tag = 0)] pub value: i32,
    #[steit(tag = 1)] pub children: List<Tree>,
    #[steit(tag = 2)] pub link: Maybe<Box<Tree>>,
    #[steit(tag = 3)] pub named: Map<u16, Tree>,
}
impl Node for Tree {
    fn ty(reg: &mut Reg) -> Ty {
        reg.def(std::any::type_name::<Self>(), |reg| Def { name: "Tree".to_string(), cs: "Tree", state: true, kind: Kind::Struct(vec![
            Field { name: "value", cs: "Value", tag: 0, state: true, eq: true, ty: <i32 as Node>::ty(reg) },
            Field { name: "children", cs: "Children", tag: 1, state: true, eq: true, ty: <List<Tree> as Node>::ty(reg) },
            Field { name: "link", cs: "Link", tag: 2, state: true, eq: true, ty: <Maybe<Box<Tree>> as Node>::ty(reg) },
            Field { name: "named", cs: "Named", tag: 3, state: true, eq: true, ty: <Map<u16, Tree> as Node>::ty(reg) },
        ]) })
    }
    fn build(v: &Val, rt: Runtime) -> Self {
        let mut s = Self::new(rt);
        let xs = v.list();
        s.set_value_with(|rt| Node::build(&xs[0], rt));
        s.set_children(Node::build(&xs[1], Runtime::new()));
        s.set_link_with(|rt| Node::build(&xs[2], rt));
        s.set_named(Node::build(&xs[3], Runtime::new()));
        s
    }
    fn obs(&self) -> Val {
        Val::L(vec![<i32 as Node>::obs(&self.value), <List<Tree> as Node>::obs(&self.children), <Maybe<Box<Tree>> as Node>::obs(&self.link), <Map<u16, Tree> as Node>::obs(&self.named)])
    }
    fn aside(&self) {
        let x = Self::new(self.runtime().clone());
        assert!(x == Self::with_runtime(self.runtime().nested(1)), "what the constructor makes");
        self.value.aside();
        self.children.aside();
        self.link.aside();
        self.named.aside();
    }
    fn act(&mut self, path: &[u32], act: &Act, cx: &mut Cx) -> bool {
        if let Some((&tag, rest)) = path.split_first() {
            return match tag {
                0 => self.value.act(rest, act, cx),
                1 => self.children.act(rest, act, cx),
                2 => self.link.act(rest, act, cx),
                3 => self.named.act(rest, act, cx),
                _ => false,
            };
        }
        match act {
            Act::Set { tag: 0, val, how } => attach!(i32, val, how, cx, |x| { self.set_value(x); }, |f| { self.set_value_with(f); }),
            Act::Set { tag: 1, val, how } => attach!(List<Tree>, val, how, cx, |x| { self.set_children(x); }, |f| { self.set_children_with(f); }),
            Act::Set { tag: 2, val, how } => attach!(Maybe<Box<Tree>>, val, how, cx, |x| { self.set_link(x); }, |f| { self.set_link_with(f); }),
            Act::Set { tag: 3, val, how } => attach!(Map<u16, Tree>, val, how, cx, |x| { self.set_named(x); }, |f| { self.set_named_with(f); }),
            _ => false,
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, State)]

pub struct Doc {
    #[steit(tag = 0, no_state)] pub title: String,
    #[steit(tag = 1)] pub rev: u64,
    #[steit(tag = 2)] pub items: List<Item>,
    #[steit(tag = 3)] pub index: Map<u16, Item>,
    #[steit(tag = 4)] pub shape: Shape,
    #[steit(tag = 5)] pub focus: Maybe<Item>,
    #[steit(tag = 6)] pub boxed: Box<Item>,
    #[steit(tag = 7)] pub matrix: List<List<i32>>,
    #[steit(tag = 8)] pub groups: Map<u8, List<Maybe<u32>>>,
    #[steit(tag = 9)] pub flags: List<bool>,
    #[steit(tag = 10)] pub shapes: Map<u32, Shape>,
    #[steit(tag = 11)] pub twice: Maybe<Maybe<u8>>,
    #[steit(tag = 12)] pub mode: Mode,
    #[steit(tag = 13)] pub profile: Profile,
    #[steit(tag = 14)] pub wrapped: Wrap<List<u32>>,
    #[steit(tag = 15)] pub choice: Either<Item, Map<u8, u16>>,
    #[steit(tag = 16)] pub pairs: List<Pair>,
    #[steit(tag = 17)] pub prims: Prims,
    #[steit(tag = 18)] pub boxes: List<Box<Shape>>,
    #[steit(tag = 19)] pub empty: List<Empty>,
    #[steit(tag = 20)] pub tries: Map<u8, Map<u8, Item>>,
}
impl Node for Doc {
    fn ty(reg: &mut Reg) -> Ty {
        reg.def(std::any::type_name::<Self>(), |reg| Def { name: "Doc".to_string(), cs: "Doc", state: true, kind: Kind::Struct(vec![
            Field { name: "title", cs: "Title", tag: 0, state: false, eq: true, ty: <String as Leaf>::ty(reg) },
            Field { name: "rev", cs: "Rev", tag: 1, state: true, eq: true, ty: <u64 as Node>::ty(reg) },
            Field { name: "items", cs: "Items", tag: 2, state: true, eq: true, ty: <List<Item> as Node>::ty(reg) },
            Field { name: "index", cs: "Index", tag: 3, state: true, eq: true, ty: <Map<u16, Item> as Node>::ty(reg) },
            Field { name: "shape", cs: "Shape", tag: 4, state: true, eq: true, ty: <Shape as Node>::ty(reg) },
            Field { name: "focus", cs: "Focus", tag: 5, state: true, eq: true, ty: <Maybe<Item> as Node>::ty(reg) },
            Field { name: "boxed", cs: "Boxed", tag: 6, state: true, eq: true, ty: <Box<Item> as Node>::ty(reg) },
            Field { name: "matrix", cs: "Matrix", tag: 7, state: true, eq: true, ty: <List<List<i32>> as Node>::ty(reg) },
            Field { name: "groups", cs: "Groups", tag: 8, state: true, eq: true, ty: <Map<u8, List<Maybe<u32>>> as Node>::ty(reg) },
            Field { name: "flags", cs: "Flags", tag: 9, state: true, eq: true, ty: <List<bool> as Node>::ty(reg) },
            Field { name: "shapes", cs: "Shapes", tag: 10, state: true, eq: true, ty: <Map<u32, Shape> as Node>::ty(reg) },
            Field { name: "twice", cs: "Twice", tag: 11, state: true, eq: true, ty: <Maybe<Maybe<u8>> as Node>::ty(reg) },
            Field { name: "mode", cs: "Mode", tag: 12, state: true, eq: true, ty: <Mode as Node>::ty(reg) },
            Field { name: "profile", cs: "Profile", tag: 13, state: true, eq: true, ty: <Profile as Node>::ty(reg) },
            Field { name: "wrapped", cs: "Wrapped", tag: 14, state: true, eq: true, ty: <Wrap<List<u32>> as Node>::ty(reg) },
            Field { name: "choice", cs: "Choice", tag: 15, state: true, eq: true, ty: <Either<Item, Map<u8, u16>> as Node>::ty(reg) },
            Field { name: "pairs", cs: "Pairs", tag: 16, state: true, eq: true, ty: <List<Pair> as Node>::ty(reg) },
            Field { name: "prims", cs: "Prims", tag: 17, state: true, eq: true, ty: <Prims as Node>::ty(reg) },
            Field { name: "boxes", cs: "Boxes", tag: 18, state: true, eq: true, ty: <List<Box<Shape>> as Node>::ty(reg) },
            Field { name: "empty", cs: "Empty", tag: 19, state: true, eq: true, ty: <List<Empty> as Node>::ty(reg) },
            Field { name: "tries", cs: "Tries", tag: 20, state: true, eq: true, ty: <Map<u8, Map<u8, Item>> as Node>::ty(reg) },
        ]) })
    }
    fn build(v: &Val, rt: Runtime) -> Self {
        let mut s = Self::new(rt);
        let xs = v.list();
        s.set_title(Leaf::build(&xs[0]));
        s.set_rev(Node::build(&xs[1], Runtime::new()));
        s.set_items_with(|rt| Node::build(&xs[2], rt));
        s.set_index(Node::build(&xs[3], Runtime::new()));
        s.set_shape_with(|rt| Node::build(&xs[4], rt));
        s.set_focus(Node::build(&xs[5], Runtime::new()));
        s.set_boxed_with(|rt| Node::build(&xs[6], rt));
        s.set_matrix(Node::build(&xs[7], Runtime::new()));
        s.set_groups_with(|rt| Node::build(&xs[8], rt));
        s.set_flags(Node::build(&xs[9], Runtime::new()));
        s.set_shapes_with(|rt| Node::build(&xs[10], rt));
        s.set_twice(Node::build(&xs[11], Runtime::new()));
        s.set_mode_with(|rt| Node::build(&xs[12], rt));
        s.set_profile(Node::build(&xs[13], Runtime::new()));
        s.set_wrapped_with(|rt| Node::build(&xs[14], rt));
        s.set_choice(Node::build(&xs[15], Runtime::new()));
        s.set_pairs_with(|rt| Node::build(&xs[16], rt));
        s.set_prims(Node::build(&xs[17], Runtime::new()));
        s.set_boxes_with(|rt| Node::build(&xs[18], rt));
        s.set_empty(Node::build(&xs[19], Runtime::new()));
        s.set_tries_with(|rt| Node::build(&xs[20], rt));
        s
    }
    fn obs(&self) -> Val {
        Val::L(vec![<String as Leaf>::obs(&self.title), <u64 as Node>::obs(&self.rev), <List<Item> as Node>::obs(&self.items), <Map<u16, Item> as Node>::obs(&self.index), <Shape as Node>::obs(&self.shape), <Maybe<Item> as Node>::obs(&self.focus), <Box<Item> as Node>::obs(&self.boxed), <List<List<i32>> as Node>::obs(&self.matrix), <Map<u8, List<Maybe<u32>>> as Node>::obs(&self.groups), <List<bool> as Node>::obs(&self.flags), <Map<u32, Shape> as Node>::obs(&self.shapes), <Maybe<Maybe<u8>> as Node>::obs(&self.twice), <Mode as Node>::obs(&self.mode), <Profile as Node>::obs(&self.profile), <Wrap<List<u32>> as Node>::obs(&self.wrapped), <Either<Item, Map<u8, u16>> as Node>::obs(&self.choice), <List<Pair> as Node>::obs(&self.pairs), <Prims as Node>::obs(&self.prims), <List<Box<Shape>> as Node>::obs(&self.boxes), <List<Empty> as Node>::obs(&self.empty), <Map<u8, Map<u8, Item>> as Node>::obs(&self.tries)])
    }
    fn aside(&self) {
        let x = Self::new(self.runtime().clone());
        assert!(x == Self::with_runtime(self.runtime().nested(1)), "what the constructor makes");
        self.rev.aside();
        self.items.aside();
        self.index.aside();
        self.shape.aside();
        self.focus.aside();
        self.boxed.aside();
        self.matrix.aside();
        self.groups.aside();
        self.flags.aside();
        self.shapes.aside();
        self.twice.aside();
        self.mode.aside();
        self.profile.aside();
        self.wrapped.aside();
        self.choice.aside();
        self.pairs.aside();
        self.prims.aside();
        self.boxes.aside();
        self.empty.aside();
        self.tries.aside();
    }
    fn act(&mut self, path: &[u32], act: &Act, cx: &mut Cx) -> bool {
        if let Some((&tag, rest)) = path.split_first() {
            return match tag {
                1 => self.rev.act(rest, act, cx),
                2 => self.items.act(rest, act, cx),
                3 => self.index.act(rest, act, cx),
                4 => self.shape.act(rest, act, cx),
                5 => self.focus.act(rest, act, cx),
                6 => self.boxed.act(rest, act, cx),
                7 => self.matrix.act(rest, act, cx),
                8 => self.groups.act(rest, act, cx),
                9 => self.flags.act(rest, act, cx),
                10 => self.shapes.act(rest, act, cx),
                11 => self.twice.act(rest, act, cx),
                12 => self.mode.act(rest, act, cx),
                13 => self.profile.act(rest, act, cx),
                14 => self.wrapped.act(rest, act, cx),
                15 => self.choice.act(rest, act, cx),
                16 => self.pairs.act(rest, act, cx),
                17 => self.prims.act(rest, act, cx),
                18 => self.boxes.act(rest, act, cx),
                19 => self.empty.act(rest, act, cx),
                20 => self.tries.act(rest, act, cx),
                _ => false,
            };
        }
        match act {
            Act::SetNs { tag: 0, val } => { self.set_title(Leaf::build(val)); true }
            Act::Set { tag: 1, val, how } => attach!(u64, val, how, cx, |x| { self.set_rev(x); }, |f| { self.set_rev_with(f); }),
            Act::Set { tag: 2, val, how } => attach!(List<Item>, val, how, cx, |x| { self.set_items(x); }, |f| { self.set_items_with(f); }),
            Act::Set { tag: 3, val, how } => attach!(Map<u16, Item>, val, how, cx, |x| { self.set_index(x); }, |f| { self.set_index_with(f); }),
            Act::Set { tag: 4, val, how } => attach!(Shape, val, how, cx, |x| { self.set_shape(x); }, |f| { self.set_shape_with(f); }),
            Act::Set { tag: 5, val, how } => attach!(Maybe<Item>, val, how, cx, |x| { self.set_focus(x); }, |f| { self.set_focus_with(f); }),
            Act::Set { tag: 6, val, how } => attach!(Box<Item>, val, how, cx, |x| { self.set_boxed(x); }, |f| { self.set_boxed_with(f); }),
            Act::Set { tag: 7, val, how } => attach!(List<List<i32>>, val, how, cx, |x| { self.set_matrix(x); }, |f| { self.set_matrix_with(f); }),
            Act::Set { tag: 8, val, how } => attach!(Map<u8, List<Maybe<u32>>>, val, how, cx, |x| { self.set_groups(x); }, |f| { self.set_groups_with(f); }),
            Act::Set { tag: 9, val, how } => attach!(List<bool>, val, how, cx, |x| { self.set_flags(x); }, |f| { self.set_flags_with(f); }),
            Act::Set { tag: 10, val, how } => attach!(Map<u32, Shape>, val, how, cx, |x| { self.set_shapes(x); }, |f| { self.set_shapes_with(f); }),
            Act::Set { tag: 11, val, how } => attach!(Maybe<Maybe<u8>>, val, how, cx, |x| { self.set_twice(x); }, |f| { self.set_twice_with(f); }),
            Act::Set { tag: 12, val, how } => attach!(Mode, val, how, cx, |x| { self.set_mode(x); }, |f| { self.set_mode_with(f); }),
            Act::Set { tag: 13, val, how } => attach!(Profile, val, how, cx, |x| { self.set_profile(x); }, |f| { self.set_profile_with(f); }),
            Act::Set { tag: 14, val, how } => attach!(Wrap<List<u32>>, val, how, cx, |x| { self.set_wrapped(x); }, |f| { self.set_wrapped_with(f); }),
            Act::Set { tag: 15, val, how } => attach!(Either<Item, Map<u8, u16>>, val, how, cx, |x| { self.set_choice(x); }, |f| { self.set_choice_with(f); }),
            Act::Set { tag: 16, val, how } => attach!(List<Pair>, val, how, cx, |x| { self.set_pairs(x); }, |f| { self.set_pairs_with(f); }),
            Act::Set { tag: 17, val, how } => attach!(Prims, val, how, cx, |x| { self.set_prims(x); }, |f| { self.set_prims_with(f); }),
            Act::Set { tag: 18, val, how } => attach!(List<Box<Shape>>, val, how, cx, |x| { self.set_boxes(x); }, |f| { self.set_boxes_with(f); }),
            Act::Set { tag: 19, val, how } => attach!(List<Empty>, val, how, cx, |x| { self.set_empty(x); }, |f| { self.set_empty_with(f); }),
            Act::Set { tag: 20, val, how } => attach!(Map<u8, Map<u8, Item>>, val, how, cx, |x| { self.set_tries(x); }, |f| { self.set_tries_with(f); }),
            _ => false,
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, State)]
#[steit(no_meta)]
pub struct Mess {
    #[steit(tag = 0)] pub vault: Vault,
    #[steit(tag = 1)] pub vaults: List<Vault>,
    #[steit(tag = 2)] pub bare: Bare,
    #[steit(tag = 3)] pub renamed: Map<u8, Renamed>,
    #[steit(tag = 4)] pub pad: u32,
}
impl Node for Mess {
    fn ty(reg: &mut Reg) -> Ty {
        reg.def(std::any::type_name::<Self>(), |reg| Def { name: "Mess".to_string(), cs: "Mess", state: true, kind: Kind::Struct(vec![
            Field { name: "vault", cs: "Vault", tag: 0, state: true, eq: true, ty: <Vault as Node>::ty(reg) },
            Field { name: "vaults", cs: "Vaults", tag: 1, state: true, eq: true, ty: <List<Vault> as Node>::ty(reg) },
            Field { name: "bare", cs: "Bare", tag: 2, state: true, eq: true, ty: <Bare as Node>::ty(reg) },
            Field { name: "renamed", cs: "Renamed", tag: 3, state: true, eq: true, ty: <Map<u8, Renamed> as Node>::ty(reg) },
            Field { name: "pad", cs: "Pad", tag: 4, state: true, eq: true, ty: <u32 as Node>::ty(reg) },
        ]) })
    }
    fn build(v: &Val, rt: Runtime) -> Self {
        let mut s = Self::new(rt);
        let xs = v.list();
        s.set_vault_with(|rt| Node::build(&xs[0], rt));
        s.set_vaults(Node::build(&xs[1], Runtime::new()));
        s.set_bare_with(|rt| Node::build(&xs[2], rt));
        s.set_renamed(Node::build(&xs[3], Runtime::new()));
        s.set_pad_with(|rt| Node::build(&xs[4], rt));
        s
    }
    fn obs(&self) -> Val {
        Val::L(vec![<Vault as Node>::obs(&self.vault), <List<Vault> as Node>::obs(&self.vaults), <Bare as Node>::obs(&self.bare), <Map<u8, Renamed> as Node>::obs(&self.renamed), <u32 as Node>::obs(&self.pad)])
    }
    fn aside(&self) {
        let x = Self::new(self.runtime().clone());
        assert!(x == Self::with_runtime(self.runtime().nested(1)), "what the constructor makes");
        self.vault.aside();
        self.vaults.aside();
        self.bare.aside();
        self.renamed.aside();
        self.pad.aside();
    }
    fn act(&mut self, path: &[u32], act: &Act, cx: &mut Cx) -> bool {
        if let Some((&tag, rest)) = path.split_first() {
            return match tag {
                0 => self.vault.act(rest, act, cx),
                1 => self.vaults.act(rest, act, cx),
                2 => self.bare.act(rest, act, cx),
                3 => self.renamed.act(rest, act, cx),
                4 => self.pad.act(rest, act, cx),
                _ => false,
            };
        }
        match act {
            Act::Set { tag: 0, val, how } => attach!(Vault, val, how, cx, |x| { self.set_vault(x); }, |f| { self.set_vault_with(f); }),
            Act::Set { tag: 1, val, how } => attach!(List<Vault>, val, how, cx, |x| { self.set_vaults(x); }, |f| { self.set_vaults_with(f); }),
            Act::Set { tag: 2, val, how } => attach!(Bare, val, how, cx, |x| { self.set_bare(x); }, |f| { self.set_bare_with(f); }),
            Act::Set { tag: 3, val, how } => attach!(Map<u8, Renamed>, val, how, cx, |x| { self.set_renamed(x); }, |f| { self.set_renamed_with(f); }),
            Act::Set { tag: 4, val, how } => attach!(u32, val, how, cx, |x| { self.set_pad(x); }, |f| { self.set_pad_with(f); }),
            _ => false,
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, State, Hash)]

pub struct Member {
    #[steit(tag = 0)] pub hp: i32,
    #[steit(tag = 1)] pub mana: u64,
    #[steit(tag = 2)] pub bag: List<Item>,
    #[steit(tag = 3)] pub shape: Mode,
    #[steit(tag = 4)] pub pet: Maybe<Item>,
    #[steit(tag = 5, no_state)] pub name: String,
}
impl Node for Member {
    fn ty(reg: &mut Reg) -> Ty {
        reg.def(std::any::type_name::<Self>(), |reg| Def { name: "Member".to_string(), cs: "Member", state: true, kind: Kind::Struct(vec![
            Field { name: "hp", cs: "Hp", tag: 0, state: true, eq: true, ty: <i32 as Node>::ty(reg) },
            Field { name: "mana", cs: "Mana", tag: 1, state: true, eq: true, ty: <u64 as Node>::ty(reg) },
            Field { name: "bag", cs: "Bag", tag: 2, state: true, eq: true, ty: <List<Item> as Node>::ty(reg) },
            Field { name: "shape", cs: "Shape", tag: 3, state: true, eq: true, ty: <Mode as Node>::ty(reg) },
            Field { name: "pet", cs: "Pet", tag: 4, state: true, eq: true, ty: <Maybe<Item> as Node>::ty(reg) },
            Field { name: "name", cs: "Name", tag: 5, state: false, eq: true, ty: <String as Leaf>::ty(reg) },
        ]) })
    }
    fn build(v: &Val, rt: Runtime) -> Self {
        let mut s = Self::new(rt);
        let xs = v.list();
        s.set_hp_with(|rt| Node::build(&xs[0], rt));
        s.set_mana(Node::build(&xs[1], Runtime::new()));
        s.set_bag_with(|rt| Node::build(&xs[2], rt));
        s.set_shape(Node::build(&xs[3], Runtime::new()));
        s.set_pet_with(|rt| Node::build(&xs[4], rt));
        s.set_name(Leaf::build(&xs[5]));
        s
    }
    fn obs(&self) -> Val {
        Val::L(vec![<i32 as Node>::obs(&self.hp), <u64 as Node>::obs(&self.mana), <List<Item> as Node>::obs(&self.bag), <Mode as Node>::obs(&self.shape), <Maybe<Item> as Node>::obs(&self.pet), <String as Leaf>::obs(&self.name)])
    }
    fn aside(&self) {
        let x = Self::new(self.runtime().clone());
        assert!(x == Self::with_runtime(self.runtime().nested(1)), "what the constructor makes");
        self.hp.aside();
        self.mana.aside();
        self.bag.aside();
        self.shape.aside();
        self.pet.aside();
    }
    fn act(&mut self, path: &[u32], act: &Act, cx: &mut Cx) -> bool {
        if let Some((&tag, rest)) = path.split_first() {
            return match tag {
                0 => self.hp.act(rest, act, cx),
                1 => self.mana.act(rest, act, cx),
                2 => self.bag.act(rest, act, cx),
                3 => self.shape.act(rest, act, cx),
                4 => self.pet.act(rest, act, cx),
                _ => false,
            };
        }
        match act {
            Act::Set { tag: 0, val, how } => attach!(i32, val, how, cx, |x| { self.set_hp(x); }, |f| { self.set_hp_with(f); }),
            Act::Set { tag: 1, val, how } => attach!(u64, val, how, cx, |x| { self.set_mana(x); }, |f| { self.set_mana_with(f); }),
            Act::Set { tag: 2, val, how } => attach!(List<Item>, val, how, cx, |x| { self.set_bag(x); }, |f| { self.set_bag_with(f); }),
            Act::Set { tag: 3, val, how } => attach!(Mode, val, how, cx, |x| { self.set_shape(x); }, |f| { self.set_shape_with(f); }),
            Act::Set { tag: 4, val, how } => attach!(Maybe<Item>, val, how, cx, |x| { self.set_pet(x); }, |f| { self.set_pet_with(f); }),
            Act::SetNs { tag: 5, val } => { self.set_name(Leaf::build(val)); true }
            _ => false,
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, State, Hash)]

pub struct Team {
    #[steit(tag = 0)] pub members: List<Member>,
    #[steit(tag = 1)] pub score: Item,
    #[steit(tag = 2)] pub log: List<u32>,
    #[steit(tag = 3)] pub mode: Mode,
    #[steit(tag = 4)] pub inner: Wrap<List<Item>>,
    #[steit(tag = 5)] pub lead: Maybe<Member>,
    #[steit(tag = 6)] pub boxed: Box<Member>,
    #[steit(tag = 7)] pub choice: Either<Item, List<u32>>,
    #[steit(tag = 8)] pub bare: Bare,
    #[steit(tag = 9)] pub about: Profile,
    #[steit(tag = 10)] pub rows: List<List<i16>>,
    #[steit(tag = 11)] pub pair: Pair,
}
impl Node for Team {
    fn ty(reg: &mut Reg) -> Ty {
        reg.def(std::any::type_name::<Self>(), |reg| Def { name: "Team".to_string(), cs: "Team", state: true, kind: Kind::Struct(vec![
            Field { name: "members", cs: "Members", tag: 0, state: true, eq: true, ty: <List<Member> as Node>::ty(reg) },
            Field { name: "score", cs: "Score", tag: 1, state: true, eq: true, ty: <Item as Node>::ty(reg) },
            Field { name: "log", cs: "Log", tag: 2, state: true, eq: true, ty: <List<u32> as Node>::ty(reg) },
            Field { name: "mode", cs: "Mode", tag: 3, state: true, eq: true, ty: <Mode as Node>::ty(reg) },
            Field { name: "inner", cs: "Inner", tag: 4, state: true, eq: true, ty: <Wrap<List<Item>> as Node>::ty(reg) },
            Field { name: "lead", cs: "Lead", tag: 5, state: true, eq: true, ty: <Maybe<Member> as Node>::ty(reg) },
            Field { name: "boxed", cs: "Boxed", tag: 6, state: true, eq: true, ty: <Box<Member> as Node>::ty(reg) },
            Field { name: "choice", cs: "Choice", tag: 7, state: true, eq: true, ty: <Either<Item, List<u32>> as Node>::ty(reg) },
            Field { name: "bare", cs: "Bare", tag: 8, state: true, eq: true, ty: <Bare as Node>::ty(reg) },
            Field { name: "about", cs: "About", tag: 9, state: true, eq: true, ty: <Profile as Node>::ty(reg) },
            Field { name: "rows", cs: "Rows", tag: 10, state: true, eq: true, ty: <List<List<i16>> as Node>::ty(reg) },
            Field { name: "pair", cs: "Pair", tag: 11, state: true, eq: true, ty: <Pair as Node>::ty(reg) },
        ]) })
    }
    fn build(v: &Val, rt: Runtime) -> Self {
        let mut s = Self::new(rt);
        let xs = v.list();
        s.set_members_with(|rt| Node::build(&xs[0], rt));
        s.set_score(Node::build(&xs[1], Runtime::new()));
        s.set_log_with(|rt| Node::build(&xs[2], rt));
        s.set_mode(Node::build(&xs[3], Runtime::new()));
        s.set_inner_with(|rt| Node::build(&xs[4], rt));
        s.set_lead(Node::build(&xs[5], Runtime::new()));
        s.set_boxed_with(|rt| Node::build(&xs[6], rt));
        s.set_choice(Node::build(&xs[7], Runtime::new()));
        s.set_bare_with(|rt| Node::build(&xs[8], rt));
        s.set_about(Node::build(&xs[9], Runtime::new()));
        s.set_rows_with(|rt| Node::build(&xs[10], rt));
        s.set_pair(Node::build(&xs[11], Runtime::new()));
        s
    }
    fn obs(&self) -> Val {
        Val::L(vec![<List<Member> as Node>::obs(&self.members), <Item as Node>::obs(&self.score), <List<u32> as Node>::obs(&self.log), <Mode as Node>::obs(&self.mode), <Wrap<List<Item>> as Node>::obs(&self.inner), <Maybe<Member> as Node>::obs(&self.lead), <Box<Member> as Node>::obs(&self.boxed), <Either<Item, List<u32>> as Node>::obs(&self.choice), <Bare as Node>::obs(&self.bare), <Profile as Node>::obs(&self.about), <List<List<i16>> as Node>::obs(&self.rows), <Pair as Node>::obs(&self.pair)])
    }
    fn aside(&self) {
        let x = Self::new(self.runtime().clone());
        assert!(x == Self::with_runtime(self.runtime().nested(1)), "what the constructor makes");
        self.members.aside();
        self.score.aside();
        self.log.aside();
        self.mode.aside();
        self.inner.aside();
        self.lead.aside();
        self.boxed.aside();
        self.choice.aside();
        self.bare.aside();
        self.about.aside();
        self.rows.aside();
        self.pair.aside();
    }
    fn act(&mut self, path: &[u32], act: &Act, cx: &mut Cx) -> bool {
        if let Some((&tag, rest)) = path.split_first() {
            return match tag {
                0 => self.members.act(rest, act, cx),
                1 => self.score.act(rest, act, cx),
                2 => self.log.act(rest, act, cx),
                3 => self.mode.act(rest, act, cx),
                4 => self.inner.act(rest, act, cx),
                5 => self.lead.act(rest, act, cx),
                6 => self.boxed.act(rest, act, cx),
                7 => self.choice.act(rest, act, cx),
                8 => self.bare.act(rest, act, cx),
                9 => self.about.act(rest, act, cx),
                10 => self.rows.act(rest, act, cx),
                11 => self.pair.act(rest, act, cx),
                _ => false,
            };
        }
        match act {
            Act::Set { tag: 0, val, how } => attach!(List<Member>, val, how, cx, |x| { self.set_members(x); }, |f| { self.set_members_with(f); }),
            Act::Set { tag: 1, val, how } => attach!(Item, val, how, cx, |x| { self.set_score(x); }, |f| { self.set_score_with(f); }),
            Act::Set { tag: 2, val, how } => attach!(List<u32>, val, how, cx, |x| { self.set_log(x); }, |f| { self.set_log_with(f); }),
            Act::Set { tag: 3, val, how } => attach!(Mode, val, how, cx, |x| { self.set_mode(x); }, |f| { self.set_mode_with(f); }),
            Act::Set { tag: 4, val, how } => attach!(Wrap<List<Item>>, val, how, cx, |x| { self.set_inner(x); }, |f| { self.set_inner_with(f); }),
            Act::Set { tag: 5, val, how } => attach!(Maybe<Member>, val, how, cx, |x| { self.set_lead(x); }, |f| { self.set_lead_with(f); }),
            Act::Set { tag: 6, val, how } => attach!(Box<Member>, val, how, cx, |x| { self.set_boxed(x); }, |f| { self.set_boxed_with(f); }),
            Act::Set { tag: 7, val, how } => attach!(Either<Item, List<u32>>, val, how, cx, |x| { self.set_choice(x); }, |f| { self.set_choice_with(f); }),
            Act::Set { tag: 8, val, how } => attach!(Bare, val, how, cx, |x| { self.set_bare(x); }, |f| { self.set_bare_with(f); }),
            Act::Set { tag: 9, val, how } => attach!(Profile, val, how, cx, |x| { self.set_about(x); }, |f| { self.set_about_with(f); }),
            Act::Set { tag: 10, val, how } => attach!(List<List<i16>>, val, how, cx, |x| { self.set_rows(x); }, |f| { self.set_rows_with(f); }),
            Act::Set { tag: 11, val, how } => attach!(Pair, val, how, cx, |x| { self.set_pair(x); }, |f| { self.set_pair_with(f); }),
            _ => false,
        }
    }
}
impl Split for Team {
    fn split(&mut self) -> Vec<(Vec<u32>, Box<dyn Actor + Send + '_>)> {
        let mut parts: Vec<(Vec<u32>, Box<dyn Actor + Send + '_>)> = Vec::new();
        for (i, x) in self.members.iter_mut().enumerate() { parts.push((vec![0, i as u32], Box::new(x))); }
        parts.push((vec![1], Box::new(&mut self.score)));
        parts.push((vec![2], Box::new(&mut self.log)));
        parts.push((vec![3], Box::new(&mut self.mode)));
        parts.push((vec![4], Box::new(&mut self.inner)));
        parts.push((vec![5], Box::new(&mut self.lead)));
        parts.push((vec![6], Box::new(&mut self.boxed)));
        parts.push((vec![7], Box::new(&mut self.choice)));
        parts.push((vec![8], Box::new(&mut self.bare)));
        parts.push((vec![9], Box::new(&mut self.about)));
        parts.push((vec![10], Box::new(&mut self.rows)));
        parts.push((vec![11], Box::new(&mut self.pair)));
        parts
    }
}

#[steit_derive(Clone, PartialEq, Debug, State, Hash)]

pub struct Lid {
    #[steit(tag = 0)] pub angle: i16,
    #[steit(tag = 3)] pub seal: Seal,
}
impl Node for Lid {
    fn ty(reg: &mut Reg) -> Ty {
        reg.def(std::any::type_name::<Self>(), |reg| Def { name: "Lid".to_string(), cs: "Lid", state: true, kind: Kind::Struct(vec![
            Field { name: "angle", cs: "Angle", tag: 0, state: true, eq: true, ty: <i16 as Node>::ty(reg) },
            Field { name: "seal", cs: "Seal", tag: 3, state: true, eq: true, ty: <Seal as Node>::ty(reg) },
        ]) })
    }
    fn build(v: &Val, rt: Runtime) -> Self {
        let mut s = Self::new(rt);
        let xs = v.list();
        s.set_angle_with(|rt| Node::build(&xs[0], rt));
        s.set_seal(Node::build(&xs[1], Runtime::new()));
        s
    }
    fn obs(&self) -> Val {
        Val::L(vec![<i16 as Node>::obs(&self.angle), <Seal as Node>::obs(&self.seal)])
    }
    fn aside(&self) {
        let x = Self::new(self.runtime().clone());
        assert!(x == Self::with_runtime(self.runtime().nested(1)), "what the constructor makes");
        self.angle.aside();
        self.seal.aside();
    }
    fn act(&mut self, path: &[u32], act: &Act, cx: &mut Cx) -> bool {
        if let Some((&tag, rest)) = path.split_first() {
            return match tag {
                0 => self.angle.act(rest, act, cx),
                3 => self.seal.act(rest, act, cx),
                _ => false,
            };
        }
        match act {
            Act::Set { tag: 0, val, how } => attach!(i16, val, how, cx, |x| { self.set_angle(x); }, |f| { self.set_angle_with(f); }),
            Act::Set { tag: 3, val, how } => attach!(Seal, val, how, cx, |x| { self.set_seal(x); }, |f| { self.set_seal_with(f); }),
            _ => false,
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, State, Hash)]

pub enum Seal {
    #[steit(tag = 0)]
    Open,
    #[steit(tag = 6)]
    Shut(#[steit(tag = 0)] Wax, #[steit(tag = 5)] u64),
}
impl Node for Seal {
    fn ty(reg: &mut Reg) -> Ty {
        reg.def(std::any::type_name::<Self>(), |reg| Def { name: "Seal".to_string(), cs: "Seal", state: true, kind: Kind::Enum(vec![
            Variant { name: "Open", tag: 0, fields: vec![] },
            Variant { name: "Shut", tag: 6, fields: vec![Field { name: "f0", cs: "F0", tag: 0, state: true, eq: true, ty: <Wax as Node>::ty(reg) }, Field { name: "f1", cs: "F1", tag: 5, state: true, eq: true, ty: <u64 as Node>::ty(reg) }] },
        ]) })
    }
    #[allow(unused_mut, unused_variables)]
    fn build(v: &Val, rt: Runtime) -> Self {
        let (tag, xs) = v.variant();
        match tag {
            0 => {
                let mut s = Self::new_open(rt);
                s
            }
            6 => {
                let mut s = Self::new_shut(rt);
                s.set_shut_f0_with(|rt| Node::build(&xs[0], rt));
                s.set_shut_f1(Node::build(&xs[1], Runtime::new()));
                s
            }
            _ => unreachable!(),
        }
    }
    fn obs(&self) -> Val {
        match self {
            Seal::Open { .. } => Val::E(0, vec![]),
            Seal::Shut(f0, f1, ..) => Val::E(6, vec![<Wax as Node>::obs(f0), <u64 as Node>::obs(f1)]),
        }
    }
    #[allow(unused_variables)]
    fn aside(&self) {
        let x = Self::new_open(self.runtime().nested(0));
        assert!(Node::obs(&x).variant().0 == 0, "what the constructor makes");
        let x = Self::new_shut(self.runtime().nested(6));
        assert!(Node::obs(&x).variant().0 == 6, "what the constructor makes");
        match self {
            Seal::Open { .. } => {
            }
            Seal::Shut(f0, f1, ..) => {
                f0.aside();
                f1.aside();
            }
        }
    }
    #[allow(unused_variables)]
    fn act(&mut self, path: &[u32], act: &Act, cx: &mut Cx) -> bool {
        if path.len() > 1 {
            return match (path[0], path[1], self) {
                (6, 0, Seal::Shut(f0, f1, ..)) => f0.act(&path[2..], act, cx),
                (6, 5, Seal::Shut(f0, f1, ..)) => f1.act(&path[2..], act, cx),
                _ => false,
            };
        }
        if !path.is_empty() { return false; }
        match act {
            Act::VSet { vtag: 6, tag: 0, val, how } => attach!(Wax, val, how, cx, |x| { self.set_shut_f0(x); }, |f| { self.set_shut_f0_with(f); }),
            Act::VSet { vtag: 6, tag: 5, val, how } => attach!(u64, val, how, cx, |x| { self.set_shut_f1(x); }, |f| { self.set_shut_f1_with(f); }),
            _ => false,
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, State, Hash)]

pub struct Wax {
    #[steit(tag = 0)] pub drops: List<u8>,
    #[steit(tag = 4)] pub color_code: u32,
}
impl Node for Wax {
    fn ty(reg: &mut Reg) -> Ty {
        reg.def(std::any::type_name::<Self>(), |reg| Def { name: "Wax".to_string(), cs: "Wax", state: true, kind: Kind::Struct(vec![
            Field { name: "drops", cs: "Drops", tag: 0, state: true, eq: true, ty: <List<u8> as Node>::ty(reg) },
            Field { name: "color_code", cs: "ColorCode", tag: 4, state: true, eq: true, ty: <u32 as Node>::ty(reg) },
        ]) })
    }
    fn build(v: &Val, rt: Runtime) -> Self {
        let mut s = Self::new(rt);
        let xs = v.list();
        s.set_drops_with(|rt| Node::build(&xs[0], rt));
        s.set_color_code(Node::build(&xs[1], Runtime::new()));
        s
    }
    fn obs(&self) -> Val {
        Val::L(vec![<List<u8> as Node>::obs(&self.drops), <u32 as Node>::obs(&self.color_code)])
    }
    fn aside(&self) {
        let x = Self::new(self.runtime().clone());
        assert!(x == Self::with_runtime(self.runtime().nested(1)), "what the constructor makes");
        self.drops.aside();
        self.color_code.aside();
    }
    fn act(&mut self, path: &[u32], act: &Act, cx: &mut Cx) -> bool {
        if let Some((&tag, rest)) = path.split_first() {
            return match tag {
                0 => self.drops.act(rest, act, cx),
                4 => self.color_code.act(rest, act, cx),
                _ => false,
            };
        }
        match act {
            Act::Set { tag: 0, val, how } => attach!(List<u8>, val, how, cx, |x| { self.set_drops(x); }, |f| { self.set_drops_with(f); }),
            Act::Set { tag: 4, val, how } => attach!(u32, val, how, cx, |x| { self.set_color_code(x); }, |f| { self.set_color_code_with(f); }),
            _ => false,
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, State)]
#[steit(csharp_name = "Chest")]
pub struct Crate {
    #[steit(tag = 0)] pub lid: Lid,
    #[steit(tag = 1)] pub slots: Map<u8, Slot>,
    #[steit(tag = 2, csharp_name = "mass")] pub weight_kg: i64,
}
impl Node for Crate {
    fn ty(reg: &mut Reg) -> Ty {
        reg.def(std::any::type_name::<Self>(), |reg| Def { name: "Crate".to_string(), cs: "Chest", state: true, kind: Kind::Struct(vec![
            Field { name: "lid", cs: "Lid", tag: 0, state: true, eq: true, ty: <Lid as Node>::ty(reg) },
            Field { name: "slots", cs: "Slots", tag: 1, state: true, eq: true, ty: <Map<u8, Slot> as Node>::ty(reg) },
            Field { name: "weight_kg", cs: "Mass", tag: 2, state: true, eq: true, ty: <i64 as Node>::ty(reg) },
        ]) })
    }
    fn build(v: &Val, rt: Runtime) -> Self {
        let mut s = Self::new(rt);
        let xs = v.list();
        s.set_lid_with(|rt| Node::build(&xs[0], rt));
        s.set_slots(Node::build(&xs[1], Runtime::new()));
        s.set_weight_kg_with(|rt| Node::build(&xs[2], rt));
        s
    }
    fn obs(&self) -> Val {
        Val::L(vec![<Lid as Node>::obs(&self.lid), <Map<u8, Slot> as Node>::obs(&self.slots), <i64 as Node>::obs(&self.weight_kg)])
    }
    fn aside(&self) {
        let x = Self::new(self.runtime().clone());
        assert!(x == Self::with_runtime(self.runtime().nested(1)), "what the constructor makes");
        self.lid.aside();
        self.slots.aside();
        self.weight_kg.aside();
    }
    fn act(&mut self, path: &[u32], act: &Act, cx: &mut Cx) -> bool {
        if let Some((&tag, rest)) = path.split_first() {
            return match tag {
                0 => self.lid.act(rest, act, cx),
                1 => self.slots.act(rest, act, cx),
                2 => self.weight_kg.act(rest, act, cx),
                _ => false,
            };
        }
        match act {
            Act::Set { tag: 0, val, how } => attach!(Lid, val, how, cx, |x| { self.set_lid(x); }, |f| { self.set_lid_with(f); }),
            Act::Set { tag: 1, val, how } => attach!(Map<u8, Slot>, val, how, cx, |x| { self.set_slots(x); }, |f| { self.set_slots_with(f); }),
            Act::Set { tag: 2, val, how } => attach!(i64, val, how, cx, |x| { self.set_weight_kg(x); }, |f| { self.set_weight_kg_with(f); }),
            _ => false,
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, State)]

pub struct Slot {
    #[steit(tag = 0)] pub used: bool,
    #[steit(tag = 2)] pub inside: Maybe<Box<Crate>>,
}
impl Node for Slot {
    fn ty(reg: &mut Reg) -> Ty {
        reg.def(std::any::type_name::<Self>(), |reg| Def { name: "Slot".to_string(), cs: "Slot", state: true, kind: Kind::Struct(vec![
            Field { name: "used", cs: "Used", tag: 0, state: true, eq: true, ty: <bool as Node>::ty(reg) },
            Field { name: "inside", cs: "Inside", tag: 2, state: true, eq: true, ty: <Maybe<Box<Crate>> as Node>::ty(reg) },
        ]) })
    }
    fn build(v: &Val, rt: Runtime) -> Self {
        let mut s = Self::new(rt);
        let xs = v.list();
        s.set_used_with(|rt| Node::build(&xs[0], rt));
        s.set_inside(Node::build(&xs[1], Runtime::new()));
        s
    }
    fn obs(&self) -> Val {
        Val::L(vec![<bool as Node>::obs(&self.used), <Maybe<Box<Crate>> as Node>::obs(&self.inside)])
    }
    fn aside(&self) {
        let x = Self::new(self.runtime().clone());
        assert!(x == Self::with_runtime(self.runtime().nested(1)), "what the constructor makes");
        self.used.aside();
        self.inside.aside();
    }
    fn act(&mut self, path: &[u32], act: &Act, cx: &mut Cx) -> bool {
        if let Some((&tag, rest)) = path.split_first() {
            return match tag {
                0 => self.used.act(rest, act, cx),
                2 => self.inside.act(rest, act, cx),
                _ => false,
            };
        }
        match act {
            Act::Set { tag: 0, val, how } => attach!(bool, val, how, cx, |x| { self.set_used(x); }, |f| { self.set_used_with(f); }),
            Act::Set { tag: 2, val, how } => attach!(Maybe<Box<Crate>>, val, how, cx, |x| { self.set_inside(x); }, |f| { self.set_inside_with(f); }),
            _ => false,
        }
    }
}

pub type Items = Map<u16, Item>;
pub type Row = List<i32>;
pub type Held = Box<Lid>;
#[steit_derive(Clone, PartialEq, Eq, Debug, Serialize, Deserialize, Hash)]
pub struct Label {
    #[steit(tag = 0)] pub text: String,
    #[steit(tag = 1)] pub weight: i8,
    #[steit(tag = 2)] pub spots: Vec<[i64; 2]>,
    #[steit(tag = 3)] pub raw: Bytes,
    #[steit(tag = 7)] pub mood: Option<Mood>,
}
impl Leaf for Label {
    fn ty(reg: &mut Reg) -> Ty {
        reg.def(std::any::type_name::<Self>(), |reg| Def { name: "Label".to_string(), cs: "Label", state: false, kind: Kind::Struct(vec![
            Field { name: "text", cs: "Text", tag: 0, state: false, eq: true, ty: <String as Leaf>::ty(reg) },
            Field { name: "weight", cs: "Weight", tag: 1, state: false, eq: true, ty: <i8 as Leaf>::ty(reg) },
            Field { name: "spots", cs: "Spots", tag: 2, state: false, eq: true, ty: <Vec<[i64; 2]> as Leaf>::ty(reg) },
            Field { name: "raw", cs: "Raw", tag: 3, state: false, eq: true, ty: <Bytes as Leaf>::ty(reg) },
            Field { name: "mood", cs: "Mood", tag: 7, state: false, eq: true, ty: <Option<Mood> as Leaf>::ty(reg) },
        ]) })
    }
    fn build(v: &Val) -> Self {
        #[allow(unused_mut)] let mut s = Self::new();
        let _ = v;
        s.text = Leaf::build(&v.list()[0]);
        s.weight = Leaf::build(&v.list()[1]);
        s.spots = Leaf::build(&v.list()[2]);
        s.raw = Leaf::build(&v.list()[3]);
        s.mood = Leaf::build(&v.list()[4]);
        s
    }
    fn obs(&self) -> Val { Val::L(vec![<String as Leaf>::obs(&self.text), <i8 as Leaf>::obs(&self.weight), <Vec<[i64; 2]> as Leaf>::obs(&self.spots), <Bytes as Leaf>::obs(&self.raw), <Option<Mood> as Leaf>::obs(&self.mood)]) }
}

#[steit_derive(Clone, PartialEq, Eq, Debug, Serialize, Deserialize, Hash)]
pub struct Tagged<T> {
    #[steit(tag = 0)] pub mark: u8,
    #[steit(tag = 1)] pub body: T,
    #[steit(tag = 2)] pub more: Vec<T>,
}
impl<T: Leaf + Default + steit::meta::HasMeta> Leaf for Tagged<T> {
    fn ty(reg: &mut Reg) -> Ty {
        reg.def(std::any::type_name::<Self>(), |reg| Def { name: "Tagged".to_string(), cs: "Tagged", state: false, kind: Kind::Struct(vec![
            Field { name: "mark", cs: "Mark", tag: 0, state: false, eq: true, ty: <u8 as Leaf>::ty(reg) },
            Field { name: "body", cs: "Body", tag: 1, state: false, eq: true, ty: <T as Leaf>::ty(reg) },
            Field { name: "more", cs: "More", tag: 2, state: false, eq: true, ty: <Vec<T> as Leaf>::ty(reg) },
        ]) })
    }
    fn build(v: &Val) -> Self {
        #[allow(unused_mut)] let mut s = Self::new();
        let _ = v;
        s.mark = Leaf::build(&v.list()[0]);
        s.body = Leaf::build(&v.list()[1]);
        s.more = Leaf::build(&v.list()[2]);
        s
    }
    fn obs(&self) -> Val { Val::L(vec![<u8 as Leaf>::obs(&self.mark), <T as Leaf>::obs(&self.body), <Vec<T> as Leaf>::obs(&self.more)]) }
}

#[steit_derive(Clone, PartialEq, Debug, State)]

pub struct Gallery {
    #[steit(tag = 0)] pub crate_box: Box<Crate>,
    #[steit(tag = 1)] pub items: Items,
    #[steit(tag = 2)] pub rows: List<Row>,
    #[steit(tag = 3)] pub held: Held,
    #[steit(tag = 4, no_state)] pub label: Label,
    #[steit(tag = 5, no_state)] pub labels: Vec<Option<Label>>,
    #[steit(tag = 6)] pub by_row: Either<Items, Row>,
    #[steit(tag = 7)] pub maybe_map: Maybe<Items>,
    #[steit(tag = 8, csharp_name = "owner_number")] pub user_id: u64,
    #[steit(tag = 9)] pub wrapped: Wrap<Wrap<Items>>,
    #[steit(tag = 10, no_state)] pub tagged: Tagged<u32>,
    #[steit(tag = 11, no_state)] pub tagged_note: Tagged<Note>,
    #[steit(tag = 12, no_state)] pub opt_vec: Option<Vec<bool>>,
    #[steit(tag = 13, no_state)] pub vecs: Vec<Vec<Bytes>>,
    #[steit(tag = 14)] pub seal: Seal,
    #[steit(tag = 15)] pub tree: Tree,
    #[steit(tag = 16)] pub lists: Wrap<Map<u8, Box<Mode>>>,
    #[steit(tag = 17)] pub in_order: List<Maybe<Map<u16, Seal>>>,
}
impl Node for Gallery {
    fn ty(reg: &mut Reg) -> Ty {
        reg.def(std::any::type_name::<Self>(), |reg| Def { name: "Gallery".to_string(), cs: "Gallery", state: true, kind: Kind::Struct(vec![
            Field { name: "crate_box", cs: "CrateBox", tag: 0, state: true, eq: true, ty: <Box<Crate> as Node>::ty(reg) },
            Field { name: "items", cs: "Items", tag: 1, state: true, eq: true, ty: <Items as Node>::ty(reg) },
            Field { name: "rows", cs: "Rows", tag: 2, state: true, eq: true, ty: <List<Row> as Node>::ty(reg) },
            Field { name: "held", cs: "Held", tag: 3, state: true, eq: true, ty: <Held as Node>::ty(reg) },
            Field { name: "label", cs: "Label", tag: 4, state: false, eq: true, ty: <Label as Leaf>::ty(reg) },
            Field { name: "labels", cs: "Labels", tag: 5, state: false, eq: true, ty: <Vec<Option<Label>> as Leaf>::ty(reg) },
            Field { name: "by_row", cs: "ByRow", tag: 6, state: true, eq: true, ty: <Either<Items, Row> as Node>::ty(reg) },
            Field { name: "maybe_map", cs: "MaybeMap", tag: 7, state: true, eq: true, ty: <Maybe<Items> as Node>::ty(reg) },
            Field { name: "user_id", cs: "OwnerNumber", tag: 8, state: true, eq: true, ty: <u64 as Node>::ty(reg) },
            Field { name: "wrapped", cs: "Wrapped", tag: 9, state: true, eq: true, ty: <Wrap<Wrap<Items>> as Node>::ty(reg) },
            Field { name: "tagged", cs: "Tagged", tag: 10, state: false, eq: true, ty: <Tagged<u32> as Leaf>::ty(reg) },
            Field { name: "tagged_note", cs: "TaggedNote", tag: 11, state: false, eq: true, ty: <Tagged<Note> as Leaf>::ty(reg) },
            Field { name: "opt_vec", cs: "OptVec", tag: 12, state: false, eq: true, ty: <Option<Vec<bool>> as Leaf>::ty(reg) },
            Field { name: "vecs", cs: "Vecs", tag: 13, state: false, eq: true, ty: <Vec<Vec<Bytes>> as Leaf>::ty(reg) },
            Field { name: "seal", cs: "Seal", tag: 14, state: true, eq: true, ty: <Seal as Node>::ty(reg) },
            Field { name: "tree", cs: "Tree", tag: 15, state: true, eq: true, ty: <Tree as Node>::ty(reg) },
            Field { name: "lists", cs: "Lists", tag: 16, state: true, eq: true, ty: <Wrap<Map<u8, Box<Mode>>> as Node>::ty(reg) },
            Field { name: "in_order", cs: "InOrder", tag: 17, state: true, eq: true, ty: <List<Maybe<Map<u16, Seal>>> as Node>::ty(reg) },
        ]) })
    }
    fn build(v: &Val, rt: Runtime) -> Self {
        let mut s = Self::new(rt);
        let xs = v.list();
        s.set_crate_box_with(|rt| Node::build(&xs[0], rt));
        s.set_items(Node::build(&xs[1], Runtime::new()));
        s.set_rows_with(|rt| Node::build(&xs[2], rt));
        s.set_held(Node::build(&xs[3], Runtime::new()));
        s.set_label(Leaf::build(&xs[4]));
        s.set_labels(Leaf::build(&xs[5]));
        s.set_by_row_with(|rt| Node::build(&xs[6], rt));
        s.set_maybe_map(Node::build(&xs[7], Runtime::new()));
        s.set_user_id_with(|rt| Node::build(&xs[8], rt));
        s.set_wrapped(Node::build(&xs[9], Runtime::new()));
        s.set_tagged(Leaf::build(&xs[10]));
        s.set_tagged_note(Leaf::build(&xs[11]));
        s.set_opt_vec(Leaf::build(&xs[12]));
        s.set_vecs(Leaf::build(&xs[13]));
        s.set_seal_with(|rt| Node::build(&xs[14], rt));
        s.set_tree(Node::build(&xs[15], Runtime::new()));
        s.set_lists_with(|rt| Node::build(&xs[16], rt));
        s.set_in_order(Node::build(&xs[17], Runtime::new()));
        s
    }
    fn obs(&self) -> Val {
        Val::L(vec![<Box<Crate> as Node>::obs(&self.crate_box), <Items as Node>::obs(&self.items), <List<Row> as Node>::obs(&self.rows), <Held as Node>::obs(&self.held), <Label as Leaf>::obs(&self.label), <Vec<Option<Label>> as Leaf>::obs(&self.labels), <Either<Items, Row> as Node>::obs(&self.by_row), <Maybe<Items> as Node>::obs(&self.maybe_map), <u64 as Node>::obs(&self.user_id), <Wrap<Wrap<Items>> as Node>::obs(&self.wrapped), <Tagged<u32> as Leaf>::obs(&self.tagged), <Tagged<Note> as Leaf>::obs(&self.tagged_note), <Option<Vec<bool>> as Leaf>::obs(&self.opt_vec), <Vec<Vec<Bytes>> as Leaf>::obs(&self.vecs), <Seal as Node>::obs(&self.seal), <Tree as Node>::obs(&self.tree), <Wrap<Map<u8, Box<Mode>>> as Node>::obs(&self.lists), <List<Maybe<Map<u16, Seal>>> as Node>::obs(&self.in_order)])
    }
    fn aside(&self) {
        let x = Self::new(self.runtime().clone());
        assert!(x == Self::with_runtime(self.runtime().nested(1)), "what the constructor makes");
        self.crate_box.aside();
        self.items.aside();
        self.rows.aside();
        self.held.aside();
        self.by_row.aside();
        self.maybe_map.aside();
        self.user_id.aside();
        self.wrapped.aside();
        self.seal.aside();
        self.tree.aside();
        self.lists.aside();
        self.in_order.aside();
    }
    fn act(&mut self, path: &[u32], act: &Act, cx: &mut Cx) -> bool {
        if let Some((&tag, rest)) = path.split_first() {
            return match tag {
                0 => self.crate_box.act(rest, act, cx),
                1 => self.items.act(rest, act, cx),
                2 => self.rows.act(rest, act, cx),
                3 => self.held.act(rest, act, cx),
                6 => self.by_row.act(rest, act, cx),
                7 => self.maybe_map.act(rest, act, cx),
                8 => self.user_id.act(rest, act, cx),
                9 => self.wrapped.act(rest, act, cx),
                14 => self.seal.act(rest, act, cx),
                15 => self.tree.act(rest, act, cx),
                16 => self.lists.act(rest, act, cx),
                17 => self.in_order.act(rest, act, cx),
                _ => false,
            };
        }
        match act {
            Act::Set { tag: 0, val, how } => attach!(Box<Crate>, val, how, cx, |x| { self.set_crate_box(x); }, |f| { self.set_crate_box_with(f); }),
            Act::Set { tag: 1, val, how } => attach!(Items, val, how, cx, |x| { self.set_items(x); }, |f| { self.set_items_with(f); }),
            Act::Set { tag: 2, val, how } => attach!(List<Row>, val, how, cx, |x| { self.set_rows(x); }, |f| { self.set_rows_with(f); }),
            Act::Set { tag: 3, val, how } => attach!(Held, val, how, cx, |x| { self.set_held(x); }, |f| { self.set_held_with(f); }),
            Act::SetNs { tag: 4, val } => { self.set_label(Leaf::build(val)); true }
            Act::SetNs { tag: 5, val } => { self.set_labels(Leaf::build(val)); true }
            Act::Set { tag: 6, val, how } => attach!(Either<Items, Row>, val, how, cx, |x| { self.set_by_row(x); }, |f| { self.set_by_row_with(f); }),
            Act::Set { tag: 7, val, how } => attach!(Maybe<Items>, val, how, cx, |x| { self.set_maybe_map(x); }, |f| { self.set_maybe_map_with(f); }),
            Act::Set { tag: 8, val, how } => attach!(u64, val, how, cx, |x| { self.set_user_id(x); }, |f| { self.set_user_id_with(f); }),
            Act::Set { tag: 9, val, how } => attach!(Wrap<Wrap<Items>>, val, how, cx, |x| { self.set_wrapped(x); }, |f| { self.set_wrapped_with(f); }),
            Act::SetNs { tag: 10, val } => { self.set_tagged(Leaf::build(val)); true }
            Act::SetNs { tag: 11, val } => { self.set_tagged_note(Leaf::build(val)); true }
            Act::SetNs { tag: 12, val } => { self.set_opt_vec(Leaf::build(val)); true }
            Act::SetNs { tag: 13, val } => { self.set_vecs(Leaf::build(val)); true }
            Act::Set { tag: 14, val, how } => attach!(Seal, val, how, cx, |x| { self.set_seal(x); }, |f| { self.set_seal_with(f); }),
            Act::Set { tag: 15, val, how } => attach!(Tree, val, how, cx, |x| { self.set_tree(x); }, |f| { self.set_tree_with(f); }),
            Act::Set { tag: 16, val, how } => attach!(Wrap<Map<u8, Box<Mode>>>, val, how, cx, |x| { self.set_lists(x); }, |f| { self.set_lists_with(f); }),
            Act::Set { tag: 17, val, how } => attach!(List<Maybe<Map<u16, Seal>>>, val, how, cx, |x| { self.set_in_order(x); }, |f| { self.set_in_order_with(f); }),
            _ => false,
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, State, Hash)]
#[steit(reserved_tags(16, 17))]
pub struct Purse {
    #[steit(tag = 0, no_state)] pub coin: Coin,
    #[steit(tag = 1, no_state)] pub nil: Nil,
    #[steit(tag = 2, no_state)] pub face: Face,
    #[steit(tag = 3, no_state)] pub faces: Vec<Face>,
    #[steit(tag = 4, no_state)] pub ones: [u8; 1],
    #[steit(tag = 5, no_state)] pub fours: [i64; 4],
    #[steit(tag = 6, no_state)] pub fives: [bool; 5],
    #[steit(tag = 7, no_state)] pub sixes: [Coin; 6],
    #[steit(tag = 8, no_state)] pub sevens: [String; 7],
    #[steit(tag = 9, no_state)] pub boxed: Box<Face>,
    #[steit(tag = 10, no_state)] pub twice: Option<Option<u8>>,
    #[steit(tag = 11, no_state)] pub nils: Vec<Nil>,
    #[steit(tag = 12, no_state)] pub maybe_nil: Option<Nil>,
    #[steit(tag = 13, no_state)] pub rows: [[u16; 2]; 3],
    #[steit(tag = 14, no_state)] pub detached: Option<Box<Coin>>,
    #[steit(tag = 15)] pub kept: List<Item>,
}
impl Node for Purse {
    fn ty(reg: &mut Reg) -> Ty {
        reg.def(std::any::type_name::<Self>(), |reg| Def { name: "Purse".to_string(), cs: "Purse", state: true, kind: Kind::Struct(vec![
            Field { name: "coin", cs: "Coin", tag: 0, state: false, eq: true, ty: <Coin as Leaf>::ty(reg) },
            Field { name: "nil", cs: "Nil", tag: 1, state: false, eq: true, ty: <Nil as Leaf>::ty(reg) },
            Field { name: "face", cs: "Face", tag: 2, state: false, eq: true, ty: <Face as Leaf>::ty(reg) },
            Field { name: "faces", cs: "Faces", tag: 3, state: false, eq: true, ty: <Vec<Face> as Leaf>::ty(reg) },
            Field { name: "ones", cs: "Ones", tag: 4, state: false, eq: true, ty: <[u8; 1] as Leaf>::ty(reg) },
            Field { name: "fours", cs: "Fours", tag: 5, state: false, eq: true, ty: <[i64; 4] as Leaf>::ty(reg) },
            Field { name: "fives", cs: "Fives", tag: 6, state: false, eq: true, ty: <[bool; 5] as Leaf>::ty(reg) },
            Field { name: "sixes", cs: "Sixes", tag: 7, state: false, eq: true, ty: <[Coin; 6] as Leaf>::ty(reg) },
            Field { name: "sevens", cs: "Sevens", tag: 8, state: false, eq: true, ty: <[String; 7] as Leaf>::ty(reg) },
            Field { name: "boxed", cs: "Boxed", tag: 9, state: false, eq: true, ty: <Box<Face> as Leaf>::ty(reg) },
            Field { name: "twice", cs: "Twice", tag: 10, state: false, eq: true, ty: <Option<Option<u8>> as Leaf>::ty(reg) },
            Field { name: "nils", cs: "Nils", tag: 11, state: false, eq: true, ty: <Vec<Nil> as Leaf>::ty(reg) },
            Field { name: "maybe_nil", cs: "MaybeNil", tag: 12, state: false, eq: true, ty: <Option<Nil> as Leaf>::ty(reg) },
            Field { name: "rows", cs: "Rows", tag: 13, state: false, eq: true, ty: <[[u16; 2]; 3] as Leaf>::ty(reg) },
            Field { name: "detached", cs: "Detached", tag: 14, state: false, eq: true, ty: <Option<Box<Coin>> as Leaf>::ty(reg) },
            Field { name: "kept", cs: "Kept", tag: 15, state: true, eq: true, ty: <List<Item> as Node>::ty(reg) },
        ]) })
    }
    fn build(v: &Val, rt: Runtime) -> Self {
        let mut s = Self::new(rt);
        let xs = v.list();
        s.set_coin(Leaf::build(&xs[0]));
        s.set_nil(Leaf::build(&xs[1]));
        s.set_face(Leaf::build(&xs[2]));
        s.set_faces(Leaf::build(&xs[3]));
        s.set_ones(Leaf::build(&xs[4]));
        s.set_fours(Leaf::build(&xs[5]));
        s.set_fives(Leaf::build(&xs[6]));
        s.set_sixes(Leaf::build(&xs[7]));
        s.set_sevens(Leaf::build(&xs[8]));
        s.set_boxed(Leaf::build(&xs[9]));
        s.set_twice(Leaf::build(&xs[10]));
        s.set_nils(Leaf::build(&xs[11]));
        s.set_maybe_nil(Leaf::build(&xs[12]));
        s.set_rows(Leaf::build(&xs[13]));
        s.set_detached(Leaf::build(&xs[14]));
        s.set_kept(Node::build(&xs[15], Runtime::new()));
        s
    }
    fn obs(&self) -> Val {
        Val::L(vec![<Coin as Leaf>::obs(&self.coin), <Nil as Leaf>::obs(&self.nil), <Face as Leaf>::obs(&self.face), <Vec<Face> as Leaf>::obs(&self.faces), <[u8; 1] as Leaf>::obs(&self.ones), <[i64; 4] as Leaf>::obs(&self.fours), <[bool; 5] as Leaf>::obs(&self.fives), <[Coin; 6] as Leaf>::obs(&self.sixes), <[String; 7] as Leaf>::obs(&self.sevens), <Box<Face> as Leaf>::obs(&self.boxed), <Option<Option<u8>> as Leaf>::obs(&self.twice), <Vec<Nil> as Leaf>::obs(&self.nils), <Option<Nil> as Leaf>::obs(&self.maybe_nil), <[[u16; 2]; 3] as Leaf>::obs(&self.rows), <Option<Box<Coin>> as Leaf>::obs(&self.detached), <List<Item> as Node>::obs(&self.kept)])
    }
    fn aside(&self) {
        let x = Self::new(self.runtime().clone());
        assert!(x == Self::with_runtime(self.runtime().nested(1)), "what the constructor makes");
        self.kept.aside();
    }
    fn act(&mut self, path: &[u32], act: &Act, cx: &mut Cx) -> bool {
        if let Some((&tag, rest)) = path.split_first() {
            return match tag {
                15 => self.kept.act(rest, act, cx),
                _ => false,
            };
        }
        match act {
            Act::SetNs { tag: 0, val } => { self.set_coin(Leaf::build(val)); true }
            Act::SetNs { tag: 1, val } => { self.set_nil(Leaf::build(val)); true }
            Act::SetNs { tag: 2, val } => { self.set_face(Leaf::build(val)); true }
            Act::SetNs { tag: 3, val } => { self.set_faces(Leaf::build(val)); true }
            Act::SetNs { tag: 4, val } => { self.set_ones(Leaf::build(val)); true }
            Act::SetNs { tag: 5, val } => { self.set_fours(Leaf::build(val)); true }
            Act::SetNs { tag: 6, val } => { self.set_fives(Leaf::build(val)); true }
            Act::SetNs { tag: 7, val } => { self.set_sixes(Leaf::build(val)); true }
            Act::SetNs { tag: 8, val } => { self.set_sevens(Leaf::build(val)); true }
            Act::SetNs { tag: 9, val } => { self.set_boxed(Leaf::build(val)); true }
            Act::SetNs { tag: 10, val } => { self.set_twice(Leaf::build(val)); true }
            Act::SetNs { tag: 11, val } => { self.set_nils(Leaf::build(val)); true }
            Act::SetNs { tag: 12, val } => { self.set_maybe_nil(Leaf::build(val)); true }
            Act::SetNs { tag: 13, val } => { self.set_rows(Leaf::build(val)); true }
            Act::SetNs { tag: 14, val } => { self.set_detached(Leaf::build(val)); true }
            Act::Set { tag: 15, val, how } => attach!(List<Item>, val, how, cx, |x| { self.set_kept(x); }, |f| { self.set_kept_with(f); }),
            _ => false,
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, State)]
#[steit(no_meta)]
pub struct Tuples {
    #[steit(tag = 0, no_state)] pub four: (u8, i16, bool, String),
    #[steit(tag = 1, no_state)] pub five: (u64, Bytes, i64, u32, Face),
    #[steit(tag = 2, no_state)] pub six: (Coin, u8, Nil, i8, Vec<u8>, bool),
    #[steit(tag = 3, no_state)] pub seven: Vec<(u8, u16, u32, u64, i8, i16, Option<(u8, String)>)>,
    #[steit(tag = 4, no_state)] pub deep: HashMap<(u8, bool), HashMap<String, Coin>>,
    #[steit(tag = 5)] pub purse: Maybe<Purse>,
}
impl Node for Tuples {
    fn ty(reg: &mut Reg) -> Ty {
        reg.def(std::any::type_name::<Self>(), |reg| Def { name: "Tuples".to_string(), cs: "Tuples", state: true, kind: Kind::Struct(vec![
            Field { name: "four", cs: "Four", tag: 0, state: false, eq: true, ty: <(u8, i16, bool, String) as Leaf>::ty(reg) },
            Field { name: "five", cs: "Five", tag: 1, state: false, eq: true, ty: <(u64, Bytes, i64, u32, Face) as Leaf>::ty(reg) },
            Field { name: "six", cs: "Six", tag: 2, state: false, eq: true, ty: <(Coin, u8, Nil, i8, Vec<u8>, bool) as Leaf>::ty(reg) },
            Field { name: "seven", cs: "Seven", tag: 3, state: false, eq: true, ty: <Vec<(u8, u16, u32, u64, i8, i16, Option<(u8, String)>)> as Leaf>::ty(reg) },
            Field { name: "deep", cs: "Deep", tag: 4, state: false, eq: true, ty: <HashMap<(u8, bool), HashMap<String, Coin>> as Leaf>::ty(reg) },
            Field { name: "purse", cs: "Purse", tag: 5, state: true, eq: true, ty: <Maybe<Purse> as Node>::ty(reg) },
        ]) })
    }
    fn build(v: &Val, rt: Runtime) -> Self {
        let mut s = Self::new(rt);
        let xs = v.list();
        s.set_four(Leaf::build(&xs[0]));
        s.set_five(Leaf::build(&xs[1]));
        s.set_six(Leaf::build(&xs[2]));
        s.set_seven(Leaf::build(&xs[3]));
        s.set_deep(Leaf::build(&xs[4]));
        s.set_purse(Node::build(&xs[5], Runtime::new()));
        s
    }
    fn obs(&self) -> Val {
        Val::L(vec![<(u8, i16, bool, String) as Leaf>::obs(&self.four), <(u64, Bytes, i64, u32, Face) as Leaf>::obs(&self.five), <(Coin, u8, Nil, i8, Vec<u8>, bool) as Leaf>::obs(&self.six), <Vec<(u8, u16, u32, u64, i8, i16, Option<(u8, String)>)> as Leaf>::obs(&self.seven), <HashMap<(u8, bool), HashMap<String, Coin>> as Leaf>::obs(&self.deep), <Maybe<Purse> as Node>::obs(&self.purse)])
    }
    fn aside(&self) {
        let x = Self::new(self.runtime().clone());
        assert!(x == Self::with_runtime(self.runtime().nested(1)), "what the constructor makes");
        self.purse.aside();
    }
    fn act(&mut self, path: &[u32], act: &Act, cx: &mut Cx) -> bool {
        if let Some((&tag, rest)) = path.split_first() {
            return match tag {
                5 => self.purse.act(rest, act, cx),
                _ => false,
            };
        }
        match act {
            Act::SetNs { tag: 0, val } => { self.set_four(Leaf::build(val)); true }
            Act::SetNs { tag: 1, val } => { self.set_five(Leaf::build(val)); true }
            Act::SetNs { tag: 2, val } => { self.set_six(Leaf::build(val)); true }
            Act::SetNs { tag: 3, val } => { self.set_seven(Leaf::build(val)); true }
            Act::SetNs { tag: 4, val } => { self.set_deep(Leaf::build(val)); true }
            Act::Set { tag: 5, val, how } => attach!(Maybe<Purse>, val, how, cx, |x| { self.set_purse(x); }, |f| { self.set_purse_with(f); }),
            _ => false,
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, State, Hash)]

pub struct Ledger {
    #[steit(tag = 0)] pub id: u32,
    #[steit(tag = 1, no_state, no_eq_hash)] pub memo: String,
    #[steit(tag = 2, no_hash)] pub total: u64,
    #[steit(tag = 3, no_eq_hash)] pub rows: List<Row>,
    #[steit(tag = 4)] pub last: Stamp,
    #[steit(tag = 5)] pub stamps: List<Stamp>,
}
impl Node for Ledger {
    fn ty(reg: &mut Reg) -> Ty {
        reg.def(std::any::type_name::<Self>(), |reg| Def { name: "Ledger".to_string(), cs: "Ledger", state: true, kind: Kind::Struct(vec![
            Field { name: "id", cs: "Id", tag: 0, state: true, eq: true, ty: <u32 as Node>::ty(reg) },
            Field { name: "memo", cs: "Memo", tag: 1, state: false, eq: false, ty: <String as Leaf>::ty(reg) },
            Field { name: "total", cs: "Total", tag: 2, state: true, eq: true, ty: <u64 as Node>::ty(reg) },
            Field { name: "rows", cs: "Rows", tag: 3, state: true, eq: false, ty: <List<Row> as Node>::ty(reg) },
            Field { name: "last", cs: "Last", tag: 4, state: true, eq: true, ty: <Stamp as Node>::ty(reg) },
            Field { name: "stamps", cs: "Stamps", tag: 5, state: true, eq: true, ty: <List<Stamp> as Node>::ty(reg) },
        ]) })
    }
    fn build(v: &Val, rt: Runtime) -> Self {
        let mut s = Self::new(rt);
        let xs = v.list();
        s.set_id_with(|rt| Node::build(&xs[0], rt));
        s.set_memo(Leaf::build(&xs[1]));
        s.set_total_with(|rt| Node::build(&xs[2], rt));
        s.set_rows(Node::build(&xs[3], Runtime::new()));
        s.set_last_with(|rt| Node::build(&xs[4], rt));
        s.set_stamps(Node::build(&xs[5], Runtime::new()));
        s
    }
    fn obs(&self) -> Val {
        Val::L(vec![<u32 as Node>::obs(&self.id), <String as Leaf>::obs(&self.memo), <u64 as Node>::obs(&self.total), <List<Row> as Node>::obs(&self.rows), <Stamp as Node>::obs(&self.last), <List<Stamp> as Node>::obs(&self.stamps)])
    }
    fn aside(&self) {
        let x = Self::new(self.runtime().clone());
        assert!(x == Self::with_runtime(self.runtime().nested(1)), "what the constructor makes");
        self.id.aside();
        self.total.aside();
        self.rows.aside();
        self.last.aside();
        self.stamps.aside();
    }
    fn act(&mut self, path: &[u32], act: &Act, cx: &mut Cx) -> bool {
        if let Some((&tag, rest)) = path.split_first() {
            return match tag {
                0 => self.id.act(rest, act, cx),
                2 => self.total.act(rest, act, cx),
                3 => self.rows.act(rest, act, cx),
                4 => self.last.act(rest, act, cx),
                5 => self.stamps.act(rest, act, cx),
                _ => false,
            };
        }
        match act {
            Act::Set { tag: 0, val, how } => attach!(u32, val, how, cx, |x| { self.set_id(x); }, |f| { self.set_id_with(f); }),
            Act::SetNs { tag: 1, val } => { self.set_memo(Leaf::build(val)); true }
            Act::Set { tag: 2, val, how } => attach!(u64, val, how, cx, |x| { self.set_total(x); }, |f| { self.set_total_with(f); }),
            Act::Set { tag: 3, val, how } => attach!(List<Row>, val, how, cx, |x| { self.set_rows(x); }, |f| { self.set_rows_with(f); }),
            Act::Set { tag: 4, val, how } => attach!(Stamp, val, how, cx, |x| { self.set_last(x); }, |f| { self.set_last_with(f); }),
            Act::Set { tag: 5, val, how } => attach!(List<Stamp>, val, how, cx, |x| { self.set_stamps(x); }, |f| { self.set_stamps_with(f); }),
            _ => false,
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, State, Hash)]

pub enum Stamp {
    #[steit(tag = 0)]
    Blank { #[steit(tag = 0, no_eq_hash)] note: u16 },
    #[steit(tag = 1)]
    Dated(#[steit(tag = 0)] u64, #[steit(tag = 1, no_hash)] Maybe<Item>, #[steit(tag = 2, no_state, no_eq_hash)] String),
}
impl Node for Stamp {
    fn ty(reg: &mut Reg) -> Ty {
        reg.def(std::any::type_name::<Self>(), |reg| Def { name: "Stamp".to_string(), cs: "Stamp", state: true, kind: Kind::Enum(vec![
            Variant { name: "Blank", tag: 0, fields: vec![Field { name: "note", cs: "Note", tag: 0, state: true, eq: false, ty: <u16 as Node>::ty(reg) }] },
            Variant { name: "Dated", tag: 1, fields: vec![Field { name: "f0", cs: "F0", tag: 0, state: true, eq: true, ty: <u64 as Node>::ty(reg) }, Field { name: "f1", cs: "F1", tag: 1, state: true, eq: true, ty: <Maybe<Item> as Node>::ty(reg) }, Field { name: "f2", cs: "F2", tag: 2, state: false, eq: false, ty: <String as Leaf>::ty(reg) }] },
        ]) })
    }
    #[allow(unused_mut, unused_variables)]
    fn build(v: &Val, rt: Runtime) -> Self {
        let (tag, xs) = v.variant();
        match tag {
            0 => {
                let mut s = Self::new_blank(rt);
                s.set_blank_note_with(|rt| Node::build(&xs[0], rt));
                s
            }
            1 => {
                let mut s = Self::new_dated(rt);
                s.set_dated_f0_with(|rt| Node::build(&xs[0], rt));
                s.set_dated_f1(Node::build(&xs[1], Runtime::new()));
                s.set_dated_f2(Leaf::build(&xs[2]));
                s
            }
            _ => unreachable!(),
        }
    }
    fn obs(&self) -> Val {
        match self {
            Stamp::Blank { note, .. } => Val::E(0, vec![<u16 as Node>::obs(note)]),
            Stamp::Dated(f0, f1, f2, ..) => Val::E(1, vec![<u64 as Node>::obs(f0), <Maybe<Item> as Node>::obs(f1), <String as Leaf>::obs(f2)]),
        }
    }
    #[allow(unused_variables)]
    fn aside(&self) {
        let x = Self::new_blank(self.runtime().nested(0));
        assert!(Node::obs(&x).variant().0 == 0, "what the constructor makes");
        let x = Self::new_dated(self.runtime().nested(1));
        assert!(Node::obs(&x).variant().0 == 1, "what the constructor makes");
        match self {
            Stamp::Blank { note, .. } => {
                note.aside();
            }
            Stamp::Dated(f0, f1, f2, ..) => {
                f0.aside();
                f1.aside();
            }
        }
    }
    #[allow(unused_variables)]
    fn act(&mut self, path: &[u32], act: &Act, cx: &mut Cx) -> bool {
        if path.len() > 1 {
            return match (path[0], path[1], self) {
                (0, 0, Stamp::Blank { note, .. }) => note.act(&path[2..], act, cx),
                (1, 0, Stamp::Dated(f0, f1, f2, ..)) => f0.act(&path[2..], act, cx),
                (1, 1, Stamp::Dated(f0, f1, f2, ..)) => f1.act(&path[2..], act, cx),
                _ => false,
            };
        }
        if !path.is_empty() { return false; }
        match act {
            Act::VSet { vtag: 0, tag: 0, val, how } => attach!(u16, val, how, cx, |x| { self.set_blank_note(x); }, |f| { self.set_blank_note_with(f); }),
            Act::VSet { vtag: 1, tag: 0, val, how } => attach!(u64, val, how, cx, |x| { self.set_dated_f0(x); }, |f| { self.set_dated_f0_with(f); }),
            Act::VSet { vtag: 1, tag: 1, val, how } => attach!(Maybe<Item>, val, how, cx, |x| { self.set_dated_f1(x); }, |f| { self.set_dated_f1_with(f); }),
            Act::VSetNs { vtag: 1, tag: 2, val } => { self.set_dated_f2(Leaf::build(val)); true }
            _ => false,
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, State)]

pub struct Album {
    #[steit(tag = 0)] pub ledgers: Map<u8, Ledger>,
    #[steit(tag = 1)] pub cover: Box<Ledger>,
    #[steit(tag = 2)] pub shapes: Map<u16, Maybe<Shape>>,
}
impl Node for Album {
    fn ty(reg: &mut Reg) -> Ty {
        reg.def(std::any::type_name::<Self>(), |reg| Def { name: "Album".to_string(), cs: "Album", state: true, kind: Kind::Struct(vec![
            Field { name: "ledgers", cs: "Ledgers", tag: 0, state: true, eq: true, ty: <Map<u8, Ledger> as Node>::ty(reg) },
            Field { name: "cover", cs: "Cover", tag: 1, state: true, eq: true, ty: <Box<Ledger> as Node>::ty(reg) },
            Field { name: "shapes", cs: "Shapes", tag: 2, state: true, eq: true, ty: <Map<u16, Maybe<Shape>> as Node>::ty(reg) },
        ]) })
    }
    fn build(v: &Val, rt: Runtime) -> Self {
        let mut s = Self::new(rt);
        let xs = v.list();
        s.set_ledgers_with(|rt| Node::build(&xs[0], rt));
        s.set_cover(Node::build(&xs[1], Runtime::new()));
        s.set_shapes_with(|rt| Node::build(&xs[2], rt));
        s
    }
    fn obs(&self) -> Val {
        Val::L(vec![<Map<u8, Ledger> as Node>::obs(&self.ledgers), <Box<Ledger> as Node>::obs(&self.cover), <Map<u16, Maybe<Shape>> as Node>::obs(&self.shapes)])
    }
    fn aside(&self) {
        let x = Self::new(self.runtime().clone());
        assert!(x == Self::with_runtime(self.runtime().nested(1)), "what the constructor makes");
        self.ledgers.aside();
        self.cover.aside();
        self.shapes.aside();
    }
    fn act(&mut self, path: &[u32], act: &Act, cx: &mut Cx) -> bool {
        if let Some((&tag, rest)) = path.split_first() {
            return match tag {
                0 => self.ledgers.act(rest, act, cx),
                1 => self.cover.act(rest, act, cx),
                2 => self.shapes.act(rest, act, cx),
                _ => false,
            };
        }
        match act {
            Act::Set { tag: 0, val, how } => attach!(Map<u8, Ledger>, val, how, cx, |x| { self.set_ledgers(x); }, |f| { self.set_ledgers_with(f); }),
            Act::Set { tag: 1, val, how } => attach!(Box<Ledger>, val, how, cx, |x| { self.set_cover(x); }, |f| { self.set_cover_with(f); }),
            Act::Set { tag: 2, val, how } => attach!(Map<u16, Maybe<Shape>>, val, how, cx, |x| { self.set_shapes(x); }, |f| { self.set_shapes_with(f); }),
            _ => false,
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, State, Hash)]

pub struct Postcard {
    #[steit(tag = 0)] pub number: u8,
    #[steit(tag = 1, no_state)] pub stamp: Tagged<String>,
}
impl Node for Postcard {
    fn ty(reg: &mut Reg) -> Ty {
        reg.def(std::any::type_name::<Self>(), |reg| Def { name: "Postcard".to_string(), cs: "Postcard", state: true, kind: Kind::Struct(vec![
            Field { name: "number", cs: "Number", tag: 0, state: true, eq: true, ty: <u8 as Node>::ty(reg) },
            Field { name: "stamp", cs: "Stamp", tag: 1, state: false, eq: true, ty: <Tagged<String> as Leaf>::ty(reg) },
        ]) })
    }
    fn build(v: &Val, rt: Runtime) -> Self {
        let mut s = Self::new(rt);
        let xs = v.list();
        s.set_number_with(|rt| Node::build(&xs[0], rt));
        s.set_stamp(Leaf::build(&xs[1]));
        s
    }
    fn obs(&self) -> Val {
        Val::L(vec![<u8 as Node>::obs(&self.number), <Tagged<String> as Leaf>::obs(&self.stamp)])
    }
    fn aside(&self) {
        let x = Self::new(self.runtime().clone());
        assert!(x == Self::with_runtime(self.runtime().nested(1)), "what the constructor makes");
        self.number.aside();
    }
    fn act(&mut self, path: &[u32], act: &Act, cx: &mut Cx) -> bool {
        if let Some((&tag, rest)) = path.split_first() {
            return match tag {
                0 => self.number.act(rest, act, cx),
                _ => false,
            };
        }
        match act {
            Act::Set { tag: 0, val, how } => attach!(u8, val, how, cx, |x| { self.set_number(x); }, |f| { self.set_number_with(f); }),
            Act::SetNs { tag: 1, val } => { self.set_stamp(Leaf::build(val)); true }
            _ => false,
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, State, Hash)]

pub struct PartV1 {
    #[steit(tag = 0)] pub id: u32,
    #[steit(tag = 3)] pub gone: List<u16>,
    #[steit(tag = 4)] pub size: i32,
}
impl Node for PartV1 {
    fn ty(reg: &mut Reg) -> Ty {
        reg.def(std::any::type_name::<Self>(), |reg| Def { name: "PartV1".to_string(), cs: "PartV1", state: true, kind: Kind::Struct(vec![
            Field { name: "id", cs: "Id", tag: 0, state: true, eq: true, ty: <u32 as Node>::ty(reg) },
            Field { name: "gone", cs: "Gone", tag: 3, state: true, eq: true, ty: <List<u16> as Node>::ty(reg) },
            Field { name: "size", cs: "Size", tag: 4, state: true, eq: true, ty: <i32 as Node>::ty(reg) },
        ]) })
    }
    fn build(v: &Val, rt: Runtime) -> Self {
        let mut s = Self::new(rt);
        let xs = v.list();
        s.set_id_with(|rt| Node::build(&xs[0], rt));
        s.set_gone(Node::build(&xs[1], Runtime::new()));
        s.set_size_with(|rt| Node::build(&xs[2], rt));
        s
    }
    fn obs(&self) -> Val {
        Val::L(vec![<u32 as Node>::obs(&self.id), <List<u16> as Node>::obs(&self.gone), <i32 as Node>::obs(&self.size)])
    }
    fn aside(&self) {
        let x = Self::new(self.runtime().clone());
        assert!(x == Self::with_runtime(self.runtime().nested(1)), "what the constructor makes");
        self.id.aside();
        self.gone.aside();
        self.size.aside();
    }
    fn act(&mut self, path: &[u32], act: &Act, cx: &mut Cx) -> bool {
        if let Some((&tag, rest)) = path.split_first() {
            return match tag {
                0 => self.id.act(rest, act, cx),
                3 => self.gone.act(rest, act, cx),
                4 => self.size.act(rest, act, cx),
                _ => false,
            };
        }
        match act {
            Act::Set { tag: 0, val, how } => attach!(u32, val, how, cx, |x| { self.set_id(x); }, |f| { self.set_id_with(f); }),
            Act::Set { tag: 3, val, how } => attach!(List<u16>, val, how, cx, |x| { self.set_gone(x); }, |f| { self.set_gone_with(f); }),
            Act::Set { tag: 4, val, how } => attach!(i32, val, how, cx, |x| { self.set_size(x); }, |f| { self.set_size_with(f); }),
            _ => false,
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, State, Hash)]

pub struct PartV2 {
    #[steit(tag = 0)] pub id: u32,
    #[steit(tag = 4)] pub size: i32,
    #[steit(tag = 6)] pub owner: Item,
    #[steit(tag = 9, no_state)] pub memo: String,
}
impl Node for PartV2 {
    fn ty(reg: &mut Reg) -> Ty {
        reg.def(std::any::type_name::<Self>(), |reg| Def { name: "PartV2".to_string(), cs: "PartV2", state: true, kind: Kind::Struct(vec![
            Field { name: "id", cs: "Id", tag: 0, state: true, eq: true, ty: <u32 as Node>::ty(reg) },
            Field { name: "size", cs: "Size", tag: 4, state: true, eq: true, ty: <i32 as Node>::ty(reg) },
            Field { name: "owner", cs: "Owner", tag: 6, state: true, eq: true, ty: <Item as Node>::ty(reg) },
            Field { name: "memo", cs: "Memo", tag: 9, state: false, eq: true, ty: <String as Leaf>::ty(reg) },
        ]) })
    }
    fn build(v: &Val, rt: Runtime) -> Self {
        let mut s = Self::new(rt);
        let xs = v.list();
        s.set_id_with(|rt| Node::build(&xs[0], rt));
        s.set_size(Node::build(&xs[1], Runtime::new()));
        s.set_owner_with(|rt| Node::build(&xs[2], rt));
        s.set_memo(Leaf::build(&xs[3]));
        s
    }
    fn obs(&self) -> Val {
        Val::L(vec![<u32 as Node>::obs(&self.id), <i32 as Node>::obs(&self.size), <Item as Node>::obs(&self.owner), <String as Leaf>::obs(&self.memo)])
    }
    fn aside(&self) {
        let x = Self::new(self.runtime().clone());
        assert!(x == Self::with_runtime(self.runtime().nested(1)), "what the constructor makes");
        self.id.aside();
        self.size.aside();
        self.owner.aside();
    }
    fn act(&mut self, path: &[u32], act: &Act, cx: &mut Cx) -> bool {
        if let Some((&tag, rest)) = path.split_first() {
            return match tag {
                0 => self.id.act(rest, act, cx),
                4 => self.size.act(rest, act, cx),
                6 => self.owner.act(rest, act, cx),
                _ => false,
            };
        }
        match act {
            Act::Set { tag: 0, val, how } => attach!(u32, val, how, cx, |x| { self.set_id(x); }, |f| { self.set_id_with(f); }),
            Act::Set { tag: 4, val, how } => attach!(i32, val, how, cx, |x| { self.set_size(x); }, |f| { self.set_size_with(f); }),
            Act::Set { tag: 6, val, how } => attach!(Item, val, how, cx, |x| { self.set_owner(x); }, |f| { self.set_owner_with(f); }),
            Act::SetNs { tag: 9, val } => { self.set_memo(Leaf::build(val)); true }
            _ => false,
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, State, Hash)]

pub enum KindV1 {
    #[steit(tag = 0)]
    None,
    #[steit(tag = 1)]
    Some { #[steit(tag = 0)] a: u32, #[steit(tag = 1)] old: List<u8> },
}
impl Node for KindV1 {
    fn ty(reg: &mut Reg) -> Ty {
        reg.def(std::any::type_name::<Self>(), |reg| Def { name: "KindV1".to_string(), cs: "KindV1", state: true, kind: Kind::Enum(vec![
            Variant { name: "None", tag: 0, fields: vec![] },
            Variant { name: "Some", tag: 1, fields: vec![Field { name: "a", cs: "A", tag: 0, state: true, eq: true, ty: <u32 as Node>::ty(reg) }, Field { name: "old", cs: "Old", tag: 1, state: true, eq: true, ty: <List<u8> as Node>::ty(reg) }] },
        ]) })
    }
    #[allow(unused_mut, unused_variables)]
    fn build(v: &Val, rt: Runtime) -> Self {
        let (tag, xs) = v.variant();
        match tag {
            0 => {
                let mut s = Self::new_none(rt);
                s
            }
            1 => {
                let mut s = Self::new_some(rt);
                s.set_some_a_with(|rt| Node::build(&xs[0], rt));
                s.set_some_old(Node::build(&xs[1], Runtime::new()));
                s
            }
            _ => unreachable!(),
        }
    }
    fn obs(&self) -> Val {
        match self {
            KindV1::None { .. } => Val::E(0, vec![]),
            KindV1::Some { a, old, .. } => Val::E(1, vec![<u32 as Node>::obs(a), <List<u8> as Node>::obs(old)]),
        }
    }
    #[allow(unused_variables)]
    fn aside(&self) {
        let x = Self::new_none(self.runtime().nested(0));
        assert!(Node::obs(&x).variant().0 == 0, "what the constructor makes");
        let x = Self::new_some(self.runtime().nested(1));
        assert!(Node::obs(&x).variant().0 == 1, "what the constructor makes");
        match self {
            KindV1::None { .. } => {
            }
            KindV1::Some { a, old, .. } => {
                a.aside();
                old.aside();
            }
        }
    }
    #[allow(unused_variables)]
    fn act(&mut self, path: &[u32], act: &Act, cx: &mut Cx) -> bool {
        if path.len() > 1 {
            return match (path[0], path[1], self) {
                (1, 0, KindV1::Some { a, old, .. }) => a.act(&path[2..], act, cx),
                (1, 1, KindV1::Some { a, old, .. }) => old.act(&path[2..], act, cx),
                _ => false,
            };
        }
        if !path.is_empty() { return false; }
        match act {
            Act::VSet { vtag: 1, tag: 0, val, how } => attach!(u32, val, how, cx, |x| { self.set_some_a(x); }, |f| { self.set_some_a_with(f); }),
            Act::VSet { vtag: 1, tag: 1, val, how } => attach!(List<u8>, val, how, cx, |x| { self.set_some_old(x); }, |f| { self.set_some_old_with(f); }),
            _ => false,
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, State)]

pub enum KindV2 {
    #[steit(tag = 0)]
    None { #[steit(tag = 2)] hint: u64 },
    #[steit(tag = 1)]
    Some { #[steit(tag = 0)] a: u32, #[steit(tag = 4)] new: Map<u8, Item> },
    #[steit(tag = 2)]
    More(#[steit(tag = 0)] Item),
}
impl Node for KindV2 {
    fn ty(reg: &mut Reg) -> Ty {
        reg.def(std::any::type_name::<Self>(), |reg| Def { name: "KindV2".to_string(), cs: "KindV2", state: true, kind: Kind::Enum(vec![
            Variant { name: "None", tag: 0, fields: vec![Field { name: "hint", cs: "Hint", tag: 2, state: true, eq: true, ty: <u64 as Node>::ty(reg) }] },
            Variant { name: "Some", tag: 1, fields: vec![Field { name: "a", cs: "A", tag: 0, state: true, eq: true, ty: <u32 as Node>::ty(reg) }, Field { name: "new", cs: "New", tag: 4, state: true, eq: true, ty: <Map<u8, Item> as Node>::ty(reg) }] },
            Variant { name: "More", tag: 2, fields: vec![Field { name: "f0", cs: "F0", tag: 0, state: true, eq: true, ty: <Item as Node>::ty(reg) }] },
        ]) })
    }
    #[allow(unused_mut, unused_variables)]
    fn build(v: &Val, rt: Runtime) -> Self {
        let (tag, xs) = v.variant();
        match tag {
            0 => {
                let mut s = Self::new_none(rt);
                s.set_none_hint_with(|rt| Node::build(&xs[0], rt));
                s
            }
            1 => {
                let mut s = Self::new_some(rt);
                s.set_some_a_with(|rt| Node::build(&xs[0], rt));
                s.set_some_new(Node::build(&xs[1], Runtime::new()));
                s
            }
            2 => {
                let mut s = Self::new_more(rt);
                s.set_more_f0_with(|rt| Node::build(&xs[0], rt));
                s
            }
            _ => unreachable!(),
        }
    }
    fn obs(&self) -> Val {
        match self {
            KindV2::None { hint, .. } => Val::E(0, vec![<u64 as Node>::obs(hint)]),
            KindV2::Some { a, new, .. } => Val::E(1, vec![<u32 as Node>::obs(a), <Map<u8, Item> as Node>::obs(new)]),
            KindV2::More(f0, ..) => Val::E(2, vec![<Item as Node>::obs(f0)]),
        }
    }
    #[allow(unused_variables)]
    fn aside(&self) {
        let x = Self::new_none(self.runtime().nested(0));
        assert!(Node::obs(&x).variant().0 == 0, "what the constructor makes");
        let x = Self::new_some(self.runtime().nested(1));
        assert!(Node::obs(&x).variant().0 == 1, "what the constructor makes");
        let x = Self::new_more(self.runtime().nested(2));
        assert!(Node::obs(&x).variant().0 == 2, "what the constructor makes");
        match self {
            KindV2::None { hint, .. } => {
                hint.aside();
            }
            KindV2::Some { a, new, .. } => {
                a.aside();
                new.aside();
            }
            KindV2::More(f0, ..) => {
                f0.aside();
            }
        }
    }
    #[allow(unused_variables)]
    fn act(&mut self, path: &[u32], act: &Act, cx: &mut Cx) -> bool {
        if path.len() > 1 {
            return match (path[0], path[1], self) {
                (0, 2, KindV2::None { hint, .. }) => hint.act(&path[2..], act, cx),
                (1, 0, KindV2::Some { a, new, .. }) => a.act(&path[2..], act, cx),
                (1, 4, KindV2::Some { a, new, .. }) => new.act(&path[2..], act, cx),
                (2, 0, KindV2::More(f0, ..)) => f0.act(&path[2..], act, cx),
                _ => false,
            };
        }
        if !path.is_empty() { return false; }
        match act {
            Act::VSet { vtag: 0, tag: 2, val, how } => attach!(u64, val, how, cx, |x| { self.set_none_hint(x); }, |f| { self.set_none_hint_with(f); }),
            Act::VSet { vtag: 1, tag: 0, val, how } => attach!(u32, val, how, cx, |x| { self.set_some_a(x); }, |f| { self.set_some_a_with(f); }),
            Act::VSet { vtag: 1, tag: 4, val, how } => attach!(Map<u8, Item>, val, how, cx, |x| { self.set_some_new(x); }, |f| { self.set_some_new_with(f); }),
            Act::VSet { vtag: 2, tag: 0, val, how } => attach!(Item, val, how, cx, |x| { self.set_more_f0(x); }, |f| { self.set_more_f0_with(f); }),
            _ => false,
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, State)]

pub struct DocV1 {
    #[steit(tag = 0)] pub rev: u64,
    #[steit(tag = 1)] pub part: PartV1,
    #[steit(tag = 2)] pub parts: List<PartV1>,
    #[steit(tag = 3)] pub by_id: Map<u16, PartV1>,
    #[steit(tag = 4)] pub retyped: u32,
    #[steit(tag = 5)] pub back: List<i32>,
    #[steit(tag = 6)] pub kind: KindV1,
    #[steit(tag = 7)] pub opt: Maybe<PartV1>,
    #[steit(tag = 20)] pub small: u64,
    #[steit(tag = 30, no_state)] pub name: String,
    #[steit(tag = 31)] pub kinds: List<KindV1>,
    #[steit(tag = 32)] pub shrunk: Map<u8, u32>,
}
impl Node for DocV1 {
    fn ty(reg: &mut Reg) -> Ty {
        reg.def(std::any::type_name::<Self>(), |reg| Def { name: "DocV1".to_string(), cs: "DocV1", state: true, kind: Kind::Struct(vec![
            Field { name: "rev", cs: "Rev", tag: 0, state: true, eq: true, ty: <u64 as Node>::ty(reg) },
            Field { name: "part", cs: "Part", tag: 1, state: true, eq: true, ty: <PartV1 as Node>::ty(reg) },
            Field { name: "parts", cs: "Parts", tag: 2, state: true, eq: true, ty: <List<PartV1> as Node>::ty(reg) },
            Field { name: "by_id", cs: "ById", tag: 3, state: true, eq: true, ty: <Map<u16, PartV1> as Node>::ty(reg) },
            Field { name: "retyped", cs: "Retyped", tag: 4, state: true, eq: true, ty: <u32 as Node>::ty(reg) },
            Field { name: "back", cs: "Back", tag: 5, state: true, eq: true, ty: <List<i32> as Node>::ty(reg) },
            Field { name: "kind", cs: "Kind", tag: 6, state: true, eq: true, ty: <KindV1 as Node>::ty(reg) },
            Field { name: "opt", cs: "Opt", tag: 7, state: true, eq: true, ty: <Maybe<PartV1> as Node>::ty(reg) },
            Field { name: "small", cs: "Small", tag: 20, state: true, eq: true, ty: <u64 as Node>::ty(reg) },
            Field { name: "name", cs: "Name", tag: 30, state: false, eq: true, ty: <String as Leaf>::ty(reg) },
            Field { name: "kinds", cs: "Kinds", tag: 31, state: true, eq: true, ty: <List<KindV1> as Node>::ty(reg) },
            Field { name: "shrunk", cs: "Shrunk", tag: 32, state: true, eq: true, ty: <Map<u8, u32> as Node>::ty(reg) },
        ]) })
    }
    fn build(v: &Val, rt: Runtime) -> Self {
        let mut s = Self::new(rt);
        let xs = v.list();
        s.set_rev_with(|rt| Node::build(&xs[0], rt));
        s.set_part(Node::build(&xs[1], Runtime::new()));
        s.set_parts_with(|rt| Node::build(&xs[2], rt));
        s.set_by_id(Node::build(&xs[3], Runtime::new()));
        s.set_retyped_with(|rt| Node::build(&xs[4], rt));
        s.set_back(Node::build(&xs[5], Runtime::new()));
        s.set_kind_with(|rt| Node::build(&xs[6], rt));
        s.set_opt(Node::build(&xs[7], Runtime::new()));
        s.set_small_with(|rt| Node::build(&xs[8], rt));
        s.set_name(Leaf::build(&xs[9]));
        s.set_kinds_with(|rt| Node::build(&xs[10], rt));
        s.set_shrunk(Node::build(&xs[11], Runtime::new()));
        s
    }
    fn obs(&self) -> Val {
        Val::L(vec![<u64 as Node>::obs(&self.rev), <PartV1 as Node>::obs(&self.part), <List<PartV1> as Node>::obs(&self.parts), <Map<u16, PartV1> as Node>::obs(&self.by_id), <u32 as Node>::obs(&self.retyped), <List<i32> as Node>::obs(&self.back), <KindV1 as Node>::obs(&self.kind), <Maybe<PartV1> as Node>::obs(&self.opt), <u64 as Node>::obs(&self.small), <String as Leaf>::obs(&self.name), <List<KindV1> as Node>::obs(&self.kinds), <Map<u8, u32> as Node>::obs(&self.shrunk)])
    }
    fn aside(&self) {
        let x = Self::new(self.runtime().clone());
        assert!(x == Self::with_runtime(self.runtime().nested(1)), "what the constructor makes");
        self.rev.aside();
        self.part.aside();
        self.parts.aside();
        self.by_id.aside();
        self.retyped.aside();
        self.back.aside();
        self.kind.aside();
        self.opt.aside();
        self.small.aside();
        self.kinds.aside();
        self.shrunk.aside();
    }
    fn act(&mut self, path: &[u32], act: &Act, cx: &mut Cx) -> bool {
        if let Some((&tag, rest)) = path.split_first() {
            return match tag {
                0 => self.rev.act(rest, act, cx),
                1 => self.part.act(rest, act, cx),
                2 => self.parts.act(rest, act, cx),
                3 => self.by_id.act(rest, act, cx),
                4 => self.retyped.act(rest, act, cx),
                5 => self.back.act(rest, act, cx),
                6 => self.kind.act(rest, act, cx),
                7 => self.opt.act(rest, act, cx),
                20 => self.small.act(rest, act, cx),
                31 => self.kinds.act(rest, act, cx),
                32 => self.shrunk.act(rest, act, cx),
                _ => false,
            };
        }
        match act {
            Act::Set { tag: 0, val, how } => attach!(u64, val, how, cx, |x| { self.set_rev(x); }, |f| { self.set_rev_with(f); }),
            Act::Set { tag: 1, val, how } => attach!(PartV1, val, how, cx, |x| { self.set_part(x); }, |f| { self.set_part_with(f); }),
            Act::Set { tag: 2, val, how } => attach!(List<PartV1>, val, how, cx, |x| { self.set_parts(x); }, |f| { self.set_parts_with(f); }),
            Act::Set { tag: 3, val, how } => attach!(Map<u16, PartV1>, val, how, cx, |x| { self.set_by_id(x); }, |f| { self.set_by_id_with(f); }),
            Act::Set { tag: 4, val, how } => attach!(u32, val, how, cx, |x| { self.set_retyped(x); }, |f| { self.set_retyped_with(f); }),
            Act::Set { tag: 5, val, how } => attach!(List<i32>, val, how, cx, |x| { self.set_back(x); }, |f| { self.set_back_with(f); }),
            Act::Set { tag: 6, val, how } => attach!(KindV1, val, how, cx, |x| { self.set_kind(x); }, |f| { self.set_kind_with(f); }),
            Act::Set { tag: 7, val, how } => attach!(Maybe<PartV1>, val, how, cx, |x| { self.set_opt(x); }, |f| { self.set_opt_with(f); }),
            Act::Set { tag: 20, val, how } => attach!(u64, val, how, cx, |x| { self.set_small(x); }, |f| { self.set_small_with(f); }),
            Act::SetNs { tag: 30, val } => { self.set_name(Leaf::build(val)); true }
            Act::Set { tag: 31, val, how } => attach!(List<KindV1>, val, how, cx, |x| { self.set_kinds(x); }, |f| { self.set_kinds_with(f); }),
            Act::Set { tag: 32, val, how } => attach!(Map<u8, u32>, val, how, cx, |x| { self.set_shrunk(x); }, |f| { self.set_shrunk_with(f); }),
            _ => false,
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, State)]

pub struct DocV2 {
    #[steit(tag = 0)] pub rev: u64,
    #[steit(tag = 1)] pub part: PartV2,
    #[steit(tag = 2)] pub parts: List<PartV2>,
    #[steit(tag = 3)] pub by_id: Map<u16, PartV2>,
    #[steit(tag = 4)] pub retyped: List<u8>,
    #[steit(tag = 5)] pub back: u64,
    #[steit(tag = 6)] pub kind: KindV2,
    #[steit(tag = 7)] pub opt: Maybe<PartV2>,
    #[steit(tag = 8)] pub shape: Shape,
    #[steit(tag = 300)] pub big: u64,
    #[steit(tag = 301)] pub neg: i64,
    #[steit(tag = 302, no_state)] pub note: Note,
    #[steit(tag = 303)] pub tree: Map<u32, Tree>,
    #[steit(tag = 30, no_state)] pub name: String,
    #[steit(tag = 31)] pub kinds: List<KindV2>,
    #[steit(tag = 32)] pub shrunk: Map<u8, Item>,
}
impl Node for DocV2 {
    fn ty(reg: &mut Reg) -> Ty {
        reg.def(std::any::type_name::<Self>(), |reg| Def { name: "DocV2".to_string(), cs: "DocV2", state: true, kind: Kind::Struct(vec![
            Field { name: "rev", cs: "Rev", tag: 0, state: true, eq: true, ty: <u64 as Node>::ty(reg) },
            Field { name: "part", cs: "Part", tag: 1, state: true, eq: true, ty: <PartV2 as Node>::ty(reg) },
            Field { name: "parts", cs: "Parts", tag: 2, state: true, eq: true, ty: <List<PartV2> as Node>::ty(reg) },
            Field { name: "by_id", cs: "ById", tag: 3, state: true, eq: true, ty: <Map<u16, PartV2> as Node>::ty(reg) },
            Field { name: "retyped", cs: "Retyped", tag: 4, state: true, eq: true, ty: <List<u8> as Node>::ty(reg) },
            Field { name: "back", cs: "Back", tag: 5, state: true, eq: true, ty: <u64 as Node>::ty(reg) },
            Field { name: "kind", cs: "Kind", tag: 6, state: true, eq: true, ty: <KindV2 as Node>::ty(reg) },
            Field { name: "opt", cs: "Opt", tag: 7, state: true, eq: true, ty: <Maybe<PartV2> as Node>::ty(reg) },
            Field { name: "shape", cs: "Shape", tag: 8, state: true, eq: true, ty: <Shape as Node>::ty(reg) },
            Field { name: "big", cs: "Big", tag: 300, state: true, eq: true, ty: <u64 as Node>::ty(reg) },
            Field { name: "neg", cs: "Neg", tag: 301, state: true, eq: true, ty: <i64 as Node>::ty(reg) },
            Field { name: "note", cs: "Note", tag: 302, state: false, eq: true, ty: <Note as Leaf>::ty(reg) },
            Field { name: "tree", cs: "Tree", tag: 303, state: true, eq: true, ty: <Map<u32, Tree> as Node>::ty(reg) },
            Field { name: "name", cs: "Name", tag: 30, state: false, eq: true, ty: <String as Leaf>::ty(reg) },
            Field { name: "kinds", cs: "Kinds", tag: 31, state: true, eq: true, ty: <List<KindV2> as Node>::ty(reg) },
            Field { name: "shrunk", cs: "Shrunk", tag: 32, state: true, eq: true, ty: <Map<u8, Item> as Node>::ty(reg) },
        ]) })
    }
    fn build(v: &Val, rt: Runtime) -> Self {
        let mut s = Self::new(rt);
        let xs = v.list();
        s.set_rev_with(|rt| Node::build(&xs[0], rt));
        s.set_part(Node::build(&xs[1], Runtime::new()));
        s.set_parts_with(|rt| Node::build(&xs[2], rt));
        s.set_by_id(Node::build(&xs[3], Runtime::new()));
        s.set_retyped_with(|rt| Node::build(&xs[4], rt));
        s.set_back(Node::build(&xs[5], Runtime::new()));
        s.set_kind_with(|rt| Node::build(&xs[6], rt));
        s.set_opt(Node::build(&xs[7], Runtime::new()));
        s.set_shape_with(|rt| Node::build(&xs[8], rt));
        s.set_big(Node::build(&xs[9], Runtime::new()));
        s.set_neg_with(|rt| Node::build(&xs[10], rt));
        s.set_note(Leaf::build(&xs[11]));
        s.set_tree_with(|rt| Node::build(&xs[12], rt));
        s.set_name(Leaf::build(&xs[13]));
        s.set_kinds_with(|rt| Node::build(&xs[14], rt));
        s.set_shrunk(Node::build(&xs[15], Runtime::new()));
        s
    }
    fn obs(&self) -> Val {
        Val::L(vec![<u64 as Node>::obs(&self.rev), <PartV2 as Node>::obs(&self.part), <List<PartV2> as Node>::obs(&self.parts), <Map<u16, PartV2> as Node>::obs(&self.by_id), <List<u8> as Node>::obs(&self.retyped), <u64 as Node>::obs(&self.back), <KindV2 as Node>::obs(&self.kind), <Maybe<PartV2> as Node>::obs(&self.opt), <Shape as Node>::obs(&self.shape), <u64 as Node>::obs(&self.big), <i64 as Node>::obs(&self.neg), <Note as Leaf>::obs(&self.note), <Map<u32, Tree> as Node>::obs(&self.tree), <String as Leaf>::obs(&self.name), <List<KindV2> as Node>::obs(&self.kinds), <Map<u8, Item> as Node>::obs(&self.shrunk)])
    }
    fn aside(&self) {
        let x = Self::new(self.runtime().clone());
        assert!(x == Self::with_runtime(self.runtime().nested(1)), "what the constructor makes");
        self.rev.aside();
        self.part.aside();
        self.parts.aside();
        self.by_id.aside();
        self.retyped.aside();
        self.back.aside();
        self.kind.aside();
        self.opt.aside();
        self.shape.aside();
        self.big.aside();
        self.neg.aside();
        self.tree.aside();
        self.kinds.aside();
        self.shrunk.aside();
    }
    fn act(&mut self, path: &[u32], act: &Act, cx: &mut Cx) -> bool {
        if let Some((&tag, rest)) = path.split_first() {
            return match tag {
                0 => self.rev.act(rest, act, cx),
                1 => self.part.act(rest, act, cx),
                2 => self.parts.act(rest, act, cx),
                3 => self.by_id.act(rest, act, cx),
                4 => self.retyped.act(rest, act, cx),
                5 => self.back.act(rest, act, cx),
                6 => self.kind.act(rest, act, cx),
                7 => self.opt.act(rest, act, cx),
                8 => self.shape.act(rest, act, cx),
                300 => self.big.act(rest, act, cx),
                301 => self.neg.act(rest, act, cx),
                303 => self.tree.act(rest, act, cx),
                31 => self.kinds.act(rest, act, cx),
                32 => self.shrunk.act(rest, act, cx),
                _ => false,
            };
        }
        match act {
            Act::Set { tag: 0, val, how } => attach!(u64, val, how, cx, |x| { self.set_rev(x); }, |f| { self.set_rev_with(f); }),
            Act::Set { tag: 1, val, how } => attach!(PartV2, val, how, cx, |x| { self.set_part(x); }, |f| { self.set_part_with(f); }),
            Act::Set { tag: 2, val, how } => attach!(List<PartV2>, val, how, cx, |x| { self.set_parts(x); }, |f| { self.set_parts_with(f); }),
            Act::Set { tag: 3, val, how } => attach!(Map<u16, PartV2>, val, how, cx, |x| { self.set_by_id(x); }, |f| { self.set_by_id_with(f); }),
            Act::Set { tag: 4, val, how } => attach!(List<u8>, val, how, cx, |x| { self.set_retyped(x); }, |f| { self.set_retyped_with(f); }),
            Act::Set { tag: 5, val, how } => attach!(u64, val, how, cx, |x| { self.set_back(x); }, |f| { self.set_back_with(f); }),
            Act::Set { tag: 6, val, how } => attach!(KindV2, val, how, cx, |x| { self.set_kind(x); }, |f| { self.set_kind_with(f); }),
            Act::Set { tag: 7, val, how } => attach!(Maybe<PartV2>, val, how, cx, |x| { self.set_opt(x); }, |f| { self.set_opt_with(f); }),
            Act::Set { tag: 8, val, how } => attach!(Shape, val, how, cx, |x| { self.set_shape(x); }, |f| { self.set_shape_with(f); }),
            Act::Set { tag: 300, val, how } => attach!(u64, val, how, cx, |x| { self.set_big(x); }, |f| { self.set_big_with(f); }),
            Act::Set { tag: 301, val, how } => attach!(i64, val, how, cx, |x| { self.set_neg(x); }, |f| { self.set_neg_with(f); }),
            Act::SetNs { tag: 302, val } => { self.set_note(Leaf::build(val)); true }
            Act::Set { tag: 303, val, how } => attach!(Map<u32, Tree>, val, how, cx, |x| { self.set_tree(x); }, |f| { self.set_tree_with(f); }),
            Act::SetNs { tag: 30, val } => { self.set_name(Leaf::build(val)); true }
            Act::Set { tag: 31, val, how } => attach!(List<KindV2>, val, how, cx, |x| { self.set_kinds(x); }, |f| { self.set_kinds_with(f); }),
            Act::Set { tag: 32, val, how } => attach!(Map<u8, Item>, val, how, cx, |x| { self.set_shrunk(x); }, |f| { self.set_shrunk_with(f); }),
            _ => false,
        }
    }
}

pub fn roots(reg: &mut Reg) -> Vec<Schema> {
    vec![
        schema::<Prims>(reg, "Prims", Some(generate::<Prims>), Some(hash_of::<Prims>)),
        schema::<Item>(reg, "Item", Some(generate::<Item>), Some(hash_of::<Item>)),
        schema::<Profile>(reg, "Profile", Some(generate::<Profile>), Some(hash_of::<Profile>)),
        schema::<Vault>(reg, "Vault", None, None),
        schema::<Pair>(reg, "Pair", Some(generate::<Pair>), Some(hash_of::<Pair>)),
        schema::<Bare>(reg, "Bare", Some(generate::<Bare>), Some(hash_of::<Bare>)),
        schema::<Renamed>(reg, "Renamed", Some(generate::<Renamed>), Some(hash_of::<Renamed>)),
        schema::<Shape>(reg, "Shape", Some(generate::<Shape>), None),
        schema::<Mode>(reg, "Mode", Some(generate::<Mode>), Some(hash_of::<Mode>)),
        schema::<Tree>(reg, "Tree", Some(generate::<Tree>), None),
        schema::<Doc>(reg, "Doc", Some(generate::<Doc>), None),
        schema::<Mess>(reg, "Mess", None, None),
        schema::<Wrap<Shape>>(reg, "Wrap<Shape>", Some(generate::<Wrap<Shape>>), None),
        schema::<Wrap<Map<u16, Item>>>(reg, "Wrap<Map<u16, Item>>", Some(generate::<Wrap<Map<u16, Item>>>), None),
        schema::<Either<Item, List<u32>>>(reg, "Either<Item, List<u32>>", Some(generate::<Either<Item, List<u32>>>), Some(hash_of::<Either<Item, List<u32>>>)),
        schema::<List<Item>>(reg, "List<Item>", Some(generate::<List<Item>>), Some(hash_of::<List<Item>>)),
        schema::<List<u64>>(reg, "List<u64>", Some(generate::<List<u64>>), Some(hash_of::<List<u64>>)),
        schema::<Map<u32, Item>>(reg, "Map<u32, Item>", Some(generate::<Map<u32, Item>>), None),
        schema::<Map<u8, List<i16>>>(reg, "Map<u8, List<i16>>", Some(generate::<Map<u8, List<i16>>>), None),
        schema::<Map<Color, Shape>>(reg, "Map<Color, Shape>", None, None),
        schema::<Maybe<Item>>(reg, "Maybe<Item>", Some(generate::<Maybe<Item>>), Some(hash_of::<Maybe<Item>>)),
        schema::<Maybe<Box<Shape>>>(reg, "Maybe<Box<Shape>>", Some(generate::<Maybe<Box<Shape>>>), None),
        schema::<Box<Item>>(reg, "Box<Item>", Some(generate::<Box<Item>>), Some(hash_of::<Box<Item>>)),
        schema::<Box<Shape>>(reg, "Box<Shape>", Some(generate::<Box<Shape>>), None),
        schema::<List<Shape>>(reg, "List<Shape>", Some(generate::<List<Shape>>), None),
        schema::<List<List<List<u8>>>>(reg, "List<List<List<u8>>>", Some(generate::<List<List<List<u8>>>>), Some(hash_of::<List<List<List<u8>>>>)),
        schema::<Member>(reg, "Member", Some(generate::<Member>), Some(hash_of::<Member>)),
        schema::<Team>(reg, "Team", Some(generate::<Team>), Some(hash_of::<Team>)),
        schema::<DocV1>(reg, "DocV1", Some(generate::<DocV1>), None),
        schema::<DocV2>(reg, "DocV2", Some(generate::<DocV2>), None),
        schema::<Gallery>(reg, "Gallery", Some(generate::<Gallery>), None),
        schema::<Box<Crate>>(reg, "Box<Crate>", Some(generate::<Box<Crate>>), None),
        schema::<Map<u8, Crate>>(reg, "Map<u8, Crate>", Some(generate::<Map<u8, Crate>>), None),
        schema::<Crate>(reg, "Crate", Some(generate::<Crate>), None),
        schema::<Wrap<Gallery>>(reg, "Wrap<Gallery>", Some(generate::<Wrap<Gallery>>), None),
        schema::<List<Postcard>>(reg, "List<Postcard>", Some(generate::<List<Postcard>>), Some(hash_of::<List<Postcard>>)),
        schema::<Ledger>(reg, "Ledger", Some(generate::<Ledger>), Some(hash_of::<Ledger>)),
        schema::<Album>(reg, "Album", Some(generate::<Album>), None),
        schema::<Stamp>(reg, "Stamp", Some(generate::<Stamp>), Some(hash_of::<Stamp>)),
        schema::<Purse>(reg, "Purse", Some(generate::<Purse>), Some(hash_of::<Purse>)),
        schema::<Tuples>(reg, "Tuples", None, None),
        schema::<List<Purse>>(reg, "List<Purse>", Some(generate::<List<Purse>>), Some(hash_of::<List<Purse>>)),
    ]
}
