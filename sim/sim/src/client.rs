//! A client driven by generated code follows a real leader.

use std::collections::BTreeMap;
use std::path::PathBuf;
use std::sync::{Arc, Mutex};

use model::*;
use schemas::*;
use serde::{Deserialize, Serialize};

use super::cluster::simpler_act;
use super::core::*;
use super::csharp::{self, Client, CV, G};
use super::streams::{draw_op, gen_for};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum ClientEv {
    /// The server mutates itself.
    Op { path: Vec<u32>, act: Act },
    /// So many entries reach the client.
    Deliver { entries: usize },
    /// The client crashes; it starts over from the last snapshot it had and the entries since.
    Restart,
    /// The client crashes and lost everything; it gets a snapshot of the server.
    Join,
}

pub struct Foreign;

/// Generates the client code of a schema, in a directory of its own.
pub fn generated(schema: &Schema, work: &str, run: u64) -> std::io::Result<(Vec<String>, Vec<(String, String)>)> {
    let dir = PathBuf::from(work).join(format!("gen-{}-{}", std::process::id(), run));
    std::fs::create_dir_all(&dir)?;
    let res = (schema.generate.unwrap())(&dir, &GenOpts { builtins: true, ..GenOpts::default() });
    let files = read_dir(&dir);
    let _ = std::fs::remove_dir_all(&dir);
    Ok((res?, files))
}

pub fn read_dir(dir: &PathBuf) -> Vec<(String, String)> {
    let mut files = Vec::new();
    if let Ok(rd) = std::fs::read_dir(dir) {
        for e in rd.flatten() {
            let name = e.file_name().to_string_lossy().to_string();
            let text = String::from_utf8_lossy(&std::fs::read(e.path()).unwrap_or_default()).to_string();
            files.push((name, text));
        }
    }
    files.sort();
    files
}

type Made = Arc<Result<(Client, G), String>>;

static MADE: Mutex<BTreeMap<&'static str, Made>> = Mutex::new(BTreeMap::new());

fn client(schema: &'static Schema, ctx: &Ctx) -> Made {
    let mut made = MADE.lock().unwrap_or_else(|e| e.into_inner());
    if let Some(c) = made.get(schema.name) {
        return c.clone();
    }
    let c = generated(schema, &ctx.work, ctx.seed)
        .map_err(|e| format!("no client code was generated: {}", e))
        .and_then(|(_, files)| Client::new(&files))
        .map(|c| (c, csharp::root_type(schema.name)));
    let c = Arc::new(c);
    made.insert(schema.name, c.clone());
    c
}

fn pick(seed: u64) -> &'static Schema {
    let all: Vec<_> = all().iter().filter(|s| s.generate.is_some() && s.name != "List<Postcard>").collect();
    let r = mix(seed ^ 0x5c) as usize;
    if r % 101 == 7 {
        return by_name("List<Postcard>");
    }
    if r % 3 == 0 {
        by_name(["Doc", "Wrap<Gallery>", "DocV2", "Gallery"][(r >> 8) % 4])
    } else {
        all[(r >> 8) % all.len()]
    }
}

struct Peer<'a> {
    name: &'static str,
    client: &'a Client,
    root: &'a G,
    ty: &'static Ty,
    cv: CV,
    val: Val,
    /// What it has on disk.
    snapshot: Vec<u8>,
    tail: Vec<Vec<u8>>,
}

impl<'a> Peer<'a> {
    fn load(&mut self, bytes: &[u8], ctx: &mut Ctx) -> Res {
        ctx.note(bytes);
        let want = match wire::decode(self.ty, bytes) {
            Ok(v) => v,
            Err(e) => return Err(Stop::Other(format!("the server's snapshot: {}", e))),
        };
        let r = self.client.deserialize(self.root, &mut wire::Rd::new(bytes), Vec::new());
        ctx.check(&[17], r.is_ok(), "client-cannot-load", || {
            format!("the client of {} can't load {}: {}", self.name, hex(bytes), r.as_ref().err().unwrap())
        })?;
        self.cv = r.unwrap();
        self.val = want;
        ctx.count("snapshots loaded", 1);
        self.same(|| format!("after loading {}", hex(bytes)), ctx)
    }

    fn replay(&mut self, bytes: &[u8], ctx: &mut Ctx) -> Res {
        ctx.note(bytes);
        let e = match wire::split_log(bytes) {
            Ok(mut es) if es.len() == 1 => es.remove(0).0,
            _ => return Err(Stop::Other("the server's log".to_string())),
        };
        if wire::apply_entry(self.ty, &mut self.val, &e).is_err() {
            return Err(Stop::Other("the server's entry".to_string()));
        }
        let r = self.client.replay(&mut self.cv, self.root, &e);
        let what = || format!("entry {} at {:?}", hex(bytes), e.path);
        ctx.check(&[17], r.is_ok(), "client-cannot-replay", || {
            format!("the client of {} can't replay {}: {}", self.name, what(), r.as_ref().unwrap_err())
        })?;
        ctx.count("entries applied", 1);
        self.same(|| format!("after {}", what()), ctx)
    }

    fn same(&self, what: impl FnOnce() -> String, ctx: &mut Ctx) -> Res {
        let d = self.client.diff(&self.cv, self.ty, &self.val, Some(&[]));
        ctx.check(&[17], d.is_ok(), "client-differs", || format!("the client of {} differs: {}; {}", self.name, d.as_ref().unwrap_err(), what()))
    }
}

impl Scenario for Foreign {
    const NAME: &'static str = "client";
    type Ev = ClientEv;

    fn run(src: &mut Src<ClientEv>, ctx: &mut Ctx) -> Res {
        let schema = pick(ctx.seed);
        let ty = &schema.ty;
        let shape = mix(ctx.seed ^ 0x73) as usize;
        src.limit(match ctx.tier {
            Tier::Quick => [10, 20, 40][shape % 3],
            Tier::Thorough => [12, 40, 150][shape % 3],
        });
        ctx.note(schema.name.as_bytes());
        let made = client(schema, ctx);
        ctx.check(&[17], made.is_ok(), "client-unusable", || {
            format!("{}: {}", schema.name, made.as_ref().as_ref().err().unwrap())
        })?;
        let (client, root) = made.as_ref().as_ref().ok().unwrap();
        let mut gen = gen_for(ctx.seed);
        let mut cx = Cx::new();
        let (rt, log) = buffer_runtime();
        let mut obj = (schema.new)(rt);
        let mut val = ty.default();
        let mut queue: std::collections::VecDeque<Vec<u8>> = Default::default();
        let mut peer = Peer {
            name: schema.name,
            client,
            root,
            ty,
            cv: CV::Null,
            val: ty.default(),
            snapshot: Vec::new(),
            tail: Vec::new(),
        };
        let first = obj.to_bytes();
        peer.snapshot = first.clone();
        peer.load(&first, ctx)?;
        loop {
            let ev = {
                let (gen, val, n) = (&mut gen, &val, queue.len());
                src.next(|rng| match rng.weighted(&[50, if n > 0 { 40 } else { 0 }, 6, 10]) {
                    0 => match draw_op(gen, ty, val) {
                        Some((path, act)) => ClientEv::Op { path, act },
                        None => ClientEv::Restart,
                    },
                    1 => ClientEv::Deliver { entries: rng.range(1, n) },
                    2 => ClientEv::Restart,
                    _ => ClientEv::Join,
                })
            };
            let ev = match ev {
                Some(ev) => ev,
                None => break,
            };
            if ctx.verbose {
                println!("{}", brief(&ev));
            }
            ctx.tick(10);
            match ev {
                ClientEv::Op { path, act } => {
                    let mut after = val.clone();
                    if apply(ty, &mut after, &path, &act).is_none() {
                        continue;
                    }
                    cx.forget(4);
                    obj.act(&path, &act, &mut cx);
                    let got = obj.obs();
                    ctx.check(&[1], got == after, "leader-wrong", || same_val(&got, &after))?;
                    val = after;
                    let new = log.lock().unwrap().pluck_bytes();
                    let mut at = 0;
                    match wire::split_log(&new) {
                        Ok(es) => {
                            for (_, end) in es {
                                queue.push_back(new[at..end].to_vec());
                                at = end;
                            }
                        }
                        Err(_) => return Err(Stop::Other("log".to_string())),
                    }
                }
                ClientEv::Deliver { entries } => {
                    for _ in 0..entries {
                        if let Some(e) = queue.pop_front() {
                            peer.replay(&e, ctx)?;
                            peer.tail.push(e);
                        }
                    }
                }
                ClientEv::Restart => {
                    ctx.count("fault: client crashed", 1);
                    let bytes = peer.snapshot.clone();
                    peer.load(&bytes, ctx)?;
                    for e in peer.tail.clone() {
                        peer.replay(&e, ctx)?;
                    }
                }
                ClientEv::Join => {
                    ctx.count("fault: client lost its state", 1);
                    let bytes = obj.to_bytes();
                    queue.clear();
                    peer.snapshot = bytes.clone();
                    peer.tail.clear();
                    peer.load(&bytes, ctx)?;
                    let same = peer.val == val;
                    ctx.check(&[2], same, "snapshot-wrong", || same_val(&peer.val, &val))?;
                }
            }
        }
        while let Some(e) = queue.pop_front() {
            peer.replay(&e, ctx)?;
        }
        Ok(())
    }

    fn simpler(ev: &ClientEv) -> Vec<ClientEv> {
        match ev {
            ClientEv::Op { path, act } => {
                simpler_act(act).into_iter().map(|act| ClientEv::Op { path: path.clone(), act }).collect()
            }
            _ => Vec::new(),
        }
    }
}
