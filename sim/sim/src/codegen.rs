//! The generator runs against a file system that fails.

use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::io;
use std::path::{Path, PathBuf};

use model::*;
use sched::fs as faulty;
use schemas::*;
use serde::{Deserialize, Serialize};

use super::client::read_dir;
use super::core::*;

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Flt {
    Error(i32),
    Short(usize),
    Torn(usize, i32),
    From(i32),
    Crash(usize),
}

impl Flt {
    fn real(self) -> faulty::Fault {
        match self {
            Flt::Error(e) => faulty::Fault::Error(e),
            Flt::Short(k) => faulty::Fault::Short(k),
            Flt::Torn(k, e) => faulty::Fault::Torn(k, e),
            Flt::From(e) => faulty::Fault::From(e),
            Flt::Crash(k) => faulty::Fault::Crash(k),
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Litter {
    /// A file of that name, with the first `keep` per mille of the right contents and `more` bytes.
    File { keep: usize, more: usize },
    /// A file the generator has no business with.
    Other,
    /// A directory where the file should go.
    Dir,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum GenEv {
    /// The generator runs.
    Run {
        schema: String,
        builtins: bool,
        rust_names: bool,
        skip: Vec<String>,
        /// Seeds the order of hash maps.
        hash: u64,
        /// What goes wrong, by number of the file system call.
        faults: Vec<(usize, Flt)>,
    },
    /// Something else leaves this in the directory.
    Leave { name: String, what: Litter },
    /// The directory is made anew.
    Clean,
    /// The directory disappears.
    Gone,
}

pub struct Codegen;

/// The types that a root reaches, as (Rust name, client's name).
fn reached(ty: &Ty, seen: &mut BTreeSet<usize>, out: &mut BTreeSet<(String, String)>) {
    match ty {
        Ty::Def(i) => {
            if seen.insert(*i as usize) {
                let d = def(*i);
                out.insert((d.name.clone(), d.cs.to_string()));
                match &d.kind {
                    Kind::Struct(fields) => fields.iter().for_each(|f| reached(&f.ty, seen, out)),
                    Kind::Enum(variants) => {
                        variants.iter().for_each(|v| v.fields.iter().for_each(|f| reached(&f.ty, seen, out)))
                    }
                }
            }
        }
        Ty::Vec(t) | Ty::Arr(_, t) | Ty::Opt(t) | Ty::List(t) | Ty::Map(_, t) => reached(t, seen, out),
        _ => {}
    }
}

/// The files of one schema, by name.
struct Files(BTreeMap<String, String>);

struct Sim<'a> {
    ctx: &'a mut Ctx,
    dir: PathBuf,
    /// What fault-free runs on an empty directory produce, by schema and whether built-in types
    /// are generated.
    good: BTreeMap<(String, bool), Files>,
    /// Contents by client's name, for all schemas.
    classes: BTreeMap<String, String>,
    /// Files the generator has no business with.
    others: BTreeMap<String, String>,
    /// Places where a directory is in the way.
    blocked: BTreeSet<String>,
    gone: bool,
}

const ERRNOS: [i32; 7] = [5, 28, 13, 24, 4, 122, 30];
const EINTR: i32 = 4;

fn generate(schema: &'static Schema, dir: &Path, opts: GenOpts, hash: u64) -> Result<io::Result<Vec<String>>, String> {
    let dir = dir.to_path_buf();
    // A thread of its own, for hash maps seeded anew.
    sched::seed_random(mix(hash));
    std::thread::spawn(move || {
        sched::budget(1_000_000_000);
        let r = guarded(|| (schema.generate.unwrap())(&dir, &opts));
        sched::budget(0);
        r
    })
    .join()
    .unwrap_or_else(|_| Err("?".to_string()))
}

fn balanced(text: &str) -> bool {
    let mut depth = 0i64;
    for c in text.chars() {
        match c {
            '{' | '(' => depth += 1,
            '}' | ')' => depth -= 1,
            _ => {}
        }
        if depth < 0 {
            return false;
        }
    }
    depth == 0 && text.trim_end().ends_with('}')
}

fn using() -> Vec<String> {
    vec!["Zoo.Keepers".to_string(), "Abc".to_string()]
}

impl Sim<'_> {
    fn want(&self, schema: &str, builtins: bool, rust_names: bool, skip: &[String]) -> BTreeMap<String, String> {
        let mut names = BTreeSet::new();
        reached(&by_name(schema).ty, &mut BTreeSet::new(), &mut names);
        names
            .into_iter()
            .filter(|(rust, _)| builtins || rust != "Maybe")
            .map(|(rust, cs)| (if rust_names { rust } else { cs.clone() }, cs))
            .filter(|(file, _)| !skip.contains(file))
            .collect()
    }

    /// What a healthy run produces.
    fn learn(&mut self, schema: &'static Schema, builtins: bool) -> Res {
        let key = (schema.name.to_string(), builtins);
        if self.good.contains_key(&key) {
            return Ok(());
        }
        let dir = self.dir.with_extension("good");
        let _ = fs::remove_dir_all(&dir);
        fs::create_dir_all(&dir).expect("scratch directory");
        let opts = GenOpts { builtins, using: using(), ..GenOpts::default() };
        let r = generate(schema, &dir, opts, 0);
        let files: BTreeMap<String, String> = read_dir(&dir).into_iter().collect();
        let _ = fs::remove_dir_all(&dir);
        let name = schema.name;
        let names = match r {
            Ok(Ok(names)) => names,
            r => return violation("healthy-run-failed", format!("{}: on an empty directory: {:?}", name, r)),
        };
        let want = self.want(name, builtins, false, &[]);
        self.names(&names, &want, &files, name)?;
        for (class, text) in &files {
            let class = class.trim_end_matches(".cs");
            self.ctx.check(&[18], balanced(text), "incomplete-source", || format!("{}: {}.cs isn't complete", name, class))?;
            let before = self.classes.entry(class.to_string()).or_insert_with(|| text.clone());
            let same = before == text;
            self.ctx.check(&[18], same, "depends-on-root", || {
                format!("{}: {}.cs differs from the one generated for another root", name, class)
            })?;
        }
        self.good.insert(key, Files(files));
        Ok(())
    }

    /// The names returned, and the files there are, against those expected.
    fn names(&mut self, got: &[String], want: &BTreeMap<String, String>, files: &BTreeMap<String, String>, what: &str) -> Res {
        let mut sorted = got.to_vec();
        sorted.sort();
        self.ctx.check(&[18], sorted.iter().eq(want.keys()), "wrong-names", || {
            format!("{}: reported {:?}, want {:?}", what, sorted, want.keys())
        })?;
        for name in want.keys() {
            self.ctx.check(&[18], files.contains_key(&format!("{}.cs", name)), "missing-file", || {
                format!("{}: {}.cs was reported, but isn't there", what, name)
            })?;
        }
        Ok(())
    }

    fn run(&mut self, ev: &GenEv) -> Res {
        let (name, builtins, rust_names, skip, hash, faults) = match ev {
            GenEv::Run { schema, builtins, rust_names, skip, hash, faults } => {
                (schema, *builtins, *rust_names, skip, *hash, faults)
            }
            _ => unreachable!(),
        };
        let schema = by_name(name);
        self.learn(schema, builtins)?;
        let want = self.want(name, builtins, rust_names, skip);
        let opts = GenOpts { builtins, rust_names, skip: skip.clone(), using: using() };
        faulty::track(self.dir.to_str().unwrap(), faults.iter().map(|(i, f)| (*i, f.real())).collect());
        let r = generate(schema, &self.dir, opts, hash);
        let (calls, fired) = faulty::untrack();
        self.ctx.count("file system calls", calls.len() as u64);
        self.ctx.note(&calls.iter().map(|c| *c as u8).collect::<Vec<_>>());
        let mut crashed = false;
        let mut hurt = self.gone || want.keys().any(|n| self.blocked.contains(&format!("{}.cs", n)));
        for (op, f) in &fired {
            let kind = match f {
                faulty::Fault::Error(EINTR) => "call interrupted",
                faulty::Fault::Error(_) => match op {
                    faulty::Op::Open => "open failed",
                    _ => "write failed",
                },
                faulty::Fault::Short(_) => "short write",
                faulty::Fault::Torn(..) => "torn write",
                faulty::Fault::From(_) => "disk full",
                faulty::Fault::Crash(_) => "generator crashed",
            };
            self.ctx.count(&format!("fault: {}", kind), 1);
            crashed |= matches!(f, faulty::Fault::Crash(_));
            // Whoever can't deal with a short write may say so.
            hurt = true;
        }
        let got: BTreeMap<String, String> = read_dir(&self.dir).into_iter().collect();
        for (n, text) in &self.others {
            let same = got.get(n) == Some(text);
            self.ctx.check(&[18], same, "foreign-file-touched", || format!("{}: {} was changed or removed", name, n))?;
        }
        if crashed {
            self.ctx.count("runs crashed", 1);
            return Ok(());
        }
        let names = match r {
            Err(panic) => return violation("panic", format!("{}: panicked: {}", name, panic)),
            Ok(Err(e)) => {
                self.ctx.note(b"error");
                self.ctx.count("runs failed", 1);
                return self.ctx.check(&[18], hurt, "failed-without-cause", || format!("{}: {}", name, e));
            }
            Ok(Ok(names)) => names,
        };
        self.ctx.count("runs succeeded", 1);
        self.gone = !self.dir.is_dir();
        self.names(&names, &want, &got, name)?;
        let good = &self.good[&(name.clone(), builtins)].0;
        for (file, class) in &want {
            let text = &got[&format!("{}.cs", file)];
            self.ctx.note(text.as_bytes());
            let right = Some(text) == good.get(&format!("{}.cs", class));
            self.ctx.check(&[18], right, "wrong-contents", || {
                format!("{}: {}.cs, {} bytes long, isn't what a healthy run produces; faults: {:?}", name, file, text.len(), fired)
            })?;
        }
        Ok(())
    }

    fn leave(&mut self, name: &str, what: &Litter) {
        let path = self.dir.join(name);
        if self.gone || self.blocked.contains(name) {
            return;
        }
        match what {
            Litter::File { keep, more } => {
                let right = self.classes.get(name.trim_end_matches(".cs")).cloned().unwrap_or_default();
                let mut text = right.as_bytes()[..right.len() * keep.min(&1000) / 1000].to_vec();
                text.extend((0..*more).map(|i| b"}\n// old "[i % 9]));
                let _ = fs::write(path, text);
                self.ctx.count("fault: file of an earlier run left behind", 1);
            }
            Litter::Other => {
                let text = format!("notes {}", name);
                let _ = fs::write(self.dir.join(format!("{}.txt", name)), &text);
                self.others.insert(format!("{}.txt", name), text);
            }
            Litter::Dir => {
                let _ = fs::remove_file(&path);
                if fs::create_dir(&path).is_ok() {
                    self.blocked.insert(name.to_string());
                    self.ctx.count("fault: directory in the way", 1);
                }
            }
        }
    }

    fn clean(&mut self, make: bool) {
        let _ = fs::remove_dir_all(&self.dir);
        self.others.clear();
        self.blocked.clear();
        self.gone = !make;
        if make {
            fs::create_dir_all(&self.dir).expect("scratch directory");
        }
    }
}

fn draw_faults(rng: &mut Rng, files: usize) -> Vec<(usize, Flt)> {
    let calls = 2 * files.max(1) + 2;
    let n = match rng.below(10) {
        0..=2 => 0,
        3..=7 => 1,
        8 => rng.range(2, 4),
        _ => calls,
    };
    (0..n)
        .map(|i| {
            let at = if n == calls { i } else { rng.below(calls) };
            let k = match rng.below(4) {
                0 => rng.below(4),
                1 => rng.range(1, 300),
                _ => rng.range(1, 9000),
            };
            let e = *rng.pick(&ERRNOS);
            let f = if n == calls {
                match rng.below(3) {
                    0 => Flt::Error(EINTR),
                    _ => Flt::Short(k),
                }
            } else {
                match rng.weighted(&[30, 20, 20, 10, 20]) {
                    0 => Flt::Error(e),
                    1 => Flt::Short(k),
                    2 => Flt::Torn(k, e),
                    3 => Flt::From(28),
                    _ => Flt::Crash(k),
                }
            };
            (at, f)
        })
        .collect()
}

impl Scenario for Codegen {
    const NAME: &'static str = "codegen";
    type Ev = GenEv;

    fn run(src: &mut Src<GenEv>, ctx: &mut Ctx) -> Res {
        let r = mix(ctx.seed ^ 0x6e) as usize;
        src.limit(match ctx.tier {
            Tier::Quick => [4, 8, 14][r % 3],
            Tier::Thorough => [6, 16, 40][r % 3],
        });
        let all: Vec<&'static Schema> = all().iter().filter(|s| s.generate.is_some()).collect();
        let some: Vec<&'static Schema> = (0..1 + (r >> 4) % 3).map(|i| all[(r >> (8 + 8 * i)) % all.len()]).collect();
        let dir = PathBuf::from(&ctx.work).join("out");
        let mut sim = Sim {
            ctx,
            dir,
            good: BTreeMap::new(),
            classes: BTreeMap::new(),
            others: BTreeMap::new(),
            blocked: BTreeSet::new(),
            gone: false,
        };
        sim.clean(true);
        let mut last = None;
        let mut out = Ok(());
        loop {
            let ev = {
                let sim = &sim;
                src.next(|rng| {
                    let s = *rng.pick(&some);
                    let builtins = rng.pct(40);
                    let mut names: Vec<String> = sim.want(s.name, builtins, false, &[]).into_keys().collect();
                    if names.is_empty() {
                        names.push("Item".to_string());
                    }
                    match rng.weighted(&[60, 25, 5, 3]) {
                        0 => {
                            let skip = match rng.below(5) {
                                0 => (0..rng.range(1, 2)).map(|_| rng.pick(&names).clone()).collect(),
                                _ => Vec::new(),
                            };
                            GenEv::Run {
                                schema: s.name.to_string(),
                                builtins,
                                rust_names: rng.pct(20),
                                skip,
                                hash: rng.u64() >> 40,
                                faults: draw_faults(rng, names.len()),
                            }
                        }
                        1 => GenEv::Leave {
                            name: format!("{}.cs", rng.pick(&names)),
                            what: match rng.weighted(&[70, 20, 10]) {
                                0 => Litter::File {
                                    keep: *rng.pick(&[0, 300, 999, 1000, 1000]),
                                    more: *rng.pick(&[0, 1, 9, 400, 9000, 20000]),
                                },
                                1 => Litter::Other,
                                _ => Litter::Dir,
                            },
                        },
                        2 => GenEv::Clean,
                        _ => GenEv::Gone,
                    }
                })
            };
            let ev = match ev {
                Some(ev) => ev,
                None => break,
            };
            if sim.ctx.verbose {
                println!("{}", brief(&ev));
            }
            sim.ctx.tick(1000);
            match &ev {
                GenEv::Run { .. } => {
                    out = sim.run(&ev);
                    last = Some(ev);
                    if out.is_err() {
                        break;
                    }
                }
                GenEv::Leave { name, what } => sim.leave(name, what),
                GenEv::Clean => sim.clean(true),
                GenEv::Gone => sim.clean(false),
            }
        }
        // Once nothing fails anymore, the next run gets it right.
        if out.is_ok() {
            if let Some(GenEv::Run { schema, builtins, rust_names, skip, hash, .. }) = last {
                for n in std::mem::take(&mut sim.blocked) {
                    let _ = fs::remove_dir_all(sim.dir.join(n));
                }
                if sim.gone {
                    sim.clean(true);
                }
                out = sim.run(&GenEv::Run { schema, builtins, rust_names, skip, hash: hash ^ 1, faults: Vec::new() });
            }
        }
        let _ = fs::remove_dir_all(&sim.dir);
        out
    }

    fn simpler(ev: &GenEv) -> Vec<GenEv> {
        let mut all = Vec::new();
        if let GenEv::Run { schema, builtins, rust_names, skip, hash, faults } = ev {
            let with = |builtins, rust_names, skip: &Vec<String>, hash, faults| GenEv::Run {
                schema: schema.clone(),
                builtins,
                rust_names,
                skip: skip.clone(),
                hash,
                faults,
            };
            for i in 0..faults.len() {
                let mut f = faults.clone();
                f.remove(i);
                all.push(with(*builtins, *rust_names, skip, *hash, f));
            }
            if *builtins {
                all.push(with(false, *rust_names, skip, *hash, faults.clone()));
            }
            if *rust_names {
                all.push(with(*builtins, false, skip, *hash, faults.clone()));
            }
            if !skip.is_empty() {
                all.push(with(*builtins, *rust_names, &Vec::new(), *hash, faults.clone()));
            }
            if *hash != 0 {
                all.push(with(*builtins, *rust_names, skip, 0, faults.clone()));
            }
        }
        all
    }
}
