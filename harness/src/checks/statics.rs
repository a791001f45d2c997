//! C19, C20: static files.
use super::decode::B;
use crate::core::*;
use crate::ensure;
use crate::gen::{deco, instantiate, Deco};
use crate::model::{pattern_match, Kind, Model};
use crate::server::*;
use crate::spec::{accept, apply, Op, Plain, Rec};
use obsidian::context::Context;
use obsidian::App;
use proptest::prelude::*;
use proptest::sample::Index;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::sync::Arc;

// ================================================================== shared

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Content {
    Text(String),
    Bytes(B),
    Big(u32, u32),
    /// no regular file: 0 pipe, 1 socket, 2 link to nothing, 3 link to itself
    Odd(u8),
}
impl Content {
    /// what a request for it is answered
    fn answer(&self) -> (u16, Option<Vec<u8>>) {
        match self {
            Content::Odd(_) => (404, None),
            c => (200, Some(c.bytes())),
        }
    }
    fn store(&self, at: &str) -> std::io::Result<()> {
        let regular = |at: &str| std::fs::symlink_metadata(at).map_or(true, |m| m.is_file());
        if !regular(at) || matches!(self, Content::Odd(_)) && std::fs::symlink_metadata(at).is_ok() {
            std::fs::remove_file(at)?;
        }
        match self {
            Content::Odd(0) => {
                let p = std::ffi::CString::new(at).unwrap();
                // SAFETY: a path that ends in a null byte
                match unsafe { libc::mkfifo(p.as_ptr(), 0o600) } {
                    0 => Ok(()),
                    _ => Err(std::io::Error::last_os_error()),
                }
            }
            Content::Odd(1) if at.len() < 100 => std::os::unix::net::UnixListener::bind(at).map(drop),
            Content::Odd(3) => std::os::unix::fs::symlink(at.rsplit('/').next().unwrap(), at),
            Content::Odd(_) => std::os::unix::fs::symlink("nosuchfile", at),
            c => std::fs::write(at, c.bytes()),
        }
    }
    fn bytes(&self) -> Vec<u8> {
        match self {
            Content::Text(s) => s.clone().into_bytes(),
            Content::Bytes(b) => b.0.clone(),
            Content::Odd(_) => vec![],
            Content::Big(seed, n) => {
                let mut x = *seed | 1;
                (0..*n)
                    .map(|_| {
                        x ^= x << 13;
                        x ^= x >> 17;
                        x ^= x << 5;
                        x as u8
                    })
                    .collect()
            }
        }
    }
}
fn content() -> impl Strategy<Value = Content> {
    prop_oneof![
        1 => Just(Content::Text(String::new())),
        4 => "[ -~\\n\\r\\t]{0,60}".prop_map(Content::Text),
        2 => "\\PC{0,40}".prop_map(Content::Text),
        3 => prop::collection::vec(any::<u8>(), 0..80).prop_map(|v| Content::Bytes(B(v))),
        2 => (any::<u32>(), 1000u32..40_000).prop_map(|(s, n)| Content::Big(s, n)),
        1 => (any::<u32>(), prop::sample::select(vec![4095u32, 4096, 4097, 8191, 8192, 8193, 16384, 65535, 65536, 65537])).prop_map(|(s, n)| Content::Big(s, n)),
    ]
}
fn content_or_odd() -> impl Strategy<Value = Content> {
    prop_oneof![40 => content(), 1 => (0u8..4).prop_map(Content::Odd)]
}
fn io<T>(r: std::io::Result<T>) -> Result<T, Fail> {
    r.map_err(|e| Fail::Infra(format!("scratch files: {e}")))
}
fn get_bytes(target: &str) -> Vec<u8> {
    let q = match hash_of(&crate::server::anywhere(target)) % 24 {
        0 => "?v=1.2",
        1 => "?",
        2 => "?/../secret.txt",
        3 => "?f=..%2fsecret.txt&download=1#".trim_end_matches('#'),
        _ => "",
    };
    let target = &if target.contains('?') { target.to_string() } else { format!("{target}{q}") };
    noisy_bytes("GET", target, &[("host".into(), "t".into())], b"", &Framing::None)
}
fn url_safe(s: &str) -> bool {
    s != "." && s != ".." && !s.is_empty() && s.bytes().all(|b| b.is_ascii_alphanumeric() || b"-._~!$&'()*+,;=:@".contains(&b))
}

// ================================================================== C19

/// Files by path below the scratch directory of the case.
type Tree = BTreeMap<Vec<String>, Content>;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Step19 {
    Get { path: String, query: Option<String> },
    Build(u8),
    Write { file: Vec<String>, content: Content },
    Delete(Vec<String>),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C19Case {
    pub files: Vec<(Vec<String>, Content)>,
    /// directories without files
    pub dirs: Vec<Vec<String>>,
    /// the served directories begin with "@", which stands for the scratch directory
    pub ops: Vec<Op>,
    pub steps: Vec<Step19>,
    /// fetch everything over this many connections at once, at the end
    pub sweep: u8,
    /// nothing can be written to standard output and error
    pub full_disk: bool,
}

fn name() -> BoxedStrategy<String> {
    prop_oneof![
        10 => prop::sample::select(vec!["a", "b", "ab", "index.html", "app.js", "img", "css", "f.txt", "a.b", "readme", "main.css", "A", "1", "a.html", "f.txt.gz", "f.txt.br", "index.htm", "a.js.map", "default.html", "ab.txt", "a.gz", "index.html.gz"]).prop_map(|s| s.to_string()),
        3 => prop::sample::select(vec!["..a", "a..", "...", "a..b", "*", ":id", "**", "a:b", "~", "a+b", "(1)", "a=b", "x,y", "@v", "$", "!", "'q'", "a&b", "-", "_", ".hidden", ".a.", "a;v=2"]).prop_map(|s| s.to_string()),
        2 => "[a-zA-Z0-9._~!$&'()*+,;=:@-]{1,20}".prop_filter("dots", |s| url_safe(s)),
        1 => (1usize..250).prop_map(|n| "n".repeat(n)),
        1 => prop::sample::select(vec!["a b", "é", "%41", "a#b", "a?b", "日本", "\"", "a\\b"]).prop_map(|s| s.to_string()),
    ]
    .boxed()
}
#[derive(Clone, Debug)]
struct StatG {
    dir: Index,
    depth: u8,
    /// None: use_static
    vpath: Option<(Vec<(bool, u8)>, Deco)>,
    spell: u8,
    mount: Option<(Vec<(bool, u8)>, bool)>,
    route: Option<(u8, bool)>,
}
fn stat_g() -> impl Strategy<Value = StatG> {
    let vseg = || (prop::bool::weighted(0.2), any::<u8>());
    (
        any::<Index>(),
        0u8..4,
        prop::option::weighted(0.8, (prop::collection::vec(vseg(), 0..3), deco())),
        0u8..9,
        prop::option::weighted(0.35, (prop::collection::vec(vseg(), 1..3), any::<bool>())),
        prop::option::weighted(0.3, (any::<u8>(), any::<bool>())),
    )
        .prop_map(|(dir, depth, vpath, spell, mount, route)| StatG { dir, depth, vpath, spell, mount, route })
}
fn vsegs(v: &[(bool, u8)]) -> Vec<String> {
    const N: [&str; 10] = ["s", "v", "static", "assets", "a", "b", "img", "index.html", "x", "@"];
    const P: [&str; 4] = [":id", ":a", ":v", ":x"];
    v.iter().map(|(p, k)| if *p { P[*k as usize % 4] } else { N[*k as usize % 10] }.to_string()).collect()
}
/// Spellings of a directory path.
fn spell(segs: &[String], how: u8) -> String {
    match how {
        0 | 1 => segs.join("/"),
        2 => format!("{}/", segs.join("/")),
        3 => segs.join("//"),
        4 => format!("./{}", segs.join("/")),
        5 | 6 => format!("/{}", segs.join("/")),
        7 => format!("/{}/", segs.join("/")),
        _ => format!("//{}//", segs.join("//")),
    }
}
#[derive(Clone, Debug)]
enum ReqMut {
    None,
    Parent,
    Below(String),
    Sibling(String),
    Chop,
    Dup,
    Case,
    SkipDir,
}
#[derive(Clone, Debug)]
enum StepG {
    Get { reg: Index, file: Index, mu: ReqMut, vals: Vec<String>, deco: Deco, query: Option<String>, odd: bool },
    Build(u8),
    Write(Index, Content),
    /// the same length, other bytes
    Edit(Index, u8),
    WriteNew(Index, String, Content),
    Delete(Index),
}
fn step_g() -> impl Strategy<Value = StepG> {
    let m = prop_oneof![
        10 => Just(ReqMut::None), 1 => Just(ReqMut::Parent), 1 => name().prop_map(ReqMut::Below), 2 => name().prop_map(ReqMut::Sibling),
        1 => Just(ReqMut::Chop), 1 => Just(ReqMut::Dup), 1 => Just(ReqMut::Case), 1 => Just(ReqMut::SkipDir)
    ];
    prop_oneof![
        12 => (any::<Index>(), any::<Index>(), m, prop::collection::vec(prop_oneof![Just("v".to_string()), "[a-z0-9*:.~-]{1,6}".prop_filter("dots", |s| url_safe(s))], 1..3), deco(), prop::option::weighted(0.15, "[a-z=&/.0-9]{0,8}"), prop::bool::weighted(0.05))
            .prop_map(|(reg, file, mu, vals, deco, query, odd)| StepG::Get { reg, file, mu, vals, deco, query, odd }),
        2 => any::<u8>().prop_map(StepG::Build),
        2 => (any::<Index>(), content_or_odd()).prop_map(|(i, c)| StepG::Write(i, c)),
        1 => (any::<Index>(), any::<u8>()).prop_map(|(i, k)| StepG::Edit(i, k)),
        1 => (any::<Index>(), name(), content_or_odd()).prop_map(|(i, n, c)| StepG::WriteNew(i, n, c)),
        1 => any::<Index>().prop_map(StepG::Delete),
    ]
}

/// Keeps what can be on a disk together: no file where a directory is needed.
fn put(t: &mut Tree, dirs: &mut Vec<Vec<String>>, f: Vec<String>, c: Content) -> bool {
    if f.is_empty() || dirs.contains(&f) || t.keys().any(|k| (k.len() > f.len() && k.starts_with(&f)) || (k.len() < f.len() && f.starts_with(k))) {
        return false;
    }
    for i in 1..f.len() {
        if !dirs.contains(&f[..i].to_vec()) {
            dirs.push(f[..i].to_vec());
        }
    }
    t.insert(f, c);
    true
}
/// Directory part of a served path: below the scratch directory
fn under(dir: &str) -> Option<Vec<String>> {
    let v: Vec<String> = dir.split('/').filter(|s| !s.is_empty() && *s != ".").map(|s| s.to_string()).collect();
    (v.first().map(|s| s.as_str()) == Some("@")).then(|| v[1..].to_vec())
}
fn with_dir(ops: &[Op], at: &str) -> Vec<Op> {
    ops.iter()
        .map(|o| match o {
            Op::Static { vpath, dir, id } => Op::Static { vpath: vpath.clone(), dir: dir.replacen('@', at, 1), id: *id },
            Op::Mount { path, ops, scope } => Op::Mount { path: path.clone(), ops: with_dir(ops, at), scope: *scope },
            o => o.clone(),
        })
        .collect()
}
fn make_ops(stats: &[StatG], dirs: &[Vec<String>]) -> Vec<Op> {
    let mut ops = vec![];
    for (i, s) in stats.iter().enumerate() {
        let id = i as u32 + 1;
        let d = if dirs.is_empty() { vec![] } else { s.dir.get(dirs).clone() };
        let mut segs = vec!["@".to_string()];
        segs.extend(d.into_iter().take(s.depth as usize));
        let st = match &s.vpath {
            Some((v, deco)) => Op::Static { vpath: Some(deco.join(&vsegs(v))), dir: spell(&segs, s.spell), id },
            None => Op::Static { vpath: None, dir: spell(&segs, if s.spell == 4 { 0 } else { s.spell }), id },
        };
        let mut inner = vec![st];
        if let Some((k, first)) = s.route {
            // an ordinary route next to the files
            let at = s.vpath.as_ref().map_or(segs.clone(), |v| vsegs(&v.0));
            let mut at: Vec<String> = at.into_iter().map(|s| if s == "@" { "x".into() } else { s }).collect();
            at.push(vsegs(&[(false, k)])[0].clone());
            let r = Op::Route { m: 0, path: format!("/{}", at.join("/")), id: 100 + id };
            if first {
                inner.insert(0, r);
            } else {
                inner.push(r);
            }
        }
        match &s.mount {
            Some((v, scope)) => {
                let p = vsegs(v).join("/");
                ops.push(Op::Mount { path: if *scope { p } else { format!("/{p}") }, ops: inner, scope: *scope })
            }
            None => ops.extend(inner),
        }
    }
    ops
}

pub struct C19;
impl C19 {
    fn expect(m: &Model, at: &[String], t: &Tree, path: &str) -> (u16, Option<Vec<u8>>) {
        match m.resolve(0, path) {
            None => (404, None),
            Some(f) => match &m.entries[f.entry].kind {
                Kind::Static { dir, .. } => {
                    let mut full: Vec<String> = dir.split('/').filter(|s| !s.is_empty() && *s != ".").map(|s| s.to_string()).collect();
                    full.extend(f.tail);
                    let hit = full.strip_prefix(at).and_then(|rel| t.get(rel));
                    hit.map_or((404, None), |c| c.answer())
                }
                k => {
                    let Kind::Route { id, .. } = k else { unreachable!() };
                    (200, Some(format!("h{id}").into_bytes()))
                }
            },
        }
    }
}
impl Check for C19 {
    type Case = C19Case;
    fn id(&self) -> &'static str {
        "C19"
    }
    fn rule(&self) -> &'static str {
        "Generated directory trees (names of all URL-safe characters, contents empty, text, binary, up to 40 KB and, rarely, megabytes), served by one or more static routes (under the directory's own path, virtual paths with parameters, mounted routers and scopes, overlapping each other and ordinary routes), histories of GETs of existing, missing, changed, new and deleted files, directories, paths below files, and Context::build_file, then all files at once over several connections; status and bytes compared with the tree. Non-trivial: at least one answer 200 with a non-empty file."
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["directories are given relative to the working directory (a leading slash changes nothing)", "request paths use URL-safe characters only (the library does not decode percent-escapes)"]
    }
    fn cases(&self) -> (u64, u64) {
        (40_000, 800_000)
    }
    fn strategy(&self, thorough: bool) -> BoxedStrategy<C19Case> {
        let file = (prop_oneof![40 => prop::collection::vec(name(), 1..4), 1 => prop::collection::vec(name(), 4..12)].prop_filter("too long", |v| v.iter().map(|s| s.len() + 1).sum::<usize>() < 1500), content_or_odd()).boxed();
        let big = prop::option::weighted(if thorough { 0.05 } else { 0.02 }, (any::<u32>(), prop_oneof![20 => 500_000u32..4_000_000, 1 => 4_000_000u32..20_000_000]));
        (
            prop_oneof![40 => prop::collection::vec(file.clone(), 1..9), 1 => prop::collection::vec(file, 9..80)],
            big,
            prop::collection::vec(prop::collection::vec(name(), 1..3), 0..3),
            prop::collection::vec(stat_g(), 1..4),
            prop_oneof![40 => prop::collection::vec(step_g(), 1..16), 1 => prop::collection::vec(step_g(), 16..120)].boxed(),
            prop_oneof![2 => Just(0u8), 1 => 1u8..5],
            prop::bool::weighted(0.004),
        )
            .prop_map(|(files, big, empty, stats, steps, sweep, full_disk)| {
                let mut t = Tree::new();
                let mut dirs: Vec<Vec<String>> = vec![];
                for (f, c) in files {
                    put(&mut t, &mut dirs, f, c);
                }
                if let (Some((s, n)), Some(c)) = (big, t.values_mut().next()) {
                    *c = Content::Big(s, n);
                }
                for d in empty {
                    if !t.keys().any(|k| d.starts_with(k) || k.starts_with(&d)) && !dirs.contains(&d) {
                        for i in 1..=d.len() {
                            if !dirs.contains(&d[..i].to_vec()) {
                                dirs.push(d[..i].to_vec());
                            }
                        }
                    }
                }
                let files: Vec<(Vec<String>, Content)> = t.clone().into_iter().collect();
                let dirs0 = dirs.clone();
                // a directory that is not there
                let mut served = dirs.clone();
                served.push(vec!["nosuchdir".into()]);
                served.push(vec![]);
                let raw: Vec<Op> = make_ops(&stats, &served);
                let (ops, m) = accept(&raw);
                let regs: Vec<(Vec<String>, Vec<String>)> = m
                    .entries
                    .iter()
                    .filter_map(|e| match &e.kind {
                        Kind::Static { dir, .. } => Some((e.segs.clone(), under(dir)?)),
                        _ => None,
                    })
                    .collect();
                let mut out = vec![];
                for s in steps {
                    match s {
                        StepG::Get { reg, file, mu, vals, deco, query, odd } => {
                            if regs.is_empty() {
                                continue;
                            }
                            let (pat, dir) = reg.get(&regs);
                            let all: Vec<&Vec<String>> = t.keys().collect();
                            let below: Vec<&Vec<String>> = t.keys().filter(|k| k.starts_with(dir)).collect();
                            let pool = if odd || below.is_empty() { &all } else { &below };
                            if pool.is_empty() {
                                continue;
                            }
                            let f = *file.get(pool);
                            let mut rel: Vec<String> = f.strip_prefix(&dir[..]).unwrap_or(&f[..]).to_vec();
                            match mu {
                                ReqMut::None => {}
                                ReqMut::Parent => drop(rel.pop()),
                                ReqMut::Below(n) => rel.push(n),
                                ReqMut::Sibling(n) => {
                                    rel.pop();
                                    rel.push(n);
                                }
                                ReqMut::Chop => {
                                    if let Some(l) = rel.last_mut() {
                                        l.pop();
                                    }
                                }
                                ReqMut::Dup => {
                                    let l = rel.last().cloned();
                                    rel.extend(l);
                                }
                                ReqMut::Case => {
                                    if let Some(l) = rel.last_mut() {
                                        *l = l.to_ascii_uppercase();
                                    }
                                }
                                ReqMut::SkipDir => {
                                    if rel.len() > 1 {
                                        rel.remove(0);
                                    }
                                }
                            }
                            rel.retain(|s| !s.is_empty());
                            let segs = instantiate(pat, &vals, &rel);
                            // "@" stands for the scratch directory only in use_static's own path
                            if segs.iter().any(|s| !url_safe(s)) || segs.iter().map(|s| s.len()).sum::<usize>() > 4000 {
                                continue;
                            }
                            let mut path = deco.join(&segs);
                            if !path.starts_with('/') {
                                path.insert(0, '/');
                            }
                            out.push(Step19::Get { path, query });
                        }
                        StepG::Build(k) => out.push(Step19::Build(k)),
                        StepG::Write(i, c) => {
                            if !t.is_empty() {
                                let keys: Vec<Vec<String>> = t.keys().cloned().collect();
                                let f = i.get(&keys).clone();
                                t.insert(f.clone(), c.clone());
                                out.push(Step19::Write { file: f, content: c });
                            }
                        }
                        StepG::Edit(i, k) => {
                            if !t.is_empty() {
                                let keys: Vec<Vec<String>> = t.keys().cloned().collect();
                                let f = i.get(&keys).clone();
                                let mut b = t[&f].bytes();
                                if !b.is_empty() && b.len() < 10_000 {
                                    let at = k as usize % b.len();
                                    b[at] ^= 1 + (k >> 6);
                                    let c = Content::Bytes(B(b));
                                    t.insert(f.clone(), c.clone());
                                    out.push(Step19::Write { file: f, content: c });
                                }
                            }
                        }
                        StepG::WriteNew(i, n, c) => {
                            let mut f = if dirs.is_empty() { vec![] } else { i.get(&dirs).clone() };
                            f.push(n);
                            if put(&mut t, &mut dirs, f.clone(), c.clone()) {
                                out.push(Step19::Write { file: f, content: c });
                            }
                        }
                        StepG::Delete(i) => {
                            if !t.is_empty() {
                                let keys: Vec<Vec<String>> = t.keys().cloned().collect();
                                let f = i.get(&keys).clone();
                                t.remove(&f);
                                out.push(Step19::Delete(f));
                            }
                        }
                    }
                }
                C19Case { files, dirs: dirs0, ops, steps: out, sweep, full_disk }
            })
            .boxed()
    }
    fn full_disk(&self, c: &C19Case) -> bool {
        c.full_disk
    }
    fn run(&self, env: &mut Env, c: &C19Case) -> Res {
        let at = env.fresh_dir();
        let on_disk = |f: &[String]| format!("{at}/{}", f.join("/"));
        let mut t = Tree::new();
        for d in &c.dirs {
            io(std::fs::create_dir_all(on_disk(d)))?;
        }
        for (f, co) in &c.files {
            if f.len() > 1 {
                io(std::fs::create_dir_all(on_disk(&f[..f.len() - 1])))?;
            }
            io(co.store(&on_disk(f)))?;
            env.label_if(matches!(co, Content::Odd(_)), "not a regular file");
            t.insert(f.clone(), co.clone());
        }
        let (ops, m) = accept(&with_dir(&c.ops, &at));
        let at_segs: Vec<String> = at.split('/').map(|s| s.to_string()).collect();
        let mut app: App = App::new();
        let parts = Plain { rec: Arc::new(Rec::default()), names: Arc::new(vec![]) };
        for o in &ops {
            apply(&mut app, o, &parts);
        }
        // every file and directory there ever is, by number
        let mut named: Vec<Vec<String>> = c.files.iter().map(|f| f.0.clone()).chain(c.dirs.iter().cloned()).collect();
        named.extend(c.steps.iter().filter_map(|s| if let Step19::Write { file, .. } = s { Some(file.clone()) } else { None }));
        named.push(vec!["nosuchfile".into()]);
        let paths: Arc<Vec<String>> = Arc::new(named.iter().map(|f| on_disk(f)).collect());
        // not next to a parameter, which would be ambiguous
        let builds = !m.entries.iter().any(|e| e.segs.first().map_or(false, |s| s.starts_with(':')));
        if builds {
            let paths = paths.clone();
            app.post("/build.file", move |ctx: Context| {
                let paths = paths.clone();
                async move {
                    let k: usize = ctx.headers()["x-file"].to_str().unwrap().parse().unwrap();
                    ctx.build_file(&paths[k]).await.ok()
                }
            });
        }
        let run = env.srv.start(app)?;
        let mut conn = Conn::open(run.port)?;
        let fix = |p: &str| -> String {
            // use_static's route has the directory's own path
            p.split('/').map(|s| if s == "@" { at.as_str() } else { s }).collect::<Vec<_>>().join("/")
        };
        let judge = |what: &str, r: &Resp, want: &(u16, Option<Vec<u8>>)| -> Res {
            let ok = r.status == want.0 && want.1.as_ref().map_or(true, |b| *b == r.body);
            ensure!(
                ok,
                "{what} answered {} with {} bytes {:?}, expected {} with {:?} bytes {:?}",
                r.status,
                r.body.len(),
                clip(&r.text(), 200),
                want.0,
                want.1.as_ref().map(|b| b.len()),
                want.1.as_ref().map(|b| clip(&String::from_utf8_lossy(b), 200))
            );
            Ok(())
        };
        let mut hits = 0;
        for s in &c.steps {
            match s {
                Step19::Get { path, query } => {
                    let path = fix(path);
                    let want = Self::expect(&m, &at_segs, &t, &path);
                    let target = query.as_ref().map_or(path.clone(), |q| format!("{path}?{q}"));
                    conn.send(&get_bytes(&target))?;
                    let r = conn.read()?;
                    judge(&format!("GET {target}"), &r, &want)?;
                    hits += (want.0 == 200 && want.1.map_or(false, |b| !b.is_empty())) as u32;
                    env.label(if want.0 == 200 { "found" } else { "not found" });
                }
                Step19::Build(_) if !builds => {}
                Step19::Build(k) => {
                    let k = *k as usize % named.len();
                    let want = t.get(&named[k]).map_or((404, None), |c| c.answer());
                    conn.send(&noisy_bytes("POST", "/build.file", &[("host".into(), "t".into()), ("x-file".into(), k.to_string())], b"", &Framing::None))?;
                    // the route can be hidden by nothing: no other route has its method
                    let r = conn.read()?;
                    judge(&format!("build_file({:?})", paths[k]), &r, &want)?;
                    env.label("build_file");
                }
                Step19::Write { file, content } => {
                    if file.len() > 1 {
                        io(std::fs::create_dir_all(on_disk(&file[..file.len() - 1])))?;
                    }
                    io(content.store(&on_disk(file)))?;
                    t.insert(file.clone(), content.clone());
                    env.label("file written");
                }
                Step19::Delete(f) => {
                    t.remove(f);
                    match std::fs::remove_file(on_disk(f)) {
                        Err(e) if e.kind() != std::io::ErrorKind::NotFound => return Err(Fail::Infra(e.to_string())),
                        _ => {}
                    }
                    env.label("file deleted");
                }
            }
        }
        if c.sweep > 0 {
            // all files of all static routes, over several connections at once
            let mut all: Vec<String> = vec![];
            for e in &m.entries {
                if let Kind::Static { dir, .. } = &e.kind {
                    let d: Vec<String> = dir.split('/').filter(|s| !s.is_empty() && *s != ".").map(|s| s.to_string()).collect();
                    for f in t.keys() {
                        let full: Vec<String> = at_segs.iter().chain(f).cloned().collect();
                        if let Some(rel) = full.strip_prefix(&d[..]) {
                            let segs = instantiate(&e.segs, &["v".to_string()], rel);
                            if segs.iter().all(|s| url_safe(s)) {
                                all.push(format!("/{}", segs.join("/")));
                            }
                        }
                    }
                }
            }
            let n = c.sweep as usize;
            let mut conns = (0..n).map(|_| Conn::open(run.port)).collect::<Result<Vec<_>, _>>()?;
            for (i, p) in all.iter().enumerate() {
                conns[i % n].send(&get_bytes(p))?;
            }
            for (i, p) in all.iter().enumerate() {
                let r = conns[i % n].read()?;
                let want = Self::expect(&m, &at_segs, &t, p);
                judge(&format!("GET {p} (among others)"), &r, &want)?;
                hits += (want.0 == 200 && want.1.map_or(false, |b| !b.is_empty())) as u32;
            }
            env.label("many at once");
        }
        env.nontrivial(hits > 0);
        env.label_if(m.entries.iter().filter(|e| matches!(e.kind, Kind::Static { .. })).count() > 1, "several static routes");
        Ok(())
    }
}

// ================================================================== C20

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C20Case {
    /// "@" stands for the scratch directory
    pub ops: Vec<Op>,
    /// request targets; "@" as a segment is the scratch directory, "@@" its absolute path
    pub targets: Vec<String>,
}
/// Everything on the disk; each file holds a token of its own.
const LAYOUT: [&str; 24] = [
    "secret.txt", "f", "index.html", "pub/f", "pub/index.html", "pub/in/f", "pub/in/deep/f", "pub/secret.txt", "pub2/f", "pub2/secret.txt", "pub.bak/secret.txt", "pubsecret", "public/f", "pub-private/f",
    "a/pub/f", "a/pub/in/f", "a/secret.txt", "a/f", "b/c/pub/f", "b/c/secret.txt", "b/secret.txt", "pub/..f", "in/f", "..f",
];
const SERVED: [&str; 6] = ["pub", "pub/in", "a/pub", "b/c/pub", "pub/in/deep", "a"];
fn token(i: usize) -> String {
    format!("tk{}z{}k", i, (i as u64 + 17).wrapping_mul(0x9E3779B97F4A7C15))
}
fn hostile() -> BoxedStrategy<Vec<String>> {
    let up = prop_oneof![
        8 => Just(".."),
        2 => prop::sample::select(vec!["%2e%2e", "%2E%2e", ".%2e", "%2e.", "..%2f", "..%2F", "%2e%2e%2f", "..\\", "..%5c", "%2e%2e%5c", "..;", "..;/", "..%00", "....", "...", "..%252f", "%252e%252e", "%c0%ae%c0%ae", "..%c0%af", ".../...", "..|", "..?", "..%20", "%20..", "..~", "..#", "\\..\\", "/..", "..//", "./..", "../.", "..%09", "%u002e%u002e", "~", "..:", ":..", "*/..", "..*"]),
    ];
    let detour = prop::sample::select(vec!["in", "deep", "f", "nosuch", ".", "", "x", "pub", "..f", "a", "%2e", ".\\", "@", "index.html", "*", "secret.txt"]);
    let step = prop_oneof![
        6 => up.prop_map(|s| s.to_string()),
        3 => detour.prop_map(|s| s.to_string()),
    ];
    prop_oneof![
        // any walk
        4 => prop::collection::vec(step, 0..8),
        // straight up
        4 => (0usize..7).prop_map(|n| vec!["..".to_string(); n]),
        // down and up again
        3 => (prop::collection::vec(prop::sample::select(vec!["in", "deep", "f", "x", ".", "", "nosuch"]), 0..3), 0usize..6, any::<bool>()).prop_map(|(d, n, alt)| {
            let mut v: Vec<String> = vec![];
            if alt {
                for x in &d {
                    v.push(x.to_string());
                    v.push("..".into());
                }
            } else {
                v.extend(d.iter().map(|s| s.to_string()));
            }
            v.extend(vec!["..".to_string(); n]);
            v
        }),
        // an absolute path
        2 => prop_oneof![Just(vec!["".to_string(), "@@".to_string()]), Just(vec!["@@".to_string()]), Just(vec!["%2f@@".to_string()]), Just(vec!["".to_string(), "".to_string(), "@@".to_string()]), Just(vec!["file:".to_string(), "".to_string(), "@@".to_string()])],
    ]
    .boxed()
}
fn decode_all(s: &str) -> String {
    let mut s = s.to_string();
    for _ in 0..3 {
        let b = s.as_bytes();
        let mut out = vec![];
        let mut i = 0;
        while i < b.len() {
            let h = b.get(i + 1..i + 3).and_then(|h| std::str::from_utf8(h).ok()).and_then(|h| u8::from_str_radix(h, 16).ok());
            match (b[i], h) {
                (b'%', Some(x)) => {
                    out.push(x);
                    i += 3;
                }
                (x, _) => {
                    out.push(x);
                    i += 1;
                }
            }
        }
        s = String::from_utf8_lossy(&out).into_owned();
    }
    s.replace('\\', "/")
}
/// Where a careless server would end up.
fn naive(dir: &[String], tail: &str) -> Option<Vec<String>> {
    let mut v = dir.to_vec();
    for s in tail.split('/') {
        match s {
            "" | "." => {}
            ".." => drop(v.pop()?),
            s => v.push(s.trim_end_matches(|c| c == ';' || c == '\0').to_string()),
        }
    }
    Some(v)
}

pub struct C20;
impl Check for C20 {
    type Case = C20Case;
    fn id(&self) -> &'static str {
        "C20"
    }
    fn rule(&self) -> &'static str {
        "Static routes (own path, virtual paths with parameters, mounted, nested, several) on directories of a fixed tree of 24 files, each holding a token of its own, in and outside the served directories; GETs of generated hostile paths (parent segments plain, escaped, doubly escaped, with backslashes and other decorations, detours through existing and missing names, absolute paths, empty segments, parameters filled with dot segments, absolute-form targets). No answer may contain the token of a file outside the directories whose static routes match the path, nor of /etc/passwd. Non-trivial: resolved by a careless server, the path names an existing file outside the served directory."
    }
    fn cases(&self) -> (u64, u64) {
        (20_000, 300_000)
    }
    fn strategy(&self, _t: bool) -> BoxedStrategy<C20Case> {
        let vseg = || (prop::bool::weighted(0.25), any::<u8>());
        let reg = (
            0usize..SERVED.len(),
            prop::option::weighted(0.8, prop::collection::vec(vseg(), 0..3)),
            0u8..9,
            prop::option::weighted(0.4, (prop::collection::vec(vseg(), 1..3), any::<bool>())),
            prop::bool::weighted(0.2),
        );
        let form = || prop_oneof![8 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8), 1 => Just(3u8)];
        let target = (any::<Index>(), prop::collection::vec(prop::sample::select(vec!["v", "..", ".", "%2e%2e", "x", "@", "..%2f.."]), 1..3), hostile(), 0usize..LAYOUT.len() + 3, form());
        (prop::collection::vec(reg, 1..4), prop::collection::vec(target, 1..12))
            .prop_map(|(regs, targets)| {
                let mut ops = vec![];
                for (i, (d, vpath, sp, mount, twice)) in regs.iter().enumerate() {
                    let mut segs = vec!["@".to_string()];
                    segs.extend(SERVED[*d].split('/').map(|s| s.to_string()));
                    let st = Op::Static {
                        vpath: vpath.as_ref().map(|v| format!("/{}", vsegs(v).join("/"))),
                        dir: spell(&segs, if vpath.is_none() && *sp == 4 { 0 } else { *sp }),
                        id: i as u32,
                    };
                    match mount {
                        Some((v, scope)) => {
                            let p = vsegs(v).join("/");
                            let one = Op::Mount { path: if *scope { p.clone() } else { format!("/{p}") }, ops: vec![st], scope: *scope };
                            ops.push(if *twice { Op::Mount { path: "/o".into(), ops: vec![Op::Mount { path: format!("/{p}"), ops: if let Op::Mount { ops, .. } = &one { ops.clone() } else { vec![] }, scope: false }], scope: false } } else { one });
                        }
                        None => ops.push(st),
                    }
                }
                let (ops, m) = accept(&ops);
                let pats: Vec<Vec<String>> = m.routes().map(|e| e.segs.clone()).collect();
                let targets = targets
                    .into_iter()
                    .filter_map(|(i, vals, walk, goal, form)| {
                        if pats.is_empty() {
                            return None;
                        }
                        let vals: Vec<String> = vals.into_iter().map(|s| s.to_string()).collect();
                        let pat = i.get(&pats);
                        let head = instantiate(&pat[..pat.len() - 1], &vals, &[]);
                        let mut segs = head;
                        segs.extend(walk);
                        if goal < LAYOUT.len() {
                            segs.push(LAYOUT[goal].to_string());
                        } else {
                            segs.push(["etc/passwd", "", "@/secret.txt"][goal - LAYOUT.len()].to_string());
                        }
                        let p = format!("/{}", segs.join("/"));
                        Some(match form {
                            0 => p,
                            1 => format!("http://t{p}"),
                            2 => format!("{p}?/../secret.txt"),
                            _ => p.replace('/', "%2f").replacen("%2f", "/", 2),
                        })
                    })
                    .collect();
                C20Case { ops, targets }
            })
            .boxed()
    }
    fn run(&self, env: &mut Env, c: &C20Case) -> Res {
        let at = env.fresh_dir();
        for (i, f) in LAYOUT.iter().enumerate() {
            let p = format!("{at}/{f}");
            let (d, _) = p.rsplit_once('/').unwrap();
            io(std::fs::create_dir_all(d))?;
            io(std::fs::write(&p, format!("begin {} end", token(i))))?;
        }
        let cwd = io(std::env::current_dir())?;
        let abs = format!("{}/{at}", cwd.display());
        let abs = abs.trim_start_matches('/').to_string();
        let (ops, m) = accept(&with_dir(&c.ops, &at));
        let mut app: App = App::new();
        let parts = Plain { rec: Arc::new(Rec::default()), names: Arc::new(vec![]) };
        for o in &ops {
            apply(&mut app, o, &parts);
        }
        let run = env.srv.start(app)?;
        let targets: Vec<String> = c
            .targets
            .iter()
            .map(|t| {
                let t = t.replace("@@", &abs);
                let t: Vec<&str> = t.split('/').map(|s| if s == "@" { at.as_str() } else { s }).collect();
                t.join("/").bytes().filter(|b| b.is_ascii_graphic()).map(|b| b as char).collect()
            })
            .collect();
        let resps = roundtrips(run.port, &targets.iter().map(|t| get_bytes(t)).collect::<Vec<_>>())?;
        for (t, r) in targets.iter().zip(resps) {
            let path = t.strip_prefix("http://t").unwrap_or(t);
            let path = path.split(['?', '#']).next().unwrap_or("");
            let req: Vec<&str> = path.split('/').filter(|s| !s.is_empty()).collect();
            // directories of the static routes that match the path
            let mut dirs: Vec<Vec<String>> = vec![];
            for e in &m.entries {
                if let Kind::Static { dir, .. } = &e.kind {
                    if let Some((_, tail)) = pattern_match(&e.segs, &req) {
                        let d: Vec<String> = dir.split('/').filter(|s| !s.is_empty() && *s != ".").map(|s| s.to_string()).collect();
                        // a careless server
                        for tail in [tail.join("/"), decode_all(&tail.join("/")), path.to_string(), decode_all(path)] {
                            let lands = |v: Option<Vec<String>>| v.map_or(false, |v| !v.starts_with(&d) && LAYOUT.iter().any(|f| v.join("/") == format!("{at}/{f}")));
                            let abs_hit = LAYOUT.iter().any(|f| tail.trim_start_matches('/') == format!("{abs}/{f}"));
                            if lands(naive(&d, &tail)) || abs_hit {
                                env.nontrivial(true);
                                env.label("would leave the directory");
                                break;
                            }
                        }
                        dirs.push(d);
                    }
                }
            }
            let text = match r {
                Ok(r) => format!("{:?} {}", r.headers, r.text()),
                Err(NetErr::Closed(b)) => String::from_utf8_lossy(&b).into_owned(),
                Err(e) => return Err(e.into()),
            };
            ensure!(!text.contains("root:x:") && !text.contains("root:*:"), "GET {t} answers with /etc/passwd");
            for (i, f) in LAYOUT.iter().enumerate() {
                if text.contains(&token(i)) {
                    let full = format!("{at}/{f}");
                    let inside = dirs.iter().any(|d| full.starts_with(&format!("{}/", d.join("/"))));
                    ensure!(inside, "GET {t} answers with the file {full}, outside of the served {:?}", dirs.iter().map(|d| d.join("/")).collect::<Vec<_>>());
                    env.label("inside file served");
                }
            }
        }
        Ok(())
    }
}
