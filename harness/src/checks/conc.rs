//! C17, C18: what requests share and what they do not.
use crate::core::*;
use crate::ensure;
use crate::server::*;
use crate::spec::{rid, Ev, Rec};
use async_trait::async_trait;
use obsidian::context::Context;
use obsidian::middleware::Middleware;
use obsidian::router::{Responder, Response, Router};
use obsidian::{App, ContextResult, EndpointExecutor, ObsidianError, StatusCode};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::time::{Duration, Instant};
use std::sync::{Arc, Mutex};
use tokio::sync::Semaphore;

// ================================================================== C17

/// A value of some type made from, and showing, a number.
trait Dat: Send + Sync + 'static {
    fn mk(k: u32) -> Self;
    /// the number back; None if the value is not one that mk makes
    fn key(&self) -> Option<u32>;
}
#[derive(Clone, PartialEq, Debug)]
struct St {
    n: u32,
    s: String,
    v: Vec<u8>,
    m: BTreeMap<u32, Option<String>>,
}
impl Dat for St {
    fn mk(n: u32) -> St {
        St { n, s: format!("state {n}"), v: vec![n as u8; (n % 50) as usize], m: (0..n % 4).map(|i| (i, (i % 2 == 0).then(|| n.to_string()))).collect() }
    }
    fn key(&self) -> Option<u32> {
        (St::mk(self.n) == *self).then_some(self.n)
    }
}
impl Dat for u32 {
    fn mk(k: u32) -> u32 {
        k
    }
    fn key(&self) -> Option<u32> {
        Some(*self)
    }
}
impl Dat for i32 {
    fn mk(k: u32) -> i32 {
        -((k >> 1) as i32)
    }
    fn key(&self) -> Option<u32> {
        Some(((-*self) as u32) << 1)
    }
}
impl Dat for String {
    fn mk(k: u32) -> String {
        format!("text {k}")
    }
    fn key(&self) -> Option<u32> {
        self.strip_prefix("text ")?.parse().ok()
    }
}
impl Dat for Vec<u8> {
    fn mk(k: u32) -> Vec<u8> {
        k.to_le_bytes().to_vec()
    }
    fn key(&self) -> Option<u32> {
        Some(u32::from_le_bytes(self[..].try_into().ok()?))
    }
}
struct D1(u32);
struct D2(u32);
impl Dat for D1 {
    fn mk(k: u32) -> D1 {
        D1(k)
    }
    fn key(&self) -> Option<u32> {
        Some(self.0)
    }
}
impl Dat for D2 {
    fn mk(k: u32) -> D2 {
        D2(k)
    }
    fn key(&self) -> Option<u32> {
        Some(self.0)
    }
}
impl Dat for () {
    fn mk(_: u32) {}
    fn key(&self) -> Option<u32> {
        Some(0)
    }
}
impl Dat for Option<u32> {
    fn mk(k: u32) -> Option<u32> {
        (k != 0).then_some(k)
    }
    fn key(&self) -> Option<u32> {
        Some(self.unwrap_or(0))
    }
}
impl Dat for Arc<Mutex<u32>> {
    fn mk(k: u32) -> Self {
        Arc::new(Mutex::new(k))
    }
    fn key(&self) -> Option<u32> {
        Some(*self.lock().unwrap())
    }
}
impl Dat for Box<[u64; 40]> {
    fn mk(k: u32) -> Self {
        Box::new([k as u64; 40])
    }
    fn key(&self) -> Option<u32> {
        self.iter().all(|x| *x == self[0]).then_some(self[0] as u32)
    }
}
impl Dat for &'static str {
    fn mk(k: u32) -> Self {
        super::answers::leak(&format!("static {}", k % 1000))
    }
    fn key(&self) -> Option<u32> {
        self.strip_prefix("static ")?.parse().ok()
    }
}

struct Type {
    name: &'static str,
    norm: fn(u32) -> u32,
    add: fn(&mut Context, u32),
    insert: fn(&mut Context, u32),
    show: fn(&Context) -> Option<Option<u32>>,
    show_mut: fn(&mut Context) -> Option<Option<u32>>,
    change: fn(&mut Context, u32),
    remove: fn(&mut Context),
}
fn ty<T: Dat>(name: &'static str) -> Type {
    Type {
        name,
        norm: |k| T::mk(k).key().unwrap(),
        add: |c, k| c.add(T::mk(k)),
        insert: |c, k| drop(c.extensions_mut().insert(T::mk(k))),
        show: |c| c.get::<T>().map(|x| x.key()),
        show_mut: |c| c.get_mut::<T>().map(|x| x.key()),
        change: |c, k| {
            if let Some(x) = c.get_mut::<T>() {
                *x = T::mk(x.key().unwrap_or(0).wrapping_mul(3).wrapping_add(k));
            }
        },
        remove: |c| drop(c.extensions_mut().remove::<T>()),
    }
}
const TYPES: usize = 12;
/// the first four can be the app state
fn types() -> &'static [Type; TYPES] {
    static T: std::sync::OnceLock<[Type; TYPES]> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        [
            ty::<St>("St"),
            ty::<u32>("u32"),
            ty::<String>("String"),
            ty::<Arc<Mutex<u32>>>("Arc"),
            ty::<i32>("i32"),
            ty::<Vec<u8>>("Vec<u8>"),
            ty::<D1>("D1"),
            ty::<D2>("D2"),
            ty::<()>("()"),
            ty::<Option<u32>>("Option<u32>"),
            ty::<Box<[u64; 40]>>("Box"),
            ty::<&'static str>("&str"),
        ]
    })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Act {
    Add(u8, u32),
    Insert(u8, u32),
    Change(u8, u32),
    Remove(u8),
    GetMut(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Req17 {
    pub conn: u8,
    /// which of ROUTES
    pub route: u8,
    /// what happens at each point a request passes; the handler's is the one in the middle
    pub points: Vec<Vec<Act>>,
    /// how the handler answers
    pub answer: u8,
    /// read everything due on this connection before going on
    pub wait: bool,
    /// what else the request has: query, headers, body
    #[serde(default)]
    pub query: Option<String>,
    #[serde(default)]
    pub salt: u64,
    #[serde(default)]
    pub body: Option<u16>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C17Case {
    pub state_ty: u8,
    /// values set, one after the other; before (false) or after (true) the routes
    pub states: Vec<(u32, bool)>,
    pub default_app: bool,
    pub mt: bool,
    pub reqs: Vec<Req17>,
    /// middlewares not registered (bit per middleware)
    #[serde(default)]
    pub without: u8,
}
impl C17Case {
    /// the middlewares a route passes
    fn mws(&self, route: usize) -> Vec<usize> {
        (0..ROUTES[route].2).filter(|k| self.without >> k & 1 == 0).collect()
    }
}
/// middlewares around the handler
const ROUTES: [(&str, &str, usize); 7] = [("GET", "/a", 1), ("POST", "/p/x1", 1), ("GET", "/m/b", 2), ("GET", "/w/u/v", 1), ("DELETE", "/m/n/c", 3), ("GET", "/s/f", 1), ("GET", "/m/s/f", 2)];
fn is_static(route: usize) -> bool {
    route >= 5
}

struct Shared17 {
    reqs: Vec<Req17>,
    rec: Rec,
}
impl Shared17 {
    fn act(&self, ctx: &mut Context, point: usize) {
        let r = rid(ctx);
        let t = types();
        let Some(q) = self.reqs.get(r as usize) else { return };
        self.rec.push(r, Ev::Enter(point as u32));
        let snap = |ctx: &Context| t.iter().map(|t| (t.show)(ctx)).collect::<Vec<_>>();
        self.rec.push(r, Ev::Note(format!("{:?}", snap(ctx))));
        for a in q.points.get(point).into_iter().flatten() {
            match a {
                Act::Add(i, k) => (t[*i as usize % TYPES].add)(ctx, *k),
                Act::Insert(i, k) => (t[*i as usize % TYPES].insert)(ctx, *k),
                Act::Change(i, k) => (t[*i as usize % TYPES].change)(ctx, *k),
                Act::Remove(i) => (t[*i as usize % TYPES].remove)(ctx),
                Act::GetMut(i) => {
                    let v = (t[*i as usize % TYPES].show_mut)(ctx);
                    self.rec.push(r, Ev::Note(format!("{v:?}")));
                }
            }
        }
        self.rec.push(r, Ev::Note(format!("{:?}", snap(ctx))));
    }
}
struct Mw17(usize, Arc<Shared17>);
#[async_trait]
impl Middleware for Mw17 {
    async fn handle<'a>(&'a self, mut ctx: Context, ex: EndpointExecutor<'a>) -> ContextResult {
        self.1.act(&mut ctx, self.0);
        let mut ctx = ex.next(ctx).await?;
        self.1.act(&mut ctx, 6 - self.0);
        Ok(ctx)
    }
}
/// what the model expects to be recorded
fn expected17(c: &C17Case, q: &Req17) -> Vec<Ev> {
    let t = types();
    let mut data: Vec<Option<u32>> = vec![None; TYPES];
    // "later" settings are after "earlier" ones
    let last = c.states.iter().filter(|s| s.1).last().or(c.states.iter().filter(|s| !s.1).last());
    if let Some((k, _)) = last {
        let i = c.state_ty as usize % 4;
        data[i] = Some((t[i].norm)(*k));
    }
    let mut out = vec![];
    let mws = c.mws(q.route as usize % ROUTES.len());
    let mut pts: Vec<usize> = mws.clone();
    let is_static = is_static(q.route as usize % ROUTES.len());
    if !is_static {
        pts.push(3);
    }
    // an error is passed on
    if is_static || q.answer % 7 < 5 {
        pts.extend(mws.iter().rev().map(|p| 6 - p));
    }
    let wrap = |d: &[Option<u32>]| Ev::Note(format!("{:?}", d.iter().map(|x| x.map(Some)).collect::<Vec<_>>()));
    for p in pts {
        out.push(Ev::Enter(p as u32));
        out.push(wrap(&data));
        for a in q.points.get(p).into_iter().flatten() {
            match a {
                Act::Add(i, k) | Act::Insert(i, k) => {
                    let i = *i as usize % TYPES;
                    data[i] = Some((t[i].norm)(*k));
                }
                Act::Change(i, k) => {
                    let i = *i as usize % TYPES;
                    data[i] = data[i].map(|x| (t[i].norm)(x.wrapping_mul(3).wrapping_add(*k)));
                }
                Act::Remove(i) => data[*i as usize % TYPES] = None,
                Act::GetMut(i) => out.push(Ev::Note(format!("{:?}", data[*i as usize % TYPES].map(Some)))),
            }
        }
        out.push(wrap(&data));
    }
    out
}
/// Arc state: all requests see the same value, which is right for such a type, so it is only
/// replaced, never changed in place (Change stores a new Arc).
fn app17<T: Dat + Clone>(c: &C17Case, sh: &Arc<Shared17>, dir: &str) -> App<T> {
    let mut app: App<T> = if c.default_app { App::default() } else { App::new() };
    for (k, later) in &c.states {
        if !later {
            app.set_app_state(T::mk(*k));
        }
    }
    let h = |sh: &Arc<Shared17>| {
        let sh = sh.clone();
        move |mut ctx: Context| {
            let sh = sh.clone();
            async move {
                // an unread body may cost the connection
                let _ = hyper::body::to_bytes(ctx.take_body()).await;
                sh.act(&mut ctx, 3);
                let a = sh.reqs.get(rid(&ctx) as usize).map_or(0, |q| q.answer);
                match a % 7 {
                    5 => Err(ObsidianError::GeneralError("failed".into())),
                    6 => Err(ctx.param::<u8>("nope").unwrap_err()),
                    0 => ctx.build("x").ok(),
                    1 => ctx.build_json(vec![1, 2]).ok(),
                    2 => ctx.build((StatusCode::CREATED, "y")).with_header_str("x-a", "1").ok(),
                    3 => ctx.build_file("nosuchfile").await.ok(),
                    _ => Ok(ctx),
                }
            }
        }
    };
    let with = |k: usize| c.without >> k & 1 == 0;
    if with(0) {
        app.use_service(Mw17(0, sh.clone()));
    }
    app.get("/a", h(sh));
    app.post("/p/:x", h(sh));
    app.get("/w/*", h(sh));
    app.use_static_to("/s", dir);
    let mut inner = Router::new();
    if with(2) {
        inner.use_service(Mw17(2, sh.clone()));
    }
    inner.delete("/c", h(sh));
    let mut sub = Router::new();
    if with(1) {
        sub.use_service(Mw17(1, sh.clone()));
    }
    sub.get("/b", h(sh));
    sub.use_router("/n", inner);
    sub.use_static_to("/s", dir);
    app.use_router("/m", sub);
    for (k, later) in &c.states {
        if *later {
            app.set_app_state(T::mk(*k));
        }
    }
    app
}

pub struct C17;
impl Check for C17 {
    type Case = C17Case;
    fn id(&self) -> &'static str {
        "C17"
    }
    fn rule(&self) -> &'static str {
        "Apps with a state of one of four types set 0-3 times; 1-12 (now and then up to 150) requests over up to three connections (pipelined or awaited, with queries, further headers and bodies, with or without each of the middlewares), each storing, replacing, changing, removing and reading data of twelve types (including the state's) in up to three middlewares before and after and in the handler; a snapshot of all types at every point must equal a per-request map that starts with the last state. Non-trivial: at least two requests, of which one stores or changes something."
    }
    fn cases(&self) -> (u64, u64) {
        (80_000, 2_000_000)
    }
    fn strategy(&self, _t: bool) -> BoxedStrategy<C17Case> {
        let ti = || prop_oneof![3 => 0u8..4, 2 => 0u8..TYPES as u8];
        let act = move || {
            prop_oneof![
                4 => (ti(), 0u32..1000).prop_map(|(i, k)| Act::Add(i, k)),
                1 => (ti(), 0u32..1000).prop_map(|(i, k)| Act::Insert(i, k)),
                3 => (ti(), 0u32..1000).prop_map(|(i, k)| Act::Change(i, k)),
                1 => ti().prop_map(Act::Remove),
                2 => ti().prop_map(Act::GetMut),
            ]
        };
        let req = (0u8..3, 0u8..ROUTES.len() as u8, prop::collection::vec(prop::collection::vec(act(), 0..4), 7), prop_oneof![6 => 0u8..5, 1 => 5u8..7], any::<bool>(), prop::option::weighted(0.3, "[a-z0-9=&+%]{0,12}"), any::<u64>(), prop::option::weighted(0.3, prop_oneof![4 => 0u16..200, 1 => any::<u16>()]))
            .prop_map(|(conn, route, points, answer, wait, query, salt, body)| Req17 { conn, route, points, answer, wait, query, salt, body });
        let without = prop_oneof![3 => Just(0u8), 1 => Just(7u8), 1 => 0u8..8];
        (0u8..4, prop::collection::vec((0u32..1000, any::<bool>()), 0..4), prop::bool::weighted(0.2), any::<bool>(), prop_oneof![60 => prop::collection::vec(req.clone(), 1..12), 1 => prop::collection::vec(req, 12..150)], without)
            .prop_map(|(state_ty, states, default_app, mt, reqs, without)| C17Case { state_ty, states, default_app, mt, reqs, without })
            .boxed()
    }
    fn run(&self, env: &mut Env, c: &C17Case) -> Res {
        let sh = Arc::new(Shared17 { reqs: c.reqs.clone(), rec: Rec::default() });
        let dir = env.fresh_dir();
        std::fs::write(format!("{dir}/f"), b"content").map_err(|e| Fail::Infra(e.to_string()))?;
        env.nontrivial(c.reqs.len() > 1 && c.reqs.iter().any(|q| q.points.iter().flatten().any(|a| !matches!(a, Act::GetMut(_)))));
        env.label(format!("state {}", if c.states.is_empty() { "none" } else { types()[c.state_ty as usize % 4].name }));
        env.label_if(c.states.len() > 1, "state set again");
        let srv = if c.mt { env.mt() } else { &mut env.srv };
        let run = match c.state_ty % 4 {
            0 => srv.start(app17::<St>(c, &sh, &dir))?,
            1 => srv.start(app17::<u32>(c, &sh, &dir))?,
            2 => srv.start(app17::<String>(c, &sh, &dir))?,
            _ => srv.start(app17::<Arc<Mutex<u32>>>(c, &sh, &dir))?,
        };
        let mut conns: Vec<Option<(Conn, Vec<usize>)>> = (0..3).map(|_| None).collect();
        let read = |conn: &mut Conn, due: &mut Vec<usize>| -> Res {
            for i in due.drain(..) {
                let q = &c.reqs[i];
                let r = conn.read()?;
                let st = is_static(q.route as usize % ROUTES.len());
                let want = if st { 200 } else { [200, 200, 201, 404, 200, 500, 500][q.answer as usize % 7] };
                ensure!(r.status == want, "request {i} answered {}", r.brief());
            }
            Ok(())
        };
        for (i, q) in c.reqs.iter().enumerate() {
            let slot = &mut conns[q.conn as usize % 3];
            if slot.is_none() {
                *slot = Some((Conn::open(run.port)?, vec![]));
            }
            let (conn, due) = slot.as_mut().unwrap();
            let (m, path, _) = ROUTES[q.route as usize % ROUTES.len()];
            let path = match &q.query {
                Some(t) => format!("{path}?{t}"),
                None => path.to_string(),
            };
            let has_body = q.body.filter(|_| !is_static(q.route as usize % ROUTES.len()));
            let body = vec![b'x'; has_body.unwrap_or(0) as usize];
            let framing = match has_body {
                None => Framing::None,
                Some(n) if n % 2 == 0 => Framing::Length,
                Some(n) => Framing::Chunked(vec![n as usize / 3 + 1]),
            };
            let b = noisy_salted(q.salt, m, &path, &[("host".into(), "t".into()), ("x-rid".into(), i.to_string())], &body, &framing);
            conn.send(&b)?;
            due.push(i);
            if q.wait {
                read(conn, due)?;
            }
        }
        for s in conns.iter_mut().flatten() {
            read(&mut s.0, &mut s.1)?;
        }
        let got = sh.rec.by_rid(c.reqs.len());
        for (i, q) in c.reqs.iter().enumerate() {
            let want = expected17(c, q);
            if got[i] != want {
                let k = got[i].iter().zip(&want).take_while(|(a, b)| a == b).count();
                let names: Vec<_> = types().iter().map(|t| t.name).collect();
                return violated(format!(
                    "request {i} ({:?}), record {k} of its points: saw {:?}, expected {:?} (types {names:?})",
                    ROUTES[q.route as usize % ROUTES.len()],
                    got[i].get(k),
                    want.get(k)
                ));
            }
        }
        Ok(())
    }
}

// ================================================================== C18

/// Where a request can be held up.
const GATES: usize = 4; // outer middleware before, handler before body, handler after body, inner/outer middleware after
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Ends {
    Normal,
    /// the handler fails
    Fail,
    /// the outer middleware fails before passing on
    FailMw,
    /// no such route
    Missing,
    PanicHandler,
    PanicMw,
    PanicMwAfter,
    PanicParam,
    PanicQuery,
    PanicResponder,
    /// not HTTP
    Garbage,
}
impl Ends {
    fn kills(self) -> bool {
        !matches!(self, Ends::Normal | Ends::Fail | Ends::FailMw | Ends::Missing)
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Rq {
    pub route: u8,
    pub a: String,
    pub b: String,
    pub q: Option<String>,
    pub ends: Ends,
    /// gates this request waits at
    pub gates: u8,
    /// None: no body; sizes of chunks, empty: content-length
    pub body: Option<(u32, Vec<usize>)>,
    pub answer_len: u32,
    /// the bytes sent at once, cycled
    pub cut: Vec<usize>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C18Case {
    pub mt: bool,
    pub conns: Vec<Vec<Rq>>,
    /// connections the client may reset at some point
    pub aborts: u8,
    pub steps: Vec<u16>,
    /// requests each of four clients sends as fast as it can, afterwards
    #[serde(default)]
    pub burst: u16,
    /// so many further connections with a request each, all held up in the handler at one time
    #[serde(default)]
    pub crowd: u16,
    /// so many requests in a row that panic or are broken off
    #[serde(default)]
    pub storm: u16,
    /// how long everything held up is kept waiting, in ms
    #[serde(default)]
    pub wait: u16,
    /// so many requests at one time over one HTTP/2 connection
    pub mux: u8,
}
/// 0..=4: held up in the handler with the others; 5: and then panics; 6: given up by the client;
/// 7: held up by nothing
const MUX: u32 = 800_000;
fn mux_kind(r: u32) -> Option<u32> {
    (MUX..MUX + 256).contains(&r).then(|| (r - MUX) % 8)
}
const CROWD: u32 = 500_000;
const STORM: u32 = 700_000;

fn pattern(seed: u32, n: usize) -> Vec<u8> {
    let mut x = seed.wrapping_mul(2654435761).wrapping_add(12345);
    (0..n)
        .map(|_| {
            x = x.wrapping_mul(1664525).wrapping_add(1013904223);
            b'a' + ((x >> 24) % 26) as u8
        })
        .collect()
}
fn fnv(b: &[u8]) -> u64 {
    b.iter().fold(0xcbf29ce484222325, |h, x| (h ^ *x as u64).wrapping_mul(0x100000001b3))
}

struct Shared18 {
    /// by rid
    reqs: Vec<Rq>,
    gates: Vec<Vec<Semaphore>>,
    rec: Rec,
    /// where the crowd waits, in the handler
    crowd: Semaphore,
    crowding: std::sync::atomic::AtomicU32,
}
impl Shared18 {
    async fn gate(&self, r: usize, g: usize) {
        if g == 1 && ((CROWD..CROWD + 10_000).contains(&(r as u32)) || mux_kind(r as u32).is_some_and(|k| k < 7)) {
            self.crowding.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
            drop(self.crowd.acquire().await.unwrap());
        }
        if g == 2 && (STORM..STORM + 10_000).contains(&(r as u32)) && r % 3 == 1 {
            // never gets to its end
            std::future::pending::<()>().await;
        }
        if let Some(q) = self.reqs.get(r) {
            if q.gates & (1 << g) != 0 {
                self.gates[r][g].acquire().await.unwrap().forget();
            }
        }
    }
    fn ends(&self, r: usize) -> Ends {
        match self.reqs.get(r) {
            Some(q) => q.ends,
            None if mux_kind(r as u32) == Some(5) => Ends::PanicHandler,
            None if (STORM..STORM + 10_000).contains(&(r as u32)) && r % 3 == 0 => [Ends::PanicHandler, Ends::PanicMw, Ends::PanicResponder, Ends::PanicMwAfter][r / 3 % 4],
            None => Ends::Normal,
        }
    }
}
#[derive(Clone)]
struct Count {
    n: u64,
    tag: String,
}
struct Mine(u32);
struct Trace(Vec<&'static str>);
struct Outer18(Arc<Shared18>);
#[async_trait]
impl Middleware for Outer18 {
    async fn handle<'a>(&'a self, mut ctx: Context, ex: EndpointExecutor<'a>) -> ContextResult {
        let r = rid(&ctx);
        self.0.rec.push(r, Ev::Enter(0));
        if let Some(s) = ctx.get_mut::<Count>() {
            s.n += 1000 + r as u64;
            s.tag.push_str(&format!("+{r}"));
        }
        ctx.add(Mine(r));
        ctx.add(Trace(vec!["outer"]));
        self.0.gate(r as usize, 0).await;
        match self.0.ends(r as usize) {
            Ends::FailMw => return Err(ObsidianError::GeneralError(format!("refused {r}"))),
            Ends::PanicMw => panic!("generated panic in a middleware"),
            _ => {}
        }
        let res = ex.next(ctx).await;
        self.0.gate(r as usize, 3).await;
        if self.0.ends(r as usize) == Ends::PanicMwAfter {
            panic!("generated panic in a middleware, after");
        }
        self.0.rec.push(r, Ev::Exit(0));
        res
    }
}
struct Inner18(Arc<Shared18>);
#[async_trait]
impl Middleware for Inner18 {
    async fn handle<'a>(&'a self, mut ctx: Context, ex: EndpointExecutor<'a>) -> ContextResult {
        let r = rid(&ctx);
        self.0.rec.push(r, Ev::Enter(1));
        if let Some(t) = ctx.get_mut::<Trace>() {
            t.0.push("inner");
        }
        let res = ex.next(ctx).await;
        self.0.rec.push(r, Ev::Exit(1));
        res
    }
}
struct PanicStr;
impl std::str::FromStr for PanicStr {
    type Err = ();
    fn from_str(_: &str) -> Result<Self, ()> {
        panic!("generated panic in FromStr")
    }
}
#[derive(serde::Deserialize)]
struct PanicDe {
    #[allow(dead_code)]
    #[serde(deserialize_with = "panic_de")]
    k: u8,
}
fn panic_de<'de, D: serde::Deserializer<'de>>(_: D) -> Result<u8, D::Error> {
    panic!("generated panic in Deserialize")
}
struct PanicResp;
impl Responder for PanicResp {
    fn respond_to(self) -> Response {
        panic!("generated panic in a responder")
    }
}
#[derive(serde::Deserialize)]
struct Q18 {
    k: Option<String>,
}
const NAMES: [&str; 3] = ["a", "b", "*"];

fn text18(r: u32, route: u32, ps: &[Option<String>], q: Option<&str>, st: Option<(u64, &str)>, mine: Option<u32>, trace: &[&str], body: &[u8], pad: usize) -> Vec<u8> {
    let mut v = format!("{r}|{route}|{ps:?}|{q:?}|{st:?}|{mine:?}|{trace:?}|{}:{:x}|", body.len(), fnv(body)).into_bytes();
    v.extend(pattern(r + 7, pad));
    v
}
async fn handler18(sh: Arc<Shared18>, route: u32, mut ctx: Context) -> ContextResult {
    let r = rid(&ctx);
    sh.rec.push(r, Ev::Handler(route, vec![]));
    sh.gate(r as usize, 1).await;
    match sh.ends(r as usize) {
        Ends::PanicHandler => panic!("generated panic in a handler"),
        Ends::PanicParam => {
            let _ = ctx.param::<PanicStr>("a");
            let _ = ctx.param::<PanicStr>("*");
        }
        Ends::PanicQuery => drop(ctx.query_params::<PanicDe>()),
        Ends::PanicResponder => return ctx.build(PanicResp).ok(),
        _ => {}
    }
    let body = match hyper::body::to_bytes(ctx.take_body()).await {
        Ok(b) => b.to_vec(),
        Err(e) => return Err(ObsidianError::GeneralError(format!("body: {e}"))),
    };
    sh.gate(r as usize, 2).await;
    if sh.ends(r as usize) == Ends::Fail {
        return Err(ObsidianError::GeneralError(format!("failed {r}")));
    }
    let ps: Vec<Option<String>> = NAMES.iter().map(|n| ctx.param(n).ok()).collect();
    let q = ctx.query_params::<Q18>().ok().and_then(|q| q.k);
    let trace = ctx.get::<Trace>().map_or(vec![], |t| t.0.clone());
    let st = ctx.get::<Count>().map(|s| (s.n, s.tag.as_str()));
    let pad = sh.reqs.get(r as usize).map_or(0, |q| q.answer_len as usize);
    let out = text18(r, route, &ps, q.as_deref(), st, ctx.get::<Mine>().map(|m| m.0), &trace, &body, pad);
    ctx.build(String::from_utf8(out).unwrap()).ok()
}
/// method, pattern, a path for it, values of NAMES, through the inner middleware
fn route18(k: u8, a: &str, b: &str) -> (&'static str, String, Vec<Option<String>>, bool) {
    let s = |x: &str| Some(x.to_string());
    match k % 12 {
        7 => ("POST", "/m".into(), vec![None, None, None], true),
        8 => ("GET", format!("/e/{a}"), vec![s(a), None, None], false),
        9 => ("GET", format!("/g/{a}/{b}"), vec![s(a), None, s(b)], false),
        10 => ("DELETE", format!("/e/{a}"), vec![s(a), None, None], false),
        11 => ("GET", format!("/m/q/{a}"), vec![s(a), None, None], true),
        0 => ("POST", format!("/e/{a}"), vec![s(a), None, None], false),
        1 => ("POST", format!("/e/{a}/x/{b}"), vec![s(a), s(b), None], false),
        2 => ("PUT", format!("/w/{a}/{b}"), vec![None, None, s(&format!("{a}/{b}"))], false),
        3 => ("POST", "/w/fixed".into(), vec![None, None, None], false),
        4 => ("POST", format!("/m/q/{a}"), vec![s(a), None, None], true),
        5 => ("POST", format!("/m/q/{a}/{b}/z"), vec![s(a), None, s(&format!("{b}/z"))], true),
        _ => ("PATCH", format!("/e/{a}"), vec![s(a), None, None], false),
    }
}
fn app18(sh: &Arc<Shared18>) -> App<Count> {
    let mut app: App<Count> = App::new();
    app.set_app_state(Count { n: 5, tag: "s".into() });
    app.use_service(Outer18(sh.clone()));
    let h = |k: u32| {
        let sh = sh.clone();
        move |ctx: Context| handler18(sh.clone(), k, ctx)
    };
    app.post("/e/:a", h(0));
    app.post("/e/:a/x/:b", h(1));
    app.put("/w/*", h(2));
    app.post("/w/fixed", h(3));
    app.patch("/e/:a", h(6));
    app.get("/e/:a", h(8));
    app.get("/g/:a/*", h(9));
    app.delete("/e/:a", h(10));
    let mut sub = Router::new();
    sub.use_service(Inner18(sh.clone()));
    sub.post("/q/:a", h(4));
    sub.get("/q/:a", h(11));
    sub.post("/q/:a/*", h(5));
    sub.post("/", h(7));
    app.use_router("/m", sub);
    app.get("/control", |ctx: Context| async move { ctx.build("fine").ok() });
    app
}
fn bytes18(r: u32, q: &Rq) -> Vec<u8> {
    if q.ends == Ends::Garbage {
        return match q.answer_len % 4 {
            0 => b"\x00\x01garbage\r\n\r\n".to_vec(),
            1 => b"GET / HTTP/7.7\r\n\r\n".to_vec(),
            2 => b"POST /e/x HTTP/1.1\r\ncontent-length: -5\r\n\r\n".to_vec(),
            _ => b"POST /e/x HTTP/1.1\r\ntransfer-encoding: chunked\r\n\r\nzz\r\n".to_vec(),
        };
    }
    let (m, mut target, _, _) = route18(q.route, &q.a, &q.b);
    if q.ends == Ends::Missing {
        target = format!("/missing/{}", q.a);
    }
    if let Some(k) = &q.q {
        target.push_str(&format!("?k={k}"));
    }
    let (body, framing) = match &q.body {
        // an answer given without reading a large body would close the connection
        _ if matches!(q.ends, Ends::Missing | Ends::FailMw) => (vec![], Framing::None),
        None => (vec![], Framing::None),
        Some((n, ch)) => (pattern(r, *n as usize), if ch.is_empty() { Framing::Length } else { Framing::Chunked(ch.clone()) }),
    };
    noisy_bytes(m, &target, &[("host".into(), "t".into()), ("x-rid".into(), r.to_string())], &body, &framing)
}
/// what the request would be answered alone
fn alone(r: u32, q: &Rq) -> (u16, Vec<u8>) {
    match q.ends {
        Ends::Missing => (404, b"404 Not Found".to_vec()),
        Ends::Fail => (500, ObsidianError::GeneralError(format!("failed {r}")).to_string().into_bytes()),
        Ends::FailMw => (500, ObsidianError::GeneralError(format!("refused {r}")).to_string().into_bytes()),
        _ => {
            let (_, _, ps, inner) = route18(q.route, &q.a, &q.b);
            let body = q.body.as_ref().map_or(vec![], |b| pattern(r, b.0 as usize));
            let trace: &[&str] = if inner { &["outer", "inner"] } else { &["outer"] };
            (200, text18(r, (q.route % 12) as u32, &ps, q.q.as_deref(), Some((5 + 1000 + r as u64, &format!("s+{r}"))), Some(r), trace, &body, q.answer_len as usize))
        }
    }
}
fn trace18(q: &Rq) -> Vec<Ev> {
    let inner = route18(q.route, &q.a, &q.b).3;
    let mut v = vec![];
    match q.ends {
        Ends::Missing | Ends::Garbage => {}
        Ends::FailMw => v.push(Ev::Enter(0)),
        _ => {
            v.push(Ev::Enter(0));
            if inner {
                v.push(Ev::Enter(1));
            }
            v.push(Ev::Handler((q.route % 12) as u32, vec![]));
            if inner {
                v.push(Ev::Exit(1));
            }
            v.push(Ev::Exit(0));
        }
    }
    v
}

struct Line<'a> {
    first: usize,
    reqs: &'a [Rq],
    conn: Option<Conn>,
    /// (bytes, request, last piece of the request)
    pieces: Vec<(Vec<u8>, usize, bool)>,
    next_piece: usize,
    sent: usize,
    read: usize,
    dead: bool,
    may_abort: bool,
}
impl<'a> Line<'a> {
    fn can_send(&self) -> bool {
        match self.pieces.get(self.next_piece) {
            // what ends the connection goes out when nothing else is due on it
            Some((_, r, _)) => !self.dead && self.conn.is_some() && (!self.reqs[*r].ends.kills() || self.read == *r),
            None => false,
        }
    }
    fn send(&mut self) -> Res {
        let (b, _, last) = &self.pieces[self.next_piece];
        let kills = self.reqs[self.sent.min(self.reqs.len() - 1)].ends.kills();
        match self.conn.as_mut().unwrap().send(b) {
            Err(NetErr::Timeout) => return Err(Fail::Hang("cannot send".into())),
            Err(e) if !kills => return violated(format!("connection lost while sending: {e:?}")),
            _ => {}
        }
        if *last {
            self.sent += 1;
        }
        self.next_piece += 1;
        Ok(())
    }
}

pub struct C18;
impl C18 {
    fn read_one(l: &mut Line, sh: &Shared18) -> Res {
        let k = l.read;
        let q = &l.reqs[k];
        let r = (l.first + k) as u32;
        let got = l.conn.as_mut().unwrap().read();
        l.read += 1;
        if q.ends.kills() {
            if got == Err(NetErr::Timeout) {
                return Err(Fail::Hang(format!("request {r} ({:?}): neither answered nor closed", q.ends)));
            }
            l.dead = true;
            l.conn = None;
            return Ok(());
        }
        match got {
            Err(NetErr::Timeout) => Err(Fail::Hang(format!("request {r} not answered although nothing holds it up"))),
            Err(e) => violated(format!("request {r} on its connection: {}", clip(&format!("{e:?}"), 500))),
            Ok(resp) => {
                let (status, body) = alone(r, q);
                ensure!(resp.status == status && resp.body == body, "request {r} answered {} {}; alone: {status} (bodies differ at {})", resp.status, resp.brief(), differ(&resp.text(), &String::from_utf8_lossy(&body)));
                let t = sh.rec.of(r);
                let want = trace18(q);
                ensure!(t == want, "request {r} ran {t:?}, expected {want:?}");
                Ok(())
            }
        }
    }
}
fn files_allowed() -> u32 {
    let mut f = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
    // SAFETY: fills in the struct it is given
    unsafe { libc::getrlimit(libc::RLIMIT_NOFILE, &mut f) };
    f.rlim_cur.min(100_000) as u32
}
/// One of the case's requests, without anything unusual.
fn plain18(reqs: &[Rq], i: u32) -> Rq {
    let mut q = reqs.get(i as usize % reqs.len().max(1)).cloned().unwrap_or(Rq { route: i as u8 % 12, a: "a".into(), b: "b".into(), q: None, ends: Ends::Normal, gates: 0, body: None, answer_len: 0, cut: vec![] });
    q.ends = Ends::Normal;
    q.route = (q.route as u32 + i / 3) as u8 % 12;
    q.answer_len = 0;
    q.body = q.body.map(|b| (b.0 % 3000, b.1));
    if i % 3 == 0 {
        q.a = format!("{}{i}", q.a);
    }
    q
}
fn control18(c: &mut Conn, what: &str) -> Res {
    if c.send(b"GET /control HTTP/1.1\r\nhost: t\r\n\r\n").is_err() {
        return violated(format!("{what}: cannot send"));
    }
    match c.read() {
        Ok(r) => {
            ensure!(r.status == 200 && r.text() == "fine", "{what}: answered {}", r.brief());
            Ok(())
        }
        Err(NetErr::Timeout) => Err(Fail::Hang(format!("{what}: no answer"))),
        Err(e) => violated(format!("{what}: {e:?}")),
    }
}
/// Many requests at one time over one HTTP/2 connection, some of which panic or are given up.
fn multiplexed(env: &Env, port: u16, reqs: &[Rq], sh: &Shared18, n: u32) -> Res {
    type Answer = Result<(u16, Vec<u8>), String>;
    env.block_on(async {
        let tcp = tokio::net::TcpStream::connect(("127.0.0.1", port)).await.map_err(|e| Fail::Infra(e.to_string()))?;
        let (mut send, conn) = match tokio::time::timeout(READ_TIMEOUT, hyper::client::conn::Builder::new().http2_only(true).handshake::<_, hyper::Body>(tcp)).await {
            Ok(Ok(x)) => x,
            Ok(Err(e)) => return violated(format!("HTTP/2 connection: {e}")),
            Err(_) => return Err(Fail::Hang("HTTP/2 connection".into())),
        };
        let conn = tokio::spawn(conn);
        let reqs: Vec<(u32, Rq)> = (0..n).map(|i| (MUX + i, plain18(reqs, i))).collect();
        let one = |r: u32, q: &Rq| {
            let (m, mut target, _, _) = route18(q.route, &q.a, &q.b);
            if let Some(k) = &q.q {
                target.push_str(&format!("?k={k}"));
            }
            let body = match &q.body {
                None => hyper::Body::empty(),
                Some((n, ch)) if ch.is_empty() => hyper::Body::from(pattern(r, *n as usize)),
                Some((n, ch)) => {
                    let ps: Vec<Result<Vec<u8>, std::io::Error>> = split_chunks(&pattern(r, *n as usize), ch).into_iter().map(|p| Ok(p.to_vec())).collect();
                    hyper::Body::wrap_stream(futures_util::stream::iter(ps))
                }
            };
            let req = hyper::Request::builder().method(m).uri(format!("http://t{target}")).header("x-rid", r).body(body);
            req.expect("request")
        };
        async fn whole(f: impl std::future::Future<Output = Result<hyper::Response<hyper::Body>, hyper::Error>>) -> Answer {
            let resp = f.await.map_err(|e| e.to_string())?;
            let status = resp.status().as_u16();
            let body = hyper::body::to_bytes(resp.into_body()).await.map_err(|e| e.to_string())?;
            Ok((status, body.to_vec()))
        }
        async fn ready(send: &mut hyper::client::conn::SendRequest<hyper::Body>) -> Res {
            match tokio::time::timeout(READ_TIMEOUT, futures_util::future::poll_fn(|cx| send.poll_ready(cx))).await {
                Ok(Ok(())) => Ok(()),
                Ok(Err(e)) => violated(format!("HTTP/2 connection: {e}")),
                Err(_) => Err(Fail::Hang("HTTP/2 connection".into())),
            }
        }
        let judge = |r: u32, q: &Rq, a: Answer| -> Res {
            let want = alone(r, q);
            match a {
                Ok(a) if a == want => Ok(()),
                Ok((s, b)) => violated(format!("request {r} of {n} at one time over one HTTP/2 connection answered {s} {}; alone: {} (bodies differ at {})", clip(&String::from_utf8_lossy(&b), 300), want.0, differ(&String::from_utf8_lossy(&b), &String::from_utf8_lossy(&want.1)))),
                Err(e) => violated(format!("request {r} of {n} at one time over one HTTP/2 connection: {e}")),
            }
        };
        let mut open = vec![];
        for (r, q) in reqs.iter().filter(|(r, _)| mux_kind(*r) < Some(7)) {
            ready(&mut send).await?;
            open.push((*r, q, Some(tokio::spawn(whole(send.send_request(one(*r, q)))))));
        }
        let t = Instant::now();
        while (sh.crowding.load(std::sync::atomic::Ordering::SeqCst) as usize) < open.len() {
            if t.elapsed() > READ_TIMEOUT {
                return Err(Fail::Hang(format!("only {} of {} requests sent at once over HTTP/2 reach their handlers", sh.crowding.load(std::sync::atomic::Ordering::SeqCst), open.len())));
            }
            tokio::time::sleep(Duration::from_micros(200)).await;
        }
        let pass = |r: u32| Err(Fail::Hang(format!("request {r} over HTTP/2 not answered although nothing holds it up")));
        for (r, q) in reqs.iter().filter(|(r, _)| mux_kind(*r) == Some(7)) {
            ready(&mut send).await?;
            match tokio::time::timeout(READ_TIMEOUT, whole(send.send_request(one(*r, q)))).await {
                Ok(a) => judge(*r, q, a)?,
                Err(_) => return pass(*r),
            }
        }
        for (_, _, h) in open.iter_mut().filter(|o| mux_kind(o.0) == Some(6)) {
            h.take().unwrap().abort();
        }
        sh.crowd.add_permits(open.len());
        for (r, q, h) in open {
            let Some(h) = h else { continue };
            match tokio::time::timeout(READ_TIMEOUT, h).await {
                Ok(Ok(a)) if mux_kind(r) != Some(5) => judge(r, q, a)?,
                Ok(_) => {}
                Err(_) => return pass(r),
            }
        }
        conn.abort();
        Ok(())
    })
}
/// Four clients at once; nothing holds anything up.
fn burst(port: u16, reqs: &[Rq], n: usize) -> Res {
    let one = |t: usize| -> Res {
        let mut conn = Conn::open(port)?;
        let all: Vec<(u32, Rq)> = (0..n)
            .map(|j| {
                let mut q = reqs[(j * 7 + t) % reqs.len()].clone();
                if q.ends != Ends::Missing {
                    q.ends = Ends::Normal;
                }
                q.answer_len = 0;
                q.body = q.body.map(|b| (b.0 % 3000, b.1));
                if j % 3 == 0 {
                    q.a = format!("{}{t}{j}", q.a);
                }
                ((100_000 + t * 1000 + j) as u32, q)
            })
            .collect();
        for batch in all.chunks(16) {
            let b: Vec<u8> = batch.iter().flat_map(|(r, q)| bytes18(*r, q)).collect();
            conn.send(&b)?;
            for (r, q) in batch {
                let resp = conn.read()?;
                let (status, body) = alone(*r, q);
                ensure!(resp.status == status && resp.body == body, "request {r} of several clients answered {}; alone: {status} (bodies differ at {})", resp.brief(), differ(&resp.text(), &String::from_utf8_lossy(&body)));
            }
        }
        Ok(())
    };
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..4).map(|t| s.spawn(move || one(t))).collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| violated("client panicked"))).collect::<Vec<_>>().into_iter().collect()
    })
}
impl Check for C18 {
    type Case = C18Case;
    fn id(&self) -> &'static str {
        "C18"
    }
    fn rule(&self) -> &'static str {
        "1-5 connections with 1-4 requests each (twelve routes, nested router, now and then much like the request before it, bodies up to 100 KB sent in generated pieces, answers up to 1 MB), every request held up at up to four generated points (middleware before/after, handler before/after reading the body) and released, sent, read or reset in a generated order, on one-threaded and multi-threaded servers; some fail, miss, panic (in handler, middleware, FromStr, Deserialize, Responder) or are garbage; then, in some cases, up to 300 further requests are held up in their handlers at one time, up to 300 requests in a row panic or are broken off, everything held up is kept waiting for up to 6 s (thorough: 40 s), and four clients at once send up to 120 (rarely 1500) requests each. A request is read as soon as nothing holds it up, whatever else is still held up, and must answer what it answers alone. Non-trivial: at least two requests in flight at the same time."
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["interleavings are those of held-up points; within a step the runtime's own order is taken", "a request that panics may close its own connection, and is the last on it"]
    }
    fn cases(&self) -> (u64, u64) {
        (40_000, 1_000_000)
    }
    fn strategy(&self, thorough: bool) -> BoxedStrategy<C18Case> {
        let ends = prop_oneof![
            30 => Just(Ends::Normal), 2 => Just(Ends::Fail), 1 => Just(Ends::FailMw), 1 => Just(Ends::Missing),
            1 => Just(Ends::PanicHandler), 1 => Just(Ends::PanicMw), 1 => Just(Ends::PanicMwAfter), 1 => Just(Ends::PanicParam), 1 => Just(Ends::PanicQuery), 1 => Just(Ends::PanicResponder), 1 => Just(Ends::Garbage),
        ];
        let len = || prop_oneof![3 => Just(0u32), 5 => 1u32..200, 2 => 200u32..20_000];
        let body = (prop_oneof![6 => len(), 1 => 20_000u32..100_000], prop_oneof![1 => Just(vec![]), 1 => prop::collection::vec(1usize..5000, 1..3)]).prop_map(|(n, mut c)| {
            if n / 1000 > c.iter().copied().max().unwrap_or(n as usize) as u32 {
                c = vec![n as usize / 7 + 1, 900];
            }
            (n, c)
        });
        let tok = || prop_oneof![2 => "[ab]", 2 => "[a-z0-9]{1,8}", 1 => Just("x".to_string()), 1 => Just("fixedd".to_string()), 1 => Just("control".to_string())];
        let cut = prop_oneof![3 => Just(vec![]), 2 => prop::collection::vec(1usize..60, 1..3), 2 => prop::collection::vec(50usize..20_000, 1..3)];
        let rq = (0u8..12, tok(), tok(), prop::option::of(tok()), ends, prop_oneof![1 => Just(0u8), 3 => 0u8..16], prop::option::weighted(0.7, body), prop_oneof![12 => len(), 1 => 100_000u32..1_000_000], cut)
            .prop_map(|(route, a, b, q, ends, gates, body, answer_len, cut)| Rq { route, a, b, q, ends, gates, body, answer_len, cut });
        // now and then a request much like the one before it
        let kin = prop_oneof![4 => Just(0u8), 1 => 1u8..9];
        fn relate(q: &mut Rq, to: &Rq, kin: u8) {
            if kin == 0 {
                return;
            }
            let old = (q.a.clone(), q.q.clone());
            q.route = to.route;
            (q.a, q.b, q.q) = (to.a.clone(), to.b.clone(), to.q.clone());
            match kin {
                1 | 2 => (q.a, q.b) = (to.a.to_uppercase(), to.b.to_uppercase()),
                3 => (q.a, q.b) = (to.b.clone(), to.a.clone()),
                4 => q.q = old.1,
                5 => q.a.push('x'),
                6 => q.a = old.0,
                7 => q.b = old.0,
                _ => {}
            }
        }
        let conn = prop::collection::vec((rq, kin), 1..5).prop_map(|v| {
            let kins: Vec<u8> = v.iter().map(|x| x.1).collect();
            let mut v: Vec<Rq> = v.into_iter().map(|x| x.0).collect();
            for i in 1..v.len() {
                let to = v[i - 1].clone();
                relate(&mut v[i], &to, kins[i]);
            }
            if let Some(k) = v.iter().position(|q| q.ends.kills()) {
                v.truncate(k + 1);
            }
            v
        });
        (any::<bool>(), prop::collection::vec(conn, 1..6), prop_oneof![1 => Just(0u8), 1 => 0u8..32], prop::collection::vec(any::<u16>(), 0..60), prop_oneof![500 => Just(0u16), 100 => 1u16..120, 1 => 120u16..1500], prop_oneof![120 => Just(0u16), 2 => 1u16..40, 1 => 40u16..300], prop_oneof![120 => Just(0u16), 2 => 1u16..40, 1 => 40u16..300], prop_oneof![6000 => Just(0u16), 2 => 1u16..2500, 2 => 2500u16..6000, u32::from(thorough) => 20_000u16..40_000], prop_oneof![60 => Just(0u8), 1 => 1u8..80])
            .prop_map(|(mt, mut conns, aborts, steps, burst, crowd, storm, wait, mux)| {
                for i in 1..conns.len() {
                    let to = conns[i - 1][0].clone();
                    let kin = steps.get(i).map_or(0, |s| s % 16);
                    relate(&mut conns[i][0], &to, if kin < 9 { kin as u8 } else { 0 });
                }
                (mt, conns, aborts, steps, burst, crowd, storm, wait, mux)
            })
            .prop_map(|(mt, conns, aborts, steps, burst, crowd, storm, wait, mux)| C18Case { mt, conns, aborts, steps, burst, crowd, storm, wait, mux })
            .boxed()
    }
    fn run(&self, env: &mut Env, c: &C18Case) -> Res {
        let reqs: Vec<Rq> = c.conns.iter().flatten().cloned().collect();
        let sh = Arc::new(Shared18 { gates: reqs.iter().map(|_| (0..GATES).map(|_| Semaphore::new(0)).collect()).collect(), reqs: reqs.clone(), rec: Rec::default(), crowd: Semaphore::new(0), crowding: Default::default() });
        let run = if c.mt { env.mt().start(app18(&sh))? } else { env.srv.start(app18(&sh))? };
        let mut idle = Conn::open(run.port)?;
        let mut warm = Conn::open(run.port)?;
        control18(&mut warm, "before")?;
        let mut lines = vec![];
        let mut first = 0;
        for (k, v) in c.conns.iter().enumerate() {
            let mut pieces = vec![];
            for (i, q) in v.iter().enumerate() {
                let b = bytes18((first + i) as u32, q);
                let mut ps: Vec<Vec<u8>> = if q.cut.is_empty() { vec![b] } else { split_chunks(&b, &q.cut).into_iter().map(|p| p.to_vec()).collect() };
                if ps.len() > 8 {
                    let rest = ps.split_off(8).concat();
                    ps.push(rest);
                }
                let n = ps.len();
                pieces.extend(ps.into_iter().enumerate().map(|(j, p)| (p, i, j + 1 == n)));
            }
            lines.push(Line { first, reqs: v, conn: None, pieces, next_piece: 0, sent: 0, read: 0, dead: v.is_empty(), may_abort: c.aborts & (1 << k) != 0 });
            first += v.len();
        }
        let mut held: Vec<u8> = reqs.iter().map(|q| q.gates & 15).collect();
        let mut overlap = false;
        let mut aborted = 0;
        for s in &c.steps {
            // everything that can be done next
            #[derive(Clone, Copy)]
            enum Do {
                Open(usize),
                Send(usize),
                Release(usize, usize),
                Read(usize),
                Abort(usize),
            }
            let mut can = vec![];
            for (k, l) in lines.iter().enumerate() {
                if l.dead {
                    continue;
                }
                if l.conn.is_none() {
                    can.push(Do::Open(k));
                    continue;
                }
                if l.can_send() {
                    can.push(Do::Send(k));
                    can.push(Do::Send(k));
                }
                for i in l.read..(l.sent + 1).min(l.reqs.len()) {
                    for g in 0..GATES {
                        if held[l.first + i] & (1 << g) != 0 {
                            can.push(Do::Release(l.first + i, g));
                        }
                    }
                }
                if l.read < l.sent && held[l.first + l.read] == 0 {
                    can.push(Do::Read(k));
                }
                if l.may_abort {
                    can.push(Do::Abort(k));
                }
            }
            if can.is_empty() {
                break;
            }
            match can[*s as usize % can.len()] {
                Do::Open(k) => lines[k].conn = Some(Conn::open(run.port)?),
                Do::Send(k) => lines[k].send()?,
                Do::Release(r, g) => {
                    held[r] &= !(1 << g);
                    sh.gates[r][g].add_permits(1);
                }
                Do::Read(k) => C18::read_one(&mut lines[k], &sh)?,
                Do::Abort(k) => {
                    lines[k].conn = None;
                    lines[k].dead = true;
                    aborted += 1;
                }
            }
            overlap |= lines.iter().filter(|l| !l.dead && l.conn.is_some() && l.next_piece > 0 && l.read < l.reqs.len()).count() > 1;
        }
        let mut crowd = vec![];
        let size = (c.crowd as u32).min(files_allowed() / 24);
        for i in 0..size {
            let q = plain18(&reqs, i);
            let mut conn = Conn::open(run.port)?;
            conn.send(&bytes18(CROWD + i, &q))?;
            crowd.push((CROWD + i, q, conn));
        }
        if size > 0 {
            let t = Instant::now();
            while sh.crowding.load(std::sync::atomic::Ordering::SeqCst) < size {
                if t.elapsed() > READ_TIMEOUT {
                    return Err(Fail::Hang(format!("only {} of {size} requests sent at once reach their handlers", sh.crowding.load(std::sync::atomic::Ordering::SeqCst))));
                }
                std::thread::sleep(Duration::from_micros(200));
            }
            control18(&mut Conn::open(run.port)?, "new connection beside many")?;
            env.label("crowd");
        }
        if c.storm > 0 {
            for i in 0..c.storm as u32 {
                let q = plain18(&reqs, i);
                let b = bytes18(STORM + i, &q);
                let mut conn = Conn::open(run.port)?;
                match (STORM + i) % 3 {
                    0 => {
                        let _ = conn.send(&b);
                        if conn.read() == Err(NetErr::Timeout) {
                            return Err(Fail::Hang("request that panics: neither answered nor closed".into()));
                        }
                    }
                    1 => conn.send(&b)?,
                    _ => conn.send(&b[..b.len() * (i as usize % 10 + 1) / 11])?,
                }
                if i % 2 == 0 {
                    control18(&mut warm, "after a broken request")?;
                }
            }
            control18(&mut Conn::open(run.port)?, "new connection after many broken ones")?;
            env.label("storm");
        }
        if c.wait > 0 {
            std::thread::sleep(Duration::from_millis(c.wait as u64));
            env.label("kept waiting");
        }
        if size > 0 {
            sh.crowd.add_permits(size as usize);
            for (r, q, conn) in crowd.iter_mut() {
                let resp = conn.read()?;
                let (status, body) = alone(*r, q);
                ensure!(resp.status == status && resp.body == body, "request {r} of {size} at one time answered {}; alone: {status} (bodies differ at {})", resp.brief(), differ(&resp.text(), &String::from_utf8_lossy(&body)));
            }
        }
        if c.mux > 0 {
            // (the crowd is gone)
            sh.crowding.store(0, std::sync::atomic::Ordering::SeqCst);
            let left = sh.crowd.available_permits();
            sh.crowd.forget_permits(left);
            multiplexed(env, run.port, &reqs, &sh, c.mux as u32)?;
            env.label("many at one time over one HTTP/2 connection");
        }
        // and now let everything finish
        for l in lines.iter_mut() {
            while !l.dead && l.read < l.reqs.len() {
                if l.conn.is_none() {
                    l.conn = Some(Conn::open(run.port)?);
                }
                while l.sent <= l.read {
                    l.send()?;
                }
                let r = l.first + l.read;
                for g in 0..GATES {
                    if held[r] & (1 << g) != 0 {
                        held[r] &= !(1 << g);
                        sh.gates[r][g].add_permits(1);
                    }
                }
                C18::read_one(l, &sh)?;
            }
        }
        control18(&mut idle, "connection opened before")?;
        control18(&mut warm, "connection used before")?;
        control18(&mut Conn::open(run.port)?, "new connection")?;
        for l in lines.iter_mut().filter(|l| !l.dead && l.conn.is_some()) {
            control18(l.conn.as_mut().unwrap(), "connection after its requests")?;
        }
        if c.burst > 0 {
            burst(run.port, &reqs, c.burst as usize)?;
            env.label("burst");
        }
        env.nontrivial(overlap || c.burst > 0 || size > 1);
        env.label(if c.mt { "several threads" } else { "one thread" });
        env.label_if(aborted > 0, "client reset");
        env.label_if(reqs.iter().any(|q| q.ends.kills() && q.ends != Ends::Garbage), "panic");
        env.label_if(overlap, "overlapping");
        Ok(())
    }
}
