//! C01-C05, C07, C08: registration and routing against the flat-list model.
use crate::core::*;
use crate::ensure;
use crate::gen::*;
use crate::model::{split, Kind, Model};
use crate::server::*;
use crate::spec::*;
use obsidian::context::Context;
use obsidian::router::Router;
use obsidian::App;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;
use std::sync::Arc;

/// What one request led to.
#[derive(Clone, Debug, PartialEq)]
pub struct Obs {
    pub status: u16,
    pub body: String,
    pub events: Vec<Ev>,
}

pub const ALL_METHODS: [&str; 10] = ["GET", "POST", "PUT", "PATCH", "DELETE", "OPTIONS", "TRACE", "CONNECTED", "get", "HEAD"];
const HEAD: usize = 9;
pub fn method_name(m: u8) -> &'static str {
    ALL_METHODS[m as usize % ALL_METHODS.len()]
}

/// Parts of a request that say nothing about the route; which of them a request gets is a
/// function of its text.
const NOISE: [(&str, &[(&str, &str)]); 24] = [
    ("", &[("x-http-method-override", "DELETE")]),
    ("", &[("X-HTTP-Method-Override", "GET"), ("x-method-override", "POST")]),
    ("", &[("x-original-url", "/a"), ("x-rewrite-url", "/")]),
    ("", &[("x-forwarded-prefix", "/a"), ("x-forwarded-host", "a.b"), ("forwarded", "for=1.2.3.4")]),
    ("?_method=PUT", &[("content-type", "application/x-www-form-urlencoded")]),
    ("?", &[]),
    ("?/a/b", &[("upgrade-insecure-requests", "1")]),
    ("?a=1&id=2&name=3", &[("cookie", "id=7; path=/a"), ("referer", "http://t/a/b")]),
    ("??//:id/*", &[("accept", "*/*"), ("accept-encoding", "gzip")]),
    ("?a#", &[("range", "bytes=0-1"), ("if-none-match", "*")]),
    ("?*", &[("content-length", "0")]),
    ("?:id=1", &[("origin", "http://x"), ("access-control-request-method", "PUT"), ("access-control-request-headers", "x-a")]),
    ("", &[]), ("", &[]), ("", &[]), ("", &[]), ("", &[]), ("", &[]), ("", &[]), ("", &[]), ("", &[]), ("", &[]), ("", &[]), ("", &[]),
];
fn http_req(i: usize, r: &Req) -> Vec<u8> {
    let h = hash_of(&format!("{} {}", r.m, anywhere(&r.path)));
    let (query, extra) = NOISE[(h % NOISE.len() as u64) as usize];
    let mut headers = vec![("host".into(), "t".into()), ("x-rid".into(), i.to_string())];
    headers.extend(extra.iter().map(|(n, v)| (n.to_string(), v.to_string())));
    headers.extend(noise(h).into_iter().filter(|(n, _)| !["host", "content-length", "x-rid"].contains(&n.as_str()) && !extra.iter().any(|x| x.0 == n)));
    let target = match query {
        "?a#" => format!("http://example.org{}?a", r.path),
        q => format!("{}{q}", r.path),
    };
    request_bytes(method_name(r.m), &target, &headers, b"", &Framing::None)
}
fn http_reqs(reqs: &[Req]) -> Vec<Vec<u8>> {
    reqs.iter().enumerate().map(|(i, r)| http_req(i, r)).collect()
}

fn obs(r: Result<Resp, NetErr>, events: Vec<Ev>) -> Result<Obs, Fail> {
    Ok(match r {
        Ok(r) => Obs { status: r.status, body: r.text(), events },
        Err(NetErr::Timeout) => return Err(Fail::Hang("no answer".into())),
        Err(NetErr::Setup(s)) => return Err(Fail::Infra(s)),
        Err(e) => Obs { status: 0, body: format!("{e:?}"), events },
    })
}

/// Serves the app and sends all requests.
pub fn observe(env: &mut Env, app: App, rec: &Rec, reqs: &[Req]) -> Result<Vec<Obs>, Fail> {
    let run = env.srv.start(app)?;
    let rs = roundtrips(run.port, &http_reqs(reqs))?;
    let evs = rec.by_rid(reqs.len());
    rs.into_iter().zip(evs).map(|(r, e)| obs(r, e)).collect()
}

/// The same through the public search API, without HTTP: any text can be a path.
#[cfg(feature = "inproc")]
pub fn observe_inproc(env: &mut Env, router: Router, rec: &Rec, reqs: &[Req]) -> Result<Vec<Obs>, Fail> {
    use obsidian::EndpointExecutor;
    let mut out = vec![];
    for (i, r) in reqs.iter().enumerate() {
        let method = hyper::Method::from_bytes(method_name(r.m).as_bytes()).unwrap();
        let (status, body) = match router.search_route(&r.path) {
            None => (404, "404 Not Found".to_string()),
            Some(rv) => match rv.get_route(&method) {
                None => (404, "404 Not Found".to_string()),
                Some(route) => {
                    let req = hyper::Request::builder().method(method).uri("/").header("x-rid", i.to_string()).body(hyper::Body::empty()).unwrap();
                    let ctx = Context::new(req, rv.get_params());
                    let ex = EndpointExecutor::new(&route.handler, rv.get_middlewares());
                    env.block_on(async {
                        match ex.next(ctx).await {
                            Ok(c) => match c.take_response() {
                                Some(r) => {
                                    let st = r.status().as_u16();
                                    let b = hyper::body::to_bytes(r.body()).await.map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or_default();
                                    (st, b)
                                }
                                None => (200, String::new()),
                            },
                            Err(e) => (500, e.to_string()),
                        }
                    })
                }
            },
        };
        let body = if r.m as usize == HEAD { String::new() } else { body };
        out.push(Obs { status, body, events: rec.of(i as u32) });
    }
    Ok(out)
}

pub fn build_app(ops: &[Op], parts: &dyn Parts) -> App {
    let mut app: App = App::new();
    for o in ops {
        apply(&mut app, o, parts);
    }
    app
}
#[cfg(feature = "inproc")]
pub fn build_router(ops: &[Op], parts: &dyn Parts) -> Router {
    let mut r = Router::new();
    for o in ops {
        apply(&mut r, o, parts);
    }
    r
}

pub fn plain(m: &Model) -> (Plain, Arc<Rec>) {
    let rec = Arc::new(Rec::default());
    (Plain { rec: rec.clone(), names: Arc::new(param_names(m)) }, rec)
}

/// The parameters a handler with the names of the whole app at hand must see.
fn seen_params(params: &[(String, String)], names: &[String]) -> Vec<(String, String)> {
    names.iter().filter_map(|n| params.iter().find(|p| &p.0 == n).cloned()).collect()
}

/// What the model says about a request.
pub fn expected(m: &Model, names: &[String], r: &Req) -> Obs {
    match m.resolve(r.m, &r.path) {
        Some(f) => {
            let id = m.entries[f.entry].id();
            let mut events: Vec<Ev> = f.mws.iter().map(|i| Ev::Enter(*i)).collect();
            events.push(Ev::Handler(id, seen_params(&f.params, names)));
            events.extend(f.mws.iter().rev().map(|i| Ev::Exit(*i)));
            Obs { status: 200, body: format!("h{id}"), events }
        }
        None => Obs { status: 404, body: if r.m as usize == HEAD { String::new() } else { "404 Not Found".into() }, events: vec![] },
    }
}

fn handlers(o: &Obs) -> Vec<u32> {
    o.events.iter().filter_map(|e| if let Ev::Handler(i, _) = e { Some(*i) } else { None }).collect()
}
fn mw_events(o: &Obs) -> Vec<Ev> {
    o.events.iter().map(|e| if let Ev::Handler(i, _) = e { Ev::Handler(*i, vec![]) } else { e.clone() }).collect()
}

/// Classes of a routing case; returns how many requests were answered by a route.
pub fn classify(env: &mut Env, c: &RouteCase, m: &Model) -> usize {
    let mut hits = 0;
    for r in &c.reqs {
        match m.resolve(r.m, &r.path) {
            Some(f) => {
                hits += 1;
                let e = &m.entries[f.entry];
                env.label("request answered by a route");
                env.label_if(!f.params.is_empty(), "request with parameters");
                env.label_if(f.params.len() > 2, "request with more than two parameters");
                env.label_if(e.segs.last().map_or(false, |s| s == "*"), "request answered by a wildcard");
                env.label_if(e.segs.last().map_or(false, |s| s == "*") && f.tail.is_empty(), "wildcard with empty rest");
                env.label_if(e.segs.len() > 5, "route deeper than 5 segments");
                let req = split(&r.path);
                let req: Vec<&str> = req.iter().map(|s| s.as_str()).collect();
                let other = m.routes().filter(|e| crate::model::pattern_match(&e.segs, &req).is_some()).map(|e| &e.segs).collect::<BTreeSet<_>>().len();
                env.label_if(other > 1, "several patterns match the request");
                env.label_if(f.mws.len() > 1, "several middlewares");
            }
            None => {
                let req = split(&r.path);
                let req: Vec<&str> = req.iter().map(|s| s.as_str()).collect();
                env.label(if m.select(&req).is_some() { "request with unregistered method" } else { "request without route" });
            }
        }
    }
    env.label_if(m.entries.len() > 20, "more than 20 registrations");
    env.label_if(c.ops.iter().any(|o| matches!(o, Op::Mount { .. })), "app with mounted router");
    hits
}

// ================================================================== C01

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C01Case {
    pub rc: RouteCase,
    /// run through the search API with non-ASCII paths
    pub uni: bool,
}
pub struct C01;
impl Check for C01 {
    type Case = C01Case;
    fn id(&self) -> &'static str {
        "C01"
    }
    fn rule(&self) -> &'static str {
        "Registration programs (routes with literal, parameter and wildcard segments, middlewares, nested routers, 1-120 registrations, segments sharing prefixes, 6 vocabularies, one in eight with non-ASCII paths through the search API) and requests derived from the registered patterns by instantiation and by dropping, adding, merging, splitting, editing and swapping segments, with other methods; handler and answer compared with a flat-list model. Non-trivial: at least two routes and at least one request answered by a route and one refused."
    }
    fn cases(&self) -> (u64, u64) {
        (100_000, 2_000_000)
    }
    fn strategy(&self, _t: bool) -> BoxedStrategy<C01Case> {
        let c = Cfg { twice_w: 1, mw_root_w: 1, ..Cfg::default() };
        (route_case(&c, 16), prop::bool::weighted(if cfg!(feature = "inproc") { 0.12 } else { 0.0 })).prop_map(|(rc, uni)| C01Case { rc, uni }).boxed()
    }
    fn run(&self, env: &mut Env, case: &C01Case) -> Res {
        let mut c = case.rc.clone();
        let mut m = accept(&c.ops).1;
        let hits = classify(env, &c, &m);
        env.nontrivial(m.routes().count() > 1 && hits > 0 && hits < c.reqs.len());
        env.label_if(case.uni, "non-ASCII paths");
        if case.uni {
            c.ops = unicode_ops(&c.ops);
            for r in &mut c.reqs {
                r.path = unicode(&r.path);
            }
            m = accept(&c.ops).1;
        }
        let (parts, rec) = plain(&m);
        let got = if case.uni { run_inproc(env, &c, &parts, &rec)? } else { observe(env, build_app(&c.ops, &parts), &rec, &c.reqs)? };
        for (r, o) in c.reqs.iter().zip(&got) {
            let e = expected(&m, &parts.names, r);
            ensure!(
                (o.status, &o.body, handlers(o)) == (e.status, &e.body, handlers(&e)),
                "{} {}: answered {} {:?} by handlers {:?}, expected {} {:?} by {:?}",
                method_name(r.m), r.path, o.status, o.body, handlers(o), e.status, e.body, handlers(&e)
            );
        }
        Ok(())
    }
}
#[cfg(feature = "inproc")]
fn run_inproc(env: &mut Env, c: &RouteCase, parts: &Plain, rec: &Rec) -> Result<Vec<Obs>, Fail> {
    let r = build_router(&c.ops, parts);
    observe_inproc(env, r, rec, &c.reqs)
}
#[cfg(not(feature = "inproc"))]
fn run_inproc(_: &mut Env, _: &RouteCase, _: &Plain, _: &Rec) -> Result<Vec<Obs>, Fail> {
    Err(Fail::Infra("built without the search API".into()))
}

// ================================================================== C02

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C02Case {
    pub ops: Vec<Op>,
    /// other orders of the same registrations
    pub orders: Vec<Vec<Op>>,
    pub reqs: Vec<Req>,
}
/// path of an op as segments (None: not placed at one path)
fn op_at(o: &Op) -> Option<Vec<String>> {
    match o {
        Op::Mw { path, .. } => Some(path.as_deref().map(split).unwrap_or_default()),
        // may bring root middlewares of its own
        Op::Mount { path, .. } if split(path).is_empty() => Some(vec![]),
        _ => None,
    }
}
/// A permutation of `ops` (and inside its mounted routers) that keeps the order of middlewares
/// on the same path.
fn permute(ops: &[Op], keys: &[u32], k: &mut usize) -> Vec<Op> {
    let ops: Vec<Op> = ops
        .iter()
        .map(|o| match o {
            Op::Mount { path, ops, scope } => Op::Mount { path: path.clone(), ops: permute(ops, keys, k), scope: *scope },
            o => o.clone(),
        })
        .collect();
    let mut tagged: Vec<(u32, Op)> = ops
        .iter()
        .cloned()
        .map(|o| {
            *k += 1;
            (keys[*k % keys.len()].wrapping_mul((*k as u32 / keys.len() as u32) * 2 + 1), o)
        })
        .collect();
    tagged.sort_by_key(|t| t.0);
    let mut out: Vec<Op> = tagged.into_iter().map(|t| t.1).collect();
    // same-path middlewares back into their original order
    let paths: BTreeSet<Vec<String>> = ops.iter().filter_map(op_at).collect();
    for p in paths {
        let orig: Vec<Op> = ops.iter().filter(|o| op_at(o).as_ref() == Some(&p)).cloned().collect();
        let slots: Vec<usize> = (0..out.len()).filter(|i| op_at(&out[*i]).as_ref() == Some(&p)).collect();
        for (s, o) in slots.into_iter().zip(orig) {
            out[s] = o;
        }
    }
    out
}
/// Leaves out what meets a mounted router, where order decides about acceptance.
fn drop_mount_clashes(ops: &[Op]) -> Vec<Op> {
    let mounts: Vec<(usize, Vec<String>)> =
        ops.iter().enumerate().filter_map(|(i, o)| if let Op::Mount { path, .. } = o { Some((i, split(path))) } else { None }).collect();
    ops.iter()
        .enumerate()
        .filter(|(i, o)| {
            let segs = match o {
                Op::Route { path, .. } | Op::Mount { path, .. } => split(path),
                Op::Mw { path, .. } => path.as_deref().map(split).unwrap_or_default(),
                _ => return false,
            };
            let root_mw = segs.is_empty() && matches!(o, Op::Mw { .. });
            root_mw || !mounts.iter().any(|(j, at)| i != j && segs.starts_with(at))
        })
        .map(|(_, o)| match o {
            Op::Mount { path, ops, scope } => Op::Mount { path: path.clone(), ops: drop_mount_clashes(ops), scope: *scope },
            o => o.clone(),
        })
        .collect()
}
pub struct C02;
impl Check for C02 {
    type Case = C02Case;
    fn id(&self) -> &'static str {
        "C02"
    }
    fn rule(&self) -> &'static str {
        "Registration programs without conflicts, each carried out in its generated order and in 2-5 random other orders (inside nested routers too; middlewares of one path keep their order); responses, handlers, parameters and middleware order of all requests compared between the orders (metamorphic). Non-trivial: at least three registrations, orders that differ, and a request answered by a route."
    }
    fn cases(&self) -> (u64, u64) {
        (50_000, 1_000_000)
    }
    fn strategy(&self, _t: bool) -> BoxedStrategy<C02Case> {
        let c = Cfg { mw_root_w: 1, mw_to_w: 5, mount_w: 2, ..Cfg::default() };
        (route_case(&c, 12), prop::collection::vec(prop::collection::vec(any::<u32>(), 1..24), 2..6))
            .prop_map(|(rc, keys)| {
                let (ops, m) = accept(&drop_mount_clashes(&rc.ops));
                let mut orders = vec![];
                for k in keys {
                    let p = permute(&ops, &k, &mut 0);
                    if p != ops && accept(&p).0 == p && !orders.contains(&p) {
                        orders.push(p);
                    }
                }
                let mut reqs = rc.reqs;
                for r in canonical(&m) {
                    if !reqs.contains(&r) {
                        reqs.push(r);
                    }
                }
                C02Case { ops, orders, reqs }
            })
            .boxed()
    }
    fn run(&self, env: &mut Env, c: &C02Case) -> Res {
        let (_, m) = accept(&c.ops);
        let hits = classify(env, &RouteCase { ops: c.ops.clone(), reqs: c.reqs.clone() }, &m);
        env.nontrivial(m.entries.len() > 2 && hits > 0 && !c.orders.is_empty());
        env.label_if(!c.orders.is_empty(), "case with another order");
        let (parts, rec) = plain(&m);
        let base = observe(env, build_app(&c.ops, &parts), &rec, &c.reqs)?;
        for p in &c.orders {
            let (parts, rec) = plain(&m);
            let app = match catch_unwind(AssertUnwindSafe(|| build_app(p, &parts))) {
                Ok(a) => a,
                Err(_) => return violated(format!("order {p:?} is refused: {}", my_panic())),
            };
            let other = observe(env, app, &rec, &c.reqs)?;
            for ((r, a), b) in c.reqs.iter().zip(&base).zip(&other) {
                ensure!(a == b, "{} {}: {a:?} in one order, {b:?} in the order {p:?}", method_name(r.m), r.path);
            }
        }
        Ok(())
    }
}

// ================================================================== C03

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C03Case {
    pub ops: Vec<Op>,
    /// register on a Router and mount that at "/" of the app in the end
    pub router: bool,
}
pub struct C03;
impl Check for C03 {
    type Case = C03Case;
    fn id(&self) -> &'static str {
        "C03"
    }
    fn rule(&self) -> &'static str {
        "Registration programs including duplicates, ambiguous parameters, misplaced wildcards, odd paths and colliding mounts, carried out one at a time under catch_unwind; panic or success compared with the model's verdict, and in the end every accepted route and middleware must answer, and nothing else. Non-trivial: at least one refused and three accepted registrations."
    }
    fn cases(&self) -> (u64, u64) {
        (100_000, 2_500_000)
    }
    fn strategy(&self, _t: bool) -> BoxedStrategy<C03Case> {
        let c = Cfg { mw_root_w: 1, mw_to_w: 4, mount_w: 3, twice_w: 1, odd_w: 2, param_w: 4, wild_p: 0.2, ..Cfg::default() };
        (0usize..6, ops(&c), any::<bool>())
            .prop_map(|(theme, gs, router)| {
                let raw = Resolver::new(theme).ops(&gs);
                // inner routers must be sound: only the top level is on trial
                let ops = raw
                    .into_iter()
                    .map(|o| match o {
                        Op::Mount { path, ops, scope } => Op::Mount { path, ops: accept(&ops).0, scope: scope && !router },
                        Op::Twice { path, path2, ops, more } => {
                            let Op::Twice { ops, more, .. } = accept(&[Op::Twice { path: "/p".into(), path2: "/q".into(), ops, more }]).0.remove(0) else { unreachable!() };
                            Op::Twice { path, path2, ops, more }
                        }
                        o => o,
                    })
                    .collect();
                C03Case { ops, router }
            })
            .boxed()
    }
    fn run(&self, env: &mut Env, c: &C03Case) -> Res {
        let mut m = Model::default();
        let mut ok: Vec<Op> = vec![];
        let (parts, _) = plain(&m);
        fn fresh(router: bool, ok: &[Op], parts: &Plain) -> (App, Router) {
            let mut app: App = App::new();
            let mut r = Router::new();
            for o in ok {
                if router {
                    apply(&mut r, o, parts)
                } else {
                    apply(&mut app, o, parts)
                }
            }
            (app, r)
        }
        let (mut app, mut rt) = fresh(c.router, &[], &parts);
        let mut refused = 0;
        for o in &c.ops {
            let verdict = apply_model(&mut m, o);
            let real = catch_unwind(AssertUnwindSafe(|| if c.router { apply(&mut rt, o, &parts) } else { apply(&mut app, o, &parts) })).is_ok();
            if verdict && !real {
                return violated(format!("{o:?} after {ok:?} is refused: {}", my_panic()));
            }
            if !verdict && real {
                return violated(format!("{o:?} is accepted after {ok:?}"));
            }
            if verdict {
                ok.push(o.clone());
            } else {
                refused += 1;
                env.label(match o {
                    Op::Mount { .. } | Op::Twice { .. } => "refused mount",
                    Op::Mw { .. } => "refused middleware",
                    _ => "refused route",
                });
                (app, rt) = fresh(c.router, &ok, &parts);
            }
        }
        drop((app, rt));
        env.label_if(c.router, "through a Router");
        env.nontrivial(refused > 0 && ok.len() > 2);
        // nothing was lost or replaced
        let (parts, rec) = plain(&m);
        let (mut app, rt) = fresh(c.router, &ok, &parts);
        if c.router {
            app.use_router("/", rt);
        }
        let reqs = canonical(&m);
        let got = observe(env, app, &rec, &reqs)?;
        for (r, o) in reqs.iter().zip(&got) {
            let e = expected(&m, &parts.names, r);
            ensure!(
                (o.status, &o.body, mw_events(o)) == (e.status, &e.body, mw_events(&e)),
                "{} {}: {o:?}, expected {e:?}", method_name(r.m), r.path
            );
        }
        Ok(())
    }
}

// ================================================================== C04

macro_rules! typed {
    ($($t:ty),*) => {
        fn read_types(ctx: &Context, n: &str) -> Vec<String> {
            vec![$( match ctx.param::<$t>(n) { Ok(v) => format!("{v:?}"), Err(_) => "-".to_string() } ),*]
        }
        fn want_types(v: Option<&str>) -> Vec<String> {
            vec![$( match v.and_then(|v| <$t>::from_str(v).ok()) { Some(v) => format!("{v:?}"), None => "-".to_string() } ),*]
        }
    };
}
typed!(String, i8, u8, i16, u16, i32, u32, i64, u64, i128, u128, isize, usize, f32, f64, bool, char, std::num::NonZeroU8, std::net::IpAddr, std::path::PathBuf, Picky);

/// A user type with its own idea of parsing.
#[derive(Debug)]
struct Picky(#[allow(dead_code)] String);
impl FromStr for Picky {
    type Err = ();
    fn from_str(s: &str) -> Result<Self, ()> {
        if s.len() % 2 == 0 {
            Ok(Picky(s.to_uppercase()))
        } else {
            Err(())
        }
    }
}

#[derive(Clone)]
struct TypedParts {
    rec: Arc<Rec>,
    names: Arc<Vec<String>>,
}
impl Parts for TypedParts {
    fn handler(&self, id: u32) -> Box<dyn Fn(Context) -> BoxFut + Send + Sync> {
        let me = self.clone();
        Box::new(move |ctx: Context| {
            let me = me.clone();
            Box::pin(async move {
                let r = rid(&ctx);
                me.rec.push(r, Ev::Handler(id, vec![]));
                for n in me.names.iter() {
                    me.rec.push(r, Ev::Note(format!("{n:?}={:?}", read_types(&ctx, n))));
                }
                ctx.build("ok").ok()
            })
        })
    }
    fn middleware(&self, id: u32) -> AnyMw {
        struct M(Arc<Rec>, Arc<Vec<String>>, u32);
        #[async_trait::async_trait]
        impl obsidian::middleware::Middleware for M {
            async fn handle<'a>(&'a self, ctx: Context, ex: obsidian::EndpointExecutor<'a>) -> obsidian::ContextResult {
                let r = rid(&ctx);
                let seen: Vec<_> = self.1.iter().map(|n| ctx.param::<String>(n).ok()).collect();
                self.0.push(r, Ev::Note(format!("mw {} {seen:?}", self.2)));
                ex.next(ctx).await
            }
        }
        AnyMw(Box::new(M(self.rec.clone(), self.names.clone(), id)))
    }
}
pub struct C04;
impl Check for C04 {
    type Case = C01Case;
    fn id(&self) -> &'static str {
        "C04"
    }
    fn rule(&self) -> &'static str {
        "Apps with parameter-heavy routes (up to 13 segments, parameters at any position, under mounted routers and wildcards), requests instantiating them with numbers at type limits, escapes, signs and arbitrary URL text; every parameter name of the app (and foreign ones) is read in the handler as 21 types and compared with the model's capture parsed by the type itself, and as text in every middleware. Non-trivial: a request with at least one parameter reaches its handler."
    }
    fn cases(&self) -> (u64, u64) {
        (70_000, 1_500_000)
    }
    fn strategy(&self, _t: bool) -> BoxedStrategy<C01Case> {
        let c = Cfg { param_w: 14, deep: 2, wild_p: 0.2, mw_to_w: 1, max_ops: 8, ..Cfg::default() };
        (route_case(&c, 24), prop::bool::weighted(if cfg!(feature = "inproc") { 0.12 } else { 0.0 })).prop_map(|(rc, uni)| C01Case { rc, uni }).boxed()
    }
    fn run(&self, env: &mut Env, case: &C01Case) -> Res {
        let mut c = case.rc.clone();
        let mut m = accept(&c.ops).1;
        classify(env, &c, &m);
        if case.uni {
            c.ops = unicode_ops(&c.ops);
            for r in &mut c.reqs {
                r.path = unicode(&r.path);
            }
            m = accept(&c.ops).1;
        }
        let mut names = param_names(&m);
        for n in ["nope", "id", ":id", ""] {
            if !names.iter().any(|x| x == n) {
                names.push(n.into());
            }
        }
        let rec = Arc::new(Rec::default());
        let parts = TypedParts { rec: rec.clone(), names: Arc::new(names.clone()) };
        let got = if case.uni {
            #[cfg(feature = "inproc")]
            {
                let r = build_router(&c.ops, &parts);
                observe_inproc(env, r, &rec, &c.reqs)?
            }
            #[cfg(not(feature = "inproc"))]
            return Err(Fail::Infra("built without the search API".into()));
        } else {
            observe(env, build_app(&c.ops, &parts), &rec, &c.reqs)?
        };
        for (r, o) in c.reqs.iter().zip(&got) {
            let Some(f) = m.resolve(r.m, &r.path) else { continue };
            let id = m.entries[f.entry].id();
            // which handler answers is C01's business
            if handlers(o) != [id] {
                env.label("answered by another handler");
                ensure!(o.status != 0, "{} {}: no answer: {}", method_name(r.m), r.path, o.body);
                continue;
            }
            env.nontrivial(!f.params.is_empty());
            let text = |n: &String| f.params.iter().find(|p| &p.0 == n).map(|p| p.1.as_str());
            let seen: Vec<_> = names.iter().map(text).collect();
            let want: Vec<Ev> = names.iter().map(|n| Ev::Note(format!("{n:?}={:?}", want_types(text(n))))).collect();
            let have: Vec<Ev> = o.events.iter().filter(|e| matches!(e, Ev::Note(s) if !s.starts_with("mw "))).cloned().collect();
            for (h, w) in have.iter().zip(&want) {
                ensure!(h == w, "{} {}: parameter {h:?}, expected {w:?}", method_name(r.m), r.path);
            }
            ensure!(have.len() == want.len(), "{} {}: parameters {have:?}, expected {want:?}", method_name(r.m), r.path);
            for e in &o.events {
                if let Ev::Note(s) = e {
                    if let Some(rest) = s.strip_prefix("mw ") {
                        let got = rest.split_once(' ').unwrap().1;
                        ensure!(got == format!("{seen:?}"), "{} {}: a middleware sees {got}, expected {seen:?} for {names:?}", method_name(r.m), r.path);
                    }
                }
            }
        }
        Ok(())
    }
}

// ================================================================== C05

pub struct C05;
impl Check for C05 {
    type Case = C01Case;
    fn id(&self) -> &'static str {
        "C05"
    }
    fn rule(&self) -> &'static str {
        "Apps with many root and path middlewares (paths equal to, above, below, beside and textual prefixes of routes; in nested routers; on parameter and wildcard paths), requests derived from all registered paths; the recorded sequence of middleware entries, handler and exits compared with the model. Non-trivial: a request that runs at least two middlewares while at least one other does not apply."
    }
    fn cases(&self) -> (u64, u64) {
        (80_000, 1_800_000)
    }
    fn strategy(&self, _t: bool) -> BoxedStrategy<C01Case> {
        let c = Cfg { mw_root_w: 3, mw_to_w: 16, mount_w: 4, twice_w: 1, max_ops: 16, many_mw: 1, ..Cfg::default() };
        (route_case(&c, 16), prop::bool::weighted(if cfg!(feature = "inproc") { 0.1 } else { 0.0 })).prop_map(|(rc, uni)| C01Case { rc, uni }).boxed()
    }
    fn run(&self, env: &mut Env, case: &C01Case) -> Res {
        let mut c = case.rc.clone();
        let mut m = accept(&c.ops).1;
        classify(env, &c, &m);
        if case.uni {
            c.ops = unicode_ops(&c.ops);
            for r in &mut c.reqs {
                r.path = unicode(&r.path);
            }
            m = accept(&c.ops).1;
        }
        let total = m.entries.iter().filter(|e| matches!(e.kind, Kind::Mw { .. })).count();
        let (parts, rec) = plain(&m);
        let got = if case.uni { run_inproc(env, &c, &parts, &rec)? } else { observe(env, build_app(&c.ops, &parts), &rec, &c.reqs)? };
        for (r, o) in c.reqs.iter().zip(&got) {
            let e = expected(&m, &parts.names, r);
            let n = e.events.iter().filter(|e| matches!(e, Ev::Enter(_))).count();
            env.label_if(n == 0 && total > 0, "no middleware applies");
            env.label_if(n > 4, "more than four middlewares");
            env.label_if(n > 30, "more than thirty middlewares");
            env.nontrivial(n > 1 && n < total);
            ensure!(
                mw_events(o) == mw_events(&e),
                "{} {}: ran {:?}, expected {:?}", method_name(r.m), r.path, mw_events(o), mw_events(&e)
            );
        }
        Ok(())
    }
}

// ================================================================== C07

/// The same registrations without any mounted router.
pub fn flatten(ops: &[Op], at: &str, out: &mut Vec<Op>) {
    let join = |p: &str| format!("{at}/{p}");
    for o in ops {
        match o {
            Op::Route { m, path, id } => out.push(Op::Route { m: *m, path: join(path), id: *id }),
            Op::Mw { path, id } => match path {
                None if at.is_empty() => out.push(o.clone()),
                p => out.push(Op::Mw { path: Some(join(p.as_deref().unwrap_or(""))), id: *id }),
            },
            Op::Static { vpath, dir, id } => match vpath {
                None if at.is_empty() => out.push(o.clone()),
                p => out.push(Op::Static { vpath: Some(join(p.as_deref().unwrap_or(dir))), dir: dir.clone(), id: *id }),
            },
            Op::Mount { path, ops, .. } => flatten(ops, &join(path), out),
            Op::Twice { path, path2, ops, more } => {
                flatten(ops, &join(path), out);
                flatten(more, &join(path), out);
                flatten(ops, &join(path2), out);
            }
        }
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C07Case {
    pub rc: RouteCase,
    /// paths below static directories to ask for
    pub files: Vec<String>,
}
pub struct C07;
impl Check for C07 {
    type Case = C07Case;
    fn id(&self) -> &'static str {
        "C07"
    }
    fn rule(&self) -> &'static str {
        "Trees of nested routers (mounted, scoped, cloned and mounted twice with later registrations on one copy; prefixes with parameters, root mounts, middlewares, static directories) built once with mounts and once flattened to full paths; responses, handlers, parameters and middleware order of all requests compared between the two (metamorphic), and with the model. Non-trivial: a request answered by a route of a mounted router."
    }
    fn cases(&self) -> (u64, u64) {
        (60_000, 1_200_000)
    }
    fn strategy(&self, _t: bool) -> BoxedStrategy<C07Case> {
        let c = Cfg { mw_root_w: 2, mw_to_w: 4, mount_w: 12, twice_w: 4, static_w: 1, max_ops: 8, ..Cfg::default() };
        (route_case(&c, 12), prop::collection::vec(prop_oneof![Just("f.txt".to_string()), Just("d/g.bin".to_string()), Just("none".to_string()), Just("".to_string())], 1..3))
            .prop_map(|(rc, files)| C07Case { rc, files })
            .boxed()
    }
    fn run(&self, env: &mut Env, case: &C07Case) -> Res {
        let mut rc = case.rc.clone();
        // static directories get real files, under directory names of this shard
        let has_static = accept(&rc.ops).1.entries.iter().any(|e| matches!(e.kind, Kind::Static { .. }));
        if has_static {
            let base = env.fresh_dir();
            let mut dirs = vec![];
            rebase(&mut rc.ops, &base, &mut dirs);
            for d in dirs {
                if std::fs::create_dir_all(format!("{d}/d")).is_ok() {
                    let _ = std::fs::write(format!("{d}/f.txt"), format!("text of {d}"));
                    let _ = std::fs::write(format!("{d}/d/g.bin"), b"\xff\x00bin");
                }
            }
        }
        let (ops, m) = accept(&rc.ops);
        let mut reqs = rc.reqs.clone();
        for e in &m.entries {
            if let Kind::Static { .. } = e.kind {
                let segs = instantiate(&e.segs, &["v".into()], &[]);
                for f in &case.files {
                    reqs.push(Req { m: 0, path: format!("/{}/{f}", segs.join("/")) });
                }
            }
        }
        let mut flat = vec![];
        flatten(&ops, "", &mut flat);
        let (flat_ok, fm) = accept(&flat);
        if flat_ok != flat {
            return Err(Fail::Infra(format!("flattened registrations not accepted: {flat:?}")));
        }
        classify(env, &RouteCase { ops: ops.clone(), reqs: reqs.clone() }, &m);
        let (parts, rec) = plain(&m);
        let nested = observe(env, build_app(&ops, &parts), &rec, &reqs)?;
        let (parts, rec) = plain(&m);
        let app = match catch_unwind(AssertUnwindSafe(|| build_app(&flat, &parts))) {
            Ok(a) => a,
            Err(_) => return violated(format!("the flat registrations {flat:?} are refused: {}", my_panic())),
        };
        let plain_obs = observe(env, app, &rec, &reqs)?;
        let own: BTreeSet<u32> = ops.iter().filter_map(|o| if let Op::Route { id, .. } = o { Some(*id) } else { None }).collect();
        for ((r, a), b) in reqs.iter().zip(&nested).zip(&plain_obs) {
            ensure!(a == b, "{} {}: {a:?} with mounted routers, {b:?} registered flat as {flat:?}", method_name(r.m), r.path);
            let f = m.resolve(r.m, &r.path);
            if let Some(f) = &f {
                let e = &m.entries[f.entry];
                if matches!(e.kind, Kind::Static { .. }) {
                    env.label(if a.status == 200 { "static file served" } else { "static file missing" });
                    continue;
                }
                env.nontrivial(!own.contains(&e.id()));
            }
            // both forms could be wrong in the same way
            let (e, e2) = (expected(&m, &parts.names, r), expected(&fm, &parts.names, r));
            if e != e2 {
                return Err(Fail::Infra(format!("model disagrees with itself: {e:?} {e2:?}")));
            }
            ensure!(a == &e, "{} {}: {a:?}, expected {e:?}", method_name(r.m), r.path);
        }
        Ok(())
    }
}
/// Puts every static directory below `base`.
fn rebase(ops: &mut [Op], base: &str, dirs: &mut Vec<String>) {
    for o in ops {
        match o {
            Op::Static { vpath, dir, .. } => {
                if vpath.is_none() || !dir.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'/') || dir.len() > 60 {
                    *vpath = Some(vpath.clone().unwrap_or_else(|| dir.clone()));
                    *dir = "pub".into();
                }
                *dir = format!("{base}/{dir}");
                dirs.push(dir.clone());
            }
            Op::Mount { ops, .. } => rebase(ops, base, dirs),
            Op::Twice { ops, more, .. } => {
                rebase(ops, base, dirs);
                rebase(more, base, dirs);
            }
            _ => {}
        }
    }
}

// ================================================================== C08

fn norm(p: &str, lead: bool) -> String {
    format!("{}{}", if lead { "/" } else { "" }, split(p).join("/"))
}
fn norm_ops(ops: &[Op], lead: bool) -> Vec<Op> {
    ops.iter()
        .map(|o| match o {
            Op::Route { m, path, id } => Op::Route { m: *m, path: norm(path, lead), id: *id },
            Op::Mw { path, id } => Op::Mw { path: path.as_deref().map(|p| norm(p, lead)), id: *id },
            Op::Mount { path, ops, scope } => Op::Mount { path: norm(path, lead), ops: norm_ops(ops, lead), scope: *scope },
            Op::Twice { path, path2, ops, more } => {
                Op::Twice { path: norm(path, lead), path2: norm(path2, lead), ops: norm_ops(ops, lead), more: norm_ops(more, lead) }
            }
            Op::Static { vpath, dir, id } => Op::Static { vpath: vpath.as_deref().map(|p| norm(p, lead)), dir: dir.clone(), id: *id },
        })
        .collect()
}
fn respell(p: &str, d: &Deco) -> String {
    d.join(&split(p))
}
/// Other spellings, drawn in turn from `ds`.
fn respell_ops(ops: &[Op], ds: &[Deco], k: &mut usize) -> Vec<Op> {
    fn next(p: &str, ds: &[Deco], k: &mut usize) -> String {
        *k += 1;
        respell(p, &ds[*k % ds.len()])
    }
    ops.iter()
        .map(|o| match o {
            Op::Route { m, path, id } => Op::Route { m: *m, path: next(path, ds, k), id: *id },
            Op::Mw { path, id } => Op::Mw { path: path.as_deref().map(|p| next(p, ds, k)), id: *id },
            Op::Mount { path, ops, scope } => Op::Mount { path: next(path, ds, k), ops: respell_ops(ops, ds, k), scope: *scope },
            o => o.clone(),
        })
        .collect()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C08Case {
    pub ops: Vec<Op>,
    /// the same registrations, spelt with other slashes
    pub ops2: Vec<Op>,
    pub reqs: Vec<Req>,
    pub decos: Vec<Deco>,
}
pub struct C08;
impl Check for C08 {
    type Case = C08Case;
    fn id(&self) -> &'static str {
        "C08"
    }
    fn rule(&self) -> &'static str {
        "Registration programs in normalised spelling and re-spelt with missing, doubled and trailing slashes (routes, middlewares, mounts, static), including registrations that must be refused; acceptance compared one by one, then every request in normalised and re-spelt form against both apps (metamorphic). Non-trivial: spelling differs and a re-spelt request is answered by a route."
    }
    fn cases(&self) -> (u64, u64) {
        (60_000, 1_200_000)
    }
    fn strategy(&self, _t: bool) -> BoxedStrategy<C08Case> {
        let c = Cfg { mw_root_w: 1, mw_to_w: 4, mount_w: 3, wild_p: 0.2, max_ops: 10, ..Cfg::default() };
        let deco = some_deco();
        (0usize..6, ops(&c), prop::collection::vec(req(), 1..12), prop::collection::vec(deco, 1..12), any::<bool>())
            .prop_map(|(theme, gs, rs, decos, lead)| {
                let raw = Resolver::new(theme).ops(&gs);
                // inner routers sound, top level as generated (conflicts included)
                let ops: Vec<Op> = norm_ops(&raw, lead)
                    .into_iter()
                    .map(|o| match o {
                        Op::Mount { path, ops, .. } => Op::Mount { path, ops: accept(&ops).0, scope: false },
                        o => o,
                    })
                    .collect();
                let ops2 = respell_ops(&ops, &decos, &mut 0);
                let m = accept(&ops).1;
                let mut reqs: Vec<Req> = rs.iter().map(|r| r.resolve(theme, &m)).collect();
                reqs.extend(canonical(&m));
                for r in &mut reqs {
                    r.path = norm(&r.path, true);
                }
                C08Case { ops, ops2, reqs, decos }
            })
            .boxed()
    }
    fn run(&self, env: &mut Env, c: &C08Case) -> Res {
        let m = accept(&c.ops).1;
        let mk = |ops: &[Op]| -> (App, Arc<Rec>, Vec<bool>) {
            let (parts, rec) = plain(&m);
            let mut app: App = App::new();
            let mut ok: Vec<&Op> = vec![];
            let mut verdicts = vec![];
            for o in ops {
                let good = catch_unwind(AssertUnwindSafe(|| apply(&mut app, o, &parts))).is_ok();
                verdicts.push(good);
                if good {
                    ok.push(o);
                } else {
                    app = App::new();
                    for o in &ok {
                        apply(&mut app, o, &parts);
                    }
                }
            }
            (app, rec, verdicts)
        };
        let (a, reca, va) = mk(&c.ops);
        let (b, recb, vb) = mk(&c.ops2);
        for (i, (x, y)) in va.iter().zip(&vb).enumerate() {
            ensure!(x == y, "{:?} is {}, {:?} is {}", c.ops[i], if *x { "accepted" } else { "refused" }, c.ops2[i], if *y { "accepted" } else { "refused" });
        }
        // each request normal, then re-spelt
        let mut reqs = vec![];
        for (i, r) in c.reqs.iter().enumerate() {
            reqs.push(r.clone());
            let d = &c.decos[i % c.decos.len()];
            let mut p = respell(&r.path, d);
            if !p.starts_with('/') {
                p.insert(0, '/');
            }
            reqs.push(Req { m: r.m, path: p });
        }
        let oa = observe(env, a, &reca, &reqs)?;
        let ob = observe(env, b, &recb, &reqs)?;
        for i in (0..reqs.len()).step_by(2) {
            let base = &oa[i];
            env.label_if(base.status == 200, "request answered by a route");
            env.label_if(va.contains(&false), "with refused registrations");
            env.nontrivial(base.status == 200 && c.ops != c.ops2 && reqs[i].path != reqs[i + 1].path);
            for (o, w) in [(&oa[i + 1], "the re-spelt request"), (&ob[i], "the re-spelt registration"), (&ob[i + 1], "both re-spelt")] {
                ensure!(o == base, "{} {} (re-spelt {}): {base:?}, but {o:?} with {w}: {:?}", method_name(reqs[i].m), reqs[i].path, reqs[i + 1].path, c.ops2);
            }
        }
        Ok(())
    }
}

