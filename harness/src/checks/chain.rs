//! C06: middleware chains against an interpreter. C15 and C21 use the same programs.
use crate::core::*;
use crate::ensure;
use crate::server::*;
use async_trait::async_trait;
use obsidian::context::Context;
use obsidian::middleware::Middleware;
use obsidian::router::{FormError, Response, Router};
use obsidian::{App, ContextResult, EndpointExecutor, ObsidianError, StatusCode};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::{Arc, Mutex};

/// An error a part may end with.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum ErrG {
    General(String),
    Param(String),
    FormMsg(String),
    FormNone,
    None,
    /// serde_json error from parsing this (invalid) text as i32
    Json(String),
}
impl ErrG {
    pub fn make(&self) -> ObsidianError {
        match self {
            ErrG::General(s) => ObsidianError::GeneralError(s.clone()),
            ErrG::Param(s) => ObsidianError::ParamError(s.clone()),
            ErrG::FormMsg(s) => ObsidianError::FormError(FormError::Message(s.clone())),
            ErrG::FormNone => ObsidianError::from(FormError::NoneError),
            ErrG::None => ObsidianError::NoneError,
            ErrG::Json(s) => match serde_json::from_str::<i32>(s) {
                Err(e) => e.into(),
                Ok(_) => ObsidianError::GeneralError("valid".into()),
            },
        }
    }
}
/// The documented message of an error, without asking the code under test.
#[allow(unreachable_patterns)]
pub fn text_of(e: &ObsidianError) -> String {
    match e {
        ObsidianError::GeneralError(s) | ObsidianError::ParamError(s) => s.clone(),
        ObsidianError::FormError(FormError::Message(s)) => s.clone(),
        ObsidianError::FormError(FormError::NoneError) | ObsidianError::NoneError => "Input should not be None".into(),
        ObsidianError::JsonError(e) => e.to_string(),
        e => e.to_string(),
    }
}
pub fn message() -> impl Strategy<Value = String> {
    prop_oneof![
        4 => "[ -~]{0,40}",
        1 => "\\PC{0,30}",
        1 => Just(String::new()),
        1 => "[a-z\r\n\t\0]{1,20}",
        1 => (1usize..20000).prop_map(|n| "long ".repeat(n / 5 + 1)),
        1 => prop::sample::select(vec!["404 Not Found", "Input should not be None", "<b>&amp;</b>", "{}", "%s", "null", "200"]).prop_map(|s| s.to_string()),
    ]
}
pub fn err() -> impl Strategy<Value = ErrG> {
    prop_oneof![
        3 => message().prop_map(ErrG::General),
        2 => message().prop_map(ErrG::Param),
        2 => message().prop_map(ErrG::FormMsg),
        1 => Just(ErrG::FormNone),
        1 => Just(ErrG::None),
        2 => prop::sample::select(vec!["", "{", "[1,", "\"x\"", "1.5", "nul", "99999999999", "1 2"]).prop_map(|s| ErrG::Json(s.to_string())),
    ]
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Act {
    Pass,
    /// sets (replaces) request header x-a<i>
    Header(u8, u8),
    /// appends a second value to request header x-a<i>
    AppendHeader(u8, u8),
    DropHeader(u8),
    /// stores typed data
    Store(u8, u32),
    /// stores data of a type from the standard library or hyper
    StoreStd(u8, u32),
    /// takes stored data of such a type away
    TakeStd(u8),
    /// changes stored data in place
    Bump(u32),
    /// takes the body away and stores its length
    Eat,
    /// puts a response there before going on
    Early(u16, String),
    /// builds one in one of the ways of `built` before going on
    EarlyBy(u8, u16, String),
    /// answers without going on
    Answer(u16, String),
    /// answers with whatever response is there
    AnswerAsIs,
    Fail(ErrG),
    // after the rest came back successfully:
    Status(u16),
    RespHeader(u8, u8),
    Replace(u16, String),
    /// replaces it with one made in another way (see `built`)
    ReplaceBy(u8, u16, String),
    Unset,
    FailAfter(ErrG),
    // after the rest failed:
    Rename(String),
    /// both directions
    Both(u8, u8, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum End {
    Text(u16, String),
    /// built in one of the ways of `built`
    By(u8, u16, String),
    /// keeps whatever response is there
    Keep,
    Fail(ErrG),
    /// answers with what it sees of headers, data and body
    Echo,
    Param(String),
}

/// `reg` says where the middleware at position i of the path hierarchy is registered.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Program {
    /// per level 0 (root) to depth: the actions of its middlewares, in order
    pub levels: Vec<Vec<Act>>,
    pub end: End,
    /// level at which the rest is put into a mounted router
    pub mount: Option<u8>,
    pub body: String,
    pub headers: Vec<(u8, u8)>,
    pub m: u8,
    /// every part also notes the whole request head
    #[serde(default)]
    pub full: bool,
}

const VALS: [&str; 8] = ["v0", "v1", "other", "x y", "1", "", "a,b", "long-value-long-value-long-value"];

#[derive(Clone, Debug, PartialEq)]
struct D1(u32);
#[derive(Clone, Debug, PartialEq)]
struct D2(u32);
#[derive(Clone, Debug, PartialEq)]
struct Eaten(usize);

pub fn status() -> impl Strategy<Value = u16> {
    prop_oneof![4 => prop::sample::select(vec![200u16, 201, 202, 302, 400, 401, 403, 404, 418, 500, 503]), 1 => (206u16..600).prop_map(|s| if s == 304 || s == 205 { 299 } else { s })]
}
fn body_text() -> impl Strategy<Value = String> {
    prop_oneof![4 => "[a-z ]{0,12}", 1 => "\\PC{0,12}", 1 => (1usize..30000).prop_map(|n| "0123456789".repeat(n / 10 + 1))]
}
fn act() -> impl Strategy<Value = Act> {
    prop_oneof![
        5 => Just(Act::Pass),
        3 => (0u8..3, 0u8..8).prop_map(|(a, b)| Act::Header(a, b)),
        2 => (0u8..3, 0u8..8).prop_map(|(a, b)| Act::AppendHeader(a, b)),
        1 => (0u8..3).prop_map(Act::DropHeader),
        2 => (0u8..2, any::<u32>()).prop_map(|(a, b)| Act::Store(a, b)),
        2 => (0u8..STD as u8, 0u32..100_000).prop_map(|(t, v)| Act::StoreStd(t, v)),
        1 => (0u8..STD as u8).prop_map(Act::TakeStd),
        2 => (1u32..1000).prop_map(Act::Bump),
        1 => Just(Act::Eat),
        1 => (status(), body_text()).prop_map(|(a, b)| Act::Early(a, b)),
        1 => (status(), body_text()).prop_map(|(a, b)| Act::Answer(a, b)),
        2 => (0u8..6, status(), body_text()).prop_map(|(k, a, b)| Act::EarlyBy(k, a, b)),
        2 => (0u8..6, status(), body_text()).prop_map(|(k, a, b)| Act::ReplaceBy(k, a, b)),
        1 => Just(Act::AnswerAsIs),
        1 => err().prop_map(Act::Fail),
        3 => status().prop_map(Act::Status),
        3 => (0u8..3, 0u8..8).prop_map(|(a, b)| Act::RespHeader(a, b)),
        2 => (status(), body_text()).prop_map(|(a, b)| Act::Replace(a, b)),
        1 => Just(Act::Unset),
        1 => err().prop_map(Act::FailAfter),
        2 => message().prop_map(Act::Rename),
        2 => (0u8..3, 0u8..8, 0u8..8).prop_map(|(a, b, c)| Act::Both(a, b, c)),
    ]
}
pub fn end() -> impl Strategy<Value = End> {
    prop_oneof![
        4 => (status(), body_text()).prop_map(|(a, b)| End::Text(a, b)),
        2 => (0u8..6, status(), body_text()).prop_map(|(k, a, b)| End::By(k, a, b)),
        2 => Just(End::Keep),
        2 => err().prop_map(End::Fail),
        4 => Just(End::Echo),
        1 => "[a-z]{0,5}".prop_map(End::Param),
    ]
}
pub fn program() -> BoxedStrategy<Program> {
    let level = prop_oneof![3 => prop::collection::vec(act(), 0..3), 1 => prop::collection::vec(act(), 3..8), 1 => prop::collection::vec(Just(Act::Pass), 0..30)];
    (
        prop::collection::vec(level, 1..6),
        end(),
        prop_oneof![2 => Just(None), 1 => (0u8..6).prop_map(Some)],
        prop_oneof![2 => Just(String::new()), 2 => "[a-z]{1,30}", 1 => (1usize..40000).prop_map(|n| "b".repeat(n))],
        prop::collection::vec((0u8..3, 0u8..8), 0..4),
        0u8..5,
    )
        .prop_map(|(levels, end, mount, body, headers, m)| Program { levels, end, mount, body, headers, m, full: false })
        .boxed()
}

// ------------------------------------------------------------------ the real thing

pub type Log = Arc<Mutex<Vec<String>>>;

fn see_headers(ctx: &Context) -> Vec<Vec<String>> {
    (0..3).map(|i| ctx.headers().get_all(format!("x-a{i}")).iter().map(|v| String::from_utf8_lossy(v.as_bytes()).into_owned()).collect()).collect()
}
fn see_data(ctx: &Context) -> (Option<u32>, Option<u32>, Option<usize>) {
    (ctx.get::<D1>().map(|d| d.0), ctx.get::<D2>().map(|d| d.0), ctx.get::<Eaten>().map(|d| d.0))
}
fn see_resp(ctx: &Context) -> Option<(u16, Vec<(String, String)>)> {
    ctx.response().as_ref().map(|r| {
        (
            r.status().as_u16(),
            last_values(r.headers().as_ref().map(|h| h.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect()).unwrap_or_default()),
        )
    })
}
/// the value set last for every name, sorted
fn last_values(headers: Vec<(String, String)>) -> Vec<(String, String)> {
    let mut h: Vec<(String, String)> = vec![];
    for (k, v) in headers {
        h.retain(|x| x.0 != k);
        h.push((k, v));
    }
    h.sort();
    h
}
pub const STD: usize = 14;
fn base_instant() -> std::time::Instant {
    static B: std::sync::OnceLock<std::time::Instant> = std::sync::OnceLock::new();
    *B.get_or_init(std::time::Instant::now)
}
fn secs(v: u32) -> std::time::Duration {
    std::time::Duration::from_secs(v as u64)
}
fn store_std(ctx: &mut Context, t: u8, v: u32) {
    match t as usize % STD {
        0 => ctx.add(v),
        1 => ctx.add(v as u64),
        2 => ctx.add(v as usize),
        3 => ctx.add(v as i32),
        4 => ctx.add(v.to_string()),
        5 => ctx.add(Vec::<u8>::from(v.to_string())),
        6 => ctx.add(secs(v)),
        7 => ctx.add(base_instant() + secs(v)),
        8 => ctx.add(std::time::UNIX_EPOCH + secs(v)),
        9 => ctx.add(Some(v)),
        10 => ctx.add(std::collections::HashMap::<String, String>::from([("v".to_string(), v.to_string())])),
        11 => ctx.add(hyper::Method::from_bytes(format!("M{v}").as_bytes()).unwrap()),
        12 => ctx.add(format!("/{v}").parse::<hyper::Uri>().unwrap()),
        _ => ctx.add(Arc::new(v)),
    }
}
fn get_std(ctx: &Context, t: u8) -> Option<u32> {
    match t as usize % STD {
        0 => ctx.get::<u32>().copied(),
        1 => ctx.get::<u64>().map(|v| *v as u32),
        2 => ctx.get::<usize>().map(|v| *v as u32),
        3 => ctx.get::<i32>().map(|v| *v as u32),
        4 => ctx.get::<String>().map(|v| v.parse().unwrap_or(u32::MAX)),
        5 => ctx.get::<Vec<u8>>().map(|v| String::from_utf8_lossy(v).parse().unwrap_or(u32::MAX)),
        6 => ctx.get::<std::time::Duration>().map(|v| v.as_secs() as u32),
        7 => ctx.get::<std::time::Instant>().map(|v| v.checked_duration_since(base_instant()).filter(|d| d.subsec_nanos() == 0).map_or(u32::MAX, |d| d.as_secs() as u32)),
        8 => ctx.get::<std::time::SystemTime>().map(|v| v.duration_since(std::time::UNIX_EPOCH).map_or(u32::MAX, |d| d.as_secs() as u32)),
        9 => ctx.get::<Option<u32>>().map(|v| v.unwrap_or(u32::MAX)),
        10 => ctx.get::<std::collections::HashMap<String, String>>().map(|v| v.get("v").and_then(|v| v.parse().ok()).unwrap_or(u32::MAX)),
        11 => ctx.get::<hyper::Method>().map(|v| v.as_str()[1..].parse().unwrap_or(u32::MAX)),
        12 => ctx.get::<hyper::Uri>().map(|v| v.path()[1..].parse().unwrap_or(u32::MAX)),
        _ => ctx.get::<Arc<u32>>().map(|v| **v),
    }
}
fn take_std(ctx: &mut Context, t: u8) {
    let e = ctx.extensions_mut();
    match t as usize % STD {
        0 => drop(e.remove::<u32>()),
        1 => drop(e.remove::<u64>()),
        2 => drop(e.remove::<usize>()),
        3 => drop(e.remove::<i32>()),
        4 => drop(e.remove::<String>()),
        5 => drop(e.remove::<Vec<u8>>()),
        6 => drop(e.remove::<std::time::Duration>()),
        7 => drop(e.remove::<std::time::Instant>()),
        8 => drop(e.remove::<std::time::SystemTime>()),
        9 => drop(e.remove::<Option<u32>>()),
        10 => drop(e.remove::<std::collections::HashMap<String, String>>()),
        11 => drop(e.remove::<hyper::Method>()),
        12 => drop(e.remove::<hyper::Uri>()),
        _ => drop(e.remove::<Arc<u32>>()),
    }
}
/// data of standard types: index and value of those present
fn see_std(ctx: &Context) -> Vec<(u8, u32)> {
    (0..STD as u8).filter_map(|t| get_std(ctx, t).map(|v| (t, v))).collect()
}
fn see_full(ctx: &Context, full: bool) -> String {
    if !full {
        return String::new();
    }
    let h: Vec<(String, String)> = ctx.headers().iter().map(|(n, v)| (n.to_string(), String::from_utf8_lossy(v.as_bytes()).into_owned())).collect();
    format!(" {} {} {h:?}", ctx.method(), ctx.uri())
}

/// Builds a response, over whatever is there, in ways that set few or no headers and statuses.
fn built(ctx: Context, kind: u8, s: u16, b: &str) -> ContextResult {
    let st = StatusCode::from_u16(s).unwrap();
    match kind % 6 {
        0 => ctx.build((st, b.to_string())).ok(),
        1 => ctx.build(st).ok(),
        2 => ctx.build(()).ok(),
        3 => ctx.build_json(b).ok(),
        4 => ctx.build(None::<String>).ok(),
        _ => ctx.build(()).with_header_str("x-r1", "built").with_status(st).ok(),
    }
}
fn built_model(kind: u8, s: u16, b: &str) -> MResp {
    let (status, headers, body): (u16, Vec<(&str, &str)>, String) = match kind % 6 {
        0 => (s, vec![], b.into()),
        1 => (s, vec![], String::new()),
        2 => (200, vec![], String::new()),
        3 => (200, vec![("content-type", "application/json")], serde_json::to_string(b).unwrap()),
        4 => (404, vec![], "Not Found".into()),
        _ => (s, vec![("x-r1", "built")], String::new()),
    };
    MResp { status, headers: headers.into_iter().map(|(k, v)| (k.to_string(), v.to_string())).collect(), body }
}

pub struct ActMw {
    pub k: usize,
    pub act: Act,
    pub log: Log,
    pub full: bool,
}
fn hname(i: u8) -> hyper::header::HeaderName {
    hyper::header::HeaderName::from_bytes(format!("x-a{i}").as_bytes()).unwrap()
}
fn hval(i: u8) -> hyper::header::HeaderValue {
    hyper::header::HeaderValue::from_static(VALS[i as usize])
}
fn rname(i: u8) -> &'static str {
    ["x-r0", "x-r1", "content-type"][i as usize % 3]
}
#[async_trait]
impl Middleware for ActMw {
    async fn handle<'a>(&'a self, mut ctx: Context, ex: EndpointExecutor<'a>) -> ContextResult {
        let log = |s: String| self.log.lock().unwrap().push(s);
        let view = |ctx: &Context| format!("{:?} {:?} {:?} {:?}{}", see_headers(ctx), see_data(ctx), see_std(ctx), see_resp(ctx), see_full(ctx, self.full));
        log(format!("enter {} {}", self.k, view(&ctx)));
        match &self.act {
            Act::Header(i, v) | Act::Both(i, v, _) => {
                ctx.headers_mut().insert(hname(*i), hval(*v));
            }
            Act::AppendHeader(i, v) => {
                ctx.headers_mut().append(hname(*i), hval(*v));
            }
            Act::DropHeader(i) => {
                ctx.headers_mut().remove(hname(*i));
            }
            Act::Store(0, v) => ctx.add(D1(*v)),
            Act::Store(_, v) => ctx.add(D2(*v)),
            Act::StoreStd(t, v) => store_std(&mut ctx, *t, *v),
            Act::TakeStd(t) => take_std(&mut ctx, *t),
            Act::Bump(n) => {
                if let Some(d) = ctx.get_mut::<D1>() {
                    d.0 = d.0.wrapping_add(*n);
                }
            }
            Act::Eat => {
                let b = hyper::body::to_bytes(ctx.take_body()).await.map(|b| b.len()).unwrap_or(usize::MAX);
                ctx.add(Eaten(b));
            }
            Act::Early(s, b) => {
                *ctx.response_mut() = Some(Response::new(b.clone()).set_status(StatusCode::from_u16(*s).unwrap()));
            }
            Act::EarlyBy(k, s, b) => ctx = built(ctx, *k, *s, b)?,
            Act::Answer(s, b) => {
                log(format!("exit {}", self.k));
                return ctx.build(b.clone()).with_status(StatusCode::from_u16(*s).unwrap()).ok();
            }
            Act::AnswerAsIs => {
                log(format!("exit {}", self.k));
                return Ok(ctx);
            }
            Act::Fail(e) => {
                log(format!("exit {}", self.k));
                return Err(e.make());
            }
            _ => {}
        }
        match ex.next(ctx).await {
            Ok(mut ctx) => {
                log(format!("back {} {}", self.k, view(&ctx)));
                match &self.act {
                    Act::Status(s) => {
                        if let Some(r) = ctx.response_mut() {
                            *r.status_mut() = StatusCode::from_u16(*s).unwrap();
                        }
                    }
                    Act::RespHeader(i, v) | Act::Both(i, _, v) => {
                        if let Some(r) = ctx.response_mut().take() {
                            *ctx.response_mut() = Some(r.set_header_str(rname(*i), VALS[*v as usize]));
                        }
                    }
                    Act::Replace(s, b) => return ctx.build(b.clone()).with_status(StatusCode::from_u16(*s).unwrap()).ok(),
                    Act::ReplaceBy(k, s, b) => return built(ctx, *k, *s, b),
                    Act::Unset => *ctx.response_mut() = None,
                    Act::FailAfter(e) => return Err(e.make()),
                    _ => {}
                }
                Ok(ctx)
            }
            Err(e) => {
                log(format!("failed {} {e:?} {e}", self.k));
                match &self.act {
                    Act::Rename(s) => Err(ObsidianError::GeneralError(s.clone())),
                    _ => Err(e),
                }
            }
        }
    }
}
pub async fn run_end(end: End, log: Log, full: bool, mut ctx: Context) -> ContextResult {
    log.lock().unwrap().push(format!("handler {:?} {:?} {:?} {:?}{}", see_headers(&ctx), see_data(&ctx), see_std(&ctx), see_resp(&ctx), see_full(&ctx, full)));
    match end {
        End::Text(s, b) => ctx.build(b).with_status(StatusCode::from_u16(s).unwrap()).ok(),
        End::By(k, s, b) => built(ctx, k, s, &b),
        End::Keep => Ok(ctx),
        End::Fail(e) => Err(e.make()),
        End::Echo => {
            let b = hyper::body::to_bytes(ctx.take_body()).await.map_err(|e| ObsidianError::GeneralError(e.to_string()))?;
            let s = format!("{:?} {:?} {:?}", see_headers(&ctx), see_data(&ctx), b);
            ctx.build(s).ok()
        }
        End::Param(n) => {
            let v: u64 = ctx.param(&n)?;
            ctx.build(v.to_string()).ok()
        }
    }
}

pub fn level_path(l: usize) -> String {
    ["/", "/a", "/a/:p", "/a/:p/c", "/a/:p/c/dd", "/a/:p/c/dd/e"][l].to_string()
}
const REQ_PATH: [&str; 6] = ["/", "/a", "/a/7", "/a/7/c", "/a/7/c/dd", "/a/7/c/dd/e"];

/// wrap: middlewares put around and between the others (for C21): (level, position)
pub fn build_program<T: Clone + Send + Sync + 'static>(app: &mut App<T>, p: &Program, log: &Log, extra: &dyn Fn(usize, usize) -> usize, mk_extra: &dyn Fn() -> crate::spec::AnyMw) {
    use crate::spec::Reg;
    let depth = p.levels.len() - 1;
    let mount = p.mount.map(|m| m as usize).filter(|m| *m >= 1 && *m <= depth);
    let mut sub = Router::new();
    let rel = |l: usize| -> String {
        let m = mount.unwrap();
        level_path(l)[level_path(m).len()..].to_string()
    };
    let mut k = 0;
    for (l, acts) in p.levels.iter().enumerate() {
        let in_sub = mount.map_or(false, |m| l >= m);
        let path = if in_sub { rel(l) } else { level_path(l) };
        let target: &mut dyn Reg = if in_sub { &mut sub } else { app };
        // root-level middlewares through use_service, others by path
        let root = path.is_empty() || path == "/";
        for i in 0..=acts.len() {
            for _ in 0..extra(l, i) {
                target.mw(if root { None } else { Some(&path) }, mk_extra());
            }
            if let Some(a) = acts.get(i) {
                target.mw(if root && i % 2 == 0 { None } else { Some(&path) }, crate::spec::AnyMw(Box::new(ActMw { k, act: a.clone(), log: log.clone(), full: p.full })));
                k += 1;
            }
        }
    }
    let end = p.end.clone();
    let (lg, full) = (log.clone(), p.full);
    let h: Box<dyn Fn(Context) -> crate::spec::BoxFut + Send + Sync> = Box::new(move |ctx| Box::pin(run_end(end.clone(), lg.clone(), full, ctx)));
    let in_sub = mount.is_some();
    let path = if in_sub { rel(depth) } else { level_path(depth) };
    if in_sub {
        sub.route(p.m, &path, h);
        Reg::mount(app, &level_path(mount.unwrap()), sub);
    } else {
        app.route(p.m, &path, h);
    }
}

pub fn program_request(p: &Program) -> Vec<u8> {
    let mut headers: Vec<(String, String)> = vec![("host".into(), "t".into())];
    for (i, v) in &p.headers {
        headers.push((format!("x-a{i}"), VALS[*v as usize].into()));
    }
    let framing = if p.body.is_empty() { Framing::None } else { Framing::Length };
    noisy_bytes(crate::model::METHODS[p.m as usize], REQ_PATH[p.levels.len() - 1], &headers, p.body.as_bytes(), &framing)
}

// ------------------------------------------------------------------ the interpreter

#[derive(Clone, Debug, Default)]
struct St {
    headers: Vec<Vec<String>>,
    d1: Option<u32>,
    d2: Option<u32>,
    eaten: Option<usize>,
    std: std::collections::BTreeMap<u8, u32>,
    body: String,
    resp: Option<MResp>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct MResp {
    pub status: u16,
    pub headers: Vec<(String, String)>,
    pub body: String,
}
impl St {
    fn view(&self) -> String {
        let r = self.resp.as_ref().map(|r| (r.status, last_values(r.headers.clone())));
        let std: Vec<(u8, u32)> = self.std.iter().map(|(t, v)| (*t, *v)).collect();
        format!("{:?} {:?} {std:?} {:?}", self.headers, (self.d1, self.d2, self.eaten), r)
    }
}
fn text_resp(s: u16, b: &str) -> MResp {
    MResp { status: s, headers: vec![("content-type".into(), "text/plain; charset=utf-8".into())], body: b.into() }
}
fn interp(acts: &[(usize, Act)], end: &End, mut st: St, log: &mut Vec<String>) -> Result<St, ObsidianError> {
    let Some(((k, act), rest)) = acts.split_first() else {
        log.push(format!("handler {}", st.view()));
        return match end {
            End::Text(s, b) => {
                st.resp = Some(text_resp(*s, b));
                Ok(st)
            }
            End::By(k, s, b) => {
                st.resp = Some(built_model(*k, *s, b));
                Ok(st)
            }
            End::Keep => Ok(st),
            End::Fail(e) => Err(e.make()),
            End::Echo => {
                let b = hyper::body::Bytes::from(std::mem::take(&mut st.body));
                let s = format!("{:?} {:?} {:?}", st.headers, (st.d1, st.d2, st.eaten), b);
                st.resp = Some(text_resp(200, &s));
                Ok(st)
            }
            End::Param(n) => {
                // the only parameter is p = 7, if the route has it (checked by the caller)
                let _ = n;
                Err(ObsidianError::NoneError)
            }
        };
    };
    log.push(format!("enter {k} {}", st.view()));
    match act {
        Act::Header(i, v) | Act::Both(i, v, _) => st.headers[*i as usize] = vec![VALS[*v as usize].into()],
        Act::AppendHeader(i, v) => st.headers[*i as usize].push(VALS[*v as usize].into()),
        Act::DropHeader(i) => st.headers[*i as usize].clear(),
        Act::Store(0, v) => st.d1 = Some(*v),
        Act::Store(_, v) => st.d2 = Some(*v),
        Act::StoreStd(t, v) => drop(st.std.insert(t % STD as u8, *v)),
        Act::TakeStd(t) => drop(st.std.remove(&(t % STD as u8))),
        Act::Bump(n) => st.d1 = st.d1.map(|d| d.wrapping_add(*n)),
        Act::Eat => st.eaten = Some(std::mem::take(&mut st.body).len()),
        Act::Early(s, b) => st.resp = Some(MResp { status: *s, headers: vec![], body: b.clone() }),
        Act::EarlyBy(k, s, b) => st.resp = Some(built_model(*k, *s, b)),
        Act::Answer(s, b) => {
            log.push(format!("exit {k}"));
            st.resp = Some(text_resp(*s, b));
            return Ok(st);
        }
        Act::AnswerAsIs => {
            log.push(format!("exit {k}"));
            return Ok(st);
        }
        Act::Fail(e) => {
            log.push(format!("exit {k}"));
            return Err(e.make());
        }
        _ => {}
    }
    match interp(rest, end, st, log) {
        Ok(mut st) => {
            log.push(format!("back {k} {}", st.view()));
            match act {
                Act::Status(s) => {
                    if let Some(r) = &mut st.resp {
                        r.status = *s;
                    }
                }
                Act::RespHeader(i, v) | Act::Both(i, _, v) => {
                    if let Some(r) = &mut st.resp {
                        r.headers.push((rname(*i).into(), VALS[*v as usize].into()));
                    }
                }
                Act::Replace(s, b) => st.resp = Some(text_resp(*s, b)),
                Act::ReplaceBy(k, s, b) => st.resp = Some(built_model(*k, *s, b)),
                Act::Unset => st.resp = None,
                Act::FailAfter(e) => return Err(e.make()),
                _ => {}
            }
            Ok(st)
        }
        Err(e) => {
            log.push(format!("failed {k} {e:?} {}", text_of(&e)));
            Err(match act {
                Act::Rename(s) => ObsidianError::GeneralError(s.clone()),
                _ => e,
            })
        }
    }
}

/// What the client must receive, and what the parts must see.
pub fn predict(p: &Program) -> (MResp, Vec<String>) {
    let mut st = St { headers: vec![vec![]; 3], body: p.body.clone(), ..St::default() };
    for (i, v) in &p.headers {
        st.headers[*i as usize].push(VALS[*v as usize].into());
    }
    let acts: Vec<(usize, Act)> = p.levels.iter().flatten().cloned().enumerate().collect();
    let mut log = vec![];
    let end = match &p.end {
        End::Param(n) if n == "p" && p.levels.len() > 2 => End::Text(200, "7".into()),
        e => e.clone(),
    };
    let r = match interp(&acts, &end, st, &mut log) {
        Ok(st) => match st.resp {
            Some(mut r) => {
                // the value set last wins
                r.headers = last_values(r.headers);
                r
            }
            None => MResp { status: 200, headers: vec![], body: String::new() },
        },
        Err(e) => MResp { status: 500, headers: vec![], body: text_of(&e) },
    };
    (r, log)
}

pub struct C06;
impl Check for C06 {
    type Case = Program;
    fn id(&self) -> &'static str {
        "C06"
    }
    fn rule(&self) -> &'static str {
        "Chains of 0-100 middlewares spread over up to six path levels and mounted routers, each with one of 20 behaviours (pass, change request headers, typed data (own and standard types) or body, preset, answer, fail, change, replace or drop the response, fail afterwards, rename the error), and a handler outcome; the order and the view of every step and the client's response compared with an interpreter. Non-trivial: at least two middlewares, one of which does not simply pass."
    }
    fn cases(&self) -> (u64, u64) {
        (180_000, 4_000_000)
    }
    fn strategy(&self, _t: bool) -> BoxedStrategy<Program> {
        program()
    }
    fn run(&self, env: &mut Env, p: &Program) -> Res {
        let log: Log = Default::default();
        let mut app: App = App::new();
        build_program(&mut app, p, &log, &|_, _| 0, &|| unreachable!());
        let run = env.srv.start(app)?;
        let r = roundtrips(run.port, &[program_request(p)])?.remove(0)?;
        let (want, wlog) = predict(p);
        let n: usize = p.levels.iter().map(|l| l.len()).sum();
        env.nontrivial(n > 1 && p.levels.iter().flatten().any(|a| *a != Act::Pass));
        env.label_if(n > 10, "more than ten middlewares");
        env.label_if(!wlog.iter().any(|l| l.starts_with("handler")), "handler not reached");
        env.label_if(want.status == 500, "answered 500");
        env.label_if(p.mount.is_some(), "with mounted router");
        let got = log.lock().unwrap().clone();
        for (g, w) in got.iter().zip(&wlog) {
            ensure!(g == w, "step {g:?}, expected {w:?}; all steps {got:?}");
        }
        ensure!(got.len() == wlog.len(), "steps {got:?}, expected {wlog:?}");
        ensure!(
            (r.status, r.app_headers(), r.text()) == (want.status, want.headers.clone(), want.body.clone()),
            "the client received {}, expected {want:?}", r.brief()
        );
        Ok(())
    }
}
