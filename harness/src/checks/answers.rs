//! C14, C15, C16, C21: what the client receives and what the handler sees.
use super::chain::{self, Log, Program};
use super::decode::B;
use crate::core::*;
use crate::ensure;
use crate::server::*;
use crate::spec::{AnyMw, BoxFut, Reg};
use hyper::header::HeaderName;
use obsidian::context::Context;
use obsidian::middleware::logger::Logger;
use obsidian::middleware::Middleware;
use obsidian::router::{Responder, Response, Router};
use obsidian::{App, ContextResult, EndpointExecutor, ObsidianError, StatusCode};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap};
use std::sync::{Arc, Mutex};

/// Builders want 'static texts.
pub fn leak(s: &str) -> &'static str {
    static POOL: Mutex<Option<HashMap<String, &'static str>>> = Mutex::new(None);
    let mut p = POOL.lock().unwrap();
    let m = p.get_or_insert_with(HashMap::new);
    if let Some(x) = m.get(s) {
        return x;
    }
    let l: &'static str = Box::leak(s.to_string().into_boxed_str());
    m.insert(s.to_string(), l);
    l
}

// ================================================================== C14

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Body14 {
    Unit,
    Text(String),
    Str(String),
    Bytes(Vec<u8>),
}
type Hdr = (String, String);
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Start {
    /// ctx.build(body)
    Plain(Body14),
    StatusOnly(u16),
    /// (StatusCode, body)
    Pair(u16, Body14),
    OptString(Option<String>),
    OptStr(Option<String>),
    /// body.with_status(..) etc., the Responder methods
    RStatus(Body14, u16),
    RHeader(Body14, Hdr),
    RHeaders(Body14, Vec<Hdr>),
    RHeadersStr(Body14, Vec<Hdr>),
    /// Response::new and steps
    Resp(Body14, Vec<Step>),
    Ok(Vec<Step>),
    Created(Vec<Step>),
    Ise(Vec<Step>),
    /// a Responder's response, changed further
    Respond(Body14, Vec<Step>),
    /// ctx.build_json
    Json(serde_json::Value),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Step {
    WithStatus(u16),
    SetStatus(u16),
    StatusMut(u16),
    SetBody(Body14),
    SetHeader(Hdr),
    WithHeader(Hdr),
    SetHeaderStr(Hdr),
    WithHeaderStr(Hdr),
    ContentType(String),
    SetHeaders(Vec<Hdr>),
    WithHeaders(Vec<Hdr>),
    SetHeadersStr(Vec<Hdr>),
    WithHeadersStr(Vec<Hdr>),
    HeadersMut(Hdr),
    Html(Body14),
    Json(serde_json::Value),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum BStep {
    Status(u16),
    Header(Hdr),
    HeaderStr(Hdr),
    Headers(Vec<Hdr>),
    HeadersStr(Vec<Hdr>),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Prog14 {
    pub start: Start,
    pub steps: Vec<BStep>,
    /// built on the same context first, and replaced
    #[serde(default)]
    pub first: Option<Box<Prog14>>,
}

fn hname(h: &Hdr) -> HeaderName {
    HeaderName::from_bytes(h.0.as_bytes()).expect("header name")
}
fn hs(v: &[Hdr]) -> Vec<(HeaderName, &'static str)> {
    v.iter().map(|h| (hname(h), leak(&h.1))).collect()
}
fn hss(v: &[Hdr]) -> Vec<(&'static str, &'static str)> {
    v.iter().map(|h| (leak(&h.0), leak(&h.1))).collect()
}
fn st(s: u16) -> StatusCode {
    StatusCode::from_u16(s).expect("status")
}
macro_rules! with_body {
    ($b:expr, $x:ident => $e:expr) => {
        match $b.clone() {
            Body14::Unit => { let $x = (); $e }
            Body14::Text(s) => { let $x = s; $e }
            Body14::Str(s) => { let $x: &'static str = leak(&s); $e }
            Body14::Bytes(v) => { let $x = v; $e }
        }
    };
}
fn steps(mut r: Response, v: &[Step]) -> Response {
    for s in v {
        r = match s {
            Step::WithStatus(c) => Response::with_status(r, st(*c)),
            Step::SetStatus(c) => r.set_status(st(*c)),
            Step::StatusMut(c) => {
                *r.status_mut() = st(*c);
                r
            }
            Step::SetBody(b) => with_body!(b, x => r.set_body(x)),
            Step::SetHeader(h) => r.set_header(hname(h), leak(&h.1)),
            Step::WithHeader(h) => Response::with_header(r, hname(h), leak(&h.1)),
            Step::SetHeaderStr(h) => r.set_header_str(leak(&h.0), leak(&h.1)),
            Step::WithHeaderStr(h) => r.with_header_str(leak(&h.0), leak(&h.1)),
            Step::ContentType(c) => r.set_content_type(leak(c)),
            Step::SetHeaders(v) => r.set_headers(hs(v)),
            Step::WithHeaders(v) => Response::with_headers(r, hs(v)),
            Step::SetHeadersStr(v) => r.set_headers_str(hss(v)),
            Step::WithHeadersStr(v) => Response::with_headers_str(r, hss(v)),
            Step::HeadersMut(h) => {
                r.headers_mut().get_or_insert_with(Vec::new).push((hname(h), leak(&h.1)));
                r
            }
            Step::Html(b) => with_body!(b, x => r.html(x)),
            Step::Json(v) => r.json(v),
        };
    }
    r
}
fn build14(ctx: Context, p: &Prog14) -> ContextResult {
    let ctx = match &p.first {
        Some(f) => build14(ctx, f)?,
        None => ctx,
    };
    let mut b = match &p.start {
        Start::Plain(b) => with_body!(b, x => ctx.build(x)),
        Start::StatusOnly(s) => ctx.build(st(*s)),
        Start::Pair(s, b) => with_body!(b, x => ctx.build((st(*s), x))),
        Start::OptString(o) => ctx.build(o.clone()),
        Start::OptStr(o) => ctx.build(o.as_deref().map(leak)),
        Start::RStatus(b, s) => with_body!(b, x => ctx.build(Responder::with_status(x, st(*s)))),
        Start::RHeader(b, h) => with_body!(b, x => ctx.build(Responder::with_header(x, hname(h), leak(&h.1)))),
        Start::RHeaders(b, v) => with_body!(b, x => ctx.build(Responder::with_headers(x, hs(v)))),
        Start::RHeadersStr(b, v) => with_body!(b, x => ctx.build(Responder::with_headers_str(x, hss(v)))),
        Start::Resp(b, v) => ctx.build(steps(with_body!(b, x => Response::new(x)), v)),
        Start::Ok(v) => ctx.build(steps(Response::ok(), v)),
        Start::Created(v) => ctx.build(steps(Response::created(), v)),
        Start::Ise(v) => ctx.build(steps(Response::internal_server_error(), v)),
        Start::Respond(b, v) => ctx.build(steps(with_body!(b, x => x.respond_to()), v)),
        Start::Json(v) => ctx.build_json(v),
    };
    for s in &p.steps {
        b = match s {
            BStep::Status(c) => b.with_status(st(*c)),
            BStep::Header(h) => b.with_header(hname(h), leak(&h.1)),
            BStep::HeaderStr(h) => b.with_header_str(leak(&h.0), leak(&h.1)),
            BStep::Headers(v) => b.with_headers(hs(v)),
            BStep::HeadersStr(v) => b.with_headers_str(hss(v)),
        };
    }
    b.ok()
}

/// The model: status, headers in the order they were set, body.
#[derive(Clone, Debug)]
struct M14 {
    status: u16,
    set: Vec<Hdr>,
    body: Vec<u8>,
}
fn body_bytes(b: &Body14) -> Vec<u8> {
    match b {
        Body14::Unit => vec![],
        Body14::Text(s) | Body14::Str(s) => s.as_bytes().to_vec(),
        // a list of bytes is sent as the JSON list
        Body14::Bytes(v) => format!("[{}]", v.iter().map(|b| b.to_string()).collect::<Vec<_>>().join(",")).into_bytes(),
    }
}
fn ct(s: &str) -> Hdr {
    ("content-type".into(), s.into())
}
const TEXT: &str = "text/plain; charset=utf-8";
fn responded(b: &Body14) -> M14 {
    let set = match b {
        Body14::Text(_) | Body14::Str(_) => vec![ct(TEXT)],
        _ => vec![],
    };
    M14 { status: 200, set, body: body_bytes(b) }
}
fn model14(p: &Prog14) -> M14 {
    let bare = |b: &Body14, s: u16, h: Vec<Hdr>| M14 { status: s, set: h, body: body_bytes(b) };
    fn go(mut m: M14, v: &[Step]) -> M14 {
        for s in v {
            match s {
                Step::WithStatus(c) | Step::SetStatus(c) | Step::StatusMut(c) => m.status = *c,
                Step::SetBody(b) => m.body = body_bytes(b),
                Step::SetHeader(h) | Step::WithHeader(h) | Step::SetHeaderStr(h) | Step::WithHeaderStr(h) | Step::HeadersMut(h) => m.set.push(h.clone()),
                Step::ContentType(c) => m.set.push(ct(c)),
                Step::SetHeaders(v) | Step::WithHeaders(v) | Step::SetHeadersStr(v) | Step::WithHeadersStr(v) => m.set.extend(v.iter().cloned()),
                Step::Html(b) => {
                    m.set.push(ct("text/html"));
                    m.body = body_bytes(b);
                }
                Step::Json(v) => {
                    m.set.push(ct("application/json"));
                    m.body = serde_json::to_vec(v).unwrap();
                }
            }
        }
        m
    }
    let mut m = match &p.start {
        Start::Plain(b) => responded(b),
        Start::StatusOnly(s) => bare(&Body14::Unit, *s, vec![]),
        Start::Pair(s, b) | Start::RStatus(b, s) => bare(b, *s, vec![]),
        Start::OptString(Some(s)) | Start::OptStr(Some(s)) => responded(&Body14::Text(s.clone())),
        Start::OptString(None) | Start::OptStr(None) => bare(&Body14::Text("Not Found".into()), 404, vec![]),
        Start::RHeader(b, h) => bare(b, 200, vec![h.clone()]),
        Start::RHeaders(b, v) | Start::RHeadersStr(b, v) => bare(b, 200, v.clone()),
        Start::Resp(b, v) => go(bare(b, 200, vec![]), v),
        Start::Ok(v) => go(bare(&Body14::Unit, 200, vec![]), v),
        Start::Created(v) => go(bare(&Body14::Unit, 201, vec![]), v),
        Start::Ise(v) => go(bare(&Body14::Unit, 500, vec![]), v),
        Start::Respond(b, v) => go(responded(b), v),
        Start::Json(v) => M14 { status: 200, set: vec![ct("application/json")], body: serde_json::to_vec(v).unwrap() },
    };
    for s in &p.steps {
        match s {
            BStep::Status(c) => m.status = *c,
            BStep::Header(h) | BStep::HeaderStr(h) => m.set.push(h.clone()),
            BStep::Headers(v) | BStep::HeadersStr(v) => m.set.extend(v.iter().cloned()),
        }
    }
    m
}
/// Each name once with its last value, sorted.
fn last_wins(set: &[Hdr]) -> Vec<Hdr> {
    let mut m = BTreeMap::new();
    for (k, v) in set {
        m.insert(k.to_ascii_lowercase(), v.clone());
    }
    m.into_iter().collect()
}

fn hdr() -> BoxedStrategy<Hdr> {
    let name = prop_oneof![
        6 => prop::sample::select(vec!["x-a", "X-A", "x-b", "x-C-d", "location", "cache-control", "set-cookie", "etag", "server", "vary", "authorization", "x-frame-options", "Content-Language", "access-control-allow-origin", "last-modified", "www-authenticate", "x-powered-by", "age", "accept", "host"]).prop_map(|s| s.to_string()),
        2 => Just("content-type".to_string()),
        1 => Just("Content-Type".to_string()),
        1 => "[a-zA-Z!#$%&'*+.^_`|~0-9-]{1,12}".prop_map(|s| format!("x-{s}")),
        1 => (1usize..300).prop_map(|n| format!("x-{}", "n".repeat(n))),
    ];
    let value = prop_oneof![
        4 => prop::sample::select(vec!["1", "", "text/html", "application/json", "text/plain; charset=utf-8", "image/png", "no-cache", "a=1; Path=/", "b=2", "*", "W/\"x\"", "/next?a=1", "2", "3"]).prop_map(|s| s.to_string()),
        2 => "[!-~]([ -~]{0,20}[!-~])?",
        1 => (1usize..3000).prop_map(|n| "v".repeat(n)),
    ];
    (name, value).boxed()
}
fn hdrs() -> BoxedStrategy<Vec<Hdr>> {
    prop_oneof![8 => prop::collection::vec(hdr(), 0..5), 1 => prop::collection::vec(hdr(), 5..30)].boxed()
}
fn any_status() -> BoxedStrategy<u16> {
    prop_oneof![5 => prop::sample::select(vec![200u16, 201, 202, 203, 206, 301, 302, 303, 307, 400, 401, 403, 404, 405, 409, 410, 418, 422, 429, 500, 501, 502, 503]), 1 => Just(204u16), 1 => Just(304u16), 2 => 200u16..1000].boxed()
}
fn body14() -> BoxedStrategy<Body14> {
    let text = prop_oneof![
        4 => "[ -~]{0,20}",
        2 => "\\PC{0,20}",
        1 => Just(String::new()),
        1 => prop::collection::vec(any::<char>(), 0..10).prop_map(|v| v.into_iter().collect::<String>()),
        1 => (prop::sample::select(vec![1usize, 100, 1023, 1024, 4096, 8191, 8192, 8193, 16384, 65535, 65536, 200_000, 1_000_000]), 0usize..3).prop_map(|(n, k)| "x".repeat(n + k)),
    ];
    let text = prop_oneof![6000 => text, 1 => prop::sample::select(vec![2_100_000usize, 4_300_000, 8_500_000, 17_000_000]).prop_map(|n| "y".repeat(n))].boxed();
    prop_oneof![
        1 => Just(Body14::Unit),
        4 => text.clone().prop_map(Body14::Text),
        3 => "[ -~]{0,20}".prop_map(Body14::Str),
        1 => "\\PC{0,20}".prop_map(Body14::Str),
        2 => prop::collection::vec(any::<u8>(), 0..20).prop_map(Body14::Bytes),
        1 => prop::collection::vec(any::<u8>(), 250..1200).prop_map(Body14::Bytes),
    ]
    .boxed()
}
fn small_json() -> BoxedStrategy<serde_json::Value> {
    prop_oneof![Just(serde_json::json!(null)), any::<i64>().prop_map(|n| serde_json::json!(n)), "\\PC{0,10}".prop_map(|s| serde_json::json!({ "k": s, "l": [1, "a", null] }))].boxed()
}
fn step14() -> BoxedStrategy<Step> {
    prop_oneof![
        1 => any_status().prop_map(Step::WithStatus),
        1 => any_status().prop_map(Step::SetStatus),
        1 => any_status().prop_map(Step::StatusMut),
        2 => body14().prop_map(Step::SetBody),
        2 => hdr().prop_map(Step::SetHeader),
        1 => hdr().prop_map(Step::WithHeader),
        1 => hdr().prop_map(Step::SetHeaderStr),
        1 => hdr().prop_map(Step::WithHeaderStr),
        1 => prop::sample::select(vec!["image/png", "text/css", "application/json"]).prop_map(|s| Step::ContentType(s.to_string())),
        1 => hdrs().prop_map(Step::SetHeaders),
        1 => hdrs().prop_map(Step::WithHeaders),
        1 => hdrs().prop_map(Step::SetHeadersStr),
        1 => hdrs().prop_map(Step::WithHeadersStr),
        1 => hdr().prop_map(Step::HeadersMut),
        1 => body14().prop_map(Step::Html),
        1 => small_json().prop_map(Step::Json),
    ]
    .boxed()
}
fn prog14() -> BoxedStrategy<Prog14> {
    let ss = || prop::collection::vec(step14(), 0..7);
    let start = prop_oneof![
        4 => body14().prop_map(Start::Plain),
        1 => any_status().prop_map(Start::StatusOnly),
        2 => (any_status(), body14()).prop_map(|(s, b)| Start::Pair(s, b)),
        1 => proptest::option::of("\\PC{0,12}").prop_map(Start::OptString),
        1 => proptest::option::of("[a-z]{0,12}").prop_map(Start::OptStr),
        1 => (body14(), any_status()).prop_map(|(b, s)| Start::RStatus(b, s)),
        1 => (body14(), hdr()).prop_map(|(b, s)| Start::RHeader(b, s)),
        1 => (body14(), hdrs()).prop_map(|(b, s)| Start::RHeaders(b, s)),
        1 => (body14(), hdrs()).prop_map(|(b, s)| Start::RHeadersStr(b, s)),
        3 => (body14(), ss()).prop_map(|(b, s)| Start::Resp(b, s)),
        1 => ss().prop_map(Start::Ok),
        1 => ss().prop_map(Start::Created),
        1 => ss().prop_map(Start::Ise),
        2 => (body14(), ss()).prop_map(|(b, s)| Start::Respond(b, s)),
        1 => small_json().prop_map(Start::Json),
    ];
    let bstep = prop_oneof![
        2 => any_status().prop_map(BStep::Status),
        2 => hdr().prop_map(BStep::Header),
        2 => hdr().prop_map(BStep::HeaderStr),
        1 => hdrs().prop_map(BStep::Headers),
        1 => hdrs().prop_map(BStep::HeadersStr),
    ];
    let one = (start, prop_oneof![2 => Just(vec![]), 3 => prop::collection::vec(bstep, 1..6)]).prop_map(|(start, steps)| Prog14 { start, steps, first: None }).boxed();
    prop_oneof![
        4 => one.clone(),
        1 => (one.clone(), one).prop_map(|(f, p)| Prog14 { first: Some(Box::new(f)), ..p }),
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C14Case {
    pub progs: Vec<Prog14>,
    pub order: Vec<u16>,
}
pub struct C14;
impl Check for C14 {
    type Case = C14Case;
    fn id(&self) -> &'static str {
        "C14"
    }
    fn rule(&self) -> &'static str {
        "Programs over every way the crate offers to build a response (15 starting points, 16 response steps, 5 builder steps, in any order) with random statuses 200-999, bodies up to 1 MB (a few up to 17 MB) and headers (mixed case, repeated, bulk), up to six per app, requested repeatedly over keep-alive connections; status, every header and the body compared with a model of the calls. Non-trivial: a program with at least two calls that set headers or status."
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["headers that the HTTP library owns (date, content-length, transfer-encoding, connection) are not compared", "bodies of 204 and 304 are not sent by HTTP"]
    }
    fn cases(&self) -> (u64, u64) {
        (120_000, 2_500_000)
    }
    fn strategy(&self, _t: bool) -> BoxedStrategy<C14Case> {
        (prop::collection::vec(prog14(), 1..6), prop::collection::vec(any::<u16>(), 1..10)).prop_map(|(progs, order)| C14Case { progs, order }).boxed()
    }
    fn run(&self, env: &mut Env, c: &C14Case) -> Res {
        let mut app: App = App::new();
        for (i, p) in c.progs.iter().enumerate() {
            let p = p.clone();
            let h: Box<dyn Fn(Context) -> BoxFut + Send + Sync> = Box::new(move |ctx| {
                let r = build14(ctx, &p);
                Box::pin(async move { r })
            });
            app.route((i % 5) as u8, &format!("/r{i}"), h);
        }
        // each request with headers of its own that do not matter
        let salted: Vec<(usize, u64)> = (0..c.progs.len())
            .map(|i| (i, c.order.get(i).map_or(0, |o| *o as u64)))
            .chain(c.order.iter().map(|o| (*o as usize % c.progs.len(), *o as u64)))
            .collect();
        let order: Vec<usize> = salted.iter().map(|s| s.0).collect();
        let reqs: Vec<Vec<u8>> = salted
            .iter()
            .map(|(i, salt)| noisy_salted(*salt, crate::model::METHODS[i % 5], &format!("/r{i}"), &[("host".into(), "t".into())], b"", &Framing::None))
            .collect();
        let run = env.srv.start(app)?;
        let rs = roundtrips(run.port, &reqs)?;
        for (i, r) in order.iter().zip(rs) {
            let p = &c.progs[*i];
            let m = model14(p);
            let want = last_wins(&m.set);
            env.nontrivial(m.set.len() + p.steps.len() > 1);
            env.label_if(want.len() < m.set.len(), "header set more than once");
            env.label_if(p.first.is_some(), "built over an earlier response");
            env.label_if(m.body.len() > 60_000, "body over 60 kB");
            env.label_if(m.status == 204 || m.status == 304, "status without body");
            env.label_if(m.status >= 600, "unusual status");
            let r = match r {
                Ok(r) => r,
                Err(e) => return violated(format!("{p:?}: {e:?}")),
            };
            ensure!(r.status == m.status, "{p:?}: status {}, expected {}", r.status, m.status);
            ensure!(r.app_headers() == want, "{p:?}: headers {:?}, expected {want:?}", r.app_headers());
            if m.status != 204 && m.status != 304 {
                ensure!(r.body == m.body, "{p:?}: body {:?}, expected {:?}", r.brief(), String::from_utf8_lossy(&m.body));
            }
        }
        Ok(())
    }
}

// ================================================================== C15

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Acc {
    Param(String),
    ParamInt(String),
    Query,
    Form,
    Json,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C15Case {
    pub prog: Program,
    /// a handler failing through an accessor of the context
    pub acc: Acc,
    pub seg: String,
    pub query: String,
    pub body: String,
    /// (method, path) of requests that match nothing
    pub lost: Vec<(String, String)>,
}
#[derive(Deserialize)]
#[allow(dead_code)]
struct Need {
    must: i32,
}
pub struct C15;
impl Check for C15 {
    type Case = C15Case;
    fn id(&self) -> &'static str {
        "C15"
    }
    fn rule(&self) -> &'static str {
        "Handlers and middlewares (chains as in C06) ending with every kind of error and any message (empty, long, unicode, control characters), with no response, or with an error raised by param, query_params, form or json; and requests with unregistered paths or any method token. Non-trivial: the chain ends with an error or without a response."
    }
    fn cases(&self) -> (u64, u64) {
        (120_000, 2_000_000)
    }
    fn strategy(&self, _t: bool) -> BoxedStrategy<C15Case> {
        let bad_end = prop_oneof![3 => chain::err().prop_map(chain::End::Fail), 1 => Just(chain::End::Keep), 1 => chain::end()];
        let acc = prop_oneof![
            "[a-z]{1,6}".prop_map(Acc::Param),
            prop::sample::select(vec!["p", "q", "id"]).prop_map(|s| Acc::ParamInt(s.to_string())),
            Just(Acc::Query),
            Just(Acc::Form),
            Just(Acc::Json)
        ];
        let lost = (
            prop_oneof![3 => prop::sample::select(vec!["GET", "POST", "PUT", "PATCH", "DELETE", "OPTIONS", "TRACE", "HEAD", "get", "PURGE"]).prop_map(|s| s.to_string()), 1 => "[A-Z][A-Z_-]{0,11}"],
            prop_oneof!["/a", "/a/7", "/zz", "/a/7/c/dd/e/f", "/[a-z0-9/]{0,12}", Just("/%F0%9F".to_string()), Just("/a?x=/a/7".to_string()), Just("/acc/".to_string())],
        );
        (chain::program(), bad_end, any::<bool>(), acc, prop_oneof!["[0-9]{1,4}", "[!-.0-9:;=@-~&&[^#?`<>^{}|\\\\\"]]{1,10}"], "[a-z=&%+0-9]{0,20}", prop_oneof!["[a-z=&%+0-9]{0,20}", "[{}\\[\\]\":,0-9a-z ]{0,20}", Just("{\"must\":1}".to_string())], prop::collection::vec(lost, 0..6))
            .prop_map(|(mut prog, e, bad, acc, seg, query, body, lost)| {
                if bad {
                    prog.end = e;
                }
                C15Case { prog, acc, seg, query, body, lost }
            })
            .boxed()
    }
    fn run(&self, env: &mut Env, c: &C15Case) -> Res {
        let log: Log = Default::default();
        let mut app: App = App::new();
        chain::build_program(&mut app, &c.prog, &log, &|_, _| 0, &|| unreachable!());
        let seen: Arc<Mutex<Vec<Option<String>>>> = Default::default();
        let (acc, s2) = (c.acc.clone(), seen.clone());
        // on its own app: the root middlewares of the program are not wanted here
        let mut app2: App = App::new();
        app2.post("/acc/:p", move |mut ctx: Context| {
            let (acc, seen) = (acc.clone(), s2.clone());
            async move {
                let r: Result<(), ObsidianError> = match acc {
                    Acc::Param(n) => ctx.param::<String>(&n).map(drop),
                    Acc::ParamInt(n) => ctx.param::<i32>(&n).map(drop),
                    Acc::Query => ctx.query_params::<Need>().map(drop),
                    Acc::Form => ctx.form::<Need>().await.map(drop),
                    Acc::Json => ctx.json::<Need>().await.map(drop),
                };
                seen.lock().unwrap().push(r.as_ref().err().map(|e| e.to_string()));
                r?;
                Ok(ctx)
            }
        });
        let run = env.srv.start(app)?;
        let r = roundtrips(run.port, &[chain::program_request(&c.prog)])?.remove(0)?;
        let (want, wlog) = chain::predict(&c.prog);
        // how far the chain gets is C06's business: only judge runs that went as expected
        let as_expected = *log.lock().unwrap() == wlog;
        env.label_if(!as_expected, "chain ran differently");
        let empty = want.status == 200 && want.body.is_empty() && want.headers.is_empty();
        env.nontrivial(want.status == 500 || empty);
        env.label(if want.status == 500 { "ends with 500" } else if empty { "no response" } else { "other answer" });
        if as_expected {
            ensure!((r.status, r.text()) == (want.status, want.body.clone()), "answered {}, expected {} {:?}", r.brief(), want.status, want.body);
        }
        // accessors
        let run2 = env.srv.start(app2)?;
        let req = noisy_bytes("POST", &format!("/acc/{}?{}", c.seg, c.query), &[("host".into(), "t".into())], c.body.as_bytes(), &Framing::Length);
        let r = roundtrips(run2.port, &[req])?.remove(0)?;
        let seen = seen.lock().unwrap().clone();
        ensure!(seen.len() == 1, "the handler ran {} times", seen.len());
        match &seen[0] {
            Some(msg) => {
                env.label("accessor failed");
                ensure!((r.status, r.text()) == (500, msg.clone()), "error {msg:?} answered {}", r.brief());
                let expect = match &c.acc {
                    Acc::Param(n) | Acc::ParamInt(n) if n != "p" => Some("Input should not be None".to_string()),
                    Acc::ParamInt(n) => Some(format!("Failed to parse param {n}")),
                    Acc::Json => serde_json::from_str::<Need>(&c.body).err().map(|e| e.to_string()),
                    _ => None,
                };
                if let Some(e) = expect {
                    ensure!(msg == &e, "{:?} fails with {msg:?}, expected {e:?}", c.acc);
                }
            }
            None => ensure!((r.status, r.text()) == (200, String::new()), "no response set, answered {}", r.brief()),
        }
        // nothing registered there
        let depth = c.prog.levels.len() - 1;
        let pat: Vec<&str> = [&[][..], &["a"], &["a", ""], &["a", "", "c"], &["a", "", "c", "dd"], &["a", "", "c", "dd", "e"]][depth].to_vec();
        for (m, p) in &c.lost {
            let path = p.split('?').next().unwrap();
            let segs: Vec<&str> = path.split('/').filter(|s| !s.is_empty()).collect();
            let hit = segs.len() == pat.len() && segs.iter().zip(&pat).all(|(s, p)| p.is_empty() || s == p);
            if hit && m == crate::model::METHODS[c.prog.m as usize] {
                continue;
            }
            if m == "CONNECT" || m == "PRI" {
                continue;
            }
            env.label(if hit { "unregistered method" } else { "unregistered path" });
            let mut conn = Conn::open(run.port)?;
            conn.send(&noisy_bytes(m, p, &[("host".into(), "t".into()), ("connection".into(), "close".into())], b"", &Framing::None))?;
            let (status, body) = if m == "HEAD" {
                let raw = conn.read_to_end()?;
                (raw.get(9..12).and_then(|s| std::str::from_utf8(s).ok()).and_then(|s| s.parse().ok()).unwrap_or(0u16), "404 Not Found".to_string())
            } else {
                let r = conn.read()?;
                (r.status, r.text())
            };
            ensure!((status, body.as_str()) == (404, "404 Not Found"), "{m} {p}: answered {status} {body:?}");
        }
        Ok(())
    }
}

// ================================================================== C16

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct R16 {
    pub m: String,
    pub target: String,
    pub headers: Vec<(String, B)>,
    pub body: B,
    /// None: no body; Some(empty): with a length; else chunk sizes
    pub framing: Option<Vec<usize>>,
    /// how the host is given: its name as written, its value
    pub host: Option<(String, B)>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C16Case {
    pub reqs: Vec<R16>,
    pub state: bool,
    pub logger: bool,
    pub mounted: bool,
    pub mws: u8,
}
type Seen = Arc<Mutex<Vec<(usize, String)>>>;
fn describe(m: &str, path: &str, query: Option<&str>, headers: Vec<(String, Vec<u8>)>) -> String {
    // values per name, in order
    let mut h: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for (k, v) in headers {
        h.entry(k).or_default().push(v.iter().map(|b| *b as char).collect());
    }
    format!("{m} {path:?} {query:?} {h:?}")
}
fn see_request(ctx: &Context) -> String {
    describe(
        ctx.method().as_str(),
        ctx.uri().path(),
        ctx.uri().query(),
        ctx.headers().iter().map(|(k, v)| (k.as_str().to_string(), v.as_bytes().to_vec())).collect(),
    )
}
struct SeeMw(usize, Seen);
#[async_trait::async_trait]
impl Middleware for SeeMw {
    async fn handle<'a>(&'a self, ctx: Context, ex: EndpointExecutor<'a>) -> ContextResult {
        self.1.lock().unwrap().push((self.0, see_request(&ctx)));
        ex.next(ctx).await
    }
}
fn path16() -> BoxedStrategy<String> {
    let seg = prop_oneof![
        3 => "[a-z0-9]{1,6}",
        2 => "[!$&'()*+,;=:@a-zA-Z0-9._~-]{1,10}",
        1 => "(%[0-9A-Fa-f]{2}){1,4}",
        1 => prop::sample::select(vec!["..", ".", "%2F", "%2e%2e", "a%20b", "a+b", "%", "%zz", "*", ":id", "{x}", "a|b", "\"q\"", "[1]"]).prop_map(|s| s.to_string()),
        1 => (1usize..500).prop_map(|n| "s".repeat(n)),
    ];
    (prop::collection::vec(seg, 0..6), prop::collection::vec(0u8..3, 1..4), any::<bool>())
        .prop_map(|(segs, sl, trail)| {
            let mut s = String::new();
            for (i, x) in segs.iter().enumerate() {
                s.push_str(if sl[i % sl.len()] == 2 { "//" } else { "/" });
                s.push_str(x);
            }
            if s.is_empty() || trail {
                s.push('/');
            }
            s
        })
        .boxed()
}
fn r16() -> BoxedStrategy<R16> {
    let query = prop_oneof![3 => Just(None), 1 => Just(Some(String::new())), 4 => "[a-zA-Z0-9=&%+;:@/?!$'()*,._~-]{0,40}".prop_map(Some), 1 => (1usize..4000).prop_map(|n| Some(format!("q={}", "z".repeat(n))))];
    let hname = prop_oneof![
        4 => prop::sample::select(vec!["x-one", "X-One", "accept", "Accept", "cookie", "authorization", "content-type", "user-agent", "x-forwarded-for", "if-none-match", "range", "referer", "origin", "accept-encoding", "pragma", "x-rid", "x-http-method-override", "x-original-url", "x-rewrite-url", "x-real-ip", "x-request-id", "if-modified-since", "te", "trailer", "via", "forwarded", "accept-language", "cache-control", "date", "max-forwards", "x-forwarded-host", "x-forwarded-proto", "proxy-authorization", "proxy-connection", "Keep-Alive", "content-md5", "content-language", "content-location", "content-encoding", "content-disposition", "link", "origin", "referer", "if-match", "if-range", "if-unmodified-since", "sec-fetch-site", "sec-websocket-key", "upgrade-insecure-requests", "dnt", "from", "warning", "set-cookie", "server", "location", "etag", "age", "vary", "allow", "accept-charset", "http2-settings", "X-CSRF-Token", "traceparent"]).prop_map(|s| s.to_string()),
        2 => "[a-zA-Z!#$%&'*+.^_`|~0-9-]{1,12}".prop_map(|s| format!("y-{s}")),
    ];
    let hval = prop_oneof![
        4 => "[!-~]([ -~]{0,20}[!-~])?".prop_map(|s| s.into_bytes()),
        2 => prop::sample::select(vec!["GET", "DELETE", "/", "/other?x=1", "bytes=0-0", "gzip, br", "no-cache", "https", "1.2.3.4, 5.6.7.8", "Mon, 01 Jan 2024 00:00:00 GMT", "0", "trailers", "*", "a=b; c=d"]).prop_map(|s| s.as_bytes().to_vec()),
        1 => Just(vec![]),
        1 => prop::collection::vec(prop_oneof![0x21u8..0x7f, 0x80u8..=0xff], 1..20),
        1 => "[!-~][ \t]{1,3}[!-~]".prop_map(|s| s.into_bytes()),
        1 => (1usize..4000).prop_map(|n| vec![b'h'; n]),
    ];
    let headers = prop_oneof![6 => prop::collection::vec((hname.clone(), hval.clone().prop_map(B)), 0..8), 1 => prop::collection::vec((hname, "[a-z]{0,5}".prop_map(|s| B(s.into_bytes()))), 20..80)];
    let body = prop_oneof![
        3000 => Just(vec![]),
        4000 => prop::collection::vec(any::<u8>(), 0..200),
        2 => (prop::sample::select(vec![2_100_000usize, 4_300_000, 8_500_000, 17_000_000]), any::<u8>()).prop_map(|(n, b)| (0..n).map(|i| (i as u8).wrapping_mul(b)).collect::<Vec<u8>>()),
        1000 => (prop::sample::select(vec![8191usize, 8192, 16384, 65536, 300_000, 1_000_000]), any::<u8>()).prop_map(|(n, b)| (0..n).map(|i| (i as u8).wrapping_mul(b)).collect::<Vec<u8>>()),
    ];
    let framing = prop_oneof![2 => Just(Some(vec![])), 2 => prop::collection::vec(1usize..300, 1..4).prop_map(Some), 1 => Just(None)];
    let host = prop_oneof![
        3 => Just(Some(("host".to_string(), B(b"t".to_vec())))),
        4 => (prop::sample::select(vec!["host", "Host", "HOST"]), prop::sample::select(vec!["Example.ORG", "t:80", "T:8080", "10.0.0.1", "[::1]:80", "a.b.c.", "", "h_h", "xn--bcher-kva.example", "user@host", "t:", "..", "b\u{fc}cher"])).prop_map(|(n, v)| Some((n.to_string(), B(v.as_bytes().to_vec())))),
        1 => Just(None),
    ];
    (0u8..5, path16(), query, prop_oneof![12 => Just(false), 1 => Just(true)], headers, body, framing, host)
        .prop_map(|(m, path, query, absolute, headers, mut body, mut framing, host)| {
            if framing.is_none() {
                body = vec![];
            }
            if body.len() > 20_000 {
                framing = framing.map(|v| v.iter().map(|n| n * (97 + body.len() / 5000)).collect());
            }
            let mut target = path;
            if let Some(q) = query {
                target.push('?');
                target.push_str(&q);
            }
            if absolute {
                target = format!("http://example.org:8080{target}");
            }
            R16 { m: crate::model::METHODS[m as usize].into(), target, headers, body: B(body), framing, host }
        })
        .boxed()
}
pub struct C16;
impl Check for C16 {
    type Case = C16Case;
    fn id(&self) -> &'static str {
        "C16"
    }
    fn rule(&self) -> &'static str {
        "Pipelined requests with random methods, paths (escapes, dot segments, doubled slashes), queries, header multisets (mixed case, repeated, empty, bytes above 127, up to 80) and bodies (binary, up to 1 MB and a few up to 17 MB, with a length or chunked) through wildcard and parameter routes with and without app state, middlewares, logger and mounted router; what every middleware and the handler observe compared with what was sent. Non-trivial: a request with a query, a body or a repeated header."
    }
    fn cases(&self) -> (u64, u64) {
        (40_000, 800_000)
    }
    fn strategy(&self, _t: bool) -> BoxedStrategy<C16Case> {
        (prop::collection::vec(r16(), 1..6), any::<bool>(), any::<bool>(), any::<bool>(), 0u8..4)
            .prop_map(|(reqs, state, logger, mounted, mws)| C16Case { reqs, state, logger, mounted, mws })
            .boxed()
    }
    fn run(&self, env: &mut Env, c: &C16Case) -> Res {
        let seen: Seen = Default::default();
        let mut app: App<String> = if c.logger { App::default() } else { App::new() };
        let mut sub = Router::new();
        for k in 0..c.mws {
            app.use_service(SeeMw(k as usize, seen.clone()));
        }
        for m in 0..5u8 {
            let s = seen.clone();
            let h = move || -> Box<dyn Fn(Context) -> BoxFut + Send + Sync> {
                let s = s.clone();
                Box::new(move |mut ctx: Context| {
                    let s = s.clone();
                    Box::pin(async move {
                        s.lock().unwrap().push((99, see_request(&ctx)));
                        let again = see_request(&ctx);
                        let b = hyper::body::to_bytes(ctx.take_body()).await.map_err(|e| ObsidianError::GeneralError(e.to_string()))?;
                        let t: String = b.iter().map(|b| *b as char).collect();
                        let _ = again;
                        ctx.build(t).ok()
                    })
                })
            };
            if c.mounted {
                Reg::route(&mut sub, m, "/*", h());
                Reg::route(&mut app, m, "/", h());
                Reg::route(&mut app, m, "/s/:a/:b", h());
            } else {
                Reg::route(&mut app, m, "/*", h());
                Reg::route(&mut app, m, "/s/:a/:b", h());
            }
        }
        let prefix = if c.mounted {
            app.use_router("/m", sub);
            "/m"
        } else {
            ""
        };
        if c.state {
            app.set_app_state("state".into());
        }
        let run = env.srv.start(app)?;
        let mut raw = vec![];
        let mut want = vec![];
        for r in &c.reqs {
            let target = match r.target.strip_prefix("http://example.org:8080") {
                Some(t) => format!("http://example.org:8080{prefix}{t}"),
                None => format!("{prefix}{}", r.target),
            };
            let mut out = format!("{} {} HTTP/1.1\r\n", r.m, target).into_bytes();
            let mut hs: Vec<(String, Vec<u8>)> = r.host.iter().map(|(k, v)| (k.clone(), v.0.clone())).collect();
            hs.extend(r.headers.iter().map(|(k, v)| (k.clone(), v.0.clone())));
            let framing = match &r.framing {
                None => Framing::None,
                Some(v) if v.is_empty() => {
                    hs.push(("content-length".into(), r.body.0.len().to_string().into_bytes()));
                    Framing::Length
                }
                Some(v) => {
                    hs.push(("transfer-encoding".into(), b"chunked".to_vec()));
                    Framing::Chunked(v.clone())
                }
            };
            for (k, v) in &hs {
                out.extend_from_slice(k.as_bytes());
                out.extend_from_slice(b": ");
                out.extend_from_slice(v);
                out.extend_from_slice(b"\r\n");
            }
            out.extend_from_slice(b"\r\n");
            match framing {
                Framing::None => {}
                Framing::Length => out.extend_from_slice(&r.body.0),
                Framing::Chunked(s) => {
                    for ch in split_chunks(&r.body.0, &s) {
                        out.extend_from_slice(format!("{:x}\r\n", ch.len()).as_bytes());
                        out.extend_from_slice(ch);
                        out.extend_from_slice(b"\r\n");
                    }
                    out.extend_from_slice(b"0\r\n\r\n");
                }
            }
            raw.push(out);
            let rest = target.strip_prefix("http://example.org:8080").unwrap_or(&target);
            let (p, q) = match rest.split_once('?') {
                Some((p, q)) => (p, Some(q)),
                None => (rest, None),
            };
            let mut names: Vec<String> = hs.iter().map(|h| h.0.to_ascii_lowercase()).collect();
            names.sort();
            env.nontrivial(q.is_some() || !r.body.0.is_empty() || names.windows(2).any(|w| w[0] == w[1]));
            env.label_if(r.body.0.len() > 60_000, "body over 60 kB");
            env.label_if(names.windows(2).any(|w| w[0] == w[1]), "repeated header");
            env.label_if(r.headers.len() > 15, "more than 15 headers");
            env.label_if(r.host.as_ref().is_none_or(|h| h.1 .0 != b"t"), "no host, or an odd one");
            env.label_if(r.headers.iter().any(|h| h.1 .0.iter().any(|b| *b > 127)), "header bytes above 127");
            want.push(describe(&r.m, p, q, hs.into_iter().map(|(k, v)| (k.to_ascii_lowercase(), v)).collect()));
        }
        let rs = roundtrips(run.port, &raw)?;
        let seen = seen.lock().unwrap().clone();
        let mut it = seen.into_iter();
        for (i, r) in rs.into_iter().enumerate() {
            let r = r?;
            ensure!(r.status == 200, "{:?}: answered {}", c.reqs[i], r.brief());
            let body: String = c.reqs[i].body.0.iter().map(|b| *b as char).collect();
            ensure!(r.text() == body, "body of {:?} seen as {}", c.reqs[i].target, r.brief());
            for k in (0..c.mws as usize).chain([99]) {
                let s = it.next();
                ensure!(s.as_ref().map(|s| s.0) == Some(k) && s.as_ref().map(|s| &s.1) == Some(&want[i]), "seen {s:?}, sent {:?}", want[i]);
            }
        }
        Ok(())
    }
}

// ================================================================== C21

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C21Case {
    pub prog: Program,
    /// how many loggers before the i-th middleware of level l: picks[(7*l+i) % n]
    pub picks: Vec<u8>,
    pub default_app: bool,
    pub query: String,
    pub others: Vec<String>,
    pub odd_headers: Vec<(String, B)>,
    /// a response with this status, header and body instead of the program's end
    pub resp: Option<Prog14>,
    /// nothing can be written to standard output and error
    pub full_disk: bool,
}
pub struct C21;
impl Check for C21 {
    type Case = C21Case;
    fn id(&self) -> &'static str {
        "C21"
    }
    fn rule(&self) -> &'static str {
        "Middleware programs as in C06 and response programs as in C14, each served without loggers and with loggers at generated positions (default app, use_service, path middlewares, inside mounted routers, several at once); client responses and everything the other middlewares and the handler see compared between the two (differential), for matching and non-matching requests. Non-trivial: at least one logger in the way of the request."
    }
    fn cases(&self) -> (u64, u64) {
        (24_000, 400_000)
    }
    fn strategy(&self, _t: bool) -> BoxedStrategy<C21Case> {
        let odd_name = prop::sample::select(vec!["x-odd", "User-Agent", "cookie", "referer", "accept", "origin", "x-forwarded-for", "x-request-id", "authorization", "accept-language", "content-type", "x-real-ip", "traceparent", "via", "from"]).prop_map(|s| s.to_string());
        (
            chain::program(),
            prop::collection::vec(prop_oneof![2 => Just(0u8), 2 => Just(1u8), 1 => Just(3u8)], 1..8),
            any::<bool>(),
            prop_oneof![Just(String::new()), "\\?[a-z=&%+0-9]{0,20}", (1usize..3000).prop_map(|n| format!("?{}", "q".repeat(n)))],
            prop::collection::vec(prop_oneof!["/[a-z0-9/]{0,10}", Just("/resp".to_string()), Just("/a/%F0%9F%98%80".to_string())], 0..3),
            prop::collection::vec((odd_name, prop::collection::vec(prop_oneof![0x21u8..0x7f, 0x80u8..=0xff], 0..12).prop_map(B)), 0..4),
            proptest::option::of(prog14()),
            prop_oneof![199 => Just(false), 1 => Just(true)],
        )
            .prop_map(|(prog, picks, default_app, query, others, odd_headers, resp, full_disk)| C21Case { prog, picks, default_app, query, others, odd_headers, resp, full_disk })
            .boxed()
    }
    fn full_disk(&self, c: &C21Case) -> bool {
        c.full_disk
    }
    fn run(&self, env: &mut Env, c: &C21Case) -> Res {
        let prog = Program { full: true, ..c.prog.clone() };
        let mut outs: Vec<(Vec<String>, Vec<String>)> = vec![];
        let mut loggers = 0;
        for with in [false, true] {
            let log: Log = Default::default();
            let mut app: App = if with && c.default_app { App::default() } else { App::new() };
            let n = std::cell::Cell::new(0usize);
            let mk = || {
                n.set(n.get() + 1);
                AnyMw(Box::new(Logger::new()))
            };
            chain::build_program(&mut app, &prog, &log, &|l, i| if with { c.picks[(7 * l + i) % c.picks.len()] as usize } else { 0 }, &mk);
            if let Some(p) = &c.resp {
                let p = p.clone();
                app.get("/resp", move |ctx: Context| {
                    let r = build14(ctx, &p);
                    async move { r }
                });
                if with {
                    app.use_service_to("/resp", Logger::default());
                }
            }
            loggers += n.get() + usize::from(with && c.default_app);
            let run = env.srv.start(app)?;
            let mut first = chain::program_request(&c.prog);
            // the query and the odd headers into the request line and head
            let line = first.windows(2).position(|w| w == b"\r\n").unwrap();
            let mut head = format!("{}{} HTTP/1.1", std::str::from_utf8(&first[..line - 9]).unwrap(), c.query).into_bytes();
            for (n, v) in &c.odd_headers {
                head.extend_from_slice(format!("\r\n{n}: ").as_bytes());
                head.extend_from_slice(&v.0);
            }
            head.extend_from_slice(&first[line..]);
            first = head;
            let mut reqs = vec![first.clone()];
            for o in &c.others {
                reqs.push(noisy_bytes("GET", o, &[("host".into(), "t".into())], b"", &Framing::None));
            }
            reqs.push(first);
            let rs = roundtrips(run.port, &reqs)?;
            let rs: Vec<String> = rs
                .into_iter()
                .map(|r| match r {
                    Ok(r) => format!(
                        "{} {:?} {} {}",
                        r.status,
                        r.headers.iter().filter(|h| h.0 != "date").map(|h| (&h.0, String::from_utf8_lossy(&h.1))).collect::<std::collections::BTreeSet<_>>(),
                        r.body.len(),
                        String::from_utf8_lossy(&r.body)
                    ),
                    Err(e) => format!("{e:?}"),
                })
                .collect();
            let l = log.lock().unwrap().clone();
            outs.push((rs, l));
        }
        env.nontrivial(loggers > 0);
        env.label_if(loggers > 3, "more than three loggers");
        env.label_if(c.default_app, "default app");
        env.label_if(outs[0].0[0].starts_with("500"), "answered 500");
        env.label_if(c.resp.is_some(), "built response");
        for (a, b) in outs[0].0.iter().zip(&outs[1].0) {
            ensure!(a == b, "without and with loggers: {}", differ(a, b));
        }
        for (a, b) in outs[0].1.iter().zip(&outs[1].1) {
            ensure!(a == b, "steps without and with loggers: {}", differ(a, b));
        }
        ensure!(outs[0].1.len() == outs[1].1.len(), "steps without loggers {:?}, with {:?}", outs[0].1, outs[1].1);
        Ok(())
    }
}
