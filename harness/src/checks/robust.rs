//! C13: no request crashes the server or a decoder.
use super::decode::{self, B};
use super::routing;
use crate::core::*;
use crate::ensure;
use crate::gen;
use crate::server::*;
use crate::spec::{accept, Op};
use hyper::{Body, Request};
use obsidian::context::Context;
use obsidian::middleware::Middleware;
use obsidian::router::from_cow_map;
use obsidian::{App, ContextResult, EndpointExecutor};
use proptest::prelude::*;
use serde::de::{DeserializeOwned, IgnoredAny};
use serde::{Deserialize, Serialize};
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, LinkedList, VecDeque};
use std::net::{IpAddr, Ipv4Addr, SocketAddr};
use std::num::{NonZeroI32, NonZeroU8};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::time::Duration;

// ------------------------------------------------------------------ target types
// Every shape serde can ask for, whether the form decoder supports it or not.

#[derive(Deserialize)]
struct Unit;
#[derive(Deserialize)]
struct New(#[allow(dead_code)] i32);
#[derive(Deserialize)]
struct Tup(#[allow(dead_code)] String, #[allow(dead_code)] u8);
#[derive(Deserialize, PartialEq, Eq, Hash, PartialOrd, Ord)]
enum Plain {
    A,
    #[serde(alias = "1", alias = "v", alias = "true")]
    B,
}
#[derive(Deserialize)]
#[allow(dead_code)]
enum Data {
    N(i32),
    T(i32, String),
    S { v: i32 },
    U,
    #[serde(other)]
    Other,
}
#[derive(Deserialize)]
#[allow(dead_code)]
#[serde(tag = "v")]
enum Tagged {
    #[serde(alias = "1")]
    A { x: Option<i32> },
    B(Flat),
    U,
}
#[derive(Deserialize)]
#[allow(dead_code)]
#[serde(tag = "v", content = "id")]
enum Adjacent {
    #[serde(alias = "1", alias = "a")]
    A(i32),
    B { x: u8 },
    U,
}
#[derive(Deserialize)]
#[allow(dead_code)]
#[serde(untagged)]
enum Untagged {
    N(i64),
    L(Vec<String>),
    M { v: u8 },
    S(String),
    U,
}
#[derive(Deserialize)]
#[allow(dead_code)]
struct Flat {
    v: Option<String>,
    #[serde(flatten)]
    rest: HashMap<String, String>,
}
#[derive(Deserialize)]
#[allow(dead_code)]
struct FlatValue {
    #[serde(flatten)]
    rest: HashMap<String, serde_json::Value>,
}
#[derive(Deserialize)]
#[serde(deny_unknown_fields)]
#[allow(dead_code)]
struct Strict {
    v: i32,
}
#[derive(Deserialize)]
#[allow(dead_code)]
struct Inner {
    v: i32,
    name: String,
}
#[derive(Deserialize)]
#[allow(dead_code)]
struct Outer {
    v: Inner,
    id: Option<Inner>,
}
#[derive(Deserialize)]
#[allow(dead_code)]
struct Chain {
    v: Option<Box<Chain>>,
}
#[derive(Deserialize)]
#[allow(dead_code)]
struct Tree {
    #[serde(default)]
    v: Vec<Tree>,
}
#[derive(Deserialize)]
#[allow(dead_code)]
struct F<T> {
    v: T,
}
#[derive(Deserialize)]
#[allow(dead_code)]
struct D<T: Default> {
    #[serde(default)]
    v: T,
    id: Option<T>,
}
/// nests in itself without end where the text does not end it
#[derive(Deserialize)]
struct Lists(#[allow(dead_code)] Vec<Lists>);
#[derive(Deserialize)]
struct Options(#[allow(dead_code)] Option<Box<Options>>);
/// asks for bytes
struct Bytes;
impl<'de> Deserialize<'de> for Bytes {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> serde::de::Visitor<'de> for V {
            type Value = Bytes;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("bytes")
            }
            fn visit_bytes<E>(self, _: &[u8]) -> Result<Bytes, E> {
                Ok(Bytes)
            }
            fn visit_str<E>(self, _: &str) -> Result<Bytes, E> {
                Ok(Bytes)
            }
        }
        d.deserialize_bytes(V)
    }
}
struct ByteBuf;
impl<'de> Deserialize<'de> for ByteBuf {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> serde::de::Visitor<'de> for V {
            type Value = ByteBuf;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("bytes")
            }
            fn visit_byte_buf<E>(self, _: Vec<u8>) -> Result<ByteBuf, E> {
                Ok(ByteBuf)
            }
        }
        d.deserialize_byte_buf(V)
    }
}
/// visits everything it is given, whatever it is; asks for a fixed kind first
struct Greedy<const KIND: u8>;
impl<'de, const KIND: u8> Deserialize<'de> for Greedy<KIND> {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V<const K: u8>;
        impl<'de, const K: u8> serde::de::Visitor<'de> for V<K> {
            type Value = Greedy<K>;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("anything")
            }
            fn visit_str<E>(self, _: &str) -> Result<Greedy<K>, E> {
                Ok(Greedy)
            }
            fn visit_bool<E>(self, _: bool) -> Result<Greedy<K>, E> {
                Ok(Greedy)
            }
            fn visit_u64<E>(self, _: u64) -> Result<Greedy<K>, E> {
                Ok(Greedy)
            }
            fn visit_unit<E>(self) -> Result<Greedy<K>, E> {
                Ok(Greedy)
            }
            fn visit_none<E>(self) -> Result<Greedy<K>, E> {
                Ok(Greedy)
            }
            fn visit_some<D: serde::Deserializer<'de>>(self, d: D) -> Result<Greedy<K>, D::Error> {
                Greedy::<K>::deserialize(d)
            }
            fn visit_seq<A: serde::de::SeqAccess<'de>>(self, mut a: A) -> Result<Greedy<K>, A::Error> {
                let _ = a.size_hint();
                // three elements at most are asked for after the last
                let mut beyond = 0;
                let mut n = 0;
                while beyond < 3 && n < 100_000 {
                    n += 1;
                    if a.next_element::<Greedy<K>>()?.is_none() {
                        beyond += 1;
                    }
                }
                Ok(Greedy)
            }
            fn visit_map<A: serde::de::MapAccess<'de>>(self, mut a: A) -> Result<Greedy<K>, A::Error> {
                let _ = a.size_hint();
                let mut beyond = 0;
                let mut n = 0;
                while beyond < 3 && n < 100_000 {
                    n += 1;
                    match a.next_key::<String>()? {
                        Some(_) => drop(a.next_value::<Greedy<K>>()?),
                        None => beyond += 1,
                    }
                }
                Ok(Greedy)
            }
        }
        // beyond the first level of the top type the same kind is asked for again
        match KIND {
            0 => d.deserialize_any(V),
            1 => d.deserialize_map(V),
            2 => d.deserialize_seq(V),
            3 => d.deserialize_tuple(3, V),
            4 => d.deserialize_option(V),
            5 => d.deserialize_identifier(V),
            6 => d.deserialize_struct("S", &["v", "id"], V),
            7 => d.deserialize_tuple_struct("T", 2, V),
            8 => d.deserialize_enum("E", &["v", "A"], V),
            9 => d.deserialize_unit_struct("U", V),
            _ => d.deserialize_newtype_struct("N", V),
        }
    }
}

/// Runs `$go::<T>(name)` for every target type.
macro_rules! targets {
    ($go:ident, $src:expr; $($t:ty),* $(,)?) => {
        $( $go::<$t>($src, stringify!($t))?; )*
    };
}
trait Feed {
    /// the library's own decoder, not serde_json
    fn form(&self) -> bool {
        true
    }
    fn feed<T: DeserializeOwned>(&mut self);
}
fn go<T: DeserializeOwned>(f: &mut impl Feed, name: &str) -> Res {
    match catch_unwind(AssertUnwindSafe(|| f.feed::<T>())) {
        Ok(()) => Ok(()),
        Err(_) => violated(format!("decoding into {name} panics: {}", my_panic())),
    }
}
fn all_targets(f: &mut impl Feed) -> Res {
    targets!(go, f;
        // as the whole document
        (), bool, i8, u8, i32, u64, i64, i128, u128, f32, f64, char, String, Cow<'static, str>, Box<str>, Unit, New, Tup, Plain, Data, Tagged, Adjacent, Untagged,
        Option<i32>, Option<String>, Vec<i32>, Vec<String>, Vec<(String, String)>, (i32,), (String, String), [u8; 3], Bytes, ByteBuf, IgnoredAny, serde_json::Value,
        Flat, FlatValue, Strict, Outer, Chain, Tree,
        HashMap<String, String>, HashMap<String, Vec<String>>, BTreeMap<String, Option<i64>>, HashMap<String, f64>, BTreeMap<String, bool>, HashMap<String, char>, HashMap<String, ()>,
        HashMap<String, i128>, HashMap<String, IgnoredAny>, HashMap<String, serde_json::Value>, HashMap<String, Bytes>, HashMap<String, ByteBuf>, HashMap<String, Inner>, HashMap<String, Plain>,
        HashMap<String, HashMap<String, String>>, HashMap<String, Vec<Vec<String>>>, HashMap<String, Option<Option<i32>>>, HashMap<String, Option<Vec<Option<u8>>>>, HashMap<String, (u8, String)>,
        HashMap<i32, String>, HashMap<u64, String>, HashMap<i8, Vec<u8>>, HashMap<i128, String>, HashMap<u128, String>, HashMap<bool, String>, HashMap<char, String>, BTreeMap<(), String>, BTreeMap<Option<String>, String>,
        BTreeMap<Plain, String>, BTreeMap<BTreeMap<String, String>, String>, Vec<(IgnoredAny, IgnoredAny)>,  BTreeMap<(u8, u8), String>, BTreeMap<Vec<u8>, String>, BTreeMap<Box<str>, u8>,
        HashSet<String>, BTreeSet<i32>, LinkedList<String>, VecDeque<u8>,
        // as one field
        F<()>, F<bool>, F<i8>, F<i16>, F<i32>, F<i64>, F<u8>, F<u16>, F<u32>, F<u64>, F<usize>, F<i128>, F<u128>, F<f32>, F<f64>, F<char>, F<String>, F<Cow<'static, str>>, F<Box<str>>, F<PathBuf>,
        F<Unit>, F<New>, F<Tup>, F<Plain>, F<Data>, F<Tagged>, F<Adjacent>, F<Untagged>, F<Inner>, F<Chain>, F<Tree>, F<Flat>, F<IgnoredAny>, F<serde_json::Value>, F<Bytes>, F<ByteBuf>,
        F<Option<()>>, F<Option<i32>>, F<Option<Vec<i32>>>, F<Option<Option<u8>>>, F<Option<Inner>>, F<Option<Plain>>,
        F<Vec<()>>, F<Vec<bool>>, F<Vec<i64>>, F<Vec<f32>>, F<Vec<char>>, F<Vec<String>>, F<Vec<Option<i32>>>, F<Vec<Vec<u8>>>, F<Vec<Plain>>, F<Vec<Data>>, F<Vec<Inner>>, F<Vec<Unit>>, F<Vec<New>>, F<Vec<Tup>>, F<Vec<IgnoredAny>>, F<Vec<serde_json::Value>>, F<Vec<Bytes>>, F<Vec<i128>>,
        F<Vec<HashMap<String, String>>>, F<HashMap<String, String>>, F<BTreeMap<u8, u8>>, F<HashSet<i32>>,
        F<(u8,)>, F<(i32, String)>, F<(f64, f64, f64)>, F<[i32; 2]>, F<[(); 0]>, F<((u8, u8), u8)>, F<(Vec<u8>, u8)>, F<(Option<u8>, Option<u8>)>,
        F<IpAddr>, F<Ipv4Addr>, F<SocketAddr>, F<Duration>, F<NonZeroU8>, F<NonZeroI32>, F<Result<u8, u8>>, F<std::ops::Range<u8>>, F<std::time::SystemTime>, F<std::ops::Bound<u8>>, F<std::num::Wrapping<u8>>,
        D<i32>, D<String>, D<Vec<String>>, D<Option<u8>>, D<bool>, D<()>, D<HashMap<String, u8>>,
        F<Greedy<0>>, F<Greedy<1>>, F<Greedy<2>>, F<Greedy<3>>, F<Greedy<5>>, F<Greedy<6>>, F<Greedy<7>>, F<Greedy<8>>, F<Greedy<9>>, F<Greedy<10>>,
        F<Lists>, F<Vec<Lists>>, HashMap<String, Lists>, Lists, F<Vec<Greedy<0>>>, F<Vec<Greedy<2>>>, F<Option<Greedy<2>>>,
        HashMap<String, Greedy<0>>, HashMap<String, Greedy<2>>, HashMap<String, Greedy<7>>,
        Greedy<0>, Greedy<1>, Greedy<2>, Greedy<3>, Greedy<5>, Greedy<6>, Greedy<7>, Greedy<8>, Greedy<9>, Greedy<10>,
    );
    if f.form() {
        // serde_json does not end on these: a type without finite values that reads no text
        targets!(go, f; F<Options>, F<Option<Vec<Options>>>, Options, F<Greedy<4>>, Greedy<4>, F<Vec<Greedy<4>>>, HashMap<String, Greedy<4>>);
    }
    Ok(())
}

struct FeedQuery<'a>(&'a hyper::Uri);
impl<'a> Feed for FeedQuery<'a> {
    fn feed<T: DeserializeOwned>(&mut self) {
        let mut c = Context::new(Request::builder().uri(self.0.clone()).body(Body::empty()).unwrap(), HashMap::new());
        let _ = c.query_params::<T>().map(drop).map_err(|e| e.to_string());
    }
}
struct FeedBody<'a> {
    env: &'a Env,
    json: bool,
    text: &'a [u8],
    cut: &'a [usize],
    fail: bool,
}
impl<'a> Feed for FeedBody<'a> {
    fn form(&self) -> bool {
        !self.json
    }
    fn feed<T: DeserializeOwned>(&mut self) {
        let body = if self.cut.is_empty() && !self.fail { Body::from(self.text.to_vec()) } else { decode::stream_body(decode::pieces(self.text, self.cut), self.fail) };
        let mut c = decode::post(body);
        self.env.block_on(async {
            let r = if self.json { c.json::<T>().await.map(drop) } else { c.form::<T>().await.map(drop) };
            let _ = r.map_err(|e| e.to_string());
            // and once more, on what is left
            let r = if self.json { c.json::<T>().await.map(drop) } else { c.form::<T>().await.map(drop) };
            let _ = r.map_err(|e| format!("{e:?}"));
        })
    }
}
struct FeedMap<'a>(&'a HashMap<Cow<'static, str>, Cow<'static, [String]>>);
impl<'a> Feed for FeedMap<'a> {
    fn feed<T: DeserializeOwned>(&mut self) {
        let _ = from_cow_map::<T, _>(self.0).map(drop).map_err(|e| e.to_string());
    }
}

// ------------------------------------------------------------------ cases

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Entry {
    Query,
    Form { cut: Vec<usize>, fail: bool },
    Json { cut: Vec<usize>, fail: bool },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Item {
    /// a request HTTP allows; must be answered
    Good { m: String, target: B, headers: Vec<(String, B)>, body: B, framing: Option<Vec<usize>>, split: Vec<usize> },
    /// any bytes; `end`: 0 abort, 1 end of sending and read to the end, 2 left open
    Raw { pieces: Vec<B>, end: u8 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum C13Case {
    Decode { text: B, entry: Entry },
    Map { map: Vec<(String, Vec<String>)> },
    Params { params: Vec<(String, String)>, keys: Vec<String> },
    Search { ops: Vec<Op>, paths: Vec<String> },
    /// `full_disk`: nothing can be written to standard output and error
    Http { default_app: bool, state: bool, items: Vec<Item>, full_disk: bool },
}

struct Tap;
#[async_trait::async_trait]
impl Middleware for Tap {
    async fn handle<'a>(&'a self, ctx: Context, ex: EndpointExecutor<'a>) -> ContextResult {
        let _ = (ctx.method().clone(), ctx.uri().clone(), ctx.headers().len());
        ex.next(ctx).await
    }
}
fn app13(default_app: bool, state: bool, dir: &str) -> App<u32> {
    let mut app: App<u32> = if default_app { App::default() } else { App::new() };
    if state {
        app.set_app_state(7);
    }
    app.use_service(Tap);
    app.use_service_to("/p", Tap);
    app.use_service_to("/p/:a/only/mw/here", Tap);
    async fn params(ctx: Context) -> ContextResult {
        let mut s = String::new();
        for k in ["a", "b", "*", "c", ""] {
            let v: Result<String, _> = ctx.param(k);
            let n: Result<i64, _> = ctx.param(k);
            let f: Result<f64, _> = ctx.param(k);
            let c: Result<char, _> = ctx.param(k);
            s.push_str(&format!("{:?}{}{}{}", v.ok(), n.is_ok(), f.is_ok(), c.is_ok()));
        }
        ctx.build(s).ok()
    }
    app.get("/p/:a", params);
    app.get("/r/:a/:b", params);
    app.post("/r/:a/:b", params);
    app.get("/p/:a/w/*", params);
    app.get("/q", |mut ctx: Context| async move {
        let a = ctx.query_params::<HashMap<String, Vec<String>>>().is_ok();
        let b = ctx.query_params::<F<i32>>().is_ok();
        let c = ctx.query_params::<F<Vec<Option<u8>>>>().is_ok();
        ctx.build(format!("{a}{b}{c}")).ok()
    });
    app.post("/f", |mut ctx: Context| async move {
        let r: HashMap<String, Vec<String>> = ctx.form().await?;
        ctx.build(format!("{}", r.len())).ok()
    });
    app.post("/f2", |mut ctx: Context| async move {
        let r = ctx.form::<F<Option<i32>>>().await;
        ctx.build(format!("{}", r.is_ok())).ok()
    });
    app.post("/j", |mut ctx: Context| async move {
        let v: serde_json::Value = ctx.json().await?;
        ctx.build_json(v).ok()
    });
    app.post("/j2", |mut ctx: Context| async move {
        let r = ctx.json::<Outer>().await;
        ctx.build(format!("{}", r.is_ok())).ok()
    });
    app.put("/none", |ctx: Context| async move { Ok(ctx) });
    app.use_static_to("/s", dir);
    app.use_static_to("/p/:a/s", dir);
    app.get("/control", |ctx: Context| async move { ctx.build("fine").ok() });
    let mut sub = obsidian::router::Router::new();
    sub.use_service(Tap);
    sub.get("/", params);
    sub.get("/:a/x/*", params);
    sub.delete("/:a", params);
    app.use_router("/m", sub);
    app
}
const CONTROL: &[u8] = b"GET /control HTTP/1.1\r\nhost: t\r\n\r\n";

fn control(c: &mut Conn, what: &str) -> Res {
    if c.send(CONTROL).is_err() {
        return violated(format!("{what}: cannot send"));
    }
    match c.read() {
        Ok(r) => {
            ensure!(r.status == 200 && r.text() == "fine", "{what}: answered {}", r.brief());
            Ok(())
        }
        Err(NetErr::Timeout) => Err(Fail::Hang(format!("{what}: no answer"))),
        Err(e) => violated(format!("{what}: {e:?}")),
    }
}

/// among the headers of a request: there is to be no host
const NO_HOST: &str = "no-host";
fn good_bytes(m: &str, target: &[u8], headers: &[(String, B)], body: &[u8], framing: &Option<Vec<usize>>) -> Vec<u8> {
    let mut out = m.as_bytes().to_vec();
    out.push(b' ');
    out.extend_from_slice(target);
    out.extend_from_slice(b" HTTP/1.1\r\n");
    if !headers.iter().any(|(k, _)| k.eq_ignore_ascii_case("host") || k == NO_HOST) {
        out.extend_from_slice(b"host: t\r\n");
    }
    out.extend_from_slice(b"connection: close\r\n");
    for (k, v) in headers.iter().filter(|h| h.0 != NO_HOST) {
        out.extend_from_slice(k.as_bytes());
        out.extend_from_slice(b": ");
        out.extend_from_slice(&v.0);
        out.extend_from_slice(b"\r\n");
    }
    match framing {
        None => out.extend_from_slice(b"\r\n"),
        Some(s) if s.is_empty() => {
            out.extend_from_slice(format!("content-length: {}\r\n\r\n", body.len()).as_bytes());
            out.extend_from_slice(body);
        }
        Some(s) => {
            out.extend_from_slice(b"transfer-encoding: chunked\r\n\r\n");
            for c in split_chunks(body, s) {
                out.extend_from_slice(format!("{:x}\r\n", c.len()).as_bytes());
                out.extend_from_slice(c);
                out.extend_from_slice(b"\r\n");
            }
            out.extend_from_slice(b"0\r\n\r\n");
        }
    }
    out
}

// ------------------------------------------------------------------ generators

fn any_text() -> BoxedStrategy<String> {
    prop_oneof![
        3 => "[ -~]{0,12}",
        2 => "\\PC{0,10}",
        1 => prop::collection::vec(any::<char>(), 0..6).prop_map(|v| v.into_iter().collect::<String>()),
        2 => prop::sample::select(vec!["", "0", "-1", "1e999", "NaN", "true", "null", "999999999999999999999999999999999999999999", "-0", "+1", "0x10", " 1", "1.5", "A", "B", "N", "\u{0}", "127.0.0.1", "[1,2]", "{}", "ﬀ", "\u{10FFFF}", "e\u{301}"]).prop_map(|s| s.to_string()),
        1 => (1usize..3000).prop_map(|n| "9".repeat(n)),
    ]
    .boxed()
}
fn key13() -> BoxedStrategy<String> {
    prop_oneof![4 => Just("v".to_string()), 1 => prop::sample::select(vec!["id", "name", "1", "true", "x", "A", "v[]", "v.v"]).prop_map(|s| s.to_string()), 1 => any_text()].boxed()
}
fn form_like() -> BoxedStrategy<Vec<u8>> {
    let enc = |s: &str| form_urlencoded::byte_serialize(s.as_bytes()).collect::<String>();
    prop_oneof![
        3 => decode::loose_text(),
        3 => prop::collection::vec((key13(), any_text()), 0..6).prop_map(move |v| v.iter().map(|(k, x)| format!("{}={}", enc(k), enc(x))).collect::<Vec<_>>().join("&").into_bytes()),
        1 => prop::collection::vec(any::<u8>(), 0..60),
        1 => (0usize..2000, any::<bool>()).prop_map(|(n, b)| (if b { "v=1&" } else { "&=" }).repeat(n).into_bytes()),
    ]
    .boxed()
}
fn json_like() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        3 => decode::json_text(),
        2 => (prop::sample::select(vec!["v", "id", "name", "A", "N"]), any_text(), 0u8..5).prop_map(|(k, t, w)| {
            let t = serde_json::to_string(&t).unwrap();
            match w { 0 => format!("{{\"{k}\":{t}}}"), 1 => format!("{{\"{k}\":[{t}]}}"), 2 => format!("[{t}]"), 3 => t, _ => format!("{{\"{k}\":{{\"v\":{t}}}}}") }.into_bytes()
        }),
        1 => (1usize..400, prop::sample::select(vec!["[", "{\"v\":", "[{\"v\":[", "\"\\u", "{\"v\":{\"v\":"])).prop_map(|(n, s)| s.repeat(n).into_bytes()),
        1 => prop::sample::select(vec!["[", "{\"v\":"]).prop_map(|s| s.repeat(100_000).into_bytes()),
        1 => prop::collection::vec(any::<u8>(), 0..40),
        1 => "[0-9eE+.-]{1,40}".prop_map(|s| s.into_bytes()),
    ]
    .boxed()
}
fn cuts() -> BoxedStrategy<Vec<usize>> {
    prop_oneof![3 => Just(vec![]), 1 => prop::collection::vec(0usize..6, 1..4)].boxed()
}
/// a request target the HTTP library takes: visible ASCII
fn target13() -> BoxedStrategy<B> {
    let seg = prop_oneof![
        4 => prop::sample::select(vec!["p", "q", "f", "f2", "j", "j2", "s", "m", "none", "control", "x", "w", "only", "mw", "here", "file", "sub", ":a", "*", ":", "**"]).prop_map(|s| s.to_string()),
        2 => "[!$&'()*+,;=:@a-zA-Z0-9._~-]{1,10}",
        1 => "(%[0-9A-Fa-f]{2}){1,4}",
        1 => prop::sample::select(vec!["..", ".", "%2F", "%", "%zz", "{", "}", "|", "\"", "^", "`", "\\", "[", "]"]).prop_map(|s| s.to_string()),
        1 => (1usize..3000).prop_map(|n| "s".repeat(n)),
    ];
    (prop::collection::vec((seg, 1u8..3), 0..7), proptest::option::of(form_like()), any::<bool>())
        .prop_map(|(segs, q, slash)| {
            let mut s = String::new();
            for (x, n) in segs {
                s.push_str(&"/".repeat(n as usize));
                s.push_str(&x);
            }
            if s.is_empty() || slash {
                s.push('/');
            }
            let mut t = s.into_bytes();
            if let Some(q) = q {
                t.push(b'?');
                t.extend(q.into_iter().filter(|b| (0x21..0x7f).contains(b) && *b != b'#').take(20_000));
            }
            B(t)
        })
        .boxed()
}
fn aimed_target() -> BoxedStrategy<(String, B)> {
    let q = form_like().prop_map(|q| {
        let mut t = b"/q?".to_vec();
        t.extend(q.into_iter().filter(|b| (0x21..0x7f).contains(b) && *b != b'#').take(20_000));
        ("GET".to_string(), B(t))
    });
    let fixed = prop::sample::select(vec![("POST", "/f"), ("POST", "/f2"), ("POST", "/j"), ("POST", "/j2"), ("PUT", "/none"), ("GET", "/control"), ("POST", "/r/1/2"), ("GET", "/s/file"), ("GET", "/s"), ("GET", "/s/"), ("GET", "/s/sub"), ("GET", "/s/sub/x"), ("GET", "/p/a/s/file"), ("GET", "/m"), ("GET", "/m/a/x/"), ("DELETE", "/m/a"), ("GET", "/")]).prop_map(|(m, t)| (m.to_string(), B(t.as_bytes().to_vec())));
    let any = (prop::sample::select(vec!["GET", "POST", "PUT", "PATCH", "DELETE", "HEAD", "OPTIONS", "TRACE", "PURGE", "get"]), target13()).prop_map(|(m, t)| (m.to_string(), t));
    prop_oneof![2 => q, 3 => fixed, 3 => any].boxed()
}
fn headers13() -> BoxedStrategy<Vec<(String, B)>> {
    let name = prop_oneof![
        2 => prop::sample::select(vec!["accept", "Cookie", "content-type", "x-rid", "range", "if-modified-since", "authorization", "user-agent", "content-encoding", "accept-encoding", "x-forwarded-for", "accept-language", "referer", "origin", "te", "expires", "date", "if-none-match", "accept-charset", "x-http-method-override", "forwarded", "host", NO_HOST]).prop_map(|s| s.to_string()),
        1 => "[a-zA-Z0-9_-]{1,12}".prop_map(|s| format!("x-{s}")),
    ];
    let value = prop_oneof![
        2 => "[!-~]([ -~]{0,20}[!-~])?".prop_map(|s| B(s.into_bytes())),
        1 => prop::collection::vec(prop_oneof![0x21u8..0x7f, 0x80u8..=0xff], 0..20).prop_map(B),
        1 => prop::sample::select(vec!["application/json", "application/x-www-form-urlencoded; charset=utf-8", "multipart/form-data; boundary=x", "bytes=0-1", "gzip", "", "=", ";", ",", ":", "a;q=", "bytes=-", "bytes=9-1", "Basic", "Bearer ", "b=;c", "W/", "\"", "*", "-1", "99999999999999999999", "[::1", "t:", "text/html;charset=", "Mon, 99 Foo 0000 00:00:00 GMT"]).prop_map(|s| B(s.as_bytes().to_vec())),
    ];
    prop::collection::vec((name, value), 0..6).boxed()
}
fn good() -> BoxedStrategy<Item> {
    let body = prop_oneof![3 => form_like(), 3 => json_like(), 1 => Just(vec![]), 1 => (1usize..200_000).prop_map(|n| vec![b'v'; n])];
    let framing = prop_oneof![3 => Just(Some(vec![])), 2 => prop::collection::vec(1usize..500, 1..4).prop_map(Some), 2 => Just(None)];
    (aimed_target(), headers13(), body, framing, prop_oneof![3 => Just(vec![]), 1 => prop::collection::vec(1usize..200, 1..4)])
        .prop_map(|((m, target), headers, mut body, mut framing, split)| {
            if framing.is_none() {
                body = vec![];
            }
            if body.len() > 20_000 {
                framing = framing.map(|v| v.iter().map(|n| n * 97).collect());
            }
            Item::Good { m, target, headers, body: B(body), framing, split }
        })
        .boxed()
}
#[derive(Clone, Debug)]
enum Dmg {
    None,
    Cut(prop::sample::Index),
    Byte(prop::sample::Index, u8),
    Ins(prop::sample::Index, Vec<u8>),
    Del(prop::sample::Index, u8),
    Swap(usize),
}
const SWAPS: [(&str, &str); 18] = [
    ("HTTP/1.1", "HTTP/9.9"),
    ("HTTP/1.1", "HTTP/1.0"),
    ("HTTP/1.1", ""),
    ("\r\n", "\n"),
    ("host: t", "content-length: 18446744073709551614"),
    ("host: t", "content-length: 18446744073709551616"),
    ("host: t", "content-length: -1"),
    ("host: t", "content-length: 5\r\ncontent-length: 6"),
    ("host: t", "transfer-encoding: chunked\r\ncontent-length: 3"),
    ("host: t", "transfer-encoding: gzip, chunked"),
    ("host: t", "expect: 100-continue"),
    ("host: t", "connection: upgrade\r\nupgrade: websocket"),
    ("connection: close", "x: y"),
    ("host: t", "x\u{7f}: y"),
    ("host: t", " folded"),
    ("chunked\r\n\r\n", "chunked\r\n\r\nffffffffffffffff\r\n"),
    ("chunked\r\n\r\n", "chunked\r\n\r\nzz\r\n"),
    (" /", " http://t/"),
];
fn raw() -> BoxedStrategy<Item> {
    let dmg = prop_oneof![
        1 => Just(Dmg::None),
        3 => any::<prop::sample::Index>().prop_map(Dmg::Cut),
        2 => (any::<prop::sample::Index>(), any::<u8>()).prop_map(|(i, b)| Dmg::Byte(i, b)),
        2 => (any::<prop::sample::Index>(), prop::collection::vec(any::<u8>(), 1..8)).prop_map(|(i, b)| Dmg::Ins(i, b)),
        1 => (any::<prop::sample::Index>(), any::<u8>()).prop_map(|(i, b)| Dmg::Del(i, b)),
        5 => (0usize..SWAPS.len()).prop_map(Dmg::Swap),
    ];
    let base = prop_oneof![
        8 => (good(), prop::collection::vec(dmg, 1..3)).prop_map(|(g, ds)| {
            let Item::Good { m, target, headers, body, framing, .. } = g else { unreachable!() };
            let mut b = good_bytes(&m, &target.0, &headers, &body.0, &framing);
            for d in ds {
                if b.is_empty() {
                    break;
                }
                match d {
                    Dmg::None => {}
                    Dmg::Cut(i) => b.truncate(i.index(b.len())),
                    Dmg::Byte(i, x) => { let k = i.index(b.len()); b[k] = x; }
                    Dmg::Ins(i, x) => { let k = i.index(b.len()); b.splice(k..k, x); }
                    Dmg::Del(i, n) => { let k = i.index(b.len()); let e = (k + 1 + n as usize % 9).min(b.len()); b.drain(k..e); }
                    Dmg::Swap(k) => {
                        let (from, to) = SWAPS[k];
                        if let Some(p) = b.windows(from.len()).position(|w| w == from.as_bytes()) {
                            b.splice(p..p + from.len(), to.bytes());
                        }
                    }
                }
            }
            b
        }),
        1 => prop::collection::vec(any::<u8>(), 0..200),
        1 => Just(b"PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n\x00\x00\x00\x04\x00\x00\x00\x00\x00".to_vec()),
        1 => Just(b"\x16\x03\x01\x02\x00\x01\x00\x01\xfc\x03\x03".to_vec()),
        1 => (1usize..3000).prop_map(|n| { let mut v = b"GET / HTTP/1.1\r\n".to_vec(); for i in 0..n { v.extend_from_slice(format!("h{i}: x\r\n").as_bytes()); } v.extend_from_slice(b"\r\n"); v }),
        1 => Just([b"GET /".to_vec(), vec![b'a'; 500_000], b" HTTP/1.1\r\n\r\n".to_vec()].concat()),
        1 => Just(b"CONNECT t:80 HTTP/1.1\r\nhost: t\r\n\r\n".to_vec()),
        1 => Just(b"OPTIONS * HTTP/1.1\r\nhost: t\r\n\r\n".to_vec()),
        1 => prop::sample::select(vec!["GET ? HTTP/1.1\r\n\r\n", "GET # HTTP/1.1\r\n\r\n", "GET http:// HTTP/1.1\r\n\r\n", "GET http://t HTTP/1.1\r\n\r\n", "GET http://t?v=1 HTTP/1.1\r\n\r\n", "GET t:80 HTTP/1.1\r\n\r\n", "GET //// HTTP/1.1\r\n\r\n", "GET * HTTP/1.1\r\n\r\n", "GET /q?%00 HTTP/1.0\r\n\r\n", "GET /?# HTTP/1.1\r\n\r\n", "GET /\u{e9} HTTP/1.1\r\n\r\n"]).prop_map(|s| s.as_bytes().to_vec()),
    ];
    (base, prop_oneof![2 => Just(vec![]), 2 => prop::collection::vec(1usize..100, 1..4)], 0u8..3)
        .prop_map(|(b, cut, end)| {
            let mut ps: Vec<B> = if cut.is_empty() { vec![B(b)] } else { split_chunks(&b, &cut).into_iter().map(|p| B(p.to_vec())).collect() };
            if ps.len() > 12 {
                let rest: Vec<u8> = ps.split_off(12).into_iter().flat_map(|p| p.0).collect();
                ps.push(B(rest));
            }
            Item::Raw { pieces: ps, end }
        })
        .boxed()
}

pub struct C13;
impl Check for C13 {
    type Case = C13Case;
    fn id(&self) -> &'static str {
        "C13"
    }
    fn rule(&self) -> &'static str {
        "Arbitrary and damaged texts decoded as query, form, JSON (whole, in pieces, cut off by an error) and as grouped map into about 200 target types covering every serde shape; parameter access with any names and values; lookups of arbitrary unicode paths in generated routers; and conversations with a live server mixing valid requests (which must be answered), damaged, truncated, oversized and garbage ones in pieces, ended by reset, half-close or left open, with control requests on old and new connections after each. Non-trivial: a text of at least two bytes, a path lookup in a router with routes, or a conversation with a damaged request."
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["the target types' own Deserialize code does not panic (true of those used)", "JSON nesting is bounded by serde_json's limit of 128"]
    }
    fn cases(&self) -> (u64, u64) {
        (16_000, 200_000)
    }
    fn strategy(&self, _t: bool) -> BoxedStrategy<C13Case> {
        let fail = || prop::bool::weighted(0.05);
        let cfg = gen::Cfg { param_w: 4, wild_p: 0.25, mw_to_w: 4, ..Default::default() };
        let wild_path = prop_oneof![
            2 => "[/a-c:*.%]{0,16}",
            2 => "\\PC{0,16}",
            1 => prop::collection::vec(prop_oneof![2 => Just('/'), 2 => any::<char>(), 1 => prop::char::range('a', 'e')], 0..20).prop_map(|v| v.into_iter().collect::<String>()),
            1 => (1usize..2000).prop_map(|n| "/é".repeat(n)),
            1 => (1usize..2000).prop_map(|n| "/".repeat(n)),
            1 => (1usize..4000).prop_map(|n| "é".repeat(n)),
        ];
        prop_oneof![
            3 => form_like().prop_map(|t| C13Case::Decode { text: B(t), entry: Entry::Query }),
            3 => (form_like(), cuts(), fail()).prop_map(|(t, cut, fail)| C13Case::Decode { text: B(t), entry: Entry::Form { cut, fail } }),
            3 => (json_like(), cuts(), fail()).prop_map(|(t, cut, fail)| C13Case::Decode { text: B(t), entry: Entry::Json { cut, fail } }),
            3 => prop::collection::vec((key13(), prop::collection::vec(any_text(), 1..5)), 0..5).prop_map(|map| C13Case::Map { map }),
            1 => (prop::collection::vec((any_text(), any_text()), 0..5), prop::collection::vec(any_text(), 0..4)).prop_map(|(params, keys)| C13Case::Params { params, keys }),
            4 => (gen::route_case(&cfg, 10), prop::collection::vec(wild_path, 1..10), any::<bool>()).prop_map(|(rc, mut paths, uni)| {
                let mut ops = rc.ops;
                paths.extend(rc.reqs.iter().map(|r| r.path.clone()));
                if uni {
                    ops = gen::unicode_ops(&ops);
                    let u: Vec<String> = paths.iter().map(|p| gen::unicode(p)).collect();
                    paths.extend(u);
                }
                C13Case::Search { ops, paths }
            }),
            4 => (any::<bool>(), any::<bool>(), prop::collection::vec(prop_oneof![2 => good(), 3 => raw()], 1..5), prop::bool::weighted(0.03)).prop_map(|(default_app, state, items, full_disk)| C13Case::Http { default_app, state, items, full_disk }),
        ]
        .boxed()
    }
    fn full_disk(&self, c: &C13Case) -> bool {
        matches!(c, C13Case::Http { full_disk: true, .. })
    }
    fn run(&self, env: &mut Env, c: &C13Case) -> Res {
        match c {
            C13Case::Decode { text, entry } => {
                env.nontrivial(text.0.len() > 1);
                decode::noise_start(&text.0[..text.0.len().min(100)]);
                match entry {
                    Entry::Query => {
                        let t: Vec<u8> = text.0.iter().copied().filter(|b| *b != b'#').collect();
                        let uri = hyper::Uri::try_from([b"/p?", &t[..]].concat());
                        env.label(if uri.is_ok() { "decode query" } else { "not a query" });
                        match uri {
                            Ok(u) => all_targets(&mut FeedQuery(&u)),
                            Err(_) => Ok(()),
                        }
                    }
                    Entry::Form { cut, fail } => {
                        env.label("decode form");
                        env.label_if(*fail, "body ends in an error");
                        all_targets(&mut FeedBody { env, json: false, text: &text.0, cut, fail: *fail })
                    }
                    Entry::Json { cut, fail } => {
                        env.label("decode json");
                        env.label_if(*fail, "body ends in an error");
                        all_targets(&mut FeedBody { env, json: true, text: &text.0, cut, fail: *fail })
                    }
                }
            }
            C13Case::Map { map } => {
                env.label("decode map");
                env.nontrivial(!map.is_empty());
                let m: HashMap<Cow<'static, str>, Cow<'static, [String]>> = map.iter().map(|(k, v)| (Cow::from(k.clone()), Cow::from(v.clone()))).collect();
                all_targets(&mut FeedMap(&m))
            }
            C13Case::Params { params, keys } => {
                env.label("parameters");
                env.nontrivial(!params.is_empty());
                let m: HashMap<String, String> = params.iter().cloned().collect();
                let ctx = Context::new(Request::builder().uri("/").body(Body::empty()).unwrap(), m);
                for k in keys.iter().chain(params.iter().map(|p| &p.0)) {
                    let _ = ctx.param::<String>(k);
                    let _ = ctx.param::<i8>(k);
                    let _ = ctx.param::<u64>(k);
                    let _ = ctx.param::<f32>(k);
                    let _ = ctx.param::<bool>(k);
                    let _ = ctx.param::<char>(k);
                    let _ = ctx.param::<IpAddr>(k);
                    let _ = ctx.param::<SocketAddr>(k);
                    let _ = ctx.param::<NonZeroI32>(k).map_err(|e| e.to_string());
                }
                Ok(())
            }
            C13Case::Search { ops, paths } => search(env, ops, paths),
            C13Case::Http { default_app, state, items, .. } => {
                let dir = env.fresh_dir();
                std::fs::create_dir_all(format!("{dir}/sub")).map_err(|e| Fail::Infra(e.to_string()))?;
                std::fs::write(format!("{dir}/file"), b"content").map_err(|e| Fail::Infra(e.to_string()))?;
                let run = env.srv.start(app13(*default_app, *state, &dir))?;
                let mut idle = Conn::open(run.port)?;
                let mut warm = Conn::open(run.port)?;
                control(&mut warm, "before")?;
                let mut open = vec![];
                for (i, it) in items.iter().enumerate() {
                    match it {
                        Item::Good { m, target, headers, body, framing, split } => {
                            env.label("valid request");
                            let mut conn = Conn::open(run.port)?;
                            let b = good_bytes(m, &target.0, headers, &body.0, framing);
                            let mut ps = if split.is_empty() { vec![&b[..]] } else { split_chunks(&b, split) };
                            let rest: Vec<u8> = if ps.len() > 20 { ps.split_off(20).concat() } else { vec![] };
                            for p in ps {
                                // an early answer may close the connection
                                if let Err(NetErr::Timeout) = conn.send(p) {
                                    return Err(Fail::Hang("cannot send".into()));
                                }
                            }
                            let _ = conn.send(&rest);
                            let raw = conn.read_to_end()?;
                            ensure!(raw.starts_with(b"HTTP/1.1 ") || raw.starts_with(b"HTTP/1.0 "), "item {i}: valid request {} {:?} got {:?}", m, target, clip(&String::from_utf8_lossy(&raw), 300));
                        }
                        Item::Raw { pieces, end } => {
                            env.nontrivial(true);
                            env.label(["reset", "half-close", "left open"][*end as usize % 3]);
                            let mut conn = Conn::open(run.port)?;
                            for p in pieces {
                                if conn.send(&p.0).is_err() {
                                    break;
                                }
                            }
                            match end {
                                1 => {
                                    conn.shutdown_write();
                                    let _ = conn.read_to_end()?;
                                }
                                2 => open.push(conn),
                                _ => drop(conn),
                            }
                        }
                    }
                    control(&mut warm, &format!("warm connection after item {i}"))?;
                    control(&mut Conn::open(run.port)?, &format!("new connection after item {i}"))?;
                }
                control(&mut idle, "idle connection")?;
                drop(open);
                control(&mut warm, "warm connection at the end")?;
                control(&mut Conn::open(run.port)?, "new connection at the end")
            }
        }
    }
}

#[cfg(feature = "inproc")]
fn search(env: &mut Env, ops: &[Op], paths: &[String]) -> Res {
    env.label("search");
    let (ops, m) = accept(ops);
    env.nontrivial(m.routes().next().is_some());
    let (parts, _) = routing::plain(&m);
    let router = routing::build_router(&ops, &parts);
    for p in paths {
        match catch_unwind(AssertUnwindSafe(|| {
            if let Some(rv) = router.search_route(p) {
                let _ = (rv.get_params(), rv.get_middlewares().len());
                for m in [hyper::Method::GET, hyper::Method::POST, hyper::Method::HEAD] {
                    let _ = rv.get_route(&m).is_some();
                }
            }
        })) {
            Ok(()) => {}
            Err(_) => return violated(format!("looking up {p:?} panics: {}", my_panic())),
        }
    }
    Ok(())
}
#[cfg(not(feature = "inproc"))]
fn search(_: &mut Env, _: &[Op], _: &[String]) -> Res {
    Ok(())
}
