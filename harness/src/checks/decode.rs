//! C09-C12: decoding of queries, forms, JSON and grouped maps.
use crate::core::*;
use crate::ensure;
use crate::server::*;
use hyper::{Body, Request};
use obsidian::context::Context;
use obsidian::router::from_cow_map;
use obsidian::{App, ObsidianError};
use proptest::prelude::*;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use serde_json::Value;
use std::borrow::Cow;
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::fmt::Debug;
use std::hash::{BuildHasher, Hasher};
use std::str::FromStr;

// ------------------------------------------------------------------ bytes in replay files

/// Bytes, written to files as a text with one character per byte.
#[derive(Clone, PartialEq)]
pub struct B(pub Vec<u8>);
impl Debug for B {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}", self.0.iter().map(|b| *b as char).collect::<String>())
    }
}
impl Serialize for B {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&self.0.iter().map(|b| *b as char).collect::<String>())
    }
}
impl<'de> Deserialize<'de> for B {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<B, D::Error> {
        let s = String::deserialize(d)?;
        Ok(B(s.chars().map(|c| c as u32 as u8).collect()))
    }
}

// ------------------------------------------------------------------ what decoding must give

#[derive(Clone, Debug, PartialEq)]
pub enum Want {
    /// the Debug form of the value
    Val(String),
    Bad,
    /// not specified
    Any,
}
use Want::*;

/// A type with an independent idea of what the texts of one key mean for it.
pub trait Orc: DeserializeOwned + Debug {
    /// `vals` is never empty
    fn want(vals: &[String]) -> Want;
    fn missing() -> Want {
        Bad
    }
}
macro_rules! scalar {
    ($($t:ty),*) => {$(
        impl Orc for $t {
            fn want(vals: &[String]) -> Want {
                match <$t>::from_str(&vals[0]) { Ok(v) => Val(format!("{v:?}")), Err(_) => Bad }
            }
        }
    )*};
}
scalar!(i8, i16, i32, i64, u8, u16, u32, u64, isize, usize, f32, f64, bool, char, String);
impl Orc for Cow<'static, str> {
    fn want(vals: &[String]) -> Want {
        String::want(vals)
    }
}
impl Orc for () {
    fn want(vals: &[String]) -> Want {
        if vals[0].is_empty() { Val("()".into()) } else { Any }
    }
}
/// Is the element a list (whose meaning next to an empty text is not specified)?
impl<T: Orc + Listy> Orc for Option<T> {
    fn want(vals: &[String]) -> Want {
        if vals[0].is_empty() {
            return if T::LIST && vals.len() > 1 { Any } else { Val("None".into()) };
        }
        match T::want(vals) {
            Val(v) => Val(format!("Some({v})")),
            w => w,
        }
    }
    fn missing() -> Want {
        Val("None".into())
    }
}
pub trait Listy {
    const LIST: bool = false;
}
macro_rules! not_listy { ($($t:ty),*) => {$( impl Listy for $t {} )*}; }
not_listy!(i8, i16, i32, i64, u8, u16, u32, u64, isize, usize, f32, f64, bool, char, String, Cow<'static, str>, Nt<i32>, Nt<String>, Nt<f64>, Box<u8>);
impl<T> Listy for Vec<T> {
    const LIST: bool = true;
}
impl<A, B> Listy for (A, B) {
    const LIST: bool = true;
}
impl<T: Orc> Orc for Box<T> {
    fn want(vals: &[String]) -> Want {
        T::want(vals)
    }
}
fn list(ws: Vec<Want>, open: &str, close: &str) -> Want {
    if ws.contains(&Bad) {
        return Bad;
    }
    if ws.contains(&Any) {
        return Any;
    }
    let v: Vec<String> = ws.into_iter().map(|w| if let Val(v) = w { v } else { unreachable!() }).collect();
    Val(format!("{open}{}{close}", v.join(", ")))
}
fn each<T: Orc>(vals: &[String]) -> Vec<Want> {
    vals.iter().map(|v| T::want(std::slice::from_ref(v))).collect()
}
impl<T: Orc> Orc for Vec<T> {
    fn want(vals: &[String]) -> Want {
        list(each::<T>(vals), "[", "]")
    }
}
impl<T: Orc> Orc for VecDeque<T> {
    fn want(vals: &[String]) -> Want {
        list(each::<T>(vals), "[", "]")
    }
}
impl<A: Orc, B: Orc> Orc for (A, B) {
    fn want(vals: &[String]) -> Want {
        match vals.len() {
            1 => Bad,
            2 => list(vec![A::want(&vals[..1]), B::want(&vals[1..])], "(", ")"),
            _ => Any,
        }
    }
}
impl<A: Orc, B: Orc, C: Orc> Orc for (A, B, C) {
    fn want(vals: &[String]) -> Want {
        match vals.len() {
            1 | 2 => Bad,
            3 => list(vec![A::want(&vals[..1]), B::want(&vals[1..2]), C::want(&vals[2..])], "(", ")"),
            _ => Any,
        }
    }
}
impl<T: Orc + Copy> Orc for [T; 2] {
    fn want(vals: &[String]) -> Want {
        match vals.len() {
            1 => Bad,
            2 => list(each::<T>(vals), "[", "]"),
            _ => Any,
        }
    }
}
#[derive(Deserialize, Debug, Default)]
pub struct Nt<T>(#[allow(dead_code)] T);
impl<T: Orc> Orc for Nt<T> {
    fn want(vals: &[String]) -> Want {
        match T::want(vals) {
            Val(v) => Val(format!("Nt({v})")),
            w => w,
        }
    }
}

#[derive(Deserialize, Debug)]
struct One<T> {
    #[allow(dead_code)]
    v: T,
}
#[derive(Deserialize, Debug)]
struct OneD<T: Default> {
    #[serde(default)]
    #[allow(dead_code)]
    v: T,
}

pub type Grouped = BTreeMap<String, Vec<String>>;

/// How a target type is produced from a source (a context or a map).
pub trait Source {
    fn get<T: DeserializeOwned>(&mut self) -> Result<T, String>;
}

/// One decoding: what it gave against what it must give.
fn judge<T: Debug>(got: Result<T, String>, want: Want, ty: &str) -> Res {
    match (got, want) {
        (_, Any) => Ok(()),
        (Err(_), Bad) => Ok(()),
        (Ok(v), Val(w)) if format!("{v:?}") == w => Ok(()),
        (g, w) => violated(format!("{ty}: got {g:?}, expected {w:?}")),
    }
}

fn one<T: Orc>(src: &mut impl Source, g: &Grouped, ty: &str) -> Res {
    let w = match g.get("v") {
        None => T::missing(),
        Some(vals) => T::want(vals),
    };
    let w = match w {
        Val(v) => Val(format!("One {{ v: {v} }}")),
        w => w,
    };
    judge(src.get::<One<T>>(), w, ty)
}
fn one_default<T: Orc + Default>(src: &mut impl Source, g: &Grouped, ty: &str) -> Res {
    let w = match g.get("v") {
        None => Val(format!("{:?}", T::default())),
        Some(vals) => T::want(vals),
    };
    let w = match w {
        Val(v) => Val(format!("OneD {{ v: {v} }}")),
        w => w,
    };
    judge(src.get::<OneD<T>>(), w, &format!("default {ty}"))
}
/// A map with every key; order by the Debug form of the key.
fn map_of<T: Orc>(src: &mut impl Source, g: &Grouped, ty: &str) -> Res {
    let mut ws = vec![];
    for (k, vals) in g {
        ws.push(match T::want(vals) {
            Val(v) => Val(format!("{k:?}: {v}")),
            w => w,
        });
    }
    let want = list(ws, "{", "}");
    judge(src.get::<BTreeMap<String, T>>(), want.clone(), &format!("BTreeMap<String, {ty}>"))?;
    let h = src.get::<HashMap<String, T>>().map(|m| m.into_iter().collect::<BTreeMap<_, _>>());
    judge(h, want, &format!("HashMap<String, {ty}>"))
}
fn keyed<K: Orc + Ord + FromStr + std::hash::Hash, T: Orc>(src: &mut impl Source, g: &Grouped, ty: &str) -> Res {
    let mut m: BTreeMap<K, String> = BTreeMap::new();
    let mut bad = false;
    let mut any = false;
    for (k, vals) in g {
        let Ok(key) = K::from_str(k) else {
            bad = true;
            continue;
        };
        match T::want(vals) {
            Val(v) => any |= m.insert(key, v).is_some(),
            Bad => bad = true,
            Any => any = true,
        }
    }
    let want = if bad {
        Bad
    } else if any {
        Any
    } else {
        Val(format!("{{{}}}", m.iter().map(|(k, v)| format!("{k:?}: {v}")).collect::<Vec<_>>().join(", ")))
    };
    judge(src.get::<BTreeMap<K, T>>(), want, ty)
}

/// A structure as applications have them.
#[derive(Deserialize, Debug)]
#[allow(dead_code)]
struct Mixed {
    id: i32,
    name: String,
    tags: Vec<String>,
    #[serde(default)]
    nums: Vec<u64>,
    opt: Option<f64>,
    #[serde(default)]
    flag: bool,
    #[serde(rename = "re name")]
    renamed: Option<String>,
    pair: Option<(i64, String)>,
    c: Option<char>,
    nt: Option<Nt<i32>>,
    opts: Option<Vec<i32>>,
}
fn mixed(src: &mut impl Source, g: &Grouped) -> Res {
    fn f<T: Orc>(g: &Grouped, k: &str) -> Want {
        g.get(k).map(|v| T::want(v)).unwrap_or_else(T::missing)
    }
    fn d<T: Orc + Default>(g: &Grouped, k: &str) -> Want {
        g.get(k).map(|v| T::want(v)).unwrap_or_else(|| Val(format!("{:?}", T::default())))
    }
    let fields = vec![
        ("id", f::<i32>(g, "id")),
        ("name", f::<String>(g, "name")),
        ("tags", f::<Vec<String>>(g, "tags")),
        ("nums", d::<Vec<u64>>(g, "nums")),
        ("opt", f::<Option<f64>>(g, "opt")),
        ("flag", d::<bool>(g, "flag")),
        ("renamed", f::<Option<String>>(g, "re name")),
        ("pair", f::<Option<(i64, String)>>(g, "pair")),
        ("c", f::<Option<char>>(g, "c")),
        ("nt", f::<Option<Nt<i32>>>(g, "nt")),
        ("opts", f::<Option<Vec<i32>>>(g, "opts")),
    ];
    let ws = fields
        .into_iter()
        .map(|(n, w)| match w {
            Val(v) => Val(format!("{n}: {v}")),
            w => w,
        })
        .collect();
    judge(src.get::<Mixed>(), list(ws, "Mixed { ", " }"), "Mixed")
}
#[derive(Deserialize, Debug)]
#[allow(dead_code)]
struct Flat {
    #[serde(default)]
    id: i64,
    #[serde(flatten)]
    rest: BTreeMap<String, String>,
}
fn flat(src: &mut impl Source, g: &Grouped) -> Res {
    let id = g.get("id").map(|v| i64::want(v)).unwrap_or(Val("0".into()));
    let rest: BTreeMap<&String, &String> = g.iter().filter(|(k, _)| *k != "id").map(|(k, v)| (k, &v[0])).collect();
    let w = match id {
        Val(v) => Val(format!("Flat {{ id: {v}, rest: {rest:?} }}")),
        w => w,
    };
    judge(src.get::<Flat>(), w, "Flat")
}

macro_rules! all_types {
    ($src:expr, $g:expr; one: $($t:ty),*; default: $($d:ty),*; map: $($m:ty),*) => {
        $( one::<$t>($src, $g, stringify!($t))?; )*
        $( one_default::<$d>($src, $g, stringify!($d))?; )*
        $( map_of::<$m>($src, $g, stringify!($m))?; )*
    };
}
/// Decodes into every target type and compares each with its oracle.
pub fn all(src: &mut impl Source, g: &Grouped) -> Res {
    all_types!(src, g;
        one: i8, i16, i32, i64, u8, u16, u32, u64, isize, usize, f32, f64, bool, char, String, Cow<'static, str>,
             Option<i8>, Option<u64>, Option<f32>, Option<bool>, Option<char>, Option<String>, Option<i32>, Option<Nt<String>>, Option<Nt<f64>>, Option<Box<u8>>,
             Vec<i8>, Vec<u8>, Vec<i64>, Vec<u64>, Vec<f64>, Vec<bool>, Vec<char>, Vec<String>, Vec<Option<i32>>, Vec<Option<String>>, Vec<Nt<u16>>, VecDeque<u32>,
             Option<Vec<i32>>, Option<Vec<String>>, Nt<Vec<i32>>, Nt<i32>, Nt<String>, Nt<Nt<u8>>, Box<i32>, Nt<Option<i32>>,
             (i32, i32), (String, u8), (f64, bool, String), [i32; 2], Vec<()>, ();
        default: i32, u64, f64, bool, char, String, Vec<i32>, Vec<String>, Option<i32>, Option<String>, Nt<i32>, ();
        map: i32, u8, f64, bool, char, String, Option<String>, Option<i32>, Vec<i32>, Vec<String>, Vec<Option<u8>>, (String, String)
    );
    keyed::<i32, String>(src, g, "BTreeMap<i32, String>")?;
    keyed::<u8, Vec<String>>(src, g, "BTreeMap<u8, Vec<String>>")?;
    keyed::<i64, i64>(src, g, "BTreeMap<i64, i64>")?;
    keyed::<u64, String>(src, g, "BTreeMap<u64, String>")?;
    keyed::<i8, Option<String>>(src, g, "BTreeMap<i8, Option<String>>")?;
    keyed::<u16, String>(src, g, "BTreeMap<u16, String>")?;
    keyed::<i16, String>(src, g, "BTreeMap<i16, String>")?;
    keyed::<u32, String>(src, g, "BTreeMap<u32, String>")?;
    keyed::<bool, String>(src, g, "BTreeMap<bool, String>")?;
    mixed(src, g)?;
    flat(src, g)
}

// ------------------------------------------------------------------ generated pairs

pub fn value_text() -> BoxedStrategy<String> {
    prop_oneof![
        6 => prop::sample::select(vec!["0", "1", "-1", "42", "127", "128", "-128", "-129", "255", "256", "32767", "32768", "-32769", "65535", "65536", "2147483647", "2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "007", "+7", "-0", "1_0", "0x1f", "1e3", "1.5", ".5", "5.", "-1.25e-3", "inf", "-inf", "NaN", "1e400", "3.4028236e38", "0.1", "16777217", "true", "false", "True", "TRUE", "on", "yes", "null", "None", "undefined"]).prop_map(|s| s.to_string()),
        3 => any::<i64>().prop_map(|n| n.to_string()),
        2 => any::<i16>().prop_map(|n| n.to_string()),
        2 => any::<f64>().prop_map(|n| n.to_string()),
        2 => (0u8..=255).prop_map(|n| n.to_string()),
        2 => "[a-z]{1,8}",
        1 => "[ -~]{1,20}",
        1 => prop::sample::select(vec![" 1", "1 ", "1\n", "\t", " ", "a b", "a+b", "%41", "%", "a&b=c", "=", "&", "a=b", ";", "a;b", "é", "日本", "😀", "ß", "\u{0}", "\u{feff}x", "x\u{feff}", "x\u{0}", "\u{0}\u{0}", "\"x\"", "'x'", "x,y", "1,2", "[1]", "x\r\n", "x\\", "\\n", "x%00", "&amp;", "&lt;", "<x>", "#x", "?x", "x/../y", "UTF-8", "1.0", "1,000", "1 2", "\u{2212}1", "\u{301}", "a\r\nb", "１２", "é9"]).prop_map(|s| s.to_string()),
        1 => "\\PC{1,6}",
        1 => any::<char>().prop_map(|c| c.to_string()),
        1 => (1usize..3000, "[a-z%+&= ]").prop_map(|(n, s)| s.repeat(n)),
        2 => Just(String::new()),
    ]
    .boxed()
}
pub fn key_text() -> BoxedStrategy<String> {
    prop_oneof![
        10 => Just("v".to_string()),
        12 => prop::sample::select(vec!["id", "name", "tags", "nums", "opt", "flag", "re name", "pair", "c", "nt", "opts", "renamed"]).prop_map(|s| s.to_string()),
        3 => prop::sample::select(vec!["V", "v ", " v", "v[]", "v[0]", "v[a]", "v.x", "v.y.z", "\u{feff}v", "v\u{feff}", "?v", "#v", "/v", "-v", "_v", "v_", "v-", "v:", "*v", "'v'", "\"v\"", "v,v", "v;v", "v\n", "v\r\n", "\u{feff}id", "?id", "id[]", "ID", "Name", "_method", "_charset_", "utf8", "isindex", "__proto__", "", "é", "a b", "a=b", "a&b", "%76", "v\u{0}", "1", "-1", "01", "255", "true", "false", "99999999999"]).prop_map(|s| s.to_string()),
        1 => "\\PC{0,6}",
        1 => (1usize..300).prop_map(|n| "k".repeat(n)),
    ]
    .boxed()
}
#[derive(Clone, Debug)]
pub enum Style {
    /// few keys, structure as applications use it
    Struct,
    /// only key v, values of one sort
    OnlyV,
    Free,
    /// numeric or bool keys
    NumKeys,
}
/// Values mostly of one sort, so that lists often decode as a whole.
fn same_sort() -> BoxedStrategy<Vec<String>> {
    let n = prop_oneof![60 => 0usize..6, 20 => 6usize..40, 10 => 40usize..400, 1 => 400usize..4000];
    (n, 0u8..9)
        .prop_flat_map(|(n, k)| {
            let e = match k {
                0 => any::<i32>().prop_map(|n| n.to_string()).boxed(),
                1 => any::<u8>().prop_map(|n| n.to_string()).boxed(),
                2 => any::<bool>().prop_map(|n| n.to_string()).boxed(),
                3 => any::<f32>().prop_map(|n| n.to_string()).boxed(),
                4 => any::<char>().prop_map(|n| n.to_string()).boxed(),
                5 => "[a-z ]{1,6}".boxed(),
                6 => (-130i16..260).prop_map(|n| n.to_string()).boxed(),
                7 => any::<u64>().prop_map(|n| n.to_string()).boxed(),
                _ => value_text(),
            };
            (prop::collection::vec(e, n), prop_oneof![4 => Just(None), 1 => (any::<usize>(), value_text()).prop_map(Some)])
        })
        .prop_map(|(mut v, odd)| {
            if let (Some((i, s)), false) = (odd, v.is_empty()) {
                let i = i % v.len();
                v[i] = s;
            }
            v
        })
        .boxed()
}
fn good_for(key: &str) -> BoxedStrategy<String> {
    match key {
        "id" | "nt" | "opts" => prop_oneof![30 => any::<i32>().prop_map(|n| n.to_string()), 1 => value_text()].boxed(),
        "nums" => prop_oneof![30 => any::<u64>().prop_map(|n| n.to_string()), 1 => value_text()].boxed(),
        "opt" => prop_oneof![30 => any::<f64>().prop_map(|n| n.to_string()), 1 => value_text()].boxed(),
        "flag" => prop_oneof![30 => any::<bool>().prop_map(|n| n.to_string()), 1 => value_text()].boxed(),
        "c" => prop_oneof![30 => any::<char>().prop_map(|n| n.to_string()), 1 => value_text()].boxed(),
        "pair" => prop_oneof![2 => any::<i32>().prop_map(|n| n.to_string()), 1 => value_text()].boxed(),
        _ => value_text(),
    }
}
pub fn pairs() -> BoxedStrategy<Vec<(String, String)>> {
    let structured = {
        let opt_field = |k: &'static str, p: f64| prop::option::weighted(p, prop::collection::vec(good_for(k).prop_map(move |v| (k.to_string(), v)), 1..4));
        (
            [opt_field("id", 0.95), opt_field("name", 0.95), opt_field("tags", 0.95), opt_field("nums", 0.6), opt_field("opt", 0.6), opt_field("flag", 0.6), opt_field("re name", 0.5), opt_field("pair", 0.12), opt_field("c", 0.4), opt_field("nt", 0.4), opt_field("opts", 0.4)],
            prop::collection::vec((key_text(), value_text()), 0..3),
            any::<prop::sample::Index>(),
            any::<bool>(),
        )
            .prop_map(|(fs, extra, ix, shuffle)| {
                let mut v: Vec<(String, String)> = fs.into_iter().flatten().flatten().collect();
                v.extend(extra);
                if !v.is_empty() {
                    let k = ix.index(v.len());
                    v.rotate_left(k);
                    if shuffle {
                        v.reverse();
                    }
                }
                v
            })
    };
    prop_oneof![
        4 => same_sort().prop_map(|vs| vs.into_iter().map(|v| ("v".to_string(), v)).collect()),
        3 => (same_sort(), prop::collection::vec((key_text(), value_text()), 0..5), any::<u64>()).prop_map(|(vs, extra, mut ix)| {
            let mut v: Vec<(String, String)> = vs.into_iter().map(|v| ("v".to_string(), v)).collect();
            for e in extra {
                let k = ix as usize % (v.len() + 1);
                v.insert(k, e);
                ix = ix.rotate_left(13);
            }
            v
        }),
        3 => structured,
        2 => prop::collection::vec((prop_oneof![(-200i32..70000).prop_map(|n| n.to_string()), any::<bool>().prop_map(|n| n.to_string()), Just("+5".to_string())], value_text()), 0..6),
        2 => prop::collection::vec((key_text(), value_text()), 0..12),
        // many different keys
        1 => (prop::collection::vec((key_text(), value_text()), 1..12), same_sort(), prop_oneof![3 => 10usize..100, 1 => 100usize..700], any::<bool>()).prop_map(|(ps, vs, n, front)| {
            let mut v: Vec<(String, String)> = vec![];
            if front {
                v.extend(vs.iter().map(|x| ("v".to_string(), x.clone())));
            }
            v.extend((0..n).map(|i| { let (k, x) = &ps[i % ps.len()]; (format!("{k}{i}"), x.clone()) }));
            if !front {
                v.extend(vs.iter().map(|x| ("v".to_string(), x.clone())));
            }
            v
        }),
    ]
    .boxed()
}

/// How to spell one pair list as text.
#[derive(Clone, Debug)]
pub struct Spell {
    pub picks: Vec<u8>,
    /// let bytes through unescaped that may stand in a form body but not in a URI
    pub raw: bool,
}
fn uri_ok(b: u8) -> bool {
    b.is_ascii_alphanumeric() || b"!$'()*,-./:;?@_~|{}[]\\^`".contains(&b)
}
pub fn encode(pairs: &[(String, String)], sp: &Spell) -> Vec<u8> {
    let mut out = vec![];
    let mut k = 0usize;
    let mut pick = || {
        k += 1;
        if sp.picks.is_empty() { 0 } else { sp.picks[k % sp.picks.len()].wrapping_add(((k / sp.picks.len()) as u8).wrapping_mul(37)) }
    };
    let mut text = |s: &str, out: &mut Vec<u8>, key: bool| {
        for b in s.bytes() {
            let p = pick();
            let hex = if p & 1 == 0 { format!("%{b:02X}") } else { format!("%{b:02x}") };
            if b == b' ' {
                if p % 3 == 0 {
                    out.extend(hex.bytes());
                } else {
                    out.push(b'+');
                }
            } else if b.is_ascii_alphanumeric() {
                if p % 11 == 0 {
                    out.extend(hex.bytes());
                } else {
                    out.push(b);
                }
            } else if uri_ok(b) && p % 2 == 0 {
                out.push(b);
            } else if b == b'=' && !key && p % 2 == 0 {
                out.push(b);
            } else if sp.raw && !b"&=+%".contains(&b) && p % 2 == 0 {
                out.push(b);
            } else {
                out.extend(hex.bytes());
            }
        }
    };
    for (i, (key, val)) in pairs.iter().enumerate() {
        if i > 0 {
            out.push(b'&');
        }
        text(key, &mut out, true);
        // "key" alone is a key with an empty value
        if !(val.is_empty() && key.len() % 3 == 1) {
            out.push(b'=');
        }
        text(val, &mut out, false);
    }
    out
}
/// Decoder of the URL standard, written apart from the library.
pub fn parse_pairs(text: &[u8]) -> Vec<(String, String)> {
    fn dec(s: &[u8]) -> String {
        let hex = |b: u8| (b as char).to_digit(16);
        let mut out = vec![];
        let mut i = 0;
        while i < s.len() {
            match s[i] {
                b'+' => out.push(b' '),
                b'%' if i + 2 < s.len() && hex(s[i + 1]).is_some() && hex(s[i + 2]).is_some() => {
                    out.push((hex(s[i + 1]).unwrap() * 16 + hex(s[i + 2]).unwrap()) as u8);
                    i += 2;
                }
                b => out.push(b),
            }
            i += 1;
        }
        String::from_utf8_lossy(&out).into_owned()
    }
    let mut out = vec![];
    for piece in text.split(|b| *b == b'&') {
        if piece.is_empty() {
            continue;
        }
        let i = piece.iter().position(|b| *b == b'=');
        let (k, v) = match i {
            Some(i) => (&piece[..i], &piece[i + 1..]),
            None => (piece, &b""[..]),
        };
        out.push((dec(k), dec(v)));
    }
    out
}
/// The values of each key in order; empty values are absent.
pub fn group(pairs: &[(String, String)]) -> Grouped {
    let mut g = Grouped::new();
    for (k, v) in pairs {
        if !v.is_empty() {
            g.entry(k.clone()).or_default().push(v.clone());
        }
    }
    g
}

// ------------------------------------------------------------------ sources

/// One case as a query string.
struct Query {
    ctx: Context,
}
impl Source for Query {
    fn get<T: DeserializeOwned>(&mut self) -> Result<T, String> {
        self.ctx.query_params::<T>().map_err(|e| e.to_string())
    }
}
/// With a method and headers that do not matter.
fn noisy(b: hyper::http::request::Builder, text: &[u8]) -> hyper::http::request::Builder {
    let h = hash_of(&format!("{:?}", &text[..text.len().min(100)]));
    let m = ["POST", "GET", "PUT", "PATCH", "DELETE", "HEAD", "POST", "OPTIONS", "X"][(h >> 40) as usize % 9];
    noise(h).into_iter().fold(b.method(m), |b, (n, v)| b.header(n, v))
}
fn query_ctx(text: &[u8]) -> Option<Context> {
    let mut t = b"/p?".to_vec();
    t.extend_from_slice(text);
    let uri = hyper::Uri::try_from(&t[..]).ok()?;
    // the http crate cuts at '#'
    if uri.query().unwrap_or("").as_bytes() != text {
        return None;
    }
    Some(Context::new(noisy(Request::builder().uri(uri), text).body(Body::empty()).unwrap(), HashMap::new()))
}
struct Form<'a> {
    env: &'a Env,
    body: &'a [u8],
}
impl<'a> Source for Form<'a> {
    fn get<T: DeserializeOwned>(&mut self) -> Result<T, String> {
        let mut ctx = Context::new(noisy(Request::builder().uri("/p"), self.body).body(Body::from(self.body.to_vec())).unwrap(), HashMap::new());
        self.env.block_on(ctx.form::<T>()).map_err(|e| e.to_string())
    }
}

/// Everything decoded on the server by handlers, sent back as the Debug form.
fn http_decode_app() -> App {
    let mut app: App = App::new();
    async fn answer(ctx: Context, g: Result<BTreeMap<String, Vec<String>>, ObsidianError>) -> obsidian::ContextResult {
        match g {
            Ok(g) => ctx.build(format!("{g:?}")).ok(),
            Err(e) => ctx.build(format!("error {e}")).ok(),
        }
    }
    app.get("/q", |mut ctx: Context| async move {
        let g = ctx.query_params();
        answer(ctx, g).await
    });
    app.post("/f", |mut ctx: Context| async move {
        let g = ctx.form().await;
        answer(ctx, g).await
    });
    app.post("/json", |mut ctx: Context| async move {
        match ctx.json::<Value>().await {
            Ok(v) => ctx.build_json(v).ok(),
            Err(_) => ctx.build("error").ok(),
        }
    });
    app
}

// ================================================================== C09

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C09Case {
    pub text: B,
    pub via: Via,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Via {
    Query,
    Form,
    HttpQuery,
    HttpForm,
}
/// Texts as a careless or hostile client writes them.
pub fn loose_text() -> BoxedStrategy<Vec<u8>> {
    let piece = prop_oneof![
        4 => (key_text(), value_text(), prop::collection::vec(any::<u8>(), 0..8)).prop_map(|(k, v, p)| encode(&[(k, v)], &Spell { picks: p, raw: true })),
        1 => prop::sample::select(vec!["v", "v=", "=1", "=", "&", "", "v=1=2", "v==", "v=%", "v=%4", "v=%zz", "v=%E9", "v=%FF%FE", "v=%C3%A9", "%76=1", "v%00=1", "v=+1+", "v=a+%2B", "v=%2", "v=%%41", "v=%00", "?v=1", "v;=1", "v=1;v=2", "v[0]=1", "v\n=1"]).prop_map(|s| s.as_bytes().to_vec()),
        1 => prop::collection::vec(any::<u8>(), 0..10),
    ];
    prop::collection::vec(piece, 0..8).prop_map(|v| v.join(&b'&')).boxed()
}
pub struct C09;
impl Check for C09 {
    type Case = C09Case;
    fn id(&self) -> &'static str {
        "C09"
    }
    fn rule(&self) -> &'static str {
        "Lists of key/value pairs (numbers at the limits of each type, floats, booleans, any unicode text, empty values, repeated keys up to 400 values, missing and unknown keys), spelt in random mixtures of escapes, plus signs and raw characters, plus malformed texts; sent as query and as form, in process and over HTTP; decoded into about 90 target types, each compared with its own oracle on top of an independent URL decoder. Non-trivial: at least two pairs with a non-empty value."
    }
    fn cases(&self) -> (u64, u64) {
        (60_000, 1_200_000)
    }
    fn strategy(&self, _t: bool) -> BoxedStrategy<C09Case> {
        let via = prop_oneof![9 => Just(Via::Query), 9 => Just(Via::Form), 1 => Just(Via::HttpQuery), 1 => Just(Via::HttpForm)];
        let text = prop_oneof![
            5 => (pairs(), prop::collection::vec(any::<u8>(), 0..12)).prop_map(|(p, picks)| (p, Spell { picks, raw: false })).prop_map(|(p, s)| encode(&p, &s)),
            2 => (pairs(), prop::collection::vec(any::<u8>(), 0..12)).prop_map(|(p, picks)| (p, Spell { picks, raw: true })).prop_map(|(p, s)| encode(&p, &s)),
            2 => loose_text(),
        ];
        (text, via).prop_map(|(t, via)| C09Case { text: B(t), via }).boxed()
    }
    fn run(&self, env: &mut Env, c: &C09Case) -> Res {
        let text = &c.text.0;
        let pairs = parse_pairs(text);
        let g = group(&pairs);
        env.nontrivial(pairs.iter().filter(|p| !p.1.is_empty()).count() > 1);
        env.label_if(g.values().any(|v| v.len() > 1), "repeated key");
        env.label_if(g.values().any(|v| v.len() > 50), "more than 50 values for a key");
        env.label_if(pairs.iter().any(|p| p.1.is_empty()), "empty value");
        env.label_if(pairs.iter().any(|p| !p.0.is_ascii() || !p.1.is_ascii()), "non-ASCII text");
        env.label(format!("{:?}", c.via));
        match c.via {
            Via::Query => match query_ctx(text) {
                Some(ctx) => all(&mut Query { ctx }, &g),
                None => all(&mut Form { env, body: text }, &g),
            },
            Via::Form => all(&mut Form { env, body: text }, &g),
            Via::HttpQuery | Via::HttpForm => {
                let h = vec![("host".to_string(), "t".to_string())];
                let q = text.iter().all(|b| uri_ok(*b) || b"&=+%".contains(b)) && c.via == Via::HttpQuery && text.len() < 60_000 && query_ctx(text).is_some();
                let req = if q {
                    noisy_bytes("GET", &format!("/q?{}", String::from_utf8_lossy(text)), &h, b"", &Framing::None)
                } else {
                    noisy_bytes("POST", "/f", &h, text, &Framing::Length)
                };
                let run = env.srv.start(http_decode_app())?;
                let r = roundtrips(run.port, &[req])?.remove(0)?;
                ensure!(r.status == 200 && r.text() == format!("{g:?}"), "{} {:?}, expected {g:?}", r.status, r.text());
                Ok(())
            }
        }
    }
}

// ================================================================== C10

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C10Case {
    pub body: B,
    pub json: bool,
    /// ways of cutting the body (sizes, cycled; 0 = an empty chunk)
    pub cuts: Vec<Vec<usize>>,
    pub http: bool,
}
pub fn pieces(body: &[u8], cut: &[usize]) -> Vec<Vec<u8>> {
    let mut v = vec![];
    let mut rest = body;
    let mut i = 0;
    let mut zeros = 0;
    while !rest.is_empty() {
        let mut n = if cut.is_empty() { rest.len() } else { cut[i % cut.len()].min(rest.len()) };
        i += 1;
        if n == 0 {
            zeros += 1;
            if zeros > 20 {
                n = 1;
            }
        }
        v.push(rest[..n].to_vec());
        rest = &rest[n..];
    }
    v
}
pub fn stream_body(ps: Vec<Vec<u8>>, fail: bool) -> Body {
    let mut items: Vec<Result<Vec<u8>, std::io::Error>> = ps.into_iter().map(Ok).collect();
    if fail {
        items.push(Err(std::io::Error::new(std::io::ErrorKind::Other, "cut off")));
    }
    Body::wrap_stream(futures_util::stream::iter(items))
}
thread_local! { static NOISE_N: std::cell::Cell<u64> = const { std::cell::Cell::new(0) } }
/// At the start of a case.
pub fn noise_start(text: &[u8]) {
    NOISE_N.with(|n| n.set(hash_of(&format!("{text:?}"))))
}
pub fn post(b: Body) -> Context {
    // which headers come along is not to matter at all
    let n = NOISE_N.with(|n| { n.set(n.get().wrapping_add(1)); n.get() });
    Context::new(noisy(Request::builder().uri("/p?v=4&tags=q"), &n.to_le_bytes()).body(b).unwrap(), HashMap::new())
}
/// The outcome of all ways of reading, errors without their text (which may depend on the
/// order of a hash map).
fn read_all(env: &Env, mk: &dyn Fn() -> Context) -> Vec<String> {
    fn show<T: Debug, E>(r: Result<T, E>) -> String {
        match r {
            Ok(v) => format!("{v:?}"),
            Err(_) => "error".into(),
        }
    }
    env.block_on(async {
        vec![
            show(mk().form::<BTreeMap<String, Vec<String>>>().await),
            show(mk().form::<BTreeMap<String, String>>().await),
            show(mk().form::<Mixed>().await),
            show(mk().form::<One<Vec<String>>>().await),
            show(mk().form::<One<Option<i64>>>().await),
            show(mk().json::<Value>().await),
            show(mk().json::<JTree>().await),
            show(hyper::body::to_bytes(mk().take_body()).await),
        ]
    })
}
/// The pairs over and over, up to about 3 MB.
fn repeated(one: Vec<u8>, n: usize) -> Vec<u8> {
    let n = n.min(3_000_000 / (one.len() + 1)).max(1);
    vec![one; n].join(&b'&')
}
pub struct C10;
impl Check for C10 {
    type Case = C10Case;
    fn id(&self) -> &'static str {
        "C10"
    }
    fn rule(&self) -> &'static str {
        "Form and JSON bodies (valid, malformed, up to about 1 MB and a few up to 17 MB) read as form and JSON into 8 targets from one chunk and from several random chunkings (single bytes, empty chunks, cuts inside escapes and UTF-8 sequences), in process and over HTTP with a length or chunked; all outcomes compared, each text also as a query string, and second reads and streams that break off checked. Non-trivial: the body is cut into at least two chunks."
    }
    fn cases(&self) -> (u64, u64) {
        (24_000, 400_000)
    }
    fn strategy(&self, _t: bool) -> BoxedStrategy<C10Case> {
        let form = prop_oneof![
            4 => (pairs(), prop::collection::vec(any::<u8>(), 0..12), any::<bool>()).prop_map(|(p, picks, raw)| encode(&p, &Spell { picks, raw })),
            1 => loose_text(),
            1 => (pairs(), 1usize..60).prop_map(|(p, n)| { let one = encode(&p, &Spell { picks: vec![3, 5], raw: false }); repeated(one, n) }),
        ]
        .prop_map(|t| (t, false));
        let json = json_text().prop_map(|t| (t, true));
        let cut = prop_oneof![
            2 => Just(vec![1usize]),
            3 => prop::collection::vec(0usize..8, 1..6),
            3 => prop::collection::vec(1usize..200, 1..5),
            1 => prop::collection::vec(prop::sample::select(vec![1023usize, 1024, 4096, 8191, 8192, 16384, 65536]), 1..3),
        ];
        (prop_oneof![form, json], prop::collection::vec(cut, 1..4), prop::bool::weighted(0.12), prop::bool::weighted(0.01), 0u32..64)
            .prop_map(|((mut body, json), cuts, http, big, mul)| {
                if big {
                    // a large body of the same sort
                    if json {
                        let mut v = b"[".to_vec();
                        for i in 0..(mul as usize * 256 + 1) {
                            if i > 0 {
                                v.push(b',');
                            }
                            v.extend_from_slice(format!("\"item {i}\"").as_bytes());
                        }
                        v.push(b']');
                        body = v;
                    } else {
                        body = repeated(body, 8 + mul as usize);
                        body.extend_from_slice(format!("&v={}", "x".repeat(mul as usize * 4096)).as_bytes());
                    }
                }
                if big && mul > 59 {
                    let n = [1_100_000, 2_200_000, 4_300_000, 8_500_000, 17_000_000][mul as usize - 59];
                    body = if json { format!("{{\"v\":[\"{}\"],\"w\":1}}", "y".repeat(n)) } else { format!("v=1&w={}&v=3", "y".repeat(n)) }.into_bytes();
                }
                let mut cuts = cuts;
                if body.len() > 20_000 {
                    for c in &mut cuts {
                        for n in c {
                            *n = *n * (37 + body.len() / 4000) + 11;
                        }
                    }
                }
                C10Case { body: B(body), json, cuts, http }
            })
            .boxed()
    }
    fn run(&self, env: &mut Env, c: &C10Case) -> Res {
        let body = &c.body.0;
        noise_start(&body[..body.len().min(100)]);
        let base = read_all(env, &|| post(Body::from(body.clone())));
        env.label_if(body.len() > 20_000, "body over 20 kB");
        env.label_if(base[5] != "error" && c.json, "valid JSON");
        env.label_if(base[2] != "error", "form decodes as the structure");
        // the reference is right itself
        let g = group(&parse_pairs(body));
        ensure!(base[0] == format!("{g:?}"), "form from one chunk: {}, expected {g:?}", base[0]);
        let j = serde_json::from_slice::<Value>(body).map(|v| format!("{v:?}")).unwrap_or("error".into());
        ensure!(base[5] == j, "JSON from one chunk: {}, expected {j}", base[5]);
        ensure!(base[7] == format!("{:?}", hyper::body::Bytes::from(body.clone())), "body from one chunk: {}", base[7]);
        for cut in &c.cuts {
            let ps = pieces(body, cut);
            env.nontrivial(ps.len() > 1);
            let got = read_all(env, &|| post(stream_body(ps.clone(), false)));
            ensure!(got == base, "cut as {cut:?}: {got:?}, in one piece: {base:?}");
            // a body that breaks off is not a shorter body
            let broken = read_all(env, &|| post(stream_body(ps.clone(), true)));
            ensure!(broken.iter().all(|r| r == "error"), "body breaking off at the end read as {broken:?}");
        }
        // the same text as a query
        if let Some(mut ctx) = query_ctx(body) {
            env.label("also read as a query");
            let q = ctx.query_params::<BTreeMap<String, Vec<String>>>().map(|v| format!("{v:?}")).unwrap_or("error".into());
            ensure!(q == base[0], "as a query {q}, as a form {}", base[0]);
            let q = ctx.query_params::<Mixed>().map(|v| format!("{v:?}")).unwrap_or("error".into());
            ensure!(q == base[2], "as a query {q}, as a form {}", base[2]);
        }
        // reading consumes
        let cut = &c.cuts[0];
        env.block_on(async {
            type M = BTreeMap<String, Vec<String>>;
            for first in 0..3 {
                let mut ctx = post(stream_body(pieces(body, cut), false));
                match first {
                    0 => drop(ctx.form::<M>().await),
                    1 => drop(ctx.json::<Value>().await),
                    _ => drop(ctx.take_body()),
                }
                let f = ctx.form::<M>().await;
                ensure!(matches!(&f, Ok(m) if m.is_empty()), "second read as form: {f:?}");
                let j = ctx.json::<Value>().await;
                ensure!(j.is_err(), "second read as JSON: {j:?}");
                let b = hyper::body::to_bytes(ctx.take_body()).await;
                ensure!(matches!(&b, Ok(b) if b.is_empty()), "second read of the body: {b:?}");
            }
            Ok(())
        })?;
        if c.http {
            env.label("over HTTP");
            let run = env.srv.start(http_decode_app())?;
            let h = vec![("host".to_string(), "t".to_string())];
            for cut in &c.cuts {
                let cut: Vec<usize> = cut.iter().map(|n| (*n).max(1)).collect();
                let reqs = vec![
                    noisy_bytes("POST", "/f", &h, body, &Framing::Length),
                    noisy_bytes("POST", "/f", &h, body, &Framing::Chunked(cut.clone())),
                    noisy_bytes("POST", "/json", &h, body, &Framing::Chunked(cut)),
                ];
                let rs = roundtrips(run.port, &reqs)?;
                for (i, r) in rs.into_iter().enumerate() {
                    let r = r?;
                    let want = if i < 2 { format!("{g:?}") } else { serde_json::from_slice::<Value>(body).map(|v| v.to_string()).unwrap_or("error".into()) };
                    ensure!(r.text() == want, "over HTTP ({i}): {}, expected {want}", r.brief());
                }
            }
        }
        Ok(())
    }
}

// ================================================================== JSON

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum JKind {
    Unit,
    Num(i32),
    Pair(String, u8),
    Rec { x: Option<i64>, y: Vec<bool> },
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct JTree {
    pub id: i64,
    pub big: u64,
    pub name: String,
    pub tags: Vec<String>,
    pub opt: Option<i8>,
    pub kind: JKind,
    pub map: BTreeMap<String, i32>,
    pub kids: Vec<JTree>,
    #[serde(default)]
    pub extra: Option<String>,
    pub c: char,
    pub t: (bool, i16),
    pub f: f64,
}
/// Everything serde can put into JSON that a dynamic value cannot hold or holds differently.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Meters(pub i16);
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Triple(pub u8, pub String, pub Option<bool>);
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Nothing;
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(tag = "kind", rename_all = "snake_case")]
pub enum Tagged {
    First { a: u64 },
    SecondOne { b: Vec<String> },
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(untagged)]
pub enum Loose {
    N(u32),
    S(String),
    L(Vec<i8>),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(deny_unknown_fields)]
pub struct Rich {
    pub w: u128,
    pub iw: i128,
    pub f: f32,
    pub m: BTreeMap<i32, Meters>,
    pub mb: BTreeMap<bool, char>,
    pub mw: BTreeMap<u128, ()>,
    pub t: Triple,
    pub n: Nothing,
    pub u: (),
    pub oo: Vec<Option<Nothing>>,
    pub tag: Tagged,
    pub loose: Vec<Loose>,
    #[serde(rename = "a/b \"c\"")]
    pub odd: [u8; 3],
    #[serde(skip_serializing_if = "Option::is_none", default)]
    pub skip: Option<Box<Rich>>,
    pub order: Vec<(String, u8)>,
}
fn rich() -> BoxedStrategy<Rich> {
    let wide = prop_oneof![any::<u128>(), any::<u64>().prop_map(u128::from), Just(u128::MAX), Just(1u128 << 64)];
    let iwide = prop_oneof![any::<i128>(), any::<i64>().prop_map(i128::from), Just(i128::MIN), Just(-(1i128 << 63) - 1)];
    let leaf = (
        (wide.clone(), iwide, (-8000i32..8000).prop_map(|n| n as f32 / 8.0)),
        (prop::collection::btree_map(any::<i32>(), any::<i16>().prop_map(Meters), 0..4), prop::collection::btree_map(any::<bool>(), any::<char>(), 0..3), prop::collection::btree_map(wide, Just(()), 0..3)),
        (any::<u8>(), any_text(), any::<Option<bool>>()).prop_map(|(a, b, c)| Triple(a, b, c)),
        0usize..4,
        prop_oneof![any::<u64>().prop_map(|a| Tagged::First { a }), prop::collection::vec(any_text(), 0..3).prop_map(|b| Tagged::SecondOne { b })],
        prop::collection::vec(prop_oneof![any::<u32>().prop_map(Loose::N), any_text().prop_map(Loose::S), prop::collection::vec(any::<i8>(), 0..3).prop_map(Loose::L)], 0..4),
        any::<[u8; 3]>(),
        prop::collection::vec((any_text(), any::<u8>()), 0..3),
    )
        .prop_map(|((w, iw, f), (m, mb, mw), t, n, tag, loose, odd, order)| Rich { w, iw, f, m, mb, mw, t, n: Nothing, u: (), oo: vec![None; n], tag, loose, odd, skip: None, order });
    (leaf.clone(), prop::option::weighted(0.3, leaf))
        .prop_map(|(mut a, b)| {
            a.skip = b.map(Box::new);
            a
        })
        .boxed()
}
fn any_text() -> BoxedStrategy<String> {
    prop_oneof![
        4 => "[a-z ]{0,10}",
        2 => "\\PC{0,10}",
        2 => prop::collection::vec(any::<char>(), 0..6).prop_map(|v| v.into_iter().collect()),
        1 => prop::sample::select(vec!["", "\"", "\\", "\u{0}", "\u{7f}", "\u{2028}", "</script>", "😀", "\u{ffff}", "\u{10ffff}", "\u{fffd}", "\n\r\t\u{8}\u{c}", "/", "null", "{\"a\":1}"]).prop_map(|s| s.to_string()),
        1 => (0usize..5000).prop_map(|n| "é".repeat(n)),
    ]
    .boxed()
}
fn jtree() -> BoxedStrategy<JTree> {
    let leaf = (
        (prop_oneof![any::<i64>(), Just(i64::MIN), Just(i64::MAX), -3i64..3], prop_oneof![any::<u64>(), Just(u64::MAX), Just(1 << 53)], any_text(), prop::collection::vec(any_text(), 0..4), any::<Option<i8>>()),
        prop_oneof![Just(JKind::Unit), any::<i32>().prop_map(JKind::Num), (any_text(), any::<u8>()).prop_map(|(a, b)| JKind::Pair(a, b)), (any::<Option<i64>>(), prop::collection::vec(any::<bool>(), 0..4)).prop_map(|(x, y)| JKind::Rec { x, y })],
        prop::collection::btree_map(any_text(), any::<i32>(), 0..4),
        (any::<Option<String>>(), any::<char>(), any::<(bool, i16)>(), prop_oneof![any::<f64>().prop_map(|f| if f.is_finite() { f } else { 0.5 }), (-1000i32..1000).prop_map(|n| n as f64 / 8.0)]),
    )
        .prop_map(|((id, big, name, tags, opt), kind, map, (extra, c, t, f))| JTree { id, big, name, tags, opt, kind, map, kids: vec![], extra, c, t, f });
    leaf.prop_recursive(4, 24, 4, |inner| {
        (inner.clone(), prop::collection::vec(inner, 0..4)).prop_map(|(mut a, k)| {
            a.kids = k;
            a
        })
    })
    .boxed()
}
fn jvalue() -> BoxedStrategy<Value> {
    let leaf = prop_oneof![
        2 => Just(Value::Null),
        2 => any::<bool>().prop_map(Value::from),
        3 => any::<i64>().prop_map(Value::from),
        2 => any::<u64>().prop_map(Value::from),
        2 => (-20i64..300).prop_map(Value::from),
        2 => any::<f64>().prop_map(|f| if f.is_finite() { Value::from(f) } else { Value::from(-0.0) }),
        1 => prop::sample::select(vec![f64::MAX, f64::MIN_POSITIVE, 5e-324, 1e21, 1e-7, 0.1, 123456789012345680.0, 9007199254740993.0]).prop_map(Value::from),
        5 => any_text().prop_map(Value::from),
    ];
    let tree = leaf.prop_recursive(6, 80, 8, |inner| {
        prop_oneof![
            prop::collection::vec(inner.clone(), 0..8).prop_map(Value::from),
            prop::collection::vec((any_text(), inner), 0..8).prop_map(|m| Value::Object(m.into_iter().collect())),
        ]
    });
    let any_size = prop_oneof![
        12 => tree.clone(),
        1 => (tree.clone(), 1usize..90).prop_map(|(v, n)| (0..n).fold(v, |v, i| if i % 2 == 0 { Value::Array(vec![v]) } else { serde_json::json!({ "k": v }) })),
        1 => prop::collection::vec(tree, 0..200).prop_map(Value::from),
    ];
    prop_oneof![
        4000 => any_size,
        // large ones
        2 => (any::<u16>(), prop::sample::select(vec![1usize << 16, 300_000, 2_100_000, 4_300_000, 8_500_000, 17_000_000])).prop_map(|(k, n)| serde_json::json!({ "k": k, "big": "€x".repeat(n / 4) })),
        1 => (1usize..60_000).prop_map(|n| Value::Array((0..n).map(|i| if i % 7 == 3 { serde_json::json!([i, null, i.to_string()]) } else { Value::from(i) }).collect())),
    ]
    .boxed()
}
/// Writes a value with whitespace, escapes and number spellings as chosen by `picks`.
pub fn write_json(v: &Value, picks: &[u8]) -> Vec<u8> {
    struct W<'a> {
        out: Vec<u8>,
        picks: &'a [u8],
        k: usize,
    }
    impl<'a> W<'a> {
        fn pick(&mut self) -> u8 {
            self.k += 1;
            if self.picks.is_empty() { 1 } else { self.picks[self.k % self.picks.len()].wrapping_add((self.k / self.picks.len()) as u8) }
        }
        fn ws(&mut self) {
            let p = self.pick();
            if p % 5 == 0 {
                let s: &[u8] = [&b" "[..], b"\n", b"\r\n\t", b"  ", b"\t"][(p / 5) as usize % 5];
                self.out.extend_from_slice(s);
            }
        }
        fn string(&mut self, s: &str) {
            self.out.push(b'"');
            for c in s.chars() {
                let p = self.pick();
                let short = match c {
                    '"' => Some("\\\""),
                    '\\' => Some("\\\\"),
                    '\n' => Some("\\n"),
                    '\r' => Some("\\r"),
                    '\t' => Some("\\t"),
                    '\u{8}' => Some("\\b"),
                    '\u{c}' => Some("\\f"),
                    '/' if p % 2 == 0 => Some("\\/"),
                    _ => None,
                };
                if let (Some(s), true) = (short, p % 3 != 0) {
                    self.out.extend_from_slice(s.as_bytes());
                } else if (c as u32) < 32 || c == '"' || c == '\\' || p % 7 == 0 {
                    let mut b = [0u16; 2];
                    for u in c.encode_utf16(&mut b) {
                        let h = if p % 2 == 0 { format!("\\u{u:04x}") } else { format!("\\u{u:04X}") };
                        self.out.extend_from_slice(h.as_bytes());
                    }
                } else {
                    let mut b = [0u8; 4];
                    self.out.extend_from_slice(c.encode_utf8(&mut b).as_bytes());
                }
            }
            self.out.push(b'"');
        }
        fn val(&mut self, v: &Value) {
            match v {
                Value::Null => self.out.extend_from_slice(b"null"),
                Value::Bool(b) => self.out.extend_from_slice(b.to_string().as_bytes()),
                Value::Number(n) => {
                    let p = self.pick();
                    let s = match n.as_f64() {
                        Some(f) if n.is_f64() && p % 3 == 0 => format!("{f:e}"),
                        Some(f) if n.is_f64() && p % 3 == 1 => format!("{f:E}").replace("E", if f.abs() >= 1.0 { "E+" } else { "E" }),
                        _ => n.to_string(),
                    };
                    // an exponent form without fraction stays a float for JSON
                    self.out.extend_from_slice(s.as_bytes());
                }
                Value::String(s) => self.string(s),
                Value::Array(a) => {
                    self.out.push(b'[');
                    for (i, x) in a.iter().enumerate() {
                        if i > 0 {
                            self.out.push(b',');
                        }
                        self.ws();
                        self.val(x);
                        self.ws();
                    }
                    self.out.push(b']');
                }
                Value::Object(m) => {
                    self.out.push(b'{');
                    for (i, (k, x)) in m.iter().enumerate() {
                        if i > 0 {
                            self.out.push(b',');
                        }
                        self.ws();
                        self.string(k);
                        self.ws();
                        self.out.push(b':');
                        self.ws();
                        self.val(x);
                        self.ws();
                    }
                    self.out.push(b'}');
                }
            }
        }
    }
    let mut w = W { out: vec![], picks, k: 0 };
    w.ws();
    w.val(v);
    w.ws();
    w.out
}
/// Equal, floats up to the last places (the library parses them with that much slack).
pub fn same(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => {
            x == y
                || ((x.is_f64() || y.is_f64())
                    && match (x.as_f64(), y.as_f64()) {
                        (Some(x), Some(y)) => x == y || (x - y).abs() <= 4.0 * f64::EPSILON * x.abs().max(y.abs()) || (x - y).abs() < 1e-320,
                        _ => false,
                    })
        }
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| same(a, b)),
        (Value::Object(x), Value::Object(y)) => x.len() == y.len() && x.iter().all(|(k, a)| y.get(k).map_or(false, |b| same(a, b))),
        _ => a == b,
    }
}
/// Documents that the simple target types accept.
fn plain_doc() -> BoxedStrategy<Value> {
    prop_oneof![
        prop::collection::vec(any::<i32>(), 0..5).prop_map(Value::from),
        any::<i32>().prop_map(Value::from),
        any::<bool>().prop_map(Value::from),
        Just(Value::Null),
        (any::<u8>(), any::<i16>()).prop_map(|(a, b)| Value::from(vec![Value::from(a), Value::from(b as f64 / 8.0)])),
        value_text().prop_map(Value::from),
        prop::collection::vec(value_text(), 0..4).prop_map(Value::from),
        any::<char>().prop_map(|c| Value::from(c.to_string())),
        prop::collection::btree_map(value_text(), any::<i32>(), 0..4).prop_map(|m| serde_json::to_value(m).unwrap()),
    ]
    .boxed()
}
#[derive(Clone, Debug)]
enum Harm {
    None,
    Cut(prop::sample::Index),
    Tail(Vec<u8>),
    Head(Vec<u8>),
    Flip(prop::sample::Index, u8),
    Bom,
    /// the document as a JSON string
    Quote,
    /// a comma before the last closing bracket
    Comma,
    /// percent-encoded
    Percent,
    /// the n-th element of a one-element list
    Wrap,
    /// single quotes
    Single,
    /// UTF-16
    Wide,
}
fn harm() -> impl Strategy<Value = Harm> {
    let junk = prop_oneof![
        prop::sample::select(vec![
            "}", "]", ",", "1", "null", "{}", "\"", "x", "\u{0}", "//", ";", "\u{b}", "\u{a0}", ")]}',\n", "while(1);", "\u{1e}", "\n{}", "\n[]", " ", "\r\n", "\n1", "/**/", "//x\n", "#x\n", "%", "&a=1", "=",
            "json=", "data: ", "\u{c}", "\u{85}", "\u{2028}", "\u{feff}", "\u{fffe}", "+", "-", "0", ".0", "e5",
        ])
        .prop_map(|s| s.as_bytes().to_vec()),
        prop::collection::vec(any::<u8>(), 1..4),
    ];
    prop_oneof![
        2 => any::<prop::sample::Index>().prop_map(Harm::Cut),
        2 => junk.clone().prop_map(Harm::Tail),
        1 => junk.prop_map(Harm::Head),
        2 => (any::<prop::sample::Index>(), any::<u8>()).prop_map(|(i, b)| Harm::Flip(i, b)),
        1 => Just(Harm::Bom),
        1 => Just(Harm::Quote),
        1 => prop::sample::select(vec![Harm::Comma, Harm::Percent, Harm::Wrap, Harm::Single, Harm::Wide]),
        1 => Just(Harm::None),
    ]
}
fn apply_harm(mut t: Vec<u8>, h: &Harm) -> Vec<u8> {
    match h {
        Harm::None => {}
        Harm::Cut(i) => t.truncate(i.index(t.len() + 1)),
        Harm::Tail(j) => t.extend_from_slice(j),
        Harm::Head(j) => {
            let mut n = j.clone();
            n.extend(t);
            t = n;
        }
        Harm::Flip(i, b) => {
            if !t.is_empty() {
                let i = i.index(t.len());
                t[i] = *b;
            }
        }
        Harm::Quote => t = serde_json::to_vec(&String::from_utf8_lossy(&t)).unwrap(),
        Harm::Comma => {
            let i = t.iter().rposition(|b| b"]}".contains(b)).unwrap_or(t.len());
            t.insert(i, b',');
        }
        Harm::Percent => t = t.iter().flat_map(|b| format!("%{b:02X}").into_bytes()).collect(),
        Harm::Wrap => {
            t.insert(0, b'[');
            t.push(b']');
        }
        Harm::Single => t.iter_mut().filter(|b| **b == b'"').for_each(|b| *b = b'\''),
        Harm::Wide => t = String::from_utf8_lossy(&t).encode_utf16().flat_map(u16::to_le_bytes).collect(),
        Harm::Bom => {
            let mut n = vec![0xef, 0xbb, 0xbf];
            n.extend(t);
            t = n;
        }
    }
    t
}
/// JSON texts, one in three damaged.
pub fn json_text() -> BoxedStrategy<Vec<u8>> {
    let v = prop_oneof![jvalue(), jtree().prop_map(|t| serde_json::to_value(t).unwrap())];
    (v, prop::collection::vec(any::<u8>(), 0..10), prop_oneof![2 => Just(Harm::None), 1 => harm()])
        .prop_map(|(v, p, h)| apply_harm(write_json(&v, &p), &h))
        .boxed()
}

// ================================================================== C11

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum C11Case {
    Value { v: Value, text: B },
    Tree { t: JTree, text: B },
    Damaged { text: B },
    /// typed, both ways; B: the value as JSON text (case files cannot hold 128-bit numbers)
    Rich { text: B, http: bool },
    /// sent as a response
    Out { v: Value, t: JTree, http: bool },
}
pub struct C11;
impl C11 {
    fn decode<T: DeserializeOwned>(env: &Env, text: &[u8], cut: usize) -> Result<T, String> {
        let body = if cut == 0 { Body::from(text.to_vec()) } else { stream_body(pieces(text, &[cut]), false) };
        env.block_on(post(body).json::<T>()).map_err(|e| e.to_string())
    }
}
/// Response values whose conversion to JSON fails.
struct Unserializable;
impl Serialize for Unserializable {
    fn serialize<S: Serializer>(&self, _: S) -> Result<S::Ok, S::Error> {
        Err(serde::ser::Error::custom("cannot be serialized"))
    }
}
impl Check for C11 {
    type Case = C11Case;
    fn id(&self) -> &'static str {
        "C11"
    }
    fn rule(&self) -> &'static str {
        "Random JSON values (depth up to about 100, all number ranges, any unicode, a few up to 17 MB) and typed trees written with random whitespace, escapes and number spellings by an own writer, decoded dynamically and typed and compared with the value (floats to the last places); damaged texts (cut, extended, byte changed) compared with a direct strict parse into 7 types; values sent back through build_json and Response::json and parsed again; typed values beyond dynamic ones (128-bit numbers, f32, maps with number or boolean keys, tagged and untagged enums, units, renamed and skipped fields) both ways. Non-trivial: a container with at least three nodes, or a damaged text that is not accepted."
    }
    fn cases(&self) -> (u64, u64) {
        (60_000, 1_200_000)
    }
    fn strategy(&self, _t: bool) -> BoxedStrategy<C11Case> {
        let picks = || prop::collection::vec(any::<u8>(), 0..12);
        prop_oneof![
            3 => (jvalue(), picks()).prop_map(|(v, p)| { let text = B(write_json(&v, &p)); C11Case::Value { v, text } }),
            2 => (jtree(), picks()).prop_map(|(t, p)| { let text = B(write_json(&serde_json::to_value(&t).unwrap(), &p)); C11Case::Tree { t, text } }),
            3 => (prop_oneof![2 => jvalue(), 2 => jtree().prop_map(|t| serde_json::to_value(t).unwrap()), 1 => plain_doc()], picks(), harm()).prop_map(|(v, p, h)| C11Case::Damaged { text: B(apply_harm(write_json(&v, &p), &h)) }),
            2 => (rich(), prop::bool::weighted(0.1)).prop_map(|(r, http)| C11Case::Rich { text: B(serde_json::to_vec(&r).unwrap()), http }),
            2 => (jvalue(), jtree(), prop::bool::weighted(0.3)).prop_map(|(v, t, http)| C11Case::Out { v, t, http }),
        ]
        .boxed()
    }
    fn run(&self, env: &mut Env, c: &C11Case) -> Res {
        let text = match c {
            C11Case::Value { text, .. } | C11Case::Tree { text, .. } | C11Case::Damaged { text } | C11Case::Rich { text, .. } => &text.0[..text.0.len().min(100)],
            _ => b"",
        };
        noise_start(text);
        match c {
            C11Case::Value { v, text } => {
                env.label("dynamic value");
                env.nontrivial(text.0.iter().filter(|b| **b == b',').count() > 1);
                let got = Self::decode::<Value>(env, &text.0, text.0.len() % 7);
                ensure!(matches!(&got, Ok(g) if same(g, v)), "{text:?} decodes to {got:?}, expected {v:?}");
            }
            C11Case::Tree { t, text } => {
                env.label("typed value");
                env.nontrivial(true);
                let got = Self::decode::<JTree>(env, &text.0, text.0.len() % 5);
                let ok = matches!(&got, Ok(g) if same(&serde_json::to_value(g).unwrap(), &serde_json::to_value(t).unwrap()));
                ensure!(ok, "{text:?} decodes to {got:?}, expected {t:?}");
            }
            C11Case::Damaged { text } => {
                fn both<T: DeserializeOwned + Debug>(env: &Env, text: &[u8], ty: &str) -> Result<bool, Fail> {
                    let want = serde_json::from_slice::<T>(text);
                    let got = C11::decode::<T>(env, text, text.len() % 4);
                    match (&got, &want) {
                        (Ok(a), Ok(b)) if format!("{a:?}") == format!("{b:?}") => Ok(true),
                        (Err(_), Err(_)) => Ok(false),
                        _ => violated(format!("as {ty}: {got:?}, expected {want:?}")),
                    }
                }
                let ok = both::<Value>(env, &text.0, "Value")?;
                env.label(if ok { "damaged text that is valid" } else { "damaged text refused" });
                env.nontrivial(!ok);
                both::<JTree>(env, &text.0, "JTree")?;
                both::<Vec<i32>>(env, &text.0, "Vec<i32>")?;
                both::<String>(env, &text.0, "String")?;
                both::<BTreeMap<String, Value>>(env, &text.0, "map")?;
                both::<Option<bool>>(env, &text.0, "Option<bool>")?;
                both::<(u8, f32)>(env, &text.0, "(u8, f32)")?;
                both::<()>(env, &text.0, "()")?;
                both::<i32>(env, &text.0, "i32")?;
                both::<bool>(env, &text.0, "bool")?;
                both::<char>(env, &text.0, "char")?;
                both::<Vec<String>>(env, &text.0, "Vec<String>")?;
            }
            C11Case::Rich { text, http } => {
                env.label("typed value beyond dynamic ones");
                env.nontrivial(true);
                let r: Rich = serde_json::from_slice(&text.0).map_err(|e| Fail::Infra(format!("case file: {e}")))?;
                let got = Self::decode::<Rich>(env, &text.0, text.0.len() % 6);
                ensure!(matches!(&got, Ok(g) if g == &r), "{text:?} decodes to {got:?}, expected {r:?}");
                let sent = if *http {
                    let mut app: App = App::new();
                    app.post("/", |mut ctx: Context| async move {
                        let r: Rich = ctx.json().await?;
                        ctx.build_json(&r).ok()
                    });
                    let run = env.srv.start(app)?;
                    let req = noisy_bytes("POST", "/", &[("host".to_string(), "t".to_string())], &text.0, &Framing::Length);
                    let r = roundtrips(run.port, &[req])?.remove(0)?;
                    ensure!((r.status, r.header("content-type")) == (200, vec!["application/json".to_string()]), "{}", r.brief());
                    r.body
                } else {
                    let r2 = r.clone();
                    let b = env.block_on(async move {
                        let ctx = post(Body::empty()).build_json(r2).ok().ok()?;
                        hyper::body::to_bytes(ctx.take_response()?.body()).await.ok()
                    });
                    let Some(b) = b else { return violated("no response") };
                    b.to_vec()
                };
                let back = serde_json::from_slice::<Rich>(&sent);
                ensure!(matches!(&back, Ok(g) if g == &r), "response {:?} denotes {back:?}, expected {r:?}", B(sent));
            }
            C11Case::Out { v, t, http } => {
                env.label("response");
                env.nontrivial(true);
                if *http {
                    env.label("response over HTTP");
                    let (v2, t2, t3) = (v.clone(), t.clone(), t.clone());
                    let mut app: App = App::new();
                    app.get("/v", move |ctx: Context| {
                        let v = v2.clone();
                        async move { ctx.build_json(v).ok() }
                    });
                    app.get("/t", move |ctx: Context| {
                        let t = t2.clone();
                        async move { ctx.build(obsidian::router::Response::ok().json(&t)).ok() }
                    });
                    app.get("/c", move |ctx: Context| {
                        let t = t3.clone();
                        async move { ctx.build(obsidian::router::Response::created().with_header_str("x-a", "1").json(vec![Some(t), None])).with_header_str("x-b", "2").ok() }
                    });
                    app.get("/bad", |ctx: Context| async move { ctx.build_json(Unserializable).ok() });
                    let run = env.srv.start(app)?;
                    let h = vec![("host".to_string(), "t".to_string())];
                    let reqs: Vec<Vec<u8>> = ["/v", "/t", "/c", "/bad"].iter().map(|p| noisy_bytes("GET", p, &h, b"", &Framing::None)).collect();
                    let rs = roundtrips(run.port, &reqs)?;
                    let tv = serde_json::to_value(t).unwrap();
                    let want = [v.clone(), tv.clone(), serde_json::json!([tv, null])];
                    for (i, r) in rs.into_iter().enumerate() {
                        let r = r?;
                        if i == 3 {
                            ensure!(r.status == 500, "a value that cannot be serialized is answered {}", r.brief());
                            continue;
                        }
                        ensure!(r.status == [200, 200, 201][i], "status {}", r.brief());
                        ensure!(r.header("content-type") == ["application/json"], "content type {:?}", r.header("content-type"));
                        let got = serde_json::from_slice::<Value>(&r.body);
                        ensure!(matches!(&got, Ok(g) if same(g, &want[i])), "response {:?} denotes {got:?}, expected {:?}", r.text(), want[i]);
                    }
                } else {
                    let r = env.block_on(async {
                        let ctx = post(Body::empty()).build_json(v).ok().map_err(|e| e.to_string())?;
                        let r = ctx.take_response().ok_or("no response".to_string())?;
                        let ct = r.headers().iter().flatten().filter(|h| h.0 == hyper::header::CONTENT_TYPE).last().map(|h| h.1);
                        let head = (r.status().as_u16(), ct);
                        let b = hyper::body::to_bytes(r.body()).await.map_err(|e| e.to_string())?;
                        Ok::<_, String>((head, b))
                    });
                    let Ok((head, b)) = r else { return violated(format!("{r:?}")) };
                    ensure!(head == (200, Some("application/json")), "response head {head:?}");
                    let got = serde_json::from_slice::<Value>(&b);
                    ensure!(matches!(&got, Ok(g) if same(g, v)), "response {b:?} denotes {got:?}, expected {v:?}");
                }
            }
        }
        Ok(())
    }
}

// ================================================================== C12

/// Deterministic hashers, so that the iteration order varies but a case repeats exactly.
#[derive(Clone)]
struct Mix(u64);
struct MixH(u64);
impl BuildHasher for Mix {
    type Hasher = MixH;
    fn build_hasher(&self) -> MixH {
        MixH(self.0)
    }
}
impl Hasher for MixH {
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(23);
        }
    }
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
}
struct Cows {
    map: HashMap<Cow<'static, str>, Cow<'static, [String]>, Mix>,
}
impl Source for Cows {
    fn get<T: DeserializeOwned>(&mut self) -> Result<T, String> {
        from_cow_map::<T, Mix>(&self.map).map_err(|e| e.to_string())
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct C12Case {
    pub map: Vec<(String, Vec<String>)>,
    pub orders: Vec<u64>,
}
pub struct C12;
impl Check for C12 {
    type Case = C12Case;
    fn id(&self) -> &'static str {
        "C12"
    }
    fn rule(&self) -> &'static str {
        "Maps from distinct keys (any text) to lists of 1-400 texts, often of one sort, with empty texts at any position, decoded under several hash orders into about 90 target types, each compared with its own oracle. Non-trivial: at least two texts in the map."
    }
    fn cases(&self) -> (u64, u64) {
        (160_000, 4_000_000)
    }
    fn strategy(&self, _t: bool) -> BoxedStrategy<C12Case> {
        (pairs(), prop::collection::vec((any::<prop::sample::Index>(), any::<bool>()), 0..4), prop::collection::vec(any::<u64>(), 1..4))
            .prop_map(|(mut p, empties, orders)| {
                for (ix, front) in empties {
                    if p.is_empty() {
                        break;
                    }
                    let i = ix.index(p.len());
                    if front {
                        let k = p[i].0.clone();
                        p.insert(i, (k, String::new()));
                    } else {
                        p[i].1 = String::new();
                    }
                }
                let mut map: Vec<(String, Vec<String>)> = vec![];
                for (k, v) in p {
                    match map.iter_mut().find(|m| m.0 == k) {
                        Some(m) => m.1.push(v),
                        None => map.push((k, vec![v])),
                    }
                }
                C12Case { map, orders }
            })
            .boxed()
    }
    fn run(&self, env: &mut Env, c: &C12Case) -> Res {
        let g: Grouped = c.map.iter().cloned().collect();
        env.nontrivial(g.values().map(|v| v.len()).sum::<usize>() > 1);
        env.label_if(g.values().flatten().any(|v| v.is_empty()), "with an empty text");
        env.label_if(g.values().any(|v| v.len() > 1 && v[0].is_empty()), "list starting with an empty text");
        env.label_if(g.values().any(|v| v.len() > 50), "more than 50 texts for a key");
        for o in &c.orders {
            let mut map = HashMap::with_hasher(Mix(*o));
            for (k, v) in &c.map {
                map.insert(Cow::Owned(k.clone()), Cow::Owned(v.clone()));
            }
            all(&mut Cows { map }, &g)?;
        }
        Ok(())
    }
}
