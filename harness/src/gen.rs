//! Generators shared by the routing checks.
use crate::model::{split, Model};
use crate::spec::{accept, Op};
use proptest::prelude::*;
use proptest::sample::Index;
use serde::{Deserialize, Serialize};

// ------------------------------------------------------------------ segments

/// A segment before the case's theme is known.
#[derive(Clone, Debug)]
pub enum SegG {
    Pool(u16),
    Any(u16),
    Short(String),
    Odd(String),
    Long(u16, u8),
}

const THEMES: [&[&str]; 6] = [
    &["a", "b", "ab", "ba", "aa", "abc", "abd", "abcd", "bb", "c", "aab", "ac"],
    &["user", "users", "user-list", "userlist", "use", "test", "tests", "testing", "team", "files", "file", "admin", "api", "v1", "v2", "index.html", "favicon.ico"],
    &["a", "A", "a.b", "a-b", "a_b", "~a", "a:b", "a:", "%61", "a%2Fb", "a+b", "(a)", "a=b", "a&b", "@a", "$a", "{a}", "..", ".", "...", "a;v=1", "\"a\"", "a,b", "!", "a'b", "|", "[a]", "a\\b", "%zz", "%"],
    &["a", "a:b", "a:bc", "a:", "a:c", "aa:b", "b:a", "a::b"],
    &["1", "12", "123", "10", "100", "0", "00", "2", "21", "1.0", "-1"],
    &["ab", "abe", "abde", "ad", "ae", "d", "e", "de", "ed", "cde", "aed"],
];

pub fn theme_seg(theme: usize, k: u16) -> String {
    let t = THEMES[theme % THEMES.len()];
    t[k as usize % t.len()].to_string()
}

impl SegG {
    pub fn text(&self, theme: usize) -> String {
        match self {
            SegG::Pool(k) => theme_seg(theme, *k),
            SegG::Any(k) => theme_seg(*k as usize % THEMES.len(), k / 7),
            SegG::Short(s) | SegG::Odd(s) => s.clone(),
            SegG::Long(n, c) => {
                let mut s = "l".repeat(*n as usize);
                s.push((b'a' + c % 4) as char);
                s
            }
        }
    }
}

pub fn seg() -> impl Strategy<Value = SegG> {
    prop_oneof![
        20 => any::<u16>().prop_map(|k| SegG::Pool(k % 40)),
        2 => any::<u16>().prop_map(SegG::Any),
        3 => "[a-c]{1,5}".prop_map(SegG::Short),
        1 => "[a-zA-Z0-9._~!$&'()+,;=@-]{1,12}".prop_map(SegG::Odd),
        1 => (1u16..400, any::<u8>()).prop_map(|(n, c)| SegG::Long(n, c)),
    ]
}

pub const NAMES: [&str; 12] = ["id", "a", "b", "name", "idx", "i", "x-y", "Id", "", "user", "p1", "p2"];

#[derive(Clone, Debug)]
pub enum PartG {
    Fixed(SegG),
    Param(u8),
}
pub fn part(param_w: u32) -> impl Strategy<Value = PartG> {
    prop_oneof![
        10 => seg().prop_map(PartG::Fixed),
        param_w => any::<u8>().prop_map(PartG::Param),
    ]
}

/// Slash decoration; mostly none.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Deco {
    pub lead: u8,
    pub trail: u8,
    pub inner: Vec<u8>,
}
pub fn deco() -> impl Strategy<Value = Deco> {
    prop_oneof![
        6 => Just(Deco { lead: 1, trail: 0, inner: vec![] }),
        1 => Just(Deco { lead: 0, trail: 0, inner: vec![] }),
        2 => some_deco(),
    ]
}
pub fn some_deco() -> impl Strategy<Value = Deco> {
    let k = || prop_oneof![20 => 1u8..4, 1 => 4u8..70];
    (0u8..4, k(), 0u8..4, k(), prop::collection::vec(k(), 0..4)).prop_map(|(lead, l, trail, t, inner)| Deco {
        lead: if l > 3 { l } else { lead },
        trail: if t > 3 { t } else { trail },
        inner,
    })
}
impl Deco {
    pub fn join(&self, segs: &[String]) -> String {
        let mut s = "/".repeat(self.lead as usize);
        for (i, x) in segs.iter().enumerate() {
            if i > 0 {
                let n = if self.inner.is_empty() { 1 } else { self.inner[i % self.inner.len()].max(1) };
                s.push_str(&"/".repeat(n as usize));
            }
            s.push_str(x);
        }
        s.push_str(&"/".repeat(self.trail as usize));
        s
    }
}

// ------------------------------------------------------------------ paths

#[derive(Clone, Debug)]
pub struct PathG {
    /// start from an earlier path of the same router: which, how many segments kept
    base: Option<(Index, u8)>,
    /// alter the last kept segment: 1 append, 2 chop
    edit: u8,
    parts: Vec<PartG>,
    wild: bool,
    deco: Deco,
}

pub fn path(c: &Cfg) -> impl Strategy<Value = PathG> {
    let deep = c.deep;
    (
        prop_oneof![2 => Just(None), 3 => (any::<Index>(), any::<u8>()).prop_map(Some)],
        prop_oneof![6 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8)],
        prop_oneof![
            60 => prop::collection::vec(part(c.param_w), 0..4),
            4 * deep => prop::collection::vec(part(c.param_w), 4..14),
            deep => prop::collection::vec(part(c.param_w), 14..70),
        ],
        prop::bool::weighted(c.wild_p),
        deco(),
    )
        .prop_map(|(base, edit, parts, wild, deco)| PathG { base, edit, parts, wild, deco })
}

pub struct Resolver {
    pub theme: usize,
    next_id: u32,
}

impl PathG {
    fn resolve(&self, theme: usize, known: &mut Vec<Vec<String>>, mount: bool) -> String {
        let mut segs: Vec<String> = vec![];
        if let (Some((ix, keep)), false) = (&self.base, known.is_empty()) {
            let b = ix.get(known);
            let n = *keep as usize % (b.len() + 1);
            segs = b[..n].to_vec();
            if segs.last().map_or(false, |s| s == "*") {
                segs.pop();
            }
            if let Some(l) = segs.last_mut() {
                if !l.starts_with(':') {
                    match self.edit {
                        1 => l.push('b'),
                        2 if l.len() > 1 => {
                            l.pop();
                        }
                        _ => {}
                    }
                }
            }
        }
        for p in &self.parts {
            segs.push(match p {
                PartG::Fixed(s) => s.text(theme),
                PartG::Param(n) => {
                    // a parameter name is used once per path
                    let mut k = *n as usize;
                    let name = |k: usize| match NAMES.get(k) {
                        Some(n) => format!(":{n}"),
                        None => format!(":n{k}"),
                    };
                    k %= NAMES.len();
                    while segs.contains(&name(k)) {
                        k += 1;
                    }
                    name(k)
                }
            });
        }
        if self.wild && !mount {
            segs.push("*".into());
        }
        known.push(segs.clone());
        self.deco.join(&segs)
    }
}

#[derive(Clone, Debug)]
pub enum OpG {
    Route(u8, PathG),
    MwRoot,
    MwTo(PathG),
    Mount(PathG, Vec<OpG>, bool),
    Twice(PathG, PathG, Vec<OpG>, Vec<OpG>),
    /// any text as path (for registrations that must be refused)
    Odd(u8, String),
    Static(PathG, u8),
    /// many routes below one path that share nothing, or only this stem
    Wide(PathG, u8, Vec<u8>),
}

#[derive(Clone)]
pub struct Cfg {
    pub param_w: u32,
    pub wild_p: f64,
    pub deep: u32,
    pub route_w: u32,
    pub mw_root_w: u32,
    pub mw_to_w: u32,
    pub mount_w: u32,
    pub twice_w: u32,
    pub odd_w: u32,
    pub static_w: u32,
    pub max_ops: usize,
    pub big_p: u32,
    /// weight of registrations that are mostly middlewares of one path
    pub many_mw: u32,
}
impl Default for Cfg {
    fn default() -> Self {
        Cfg { param_w: 3, wild_p: 0.15, deep: 1, route_w: 10, mw_root_w: 0, mw_to_w: 2, mount_w: 2, twice_w: 0, odd_w: 0, static_w: 0, max_ops: 12, big_p: 1, many_mw: 0 }
    }
}

fn leaf(c: &Cfg) -> BoxedStrategy<OpG> {
    prop_oneof![
        c.route_w => (0u8..5, path(c)).prop_map(|(m, p)| OpG::Route(m, p)),
        c.route_w => path(c).prop_map(|p| OpG::Route(0, p)),
        c.mw_root_w => Just(OpG::MwRoot),
        c.mw_to_w => path(c).prop_map(OpG::MwTo),
        c.odd_w => (0u8..5, "[/a:*.]{0,6}|/a\\*|/\\*/a|\\*a|/:|/::a|/a/:id/\\*|/[a-c]{0,2}\\*{1,2}(/[a-c]{1,2})?|/a/b\\*c").prop_map(|(k, s)| OpG::Odd(k, s)),
        c.static_w => (path(c), 0u8..3).prop_map(|(p, k)| OpG::Static(p, k)),
    ]
    .boxed()
}

pub fn op(c: &Cfg, depth: u32) -> BoxedStrategy<OpG> {
    if depth == 0 || (c.mount_w == 0 && c.twice_w == 0) {
        return leaf(c);
    }
    let total = 2 * c.route_w + c.mw_root_w + c.mw_to_w + c.odd_w + c.static_w;
    let inner = prop::collection::vec(op(c, depth - 1), 0..6).boxed();
    prop_oneof![
        total => leaf(c),
        c.mount_w => (path(c), inner.clone(), any::<bool>()).prop_map(|(p, o, s)| OpG::Mount(p, o, s)),
        c.twice_w => (path(c), path(c), inner.clone(), inner).prop_map(|(p, q, o, m)| OpG::Twice(p, q, o, m)),
    ]
    .boxed()
}

pub fn ops(c: &Cfg) -> BoxedStrategy<Vec<OpG>> {
    let o = op(c, 2);
    prop_oneof![
        40 => prop::collection::vec(o.clone(), 1..c.max_ops),
        c.big_p => prop::collection::vec(leaf(c), 20..120),
        c.big_p => (path(c), 0u8..6, prop::collection::vec(any::<u8>(), 12..90), prop::collection::vec(o.clone(), 1..c.max_ops)).prop_map(|(p, k, v, mut ops)| {
            let at = ops.len() / 2;
            ops.insert(at, OpG::Wide(p, k, v));
            ops
        }),
        c.many_mw => (path(c), prop::collection::vec(any::<bool>(), 1..150), prop::collection::vec(o, 1..c.max_ops)).prop_map(|(p, many, mut ops)| {
            ops.push(OpG::Route(0, p.clone()));
            ops.extend(many.into_iter().map(|root| if root { OpG::MwRoot } else { OpG::MwTo(p.clone()) }));
            ops
        }),
    ]
    .boxed()
}

/// Does the path end in a wildcard, all else being in order?
fn lone_star(s: &str) -> bool {
    let segs = split(s);
    segs.last().map_or(false, |l| l == "*") && !segs[..segs.len() - 1].iter().any(|x| x.contains('*'))
}
impl Resolver {
    pub fn new(theme: usize) -> Self {
        Resolver { theme, next_id: 1 }
    }
    fn id(&mut self) -> u32 {
        self.next_id += 1;
        self.next_id - 1
    }
    pub fn ops(&mut self, gs: &[OpG]) -> Vec<Op> {
        let mut known = vec![];
        self.ops_in(gs, &mut known, true)
    }
    fn ops_in(&mut self, gs: &[OpG], known: &mut Vec<Vec<String>>, top: bool) -> Vec<Op> {
        gs.iter()
            .flat_map(|g| match g {
                OpG::Wide(p, k, v) => self.wide(p, *k, v, known),
                _ => vec![self.one(g, known, top)],
            })
            .collect()
    }
    fn wide(&mut self, p: &PathG, k: u8, v: &[u8], known: &mut Vec<Vec<String>>) -> Vec<Op> {
        const FIRST: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._~!$&'()+,;=@";
        let parent = p.resolve(self.theme, known, true);
        let mut at = split(&parent);
        let stem = ["", "", "ab", "a", "user", "x-"][k as usize % 6];
        v.iter()
            .map(|c| {
                at.push(format!("{stem}{}{}", FIRST[*c as usize % FIRST.len()] as char, ["", "", "b", "/c"][*c as usize % 4]));
                let path = format!("/{}", at.join("/"));
                known.push(split(&path));
                at.pop();
                Op::Route { m: c % 2, path, id: self.id() }
            })
            .collect()
    }
    fn one(&mut self, g: &OpG, known: &mut Vec<Vec<String>>, top: bool) -> Op {
        let t = self.theme;
        match g {
                OpG::Wide(..) => unreachable!(),
                OpG::Route(m, p) => Op::Route { m: *m, path: p.resolve(t, known, false), id: self.id() },
                OpG::MwRoot => Op::Mw { path: None, id: self.id() },
                OpG::MwTo(p) => Op::Mw { path: Some(p.resolve(t, known, false)), id: self.id() },
                OpG::Mount(p, ops, scope) => {
                    let path = p.resolve(t, known, true);
                    Op::Mount { path, ops: self.ops_in(ops, &mut vec![], false), scope: *scope && top }
                }
                OpG::Twice(p, q, ops, more) => {
                    let path = p.resolve(t, known, true);
                    let path2 = q.resolve(t, known, true);
                    let mut k = vec![];
                    let ops = self.ops_in(ops, &mut k, false);
                    let more = self.ops_in(more, &mut k, false);
                    Op::Twice { path, path2, ops, more }
                }
                OpG::Odd(k, s) => match k {
                    0 => Op::Mw { path: Some(s.clone()), id: self.id() },
                    // (mounting at a lone wildcard is not specified)
                    1 if !lone_star(s) => {
                        let ops = if s.len() % 2 == 0 { vec![] } else { vec![Op::Route { m: 1, path: "/c".into(), id: self.id() }] };
                        Op::Mount { path: s.clone(), ops, scope: false }
                    }
                    2 if s.contains('*') => Op::Static { vpath: Some(s.clone()), dir: "pub".into(), id: self.id() },
                    _ => Op::Route { m: 0, path: s.clone(), id: self.id() },
                },
                OpG::Static(p, k) => {
                    let v = p.resolve(t, known, true);
                    if *k == 0 {
                        let dir = split(&v).join("/");
                        Op::Static { vpath: None, dir, id: self.id() }
                    } else {
                        Op::Static { vpath: Some(v), dir: "pub".into(), id: self.id() }
                    }
                }
        }
    }
}

// ------------------------------------------------------------------ requests

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Req {
    pub m: u8,
    pub path: String,
}

#[derive(Clone, Debug)]
pub enum Mutn {
    None,
    Drop(u8),
    Append(SegG),
    Insert(u8, SegG),
    EditAppend(u8, SegG),
    EditChop(u8),
    Merge(u8),
    SplitAt(u8, u8),
    Case(u8),
    Literal,
    Random(Vec<SegG>),
    Swap(u8),
    Replace(u8, SegG),
}

fn mutn() -> impl Strategy<Value = Mutn> {
    prop_oneof![
        10 => Just(Mutn::None),
        2 => any::<u8>().prop_map(Mutn::Drop),
        2 => seg().prop_map(Mutn::Append),
        1 => (any::<u8>(), seg()).prop_map(|(a, b)| Mutn::Insert(a, b)),
        2 => (any::<u8>(), seg()).prop_map(|(a, b)| Mutn::EditAppend(a, b)),
        2 => any::<u8>().prop_map(Mutn::EditChop),
        2 => any::<u8>().prop_map(Mutn::Merge),
        2 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Mutn::SplitAt(a, b)),
        1 => any::<u8>().prop_map(Mutn::Case),
        1 => Just(Mutn::Literal),
        1 => prop::collection::vec(seg(), 0..5).prop_map(Mutn::Random),
        1 => any::<u8>().prop_map(Mutn::Swap),
        2 => (any::<u8>(), seg()).prop_map(|(a, b)| Mutn::Replace(a, b)),
    ]
}

#[derive(Clone, Debug)]
pub struct ReqG {
    pick: Index,
    vals: Vec<ValG>,
    tail: Vec<ValG>,
    muts: Vec<Mutn>,
    method: Option<u8>,
    deco: Deco,
}
#[derive(Clone, Debug)]
pub enum ValG {
    Seg(SegG),
    Text(String),
}
pub fn val() -> impl Strategy<Value = ValG> {
    prop_oneof![
        8 => seg().prop_map(ValG::Seg),
        2 => prop::sample::select(vec![":id", "*", ":", "0", "-1", "255", "256", "%20", "%2F", "true", "1e3", "+5", "a%00b", "**", "x*", "127", "-128", "128", "65536", "4294967296", "9223372036854775808", "18446744073709551615", "NaN", "0x10", "1_000", "é%C3%A9".trim_start_matches('é')]).prop_map(|s| ValG::Text(s.to_string())),
        2 => "[0-9]{1,4}".prop_map(ValG::Text),
        1 => "[!$-.0-;=@-Z_a-z~]{1,40}".prop_map(ValG::Text),
        1 => prop_oneof![3 => "[a-z0-9.%-]{40,300}", 1 => ("[a-z0-9]{1,3}", 100usize..2000).prop_map(|(s, n)| s.repeat(n))].prop_map(ValG::Text),
    ]
}
impl ValG {
    pub fn text(&self, theme: usize) -> String {
        match self {
            ValG::Seg(s) => s.text(theme),
            ValG::Text(s) => s.clone(),
        }
    }
}

pub fn req() -> impl Strategy<Value = ReqG> {
    (
        any::<Index>(),
        prop::collection::vec(val(), 1..4),
        prop_oneof![30 => prop::collection::vec(val(), 0..4), 1 => prop::collection::vec(seg().prop_map(ValG::Seg), 4..80)],
        prop_oneof![3 => prop::collection::vec(mutn(), 1..2), 1 => prop::collection::vec(mutn(), 2..4)],
        prop_oneof![5 => Just(None), 1 => (0u8..10).prop_map(Some)],
        deco(),
    )
        .prop_map(|(pick, vals, tail, muts, method, deco)| ReqG { pick, vals, tail, muts, method, deco })
}

pub fn instantiate(pat: &[String], vals: &[String], tail: &[String]) -> Vec<String> {
    let mut out = vec![];
    let mut k = 0;
    for p in pat {
        if p == "*" {
            out.extend(tail.iter().cloned());
        } else if p.starts_with(':') {
            let left = 40_000 - out.iter().map(|s: &String| s.len() + 1).sum::<usize>().min(40_000);
            out.push(vals.get(k % vals.len().max(1)).filter(|v| v.len() < left).cloned().unwrap_or_else(|| "v".into()));
            k += 1;
        } else {
            out.push(p.clone());
        }
    }
    out
}

impl ReqG {
    pub fn resolve(&self, theme: usize, m: &Model) -> Req {
        let vals: Vec<String> = self.vals.iter().map(|v| v.text(theme)).collect();
        let tail: Vec<String> = self.tail.iter().map(|v| v.text(theme)).collect();
        let (mut segs, method) = if m.entries.is_empty() {
            (tail.clone(), 0)
        } else {
            let e = self.pick.get(&m.entries);
            let s = if self.muts.iter().any(|m| matches!(m, Mutn::Literal)) { e.segs.clone() } else { instantiate(&e.segs, &vals, &tail) };
            (s, e.method().unwrap_or(0))
        };
        for mu in &self.muts {
            let n = segs.len();
            match mu {
                Mutn::None | Mutn::Literal => {}
                Mutn::Random(v) => segs = v.iter().map(|s| s.text(theme)).collect(),
                Mutn::Append(s) => segs.push(s.text(theme)),
                Mutn::Insert(a, s) => segs.insert(*a as usize % (n + 1), s.text(theme)),
                _ if n == 0 => {}
                Mutn::Drop(a) => {
                    segs.remove(*a as usize % n);
                }
                Mutn::Replace(a, s) => segs[*a as usize % n] = s.text(theme),
                Mutn::EditAppend(a, s) => {
                    let t = s.text(theme);
                    segs[*a as usize % n].push_str(&t)
                }
                Mutn::EditChop(a) => {
                    let s = &mut segs[*a as usize % n];
                    if s.len() > 1 {
                        s.pop();
                    }
                }
                Mutn::Merge(a) => {
                    if n > 1 {
                        let i = *a as usize % (n - 1);
                        let t = segs.remove(i + 1);
                        segs[i].push_str(&t);
                    }
                }
                Mutn::SplitAt(a, b) => {
                    let i = *a as usize % n;
                    let s = segs[i].clone();
                    if s.is_ascii() && s.len() > 1 {
                        let k = 1 + *b as usize % (s.len() - 1);
                        segs[i] = s[..k].to_string();
                        segs.insert(i + 1, s[k..].to_string());
                    }
                }
                Mutn::Case(a) => {
                    let s = &mut segs[*a as usize % n];
                    *s = s.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect();
                }
                Mutn::Swap(a) => {
                    if n > 1 {
                        let i = *a as usize % (n - 1);
                        segs.swap(i, i + 1);
                    }
                }
            }
        }
        let mut p = self.deco.join(&segs);
        if !p.starts_with('/') {
            p.insert(0, '/');
        }
        if p.is_ascii() {
            p.truncate(50_000); // longer targets are refused by the HTTP library
        }
        Req { m: self.method.unwrap_or(method), path: p }
    }
}

/// One request per route and per middleware path: the pattern itself with plain values, and for
/// routes a second method.
pub fn canonical(m: &Model) -> Vec<Req> {
    let mut out = vec![];
    for (i, e) in m.entries.iter().enumerate() {
        let vals = vec![format!("v{i}"), "w".to_string(), "x1".to_string()];
        let tail = [vec![], vec!["t".to_string()], vec!["t".to_string(), "u".to_string()]][i % 3].clone();
        let segs = instantiate(&e.segs, &vals, &tail);
        let p = format!("/{}", segs.join("/"));
        let r = Req { m: e.method().unwrap_or(0), path: p.clone() };
        if !out.contains(&r) {
            out.push(r);
        }
        if e.method().is_some() {
            out.push(Req { m: (e.method().unwrap() + 1) % 5, path: p });
        }
    }
    out
}

/// A routing case: accepted registrations and requests.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RouteCase {
    pub ops: Vec<Op>,
    pub reqs: Vec<Req>,
}

pub fn route_case(c: &Cfg, nreq: usize) -> BoxedStrategy<RouteCase> {
    (0usize..THEMES.len(), ops(c), prop::collection::vec(req(), 1..nreq))
        .prop_map(|(theme, gs, rs)| {
            let raw = Resolver::new(theme).ops(&gs);
            let (ops, m) = accept(&raw);
            let mut reqs: Vec<Req> = rs.iter().map(|r| r.resolve(theme, &m)).collect();
            for r in canonical(&m) {
                if !reqs.contains(&r) {
                    reqs.push(r);
                }
            }
            RouteCase { ops, reqs }
        })
        .boxed()
}

/// Non-ASCII spelling of an ASCII path text (for the in-process search API; such paths cannot
/// come over HTTP). Letters sharing leading UTF-8 bytes are used on purpose.
pub fn unicode(s: &str) -> String {
    s.chars()
        .map(|c| match c {
            'a' => 'ア',
            'b' => 'ィ',
            'c' => 'é',
            'd' => '😀',
            'e' => 'è',
            '1' => '😁',
            's' => 'ß',
            c => c,
        })
        .collect()
}
pub fn unicode_ops(ops: &[Op]) -> Vec<Op> {
    ops.iter()
        .map(|o| match o {
            Op::Route { m, path, id } => Op::Route { m: *m, path: unicode(path), id: *id },
            Op::Mw { path, id } => Op::Mw { path: path.as_deref().map(unicode), id: *id },
            Op::Static { .. } => o.clone(),
            Op::Mount { path, ops, scope } => Op::Mount { path: unicode(path), ops: unicode_ops(ops), scope: *scope },
            Op::Twice { path, path2, ops, more } => {
                Op::Twice { path: unicode(path), path2: unicode(path2), ops: unicode_ops(ops), more: unicode_ops(more) }
            }
        })
        .collect()
}
