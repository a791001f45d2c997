//! Reference model of registration and routing: a flat, chronological list of patterns.
//! Deliberately not a tree, so that it shares nothing with the code under test.

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    Route { method: u8, id: u32 },
    /// a static directory served here (pattern ends with "*")
    Static { dir: String, id: u32 },
    Mw { id: u32 },
    /// an (empty) router was mounted here
    Node,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Entry {
    pub segs: Vec<String>,
    pub kind: Kind,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Model {
    pub entries: Vec<Entry>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Found {
    pub entry: usize,
    pub params: Vec<(String, String)>,
    pub tail: Vec<String>,
    pub mws: Vec<u32>,
}

pub fn split(path: &str) -> Vec<String> {
    path.split('/').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect()
}

pub const GET: u8 = 0;
pub const METHODS: [&str; 5] = ["GET", "POST", "PUT", "PATCH", "DELETE"];

impl Entry {
    pub fn method(&self) -> Option<u8> {
        match self.kind {
            Kind::Route { method, .. } => Some(method),
            Kind::Static { .. } => Some(GET),
            _ => None,
        }
    }
    pub fn id(&self) -> u32 {
        match self.kind {
            Kind::Route { id, .. } | Kind::Static { id, .. } | Kind::Mw { id } => id,
            Kind::Node => 0,
        }
    }
}

/// None: no match. Some((params, tail))
pub fn pattern_match(pat: &[String], req: &[&str]) -> Option<(Vec<(String, String)>, Vec<String>)> {
    let mut params = vec![];
    for (i, p) in pat.iter().enumerate() {
        if p == "*" {
            return Some((params, req[i.min(req.len())..].iter().map(|s| s.to_string()).collect()));
        }
        let r = req.get(i)?;
        if let Some(name) = p.strip_prefix(':') {
            params.push((name.to_string(), r.to_string()));
        } else if p != r {
            return None;
        }
    }
    if pat.len() == req.len() {
        Some((params, vec![]))
    } else {
        None
    }
}

/// Is `a` more specific than `b`? (both match the same request)
fn more_specific(a: &[String], b: &[String]) -> bool {
    for i in 0..a.len().max(b.len()) {
        match (a.get(i).map(|s| s.as_str()), b.get(i).map(|s| s.as_str())) {
            (x, y) if x == y => continue,
            (Some("*"), _) => return false,
            (_, Some("*")) => return true,
            _ => return false,
        }
    }
    false
}

impl Model {
    fn path_valid(segs: &[String]) -> bool {
        segs.iter().enumerate().all(|(i, s)| !s.contains('*') || (s == "*" && i + 1 == segs.len()))
    }

    fn ambiguous(&self, segs: &[String]) -> bool {
        self.entries.iter().any(|e| {
            let k = e.segs.iter().zip(segs).take_while(|(a, b)| a == b).count();
            match (e.segs.get(k), segs.get(k)) {
                (Some(a), Some(b)) => a.starts_with(':') || b.starts_with(':'),
                _ => false,
            }
        })
    }

    fn add(&mut self, segs: Vec<String>, kind: Kind) -> bool {
        if !Self::path_valid(&segs) || self.ambiguous(&segs) {
            return false;
        }
        let e = Entry { segs, kind };
        if let Some(m) = e.method() {
            if self.entries.iter().any(|x| x.segs == e.segs && x.method() == Some(m)) {
                return false;
            }
        }
        self.entries.push(e);
        true
    }

    pub fn route(&mut self, method: u8, path: &str, id: u32) -> bool {
        self.add(split(path), Kind::Route { method, id })
    }
    pub fn stat(&mut self, vpath: &str, dir: &str, id: u32) -> bool {
        let mut segs = split(vpath);
        segs.push("*".into());
        self.add(segs, Kind::Static { dir: dir.into(), id })
    }
    pub fn mw(&mut self, path: Option<&str>, id: u32) -> bool {
        self.add(path.map(split).unwrap_or_default(), Kind::Mw { id })
    }
    pub fn mount(&mut self, path: &str, sub: &Model) -> bool {
        let at = split(path);
        if !Self::path_valid(&at) || self.ambiguous(&at) {
            return false;
        }
        let clash = self.entries.iter().any(|e| {
            e.segs.starts_with(&at)
                && if at.is_empty() {
                    !e.segs.is_empty() || e.method().is_some()
                } else {
                    !(e.segs == at && e.kind == Kind::Node)
                }
        });
        if clash {
            return false;
        }
        self.entries.push(Entry { segs: at.clone(), kind: Kind::Node });
        for e in &sub.entries {
            let mut segs = at.clone();
            segs.extend(e.segs.iter().cloned());
            self.entries.push(Entry { segs, kind: e.kind.clone() });
        }
        true
    }

    /// The pattern selected for a path, whatever the method.
    pub fn select(&self, req: &[&str]) -> Option<&[String]> {
        let mut best: Option<&[String]> = None;
        for e in &self.entries {
            if e.method().is_some() && pattern_match(&e.segs, req).is_some() {
                match best {
                    Some(b) if !more_specific(&e.segs, b) => {}
                    _ => best = Some(&e.segs),
                }
            }
        }
        best
    }

    pub fn resolve(&self, method: u8, path: &str) -> Option<Found> {
        let req: Vec<&str> = path.split('/').filter(|s| !s.is_empty()).collect();
        let pat = self.select(&req)?;
        let (i, e) = self.entries.iter().enumerate().find(|(_, e)| e.segs == pat && e.method() == Some(method))?;
        let (params, tail) = pattern_match(pat, &req).unwrap();
        let mut mws: Vec<(usize, u32)> = self
            .entries
            .iter()
            .filter(|m| matches!(m.kind, Kind::Mw { .. }) && e.segs.starts_with(&m.segs))
            .map(|m| (m.segs.len(), m.id()))
            .collect();
        mws.sort_by_key(|m| m.0); // stable: registration order within one path
        Some(Found { entry: i, params, tail, mws: mws.into_iter().map(|m| m.1).collect() })
    }

    pub fn routes(&self) -> impl Iterator<Item = &Entry> {
        self.entries.iter().filter(|e| e.method().is_some())
    }
}
