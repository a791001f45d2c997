//! Generated registration programs ("specs") and the code that carries them out on the real
//! API and on the model.
use crate::model::{Model, METHODS};
use async_trait::async_trait;
use obsidian::context::Context;
use obsidian::middleware::Middleware;
use obsidian::router::Router;
use obsidian::{App, ContextResult, EndpointExecutor};
use serde::{Deserialize, Serialize};
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    Route { m: u8, path: String, id: u32 },
    /// path None: use_service
    Mw { path: Option<String>, id: u32 },
    /// scope: through App::scope (top level only)
    Mount { path: String, ops: Vec<Op>, scope: bool },
    /// the same router, cloned, mounted at two places; `more` is registered on the original
    /// after the copy was taken
    Twice { path: String, path2: String, ops: Vec<Op>, more: Vec<Op> },
    /// vpath None: use_static(dir)
    Static { vpath: Option<String>, dir: String, id: u32 },
}

// ---------------------------------------------------------------- recording

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Enter(u32),
    Exit(u32),
    Handler(u32, Vec<(String, String)>),
    Note(String),
}

#[derive(Default)]
pub struct Rec {
    log: Mutex<Vec<(u32, Ev)>>,
}
impl Rec {
    pub fn push(&self, rid: u32, e: Ev) {
        self.log.lock().unwrap_or_else(|e| e.into_inner()).push((rid, e));
    }
    pub fn of(&self, rid: u32) -> Vec<Ev> {
        self.log.lock().unwrap_or_else(|e| e.into_inner()).iter().filter(|x| x.0 == rid).map(|x| x.1.clone()).collect()
    }
    /// everything, by request
    pub fn by_rid(&self, n: usize) -> Vec<Vec<Ev>> {
        let mut v = vec![vec![]; n];
        for (r, e) in self.log.lock().unwrap_or_else(|e| e.into_inner()).iter() {
            if let Some(x) = v.get_mut(*r as usize) {
                x.push(e.clone());
            }
        }
        v
    }
}

pub fn rid(ctx: &Context) -> u32 {
    ctx.headers().get("x-rid").and_then(|v| v.to_str().ok()).and_then(|v| v.parse().ok()).unwrap_or(u32::MAX)
}

pub type BoxFut = Pin<Box<dyn Future<Output = ContextResult> + Send>>;

/// What is registered for the ids of a spec.
pub trait Parts: Send + Sync + 'static {
    fn handler(&self, id: u32) -> Box<dyn Fn(Context) -> BoxFut + Send + Sync>;
    fn middleware(&self, id: u32) -> AnyMw;
}

/// Boxed middleware, so that one type can be registered for everything.
pub struct AnyMw(pub Box<dyn Middleware>);
#[async_trait]
impl Middleware for AnyMw {
    async fn handle<'a>(&'a self, context: Context, ex: EndpointExecutor<'a>) -> ContextResult {
        self.0.handle(context, ex).await
    }
}

/// The usual parts: the handler answers "h<id>", records the named parameters it can see, the
/// middlewares record entry and exit and pass on.
#[derive(Clone)]
pub struct Plain {
    pub rec: Arc<Rec>,
    pub names: Arc<Vec<String>>,
}
pub struct RecMw {
    pub id: u32,
    pub rec: Arc<Rec>,
}
#[async_trait]
impl Middleware for RecMw {
    async fn handle<'a>(&'a self, context: Context, ex: EndpointExecutor<'a>) -> ContextResult {
        let r = rid(&context);
        self.rec.push(r, Ev::Enter(self.id));
        let res = ex.next(context).await;
        self.rec.push(r, Ev::Exit(self.id));
        res
    }
}
impl Parts for Plain {
    fn handler(&self, id: u32) -> Box<dyn Fn(Context) -> BoxFut + Send + Sync> {
        let me = self.clone();
        Box::new(move |ctx: Context| {
            let me = me.clone();
            Box::pin(async move {
                let mut ps = vec![];
                for n in me.names.iter() {
                    if let Ok(v) = ctx.param::<String>(n) {
                        ps.push((n.clone(), v));
                    }
                }
                me.rec.push(rid(&ctx), Ev::Handler(id, ps));
                ctx.build(format!("h{id}")).ok()
            })
        })
    }
    fn middleware(&self, id: u32) -> AnyMw {
        AnyMw(Box::new(RecMw { id, rec: self.rec.clone() }))
    }
}

// ---------------------------------------------------------------- carrying out a spec

/// The registration API shared by App and Router.
pub trait Reg {
    fn route(&mut self, m: u8, path: &str, h: Box<dyn Fn(Context) -> BoxFut + Send + Sync>);
    fn mw(&mut self, path: Option<&str>, w: AnyMw);
    fn mount(&mut self, path: &str, r: Router);
    fn stat(&mut self, vpath: Option<&str>, dir: &str);
    fn scope(&mut self, name: &str, f: &dyn Fn(&mut Router));
}
macro_rules! reg_body {
    () => {
        fn route(&mut self, m: u8, path: &str, h: Box<dyn Fn(Context) -> BoxFut + Send + Sync>) {
            match METHODS[m as usize] {
                "GET" => self.get(path, h),
                "POST" => self.post(path, h),
                "PUT" => self.put(path, h),
                "PATCH" => self.patch(path, h),
                _ => self.delete(path, h),
            }
        }
        fn mw(&mut self, path: Option<&str>, w: AnyMw) {
            match path {
                Some(p) => self.use_service_to(p, w),
                None => self.use_service(w),
            }
        }
        fn mount(&mut self, path: &str, r: Router) {
            self.use_router(path, r)
        }
        fn stat(&mut self, vpath: Option<&str>, dir: &str) {
            match vpath {
                Some(v) => self.use_static_to(v, dir),
                None => self.use_static(dir),
            }
        }
    };
}
impl<T: Clone + Send + Sync + 'static> Reg for App<T> {
    reg_body!();
    fn scope(&mut self, name: &str, f: &dyn Fn(&mut Router)) {
        App::scope(self, name, f)
    }
}
impl Reg for Router {
    reg_body!();
    fn scope(&mut self, name: &str, f: &dyn Fn(&mut Router)) {
        let mut r = Router::new();
        f(&mut r);
        self.use_router(&format!("/{name}"), r)
    }
}

/// Registers `op` on `r`. Everything in `op` must be acceptable (see `accept`), or this panics.
pub fn apply(r: &mut dyn Reg, op: &Op, parts: &dyn Parts) {
    match op {
        Op::Route { m, path, id } => r.route(*m, path, parts.handler(*id)),
        Op::Mw { path, id } => r.mw(path.as_deref(), parts.middleware(*id)),
        Op::Static { vpath, dir, .. } => r.stat(vpath.as_deref(), dir),
        Op::Mount { path, ops, scope } => {
            if *scope {
                r.scope(path, &|sub: &mut Router| {
                    for o in ops {
                        apply(sub, o, parts);
                    }
                });
            } else {
                let mut sub = Router::new();
                for o in ops {
                    apply(&mut sub, o, parts);
                }
                r.mount(path, sub);
            }
        }
        Op::Twice { path, path2, ops, more } => {
            let mut sub = Router::new();
            for o in ops {
                apply(&mut sub, o, parts);
            }
            let copy = sub.clone();
            for o in more {
                apply(&mut sub, o, parts);
            }
            r.mount(path, sub);
            r.mount(path2, copy);
        }
    }
}

/// Registers `op` on the model; on a conflict the model is unchanged and false is returned.
pub fn apply_model(m: &mut Model, op: &Op) -> bool {
    let before = m.entries.len();
    let ok = match op {
        Op::Route { m: me, path, id } => m.route(*me, path, *id),
        Op::Mw { path, id } => m.mw(path.as_deref(), *id),
        Op::Static { vpath, dir, id } => m.stat(vpath.as_deref().unwrap_or(dir), dir, *id),
        Op::Mount { path, ops, .. } => {
            let mut sub = Model::default();
            ops.iter().all(|o| apply_model(&mut sub, o)) && m.mount(path, &sub)
        }
        Op::Twice { path, path2, ops, more } => {
            let mut sub = Model::default();
            ops.iter().all(|o| apply_model(&mut sub, o)) && {
                let copy = sub.clone();
                more.iter().all(|o| apply_model(&mut sub, o)) && m.mount(path, &sub) && m.mount(path2, &copy)
            }
        }
    };
    if !ok {
        m.entries.truncate(before);
    }
    ok
}

/// Drops from `ops` (recursively) whatever the model refuses; returns what is left and its model.
pub fn accept(ops: &[Op]) -> (Vec<Op>, Model) {
    let mut m = Model::default();
    let mut out = vec![];
    for o in ops {
        let o = match o {
            Op::Mount { path, ops, scope } => Op::Mount { path: path.clone(), ops: accept(ops).0, scope: *scope },
            Op::Twice { path, path2, ops, more } => {
                let (ops, mut sm) = accept(ops);
                let more = more.iter().filter(|o| apply_model(&mut sm, o)).cloned().collect();
                Op::Twice { path: path.clone(), path2: path2.clone(), ops, more }
            }
            o => o.clone(),
        };
        if apply_model(&mut m, &o) {
            out.push(o);
        }
    }
    (out, m)
}

/// Parameter names used anywhere.
pub fn param_names(m: &Model) -> Vec<String> {
    let mut v: Vec<String> =
        m.entries.iter().flat_map(|e| e.segs.iter()).filter_map(|s| s.strip_prefix(':')).map(|s| s.to_string()).collect();
    v.sort();
    v.dedup();
    v
}
