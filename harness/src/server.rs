//! Runs an `App` on a real loopback port and talks raw HTTP/1.1 to it.
use obsidian::App;
use std::future::Future;
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::os::unix::io::AsRawFd;
use std::pin::Pin;
use std::sync::atomic::{AtomicU32, Ordering};
use std::sync::mpsc;
use std::sync::{Mutex, OnceLock};
use std::time::{Duration, Instant};

/// No answer for this long is reported as a hang (never as an ordinary difference).
pub const READ_TIMEOUT: Duration = Duration::from_secs(15);

type Job = Box<dyn FnOnce() -> Pin<Box<dyn Future<Output = ()>>> + Send>;

enum Cmd {
    Start(Job, mpsc::Sender<Started>),
}

enum Started {
    Ok(tokio::task::AbortHandle),
    Died,
}

// ------------------------------------------------------------------ ports

/// Ports are taken below the ephemeral range, from a block this process owns by holding
/// the block's first port open: neither another shard, another check process nor an
/// outgoing connection can get in between choosing a port and listening on it.
struct PortBlock {
    _lock: TcpListener,
    base: u16,
    next: AtomicU32,
}
const BLOCK: u16 = 1000;

fn ports() -> &'static PortBlock {
    static P: OnceLock<PortBlock> = OnceLock::new();
    P.get_or_init(|| {
        for round in 0..600 {
            for k in 0..20u16 {
                let base = 11000 + k * BLOCK;
                if let Ok(l) = TcpListener::bind(("127.0.0.1", base)) {
                    return PortBlock { _lock: l, base, next: AtomicU32::new(0) };
                }
            }
            if round == 0 {
                eprintln!("all port blocks taken, waiting");
            }
            std::thread::sleep(Duration::from_millis(500));
        }
        panic!("no free port block");
    })
}

fn next_port() -> u16 {
    let p = ports();
    loop {
        let n = p.next.fetch_add(1, Ordering::Relaxed) % (BLOCK as u32 - 1);
        let port = p.base + 1 + n as u16;
        if TcpListener::bind(("127.0.0.1", port)).is_ok() {
            return port;
        }
    }
}

// ------------------------------------------------------------------ server thread

pub struct ServerThread {
    tx: tokio::sync::mpsc::UnboundedSender<Cmd>,
    workers: usize,
}

pub struct Running {
    pub port: u16,
    abort: tokio::task::AbortHandle,
}
impl Drop for Running {
    fn drop(&mut self) {
        self.abort.abort();
    }
}

#[derive(Debug, Clone, PartialEq)]
pub enum NetErr {
    /// connection closed by the server before a complete response
    Closed(Vec<u8>),
    /// nothing for READ_TIMEOUT
    Timeout,
    Malformed(String),
    /// could not start or connect at all
    Setup(String),
}

impl ServerThread {
    /// `workers` = 0: everything on one thread.
    pub fn new(workers: usize) -> Self {
        let (tx, mut rx) = tokio::sync::mpsc::unbounded_channel::<Cmd>();
        std::thread::Builder::new()
            .name("server".into())
            .stack_size(8 << 20)
            .spawn(move || {
                let rt = if workers == 0 {
                    tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap()
                } else {
                    tokio::runtime::Builder::new_multi_thread().worker_threads(workers).enable_all().build().unwrap()
                };
                let local = tokio::task::LocalSet::new();
                rt.block_on(local.run_until(async move {
                    while let Some(Cmd::Start(job, reply)) = rx.recv().await {
                        let h = tokio::task::spawn_local(job());
                        for _ in 0..3 {
                            tokio::task::yield_now().await;
                        }
                        let r = if h.is_finished() { Started::Died } else { Started::Ok(h.abort_handle()) };
                        let _ = reply.send(r);
                    }
                }));
            })
            .unwrap();
        ServerThread { tx, workers }
    }

    pub fn start<T: Clone + Send + Sync + 'static>(&mut self, app: App<T>) -> Result<Running, NetErr> {
        let port = next_port();
        let (tx, rx) = mpsc::channel();
        let job: Job = Box::new(move || Box::pin(app.listen(port)));
        // (starting prints a banner)
        crate::core::disk_is_full(false);
        if self.tx.send(Cmd::Start(job, tx)).is_err() {
            *self = ServerThread::new(self.workers);
            return Err(NetErr::Setup("server thread gone".into()));
        }
        match rx.recv_timeout(READ_TIMEOUT) {
            Ok(Started::Ok(abort)) => {
                crate::core::disk_is_full(true);
                Ok(Running { port, abort })
            }
            Ok(Started::Died) => Err(NetErr::Setup(format!("listen({port}) ended at once"))),
            Err(_) => {
                *self = ServerThread::new(self.workers);
                Err(NetErr::Timeout)
            }
        }
    }

    /// Leave a stuck server thread behind.
    pub fn replace(&mut self) {
        *self = ServerThread::new(self.workers);
    }
}

// ------------------------------------------------------------------ client

#[derive(Debug, Clone, PartialEq)]
pub struct Resp {
    pub status: u16,
    pub headers: Vec<(String, Vec<u8>)>,
    pub body: Vec<u8>,
}
impl Resp {
    pub fn text(&self) -> String {
        String::from_utf8_lossy(&self.body).into_owned()
    }
    /// all values of a header
    pub fn header(&self, name: &str) -> Vec<String> {
        self.headers.iter().filter(|(n, _)| n == name).map(|(_, v)| String::from_utf8_lossy(v).into_owned()).collect()
    }
    /// headers chosen by the application (without those the HTTP library adds), sorted
    pub fn app_headers(&self) -> Vec<(String, String)> {
        let mut v: Vec<_> = self
            .headers
            .iter()
            .filter(|(n, _)| !matches!(n.as_str(), "date" | "content-length" | "transfer-encoding" | "connection"))
            .map(|(n, v)| (n.clone(), String::from_utf8_lossy(v).into_owned()))
            .collect();
        v.sort();
        v
    }
    pub fn brief(&self) -> String {
        let mut b = self.text();
        if b.len() > 300 {
            let mut n = 300;
            while !b.is_char_boundary(n) {
                n -= 1;
            }
            b.truncate(n);
            b.push_str("...");
        }
        format!("{} {:?} {:?}", self.status, self.app_headers(), b)
    }
}

pub struct Conn {
    s: TcpStream,
    buf: Vec<u8>,
    pos: usize,
}

fn linger0(s: &TcpStream) {
    let l = libc::linger { l_onoff: 1, l_linger: 0 };
    unsafe {
        libc::setsockopt(
            s.as_raw_fd(),
            libc::SOL_SOCKET,
            libc::SO_LINGER,
            &l as *const _ as *const libc::c_void,
            std::mem::size_of::<libc::linger>() as u32,
        );
    }
}

impl Conn {
    pub fn open(port: u16) -> Result<Conn, NetErr> {
        let t0 = Instant::now();
        loop {
            match TcpStream::connect(("127.0.0.1", port)) {
                Ok(s) => {
                    let _ = s.set_nodelay(true);
                    let _ = s.set_read_timeout(Some(READ_TIMEOUT));
                    let _ = s.set_write_timeout(Some(READ_TIMEOUT));
                    linger0(&s);
                    return Ok(Conn { s, buf: vec![], pos: 0 });
                }
                Err(e) => {
                    if t0.elapsed() > READ_TIMEOUT {
                        return Err(NetErr::Setup(format!("connect: {e}")));
                    }
                    std::thread::sleep(Duration::from_micros(200));
                }
            }
        }
    }

    pub fn send(&mut self, b: &[u8]) -> Result<(), NetErr> {
        match self.s.write_all(b) {
            Ok(()) => Ok(()),
            Err(e) if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut) => Err(NetErr::Timeout),
            Err(_) => Err(NetErr::Closed(vec![])),
        }
    }

    pub fn shutdown_write(&mut self) {
        let _ = self.s.shutdown(std::net::Shutdown::Write);
    }

    pub fn set_timeout(&mut self, d: Duration) {
        let _ = self.s.set_read_timeout(Some(d));
    }

    /// false at end of stream
    fn fill(&mut self) -> Result<bool, NetErr> {
        let mut tmp = [0u8; 16384];
        // the server does not switch off Nagle's algorithm: acknowledge at once
        let one: libc::c_int = 1;
        unsafe {
            libc::setsockopt(self.s.as_raw_fd(), libc::IPPROTO_TCP, libc::TCP_QUICKACK, &one as *const _ as *const libc::c_void, 4);
        }
        match self.s.read(&mut tmp) {
            Ok(0) => Ok(false),
            Ok(n) => {
                if self.pos > 65536 {
                    self.buf.drain(..self.pos);
                    self.pos = 0;
                }
                self.buf.extend_from_slice(&tmp[..n]);
                Ok(true)
            }
            Err(e) if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut) => Err(NetErr::Timeout),
            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => Ok(true),
            Err(_) => Ok(false),
        }
    }

    fn closed(&self) -> NetErr {
        NetErr::Closed(self.buf[self.pos..].to_vec())
    }

    /// Reads one complete response (interim 1xx responses are skipped).
    pub fn read(&mut self) -> Result<Resp, NetErr> {
        self.read_answer(false)
    }

    /// `head`: the answer to a HEAD request, which has no body whatever its headers say.
    pub fn read_answer(&mut self, head: bool) -> Result<Resp, NetErr> {
        loop {
            let (status, headers, len) = loop {
                let mut hs = vec![httparse::EMPTY_HEADER; 700];
                let mut r = httparse::Response::new(&mut hs);
                let rest = &self.buf[self.pos..];
                let parsed = if rest.is_empty() { Ok(httparse::Status::Partial) } else { r.parse(rest) };
                match parsed {
                    Ok(httparse::Status::Complete(n)) => {
                        break (
                            r.code.unwrap(),
                            r.headers.iter().map(|h| (h.name.to_ascii_lowercase(), h.value.to_vec())).collect::<Vec<_>>(),
                            n,
                        );
                    }
                    Ok(httparse::Status::Partial) => {
                        if !self.fill()? {
                            return Err(self.closed());
                        }
                    }
                    Err(e) => return Err(NetErr::Malformed(format!("{e}: {:?}", String::from_utf8_lossy(rest)))),
                }
            };
            if (100..200).contains(&status) {
                self.pos += len;
                continue;
            }
            self.pos += len;
            let get = |n: &str| headers.iter().find(|h| h.0 == n).map(|h| String::from_utf8_lossy(&h.1).into_owned());
            let body = if head || status == 204 || status == 304 {
                vec![]
            } else if get("transfer-encoding").map_or(false, |v| v.eq_ignore_ascii_case("chunked")) {
                self.read_chunked()?
            } else if let Some(cl) = get("content-length") {
                let n: usize = cl.trim().parse().map_err(|_| NetErr::Malformed(format!("content-length {cl:?}")))?;
                while self.buf.len() - self.pos < n {
                    if !self.fill()? {
                        return Err(self.closed());
                    }
                }
                let b = self.buf[self.pos..self.pos + n].to_vec();
                self.pos += n;
                b
            } else {
                // until close
                while self.fill()? {}
                let b = self.buf[self.pos..].to_vec();
                self.pos = self.buf.len();
                b
            };
            return Ok(Resp { status, headers, body });
        }
    }

    fn read_chunked(&mut self) -> Result<Vec<u8>, NetErr> {
        let mut out = vec![];
        loop {
            let line = loop {
                if let Some(i) = self.buf[self.pos..].windows(2).position(|w| w == b"\r\n") {
                    let l = self.buf[self.pos..self.pos + i].to_vec();
                    self.pos += i + 2;
                    break l;
                }
                if !self.fill()? {
                    return Err(self.closed());
                }
            };
            let n = usize::from_str_radix(String::from_utf8_lossy(&line).trim(), 16)
                .map_err(|_| NetErr::Malformed("chunk size".into()))?;
            while self.buf.len() - self.pos < n + 2 {
                if !self.fill()? {
                    return Err(self.closed());
                }
            }
            out.extend_from_slice(&self.buf[self.pos..self.pos + n]);
            self.pos += n + 2;
            if n == 0 {
                return Ok(out);
            }
        }
    }

    /// Everything until the server closes.
    pub fn read_to_end(&mut self) -> Result<Vec<u8>, NetErr> {
        while self.fill()? {}
        Ok(self.buf[self.pos..].to_vec())
    }

    /// true if nothing unread is left and the server sends nothing more within `d`
    /// (a close counts as nothing).
    pub fn quiet(&mut self, d: Duration) -> bool {
        if self.pos < self.buf.len() {
            return false;
        }
        self.set_timeout(d);
        let r = self.fill();
        self.set_timeout(READ_TIMEOUT);
        !matches!(r, Ok(true))
    }
}

/// How the body of a request is framed.
#[derive(Clone, Debug, PartialEq)]
pub enum Framing {
    /// no body, no length header
    None,
    Length,
    /// chunked transfer with these chunk sizes (cycled)
    Chunked(Vec<usize>),
}

pub fn split_chunks<'a>(body: &'a [u8], sizes: &[usize]) -> Vec<&'a [u8]> {
    let mut v = vec![];
    let mut rest = body;
    let mut i = 0;
    while !rest.is_empty() {
        let n = if sizes.is_empty() { rest.len() } else { sizes[i % sizes.len()].max(1).min(rest.len()) };
        v.push(&rest[..n]);
        rest = &rest[n..];
        i += 1;
    }
    v
}

pub fn request_bytes(method: &str, target: &str, headers: &[(String, String)], body: &[u8], framing: &Framing) -> Vec<u8> {
    let mut out = Vec::with_capacity(256 + body.len());
    out.extend_from_slice(format!("{method} {target} HTTP/1.1\r\n").as_bytes());
    for (n, v) in headers {
        out.extend_from_slice(format!("{n}: {v}\r\n").as_bytes());
    }
    match framing {
        Framing::None => out.extend_from_slice(b"\r\n"),
        Framing::Length => {
            out.extend_from_slice(format!("content-length: {}\r\n\r\n", body.len()).as_bytes());
            out.extend_from_slice(body);
        }
        Framing::Chunked(sizes) => {
            out.extend_from_slice(b"transfer-encoding: chunked\r\n\r\n");
            for c in split_chunks(body, sizes) {
                out.extend_from_slice(format!("{:x}\r\n", c.len()).as_bytes());
                out.extend_from_slice(c);
                out.extend_from_slice(b"\r\n");
            }
            out.extend_from_slice(b"0\r\n\r\n");
        }
    }
    out
}

/// Request headers that say nothing about how a request is to be answered here.
const NOISE: [&[(&str, &str)]; 32] = [
    &[("accept", "application/json")],
    &[("accept", "text/html,application/xhtml+xml,application/xml;q=0.9,*/*;q=0.8"), ("sec-fetch-dest", "document"), ("sec-fetch-mode", "navigate")],
    &[("accept", "image/*;q=0.1")],
    &[("accept-encoding", "gzip")],
    &[("accept-encoding", "gzip, deflate, br, zstd;q=0, identity;q=0")],
    &[("accept-language", "de"), ("accept-charset", "iso-8859-1")],
    &[("if-none-match", "*")],
    &[("if-none-match", "\"a\", W/\"b\""), ("if-modified-since", "Fri, 01 Jan 2100 00:00:00 GMT")],
    &[("if-modified-since", "Thu, 01 Jan 1970 00:00:00 GMT")],
    &[("if-match", "\"none\""), ("if-unmodified-since", "Thu, 01 Jan 1970 00:00:00 GMT")],
    &[("range", "bytes=0-0")],
    &[("range", "bytes=-1"), ("if-range", "\"x\"")],
    &[("range", "bytes=2-1,0-99999999")],
    &[("cache-control", "no-cache"), ("pragma", "no-cache")],
    &[("cookie", "a=1; b=%20; c")],
    &[("cookie", "a=1"), ("cookie", "a=2"), ("authorization", "Basic Og==")],
    &[("x-forwarded-for", "10.0.0.1"), ("x-forwarded-prefix", "/a"), ("x-forwarded-host", "h"), ("x-forwarded-proto", "https"), ("forwarded", "for=1")],
    &[("x-original-url", "/a"), ("x-rewrite-url", "/")],
    &[("x-http-method-override", "DELETE"), ("x-method-override", "GET")],
    &[("origin", "http://x"), ("access-control-request-method", "PUT"), ("access-control-request-headers", "x-a")],
    &[("x-requested-with", "XMLHttpRequest")],
    &[("te", "trailers"), ("trailer", "x-t")],
    &[("user-agent", ""), ("referer", "http://t/%zz"), ("dnt", "1"), ("x-request-id", "7")],
    &[("date", "Thu, 01 Jan 1970 00:00:00 GMT"), ("server", "me"), ("status", "500"), ("location", "/x")],
    &[("upgrade-insecure-requests", "1"), ("purpose", "prefetch"), ("save-data", "on")],
    &[("accept", "*/*"), ("host", "other.example:8")],
    &[("user-agent", "caf\u{e9}/1 \u{1f980}"), ("x-request-id", "\u{fc}")],
    &[("cookie", "\u{fc}=\u{ff}; =; ;;"), ("accept-language", ",;q=")],
    &[("referer", "http://t/\u{e9}?\u{e9}"), ("accept", "\u{e9}"), ("authorization", "Bearer \u{e9}")],
    &[("accept", ";;q=,"), ("accept-encoding", ";q=x,"), ("if-modified-since", "never"), ("range", "bytes=")],
    &[("x-real-ip", "::1"), ("via", "1.1 p"), ("max-forwards", "0"), ("traceparent", "00-0-0-00"), ("prefer", "return=minimal")],
    &[("content-language", "fr"), ("content-location", "/y"), ("content-disposition", "attachment; filename=\"x\"")],
];
const NOISE_CT: [&[(&str, &str)]; 14] = [
    &[("content-type", "application/x-www-form-urlencoded")],
    &[("content-type", "application/x-www-form-urlencoded; charset=iso-8859-1")],
    &[("content-type", "APPLICATION/JSON")],
    &[("content-type", "application/json; charset=utf-16")],
    &[("content-type", "application/vnd.api+json")],
    &[("content-type", "text/plain;charset=us-ascii")],
    &[("content-type", "text/html")],
    &[("content-type", "multipart/form-data; boundary=a")],
    &[("content-type", "multipart/form-data")],
    &[("content-type", "application/octet-stream")],
    &[("content-type", "")],
    &[("content-type", "image/png"), ("content-type", "application/json")],
    &[("content-encoding", "gzip")],
    &[("content-encoding", "identity"), ("content-type", "application/x-www-form-urlencoded"), ("content-md5", "x"), ("content-range", "bytes 0-0/1")],
];
/// Such headers for a request, a function of `h`.
pub fn noise(h: u64) -> Vec<(String, String)> {
    let mut v: Vec<(String, String)> = vec![];
    let mut add = |l: &[(&str, &str)]| v.extend(l.iter().map(|(n, x)| (n.to_string(), x.to_string())));
    if h & 1 == 0 {
        add(NOISE[(h >> 8) as usize % NOISE.len()]);
    }
    if h & 6 == 0 {
        add(NOISE[(h >> 16) as usize % NOISE.len()]);
    }
    if h & 24 != 0 {
        add(NOISE_CT[(h >> 24) as usize % NOISE_CT.len()]);
    }
    v
}
/// A target without the scratch directory of the shard in it.
pub fn anywhere(target: &str) -> String {
    let scratch = |s: &&str| !(s.len() >= 2 && s.starts_with('s') && s[1..].bytes().all(|b| b.is_ascii_digit()));
    target.split('/').filter(scratch).collect::<Vec<_>>().join("/")
}
/// A request with some of them (which is a function of the rest).
pub fn noisy_bytes(method: &str, target: &str, headers: &[(String, String)], body: &[u8], framing: &Framing) -> Vec<u8> {
    noisy_salted(0, method, target, headers, body, framing)
}
pub fn noisy_salted(salt: u64, method: &str, target: &str, headers: &[(String, String)], body: &[u8], framing: &Framing) -> Vec<u8> {
    let h = crate::core::hash_of(&format!("{salt} {method} {} {headers:?} {framing:?} {} {:?}", anywhere(target), body.len(), &body[..body.len().min(100)]));
    let mut all = headers.to_vec();
    all.extend(noise(h).into_iter().filter(|(n, _)| !headers.iter().any(|x| x.0.eq_ignore_ascii_case(n))));
    request_bytes(method, target, &all, body, framing)
}

/// Sends complete requests and returns one result each. Requests are pipelined in small
/// groups on one connection; when the server closes the connection the rest goes over a new
/// one. A connection lost before the first byte of an answer is charged to the request that
/// was first in line.
pub fn roundtrips(port: u16, reqs: &[Vec<u8>]) -> Result<Vec<Result<Resp, NetErr>>, NetErr> {
    let mut out: Vec<Result<Resp, NetErr>> = Vec::with_capacity(reqs.len());
    while out.len() < reqs.len() {
        let mut c = Conn::open(port)?;
        'conn: while out.len() < reqs.len() {
            let start = out.len();
            let mut batch = vec![];
            let mut end = start;
            // a large request goes alone: when a handler leaves its body unread the server closes
            // the connection with data pending, and TCP may then drop earlier answers
            while end < reqs.len() && end - start < 32 && (batch.len() + reqs[end].len() < 8192 || end == start) {
                batch.extend_from_slice(&reqs[end]);
                end += 1;
            }
            let sent = c.send(&batch);
            if sent == Err(NetErr::Timeout) {
                return Err(NetErr::Timeout);
            }
            for i in start..end {
                match c.read_answer(reqs[i].starts_with(b"HEAD ")) {
                    Ok(r) => {
                        let close = r.header("connection").iter().any(|v| v.eq_ignore_ascii_case("close"));
                        out.push(Ok(r));
                        if close {
                            break 'conn;
                        }
                    }
                    Err(NetErr::Timeout) => return Err(NetErr::Timeout),
                    Err(e) => {
                        out.push(Err(e));
                        break 'conn;
                    }
                }
            }
        }
    }
    Ok(out)
}

/// Sanity of the machine itself before a hang is believed: timers and loopback work promptly.
pub fn machine_is_responsive() -> bool {
    static L: Mutex<()> = Mutex::new(());
    let _g = L.lock().unwrap_or_else(|e| e.into_inner());
    let t0 = Instant::now();
    std::thread::sleep(Duration::from_millis(20));
    let l = match TcpListener::bind("127.0.0.1:0") {
        Ok(l) => l,
        Err(_) => return false,
    };
    let addr = l.local_addr().unwrap();
    let h = std::thread::spawn(move || {
        if let Ok((mut s, _)) = l.accept() {
            let mut b = [0u8; 4];
            let _ = s.read_exact(&mut b);
            let _ = s.write_all(&b);
        }
    });
    let ok = (|| {
        let mut s = TcpStream::connect(addr).ok()?;
        s.write_all(b"ping").ok()?;
        let mut b = [0u8; 4];
        s.read_exact(&mut b).ok()?;
        Some(())
    })()
    .is_some();
    let _ = h.join();
    ok && t0.elapsed() < Duration::from_secs(2)
}
