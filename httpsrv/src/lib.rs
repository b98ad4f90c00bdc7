//! A scripted HTTP server on the loopback interface.
use std::collections::HashMap;
use std::io::{BufRead, BufReader, Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, PartialEq)]
pub struct Reply {
    pub status: u16,
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
    /// Send only so many bytes of the body, then close the connection.
    pub cut: Option<usize>,
    /// Close the connection without an answer.
    pub drop: bool,
    /// Send the body in chunks instead of with its length.
    pub chunked: bool,
}

impl Reply {
    pub fn ok(body: impl Into<Vec<u8>>) -> Reply {
        Reply::status(200, body)
    }
    pub fn status(status: u16, body: impl Into<Vec<u8>>) -> Reply {
        Reply { status, headers: vec![], body: body.into(), cut: None, drop: false, chunked: false }
    }
    pub fn drop() -> Reply {
        Reply { drop: true, ..Reply::ok("") }
    }
    pub fn redirect(to: &str) -> Reply {
        let mut r = Reply::status(302, "");
        r.headers.push(("Location".into(), to.into()));
        r
    }
    pub fn header(mut self, k: &str, v: &str) -> Reply {
        self.headers.push((k.into(), v.into()));
        self
    }
    pub fn cut(mut self, n: usize) -> Reply {
        self.cut = Some(n);
        self
    }
    pub fn chunked(mut self) -> Reply {
        self.chunked = true;
        self
    }
}

#[derive(Default)]
struct State {
    routes: HashMap<String, Reply>,
    log: Vec<(String, String)>,
    gated: bool,
    /// Requests that wait for their answer, in order of arrival.
    pending: Vec<(u64, String)>,
    released: Vec<u64>,
    next: u64,
    last_change: Option<Instant>,
    /// Body bytes handed to the kernel.
    sent: u64,
}

pub struct Server {
    pub port: u16,
    st: Arc<(Mutex<State>, Condvar)>,
}

fn serve(stream: TcpStream, st: Arc<(Mutex<State>, Condvar)>) -> std::io::Result<()> {
    stream.set_nodelay(true)?;
    stream.set_read_timeout(Some(Duration::from_secs(30)))?;
    let mut rd = BufReader::new(stream.try_clone()?);
    let mut wr = stream;
    let mut first = String::new();
    if rd.read_line(&mut first)? == 0 {
        return Ok(());
    }
    let mut it = first.split_whitespace();
    let method = it.next().unwrap_or("").to_string();
    let target = it.next().unwrap_or("").to_string();
    let mut auth = String::new();
    loop {
        let mut l = String::new();
        if rd.read_line(&mut l)? == 0 || l == "\r\n" || l == "\n" {
            break;
        }
        if l.to_ascii_lowercase().starts_with("authorization:") {
            auth = l[14..].trim().to_string();
        }
    }
    let (m, c) = &*st;
    let reply = {
        let mut g = m.lock().unwrap();
        g.log.push((method.clone(), target.clone()));
        g.last_change = Some(Instant::now());
        if g.gated {
            let id = g.next;
            g.next += 1;
            g.pending.push((id, target.clone()));
            c.notify_all();
            while !g.released.contains(&id) && g.gated {
                g = c.wait(g).unwrap();
            }
            g.released.retain(|x| *x != id);
            g.last_change = Some(Instant::now());
        }
        match g.routes.get("!auth") {
            Some(r) if !target.starts_with("/zuul/") && r.body != auth.as_bytes() => Some(Reply::status(401, "<a href=\"denied.log\">x</a>")),
            _ => g.routes.get(&target).or_else(|| g.routes.get("*")).cloned(),
        }
    };
    let r = reply.unwrap_or_else(|| Reply::status(404, "<html><body>not found</body></html>"));
    if r.drop {
        return Ok(());
    }
    let mut head = format!("HTTP/1.1 {} X\r\nConnection: close\r\n", r.status);
    for (k, v) in &r.headers {
        head += &format!("{k}: {v}\r\n");
    }
    if r.chunked {
        head += "Transfer-Encoding: chunked\r\n\r\n";
    } else {
        head += &format!("Content-Length: {}\r\n\r\n", r.body.len());
    }
    wr.write_all(head.as_bytes())?;
    if method == "HEAD" {
        return Ok(());
    }
    let n = r.cut.unwrap_or(r.body.len()).min(r.body.len());
    m.lock().unwrap().sent += n as u64;
    if r.chunked {
        // the first ones are as small as can be
        let mut rest = &r.body[..n];
        for size in [1, 1, 1, 2, 5].into_iter().chain(std::iter::repeat(1000)) {
            if rest.is_empty() {
                break;
            }
            let (c, r) = rest.split_at(size.min(rest.len()));
            rest = r;
            let mut chunk = format!("{:x}\r\n", c.len()).into_bytes();
            chunk.extend_from_slice(c);
            chunk.extend_from_slice(b"\r\n");
            wr.write_all(&chunk)?;
        }
        if r.cut.is_none() {
            wr.write_all(b"0\r\n\r\n")?;
        }
    } else {
        wr.write_all(&r.body[..n])?;
    }
    wr.flush()?;
    wr.shutdown(std::net::Shutdown::Write)?;
    let mut sink = [0; 64];
    let _ = rd.read(&mut sink);
    Ok(())
}

impl Server {
    pub fn start() -> Server {
        let l = TcpListener::bind("127.0.0.1:0").expect("bind");
        let port = l.local_addr().unwrap().port();
        let st: Arc<(Mutex<State>, Condvar)> = Default::default();
        let st2 = st.clone();
        std::thread::spawn(move || {
            for s in l.incoming().flatten() {
                let st = st2.clone();
                std::thread::spawn(move || {
                    let _ = serve(s, st);
                });
            }
        });
        Server { port, st }
    }
    pub fn base(&self) -> String {
        format!("http://127.0.0.1:{}", self.port)
    }
    /// Replaces everything the server knows and forgets its log.
    pub fn set(&self, routes: HashMap<String, Reply>) {
        let mut g = self.st.0.lock().unwrap();
        g.routes = routes;
        g.log.clear();
        g.gated = false;
        g.pending.clear();
        g.released.clear();
        g.sent = 0;
        self.st.1.notify_all();
    }
    /// The route that makes every other one, but those of the api, ask for a name and a password.
    pub fn protected(user: &str, password: &str) -> (String, Reply) {
        const A: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
        let mut v = String::from("Basic ");
        for c in format!("{user}:{password}").as_bytes().chunks(3) {
            let n = c.iter().fold(0usize, |n, b| n << 8 | *b as usize) << (8 * (3 - c.len()));
            v.extend((0..4).map(|k| if k <= c.len() { A[n >> (18 - 6 * k) & 63] as char } else { '=' }));
        }
        ("!auth".into(), Reply::ok(v))
    }
    pub fn route(&self, path: &str, r: Reply) {
        self.st.0.lock().unwrap().routes.insert(path.into(), r);
    }
    pub fn unroute(&self, path: &str) {
        self.st.0.lock().unwrap().routes.remove(path);
    }
    pub fn log(&self) -> Vec<(String, String)> {
        self.st.0.lock().unwrap().log.clone()
    }
    pub fn take_log(&self) -> Vec<(String, String)> {
        std::mem::take(&mut self.st.0.lock().unwrap().log)
    }
    pub fn sent(&self) -> u64 {
        self.st.0.lock().unwrap().sent
    }
    pub fn gate(&self, on: bool) {
        self.st.0.lock().unwrap().gated = on;
        self.st.1.notify_all();
    }
    /// Waits until at least `n` requests wait, or nothing arrived for `quiet`.
    pub fn pending(&self, n: usize, quiet: Duration) -> Vec<String> {
        let start = Instant::now();
        let (m, c) = &*self.st;
        let mut g = m.lock().unwrap();
        loop {
            let since = g.last_change.map_or(start, |t| t.max(start)).elapsed();
            if g.pending.len() >= n || since > quiet {
                return g.pending.iter().map(|x| x.1.clone()).collect();
            }
            g = c.wait_timeout(g, Duration::from_millis(2)).unwrap().0;
        }
    }
    /// Lets the k-th waiting request be answered.
    pub fn release(&self, k: usize) {
        let (m, c) = &*self.st;
        let mut g = m.lock().unwrap();
        let (id, _) = g.pending.remove(k);
        g.released.push(id);
        g.last_change = Some(Instant::now());
        c.notify_all();
    }
}
