//! The crawler as it is, against a scripted server.
use crate::site::*;
use httpsrv::{Reply, Server};
use std::collections::HashMap;
use std::sync::mpsc;
use std::time::Duration;
use url::Url;
use vengine::*;

pub fn server(ctx: &mut Ctx) -> &'static Server {
    if ctx.any.is_none() {
        let s: &'static Server = Box::leak(Box::new(Server::start()));
        ctx.any = Some(Box::new(s));
    }
    *ctx.any.as_ref().unwrap().downcast_ref::<&'static Server>().unwrap()
}

pub fn install(srv: &Server, site: &Site) {
    let r: HashMap<String, Reply> = site
        .pages
        .iter()
        .map(|(k, p)| {
            let a = match p {
                Page::Ok(t) => Reply::ok(t.as_str()),
                Page::Status(s, t) => Reply::status(*s, t.as_str()),
                Page::Refused | Page::Panic => Reply::drop(),
                Page::Broken => Reply::ok(index(&["oops"])).cut(5),
                Page::Redirect(to) => Reply::redirect(to),
            };
            (k.clone(), a)
        })
        .collect();
    srv.set(r);
}

/// files, errors
pub fn crawl(c: real::Crawler, url: &str, walk: bool) -> (Vec<String>, usize) {
    let u = Url::parse(url).unwrap();
    if walk {
        let (mut f, mut e) = (vec![], 0);
        for r in c.walk(u) {
            match r {
                Ok(u) => f.push(u.to_string()),
                Err(_) => e += 1,
            }
        }
        (f, e)
    } else {
        match c.list(u) {
            Ok(v) => (v.iter().map(|u| u.to_string()).collect(), 0),
            Err(_) => (vec![], 1),
        }
    }
}

/// What the server saw, as urls; redirected visits are seen at both ends.
pub fn visits(srv: &Server) -> Vec<String> {
    srv.log().iter().map(|(_, p)| format!("{}{}", srv.base(), p)).collect()
}

pub fn in_time<T: Send + 'static>(what: &str, f: impl FnOnce() -> T + Send + 'static) -> Result<T, Fail> {
    let (tx, rx) = mpsc::channel();
    std::thread::spawn(move || {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        let _ = tx.send(r);
    });
    match rx.recv_timeout(Duration::from_secs(40)) {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(_)) => Err(Fail::new("panic", format!("{what} panicked: {}", last_panic()))),
        Err(_) => Err(Fail::new("deadlock", format!("{what} does not end"))),
    }
}
