//! The crawler compiled against the controlled std.
use crate::site::*;
use cstd::explore::{run, End, Outcome, Policy};
use reqwest::Answer;
use std::collections::HashMap;
use url::Url;
use vengine::*;

pub const BASE: &str = "http://h";

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mode {
    List,
    Walk,
    /// A scheduling point of the consumer between the results.
    SlowWalk,
    /// list, then list again on the same crawler.
    ListTwice,
    /// list, then walk on the same crawler.
    ListWalk,
    /// Two listings of one crawler at the same time.
    Together,
}

/// Only one thread runs at a time here, whatever the crawler is made of.
struct Shared(httpdir_ctl::Crawler);
unsafe impl Send for Shared {}
unsafe impl Sync for Shared {}
impl Shared {
    fn get(&self) -> &httpdir_ctl::Crawler {
        &self.0
    }
}

fn together(c: httpdir_ctl::Crawler, u: &Url) -> Vec<Got> {
    let c = std::sync::Arc::new(Shared(c));
    let (c2, u2) = (c.clone(), u.clone());
    let other = cstd::thread::spawn(move || c2.get().list(u2).map(|v| v.iter().map(|u| u.to_string()).collect::<Vec<_>>()).map_err(|_| ()));
    let a = c.get().list(u.clone()).map(|v| v.iter().map(|u| u.to_string()).collect::<Vec<_>>()).map_err(|_| ());
    let b = match other.join() {
        Ok(b) => b,
        Err(e) => std::panic::resume_unwind(e),
    };
    // Each listing fetches every page: half of the visits are those of either.
    let mut all = seen(vec![], 0, true);
    all.visits.sort();
    let half: Vec<String> = all.visits.iter().step_by(2).cloned().collect();
    let odd: Vec<String> = all.visits.iter().skip(1).step_by(2).cloned().collect();
    [(a, half), (b, odd)]
        .into_iter()
        .map(|(r, visits)| match r {
            Ok(files) => Got { files, errors: 0, visits, open: all.open, listing: true },
            Err(()) => Got { files: vec![], errors: 1, visits, open: all.open, listing: true },
        })
        .collect()
}

/// What one crawl gave.
#[derive(Clone, Debug)]
pub struct Got {
    pub files: Vec<String>,
    pub errors: usize,
    pub visits: Vec<String>,
    pub open: usize,
    pub listing: bool,
}

/// Every host serves the same pages.
const ORIGINS: &[&str] = &[BASE, "https://h", "http://longer.host.example", "http://h:8080", "http://user:pw@h", "http://user@h", "http://a", "http://r", "http://[::1]"];

pub fn install(site: &Site) {
    let hosts = site.pages.values().any(|p| matches!(p, Page::Ok(t) if t.contains("://") || t.contains("\"//")));
    let origins = if hosts { ORIGINS } else { &ORIGINS[..1] };
    let pages: HashMap<String, Answer> = site
        .pages
        .iter()
        .flat_map(|(k, p)| {
            let a = match p {
                Page::Ok(t) => Answer::Page(200, t.clone().into_bytes()),
                Page::Status(s, t) => Answer::Page(*s, t.clone().into_bytes()),
                Page::Refused => Answer::Refused,
                Page::Broken => Answer::Broken,
                Page::Panic => Answer::Panic,
                Page::Redirect(to) => Answer::Redirect(to.clone()),
            };
            origins.iter().map(move |o| (format!("{o}{k}"), a.clone()))
        })
        .collect();
    reqwest::with_site(|s| *s = reqwest::Site { pages, ..Default::default() });
}

fn seen(files: Vec<String>, errors: usize, listing: bool) -> Got {
    let (visits, open) = reqwest::with_site(|s| (std::mem::take(&mut s.visits), s.open));
    Got { files, errors, visits, open, listing }
}

fn list(c: &httpdir_ctl::Crawler, u: &Url) -> Got {
    match c.list(u.clone()) {
        Ok(v) => seen(v.iter().map(|u| u.to_string()).collect(), 0, true),
        Err(_) => seen(vec![], 1, true),
    }
}

fn walk(c: httpdir_ctl::Crawler, u: &Url, slow: bool) -> Got {
    let (mut files, mut errors) = (vec![], 0);
    let mut it = c.walk(u.clone());
    loop {
        if slow {
            cstd::explore::point();
        }
        match it.next() {
            Some(Ok(u)) => files.push(u.to_string()),
            Some(Err(_)) => errors += 1,
            None => break,
        }
    }
    seen(files, errors, false)
}

/// One execution; the crawls made in it.
pub fn execute(mode: Mode, start: &str, policy: Policy, devs: &[(usize, usize)]) -> Outcome<Vec<Got>> {
    let u = Url::parse(start).unwrap();
    reqwest::with_site(|s| {
        s.visits.clear();
        s.open = 0;
    });
    run(policy, devs, move || {
        let c = httpdir_ctl::Crawler::new();
        match mode {
            Mode::List => vec![list(&c, &u)],
            Mode::Walk => vec![walk(c, &u, false)],
            Mode::SlowWalk => vec![walk(c, &u, true)],
            Mode::ListTwice => vec![list(&c, &u), list(&c, &u)],
            Mode::Together => together(c, &u),
            Mode::ListWalk => {
                let a = list(&c, &u);
                vec![a, walk(c, &u, false)]
            }
        }
    })
}

pub fn judge(o: &Outcome<Vec<Got>>, e: &Expect) -> Res {
    match &o.end {
        End::Returned => {}
        End::Deadlock(s) => return Err(Fail::new("deadlock", s.clone())),
        End::Endless => return Err(Fail::new("endless", format!("no end after {} steps", o.steps))),
    }
    let got = match o.value.as_ref() {
        Some(Ok(v)) => v,
        _ => return Err(Fail::new("panic", format!("the crawl panicked: {}", last_panic()))),
    };
    for (k, g) in got.iter().enumerate() {
        crate::compare(&format!("crawl {k}"), g.listing, &g.files, g.errors, &g.visits, e)?;
        ensure!(g.open == 0, "busy", "crawl {k} ended while {} pages were being fetched", g.open);
    }
    Ok(())
}

pub struct Stats {
    pub runs: u64,
    pub steps: u64,
    pub max_points: usize,
}

fn rest(mode: Mode, start: &str, policy: Policy, devs: &mut Vec<(usize, usize)>, left: usize, e: &Expect, st: &mut Stats, from: usize, to: usize) -> Res {
    let o = execute(mode, start, policy, devs);
    st.runs += 1;
    st.steps += o.steps as u64;
    st.max_points = st.max_points.max(o.trace.len());
    judge(&o, e).map_err(|f| Fail::new(f.key, format!("{} [schedule {policy:?} {devs:?}]", f.msg)))?;
    if left == 0 {
        return Ok(());
    }
    for p in from..o.trace.len().min(to) {
        for alt in 1..o.trace[p] as usize {
            devs.push((p, alt));
            rest(mode, start, policy, devs, left - 1, e, st, p + 1, usize::MAX)?;
            devs.pop();
        }
    }
    Ok(())
}

thread_local! { static BASE_LEN: std::cell::RefCell<HashMap<(u8, u8, usize), usize>> = Default::default(); }

/// All executions whose first deviation is in from..to, with at most `bound` deviations.
pub fn schedules(site: usize, mode: Mode, start: &str, policy: Policy, bound: usize, from: usize, to: usize, e: &Expect, st: &mut Stats) -> Res {
    // The length of the base schedule is worked out once per worker.
    let key = (mode as u8, policy as u8, site);
    let known = BASE_LEN.with(|m| m.borrow().get(&key).copied());
    let len = match known {
        Some(n) => n,
        None => {
            let o = execute(mode, start, policy, &[]);
            BASE_LEN.with(|m| m.borrow_mut().insert(key, o.trace.len()));
            o.trace.len()
        }
    };
    if from > 0 && from >= len {
        return Ok(());
    }
    rest(mode, start, policy, &mut vec![], bound, e, st, from, to)
}
