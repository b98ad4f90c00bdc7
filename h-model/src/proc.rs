//! C11, C12: the real ChunkTrainer/ChunkProcessor against a batch-free reference, around every internal boundary.
use logreduce_model::process::{ChunkProcessor, ChunkTrainer};
use logreduce_model::{hashing_index, AnomalyContext, ChunkIndex};
use std::cell::RefCell;
use std::collections::{BTreeSet, HashMap, HashSet};
use std::io::Read;
use vengine::serde_json::json;
use vengine::*;

pub fn word(i: usize) -> String {
    const L: &[u8] = b"gjkpqvwxyzhmrt";
    let mut s = String::from("qu");
    let mut i = i;
    for _ in 0..4 {
        s.push(L[i % 14] as char);
        i /= 14;
    }
    s
}

pub const KNOWN: &str = "known quiet line seen again";
pub const TASK: &str = "2022-01-01 TASK [log-classify : run the analysis]";

pub fn base_lines() -> Vec<String> {
    vec![
        "service worker finished processing every request batch".into(),
        KNOWN.into(),
        "node manager started unit nominal without trouble today".into(),
    ]
}

/// Fresh lines close to the baseline (one or two new words in eight).
pub fn near(i: usize) -> String {
    if i % 3 == 2 {
        format!("node manager started unit {} without {} today", word(i), word(20000 + i))
    } else {
        format!("node manager started unit {} without trouble today", word(i))
    }
}

/// Fresh lines away from the baseline (all words new, or three new words in eight).
pub fn far(i: usize) -> String {
    let j = 5000 + i * 4;
    if i % 2 == 0 {
        format!("{} {} {} {}", word(j), word(j + 1), word(j + 2), word(j + 3))
    } else {
        format!("node {} started unit {} without {} today", word(j), word(j + 1), word(j + 2))
    }
}

/// A line away from the baseline whose tokens are always the same.
pub fn again(n: usize) -> String {
    format!("zoning run {} halted quietly near gate", 100 + n * 37)
}

pub struct Ref {
    base: Vec<BTreeSet<String>>,
    memo: RefCell<HashMap<String, (String, f64)>>,
}

fn words(tokens: &str) -> BTreeSet<String> {
    tokens.split(' ').map(|s| s.to_string()).collect()
}

impl Ref {
    pub fn new(base: &[String]) -> Ref {
        Ref { base: base.iter().map(|l| words(&logreduce_tokenizer::process(l))).collect(), memo: RefCell::new(HashMap::new()) }
    }
    /// Tokens and exact distance of a line.
    pub fn get(&self, line: &str) -> (String, f64) {
        if let Some(x) = self.memo.borrow().get(line) {
            return x.clone();
        }
        let t = logreduce_tokenizer::process(line);
        let a = words(&t);
        let d = self.base.iter().map(|b| 1.0 - a.intersection(b).count() as f64 / ((a.len() * b.len()) as f64).sqrt()).fold(1.0, f64::min);
        let r = (t, d);
        self.memo.borrow_mut().insert(line.to_string(), r.clone());
        r
    }
    /// Indices and distances of the lines to report.
    pub fn novel(&self, lines: &[String], seen: &mut HashSet<String>) -> Vec<(usize, f64)> {
        self.novel_within(lines, seen, 0.01)
    }
    fn novel_within(&self, lines: &[String], seen: &mut HashSet<String>, room: f64) -> Vec<(usize, f64)> {
        let mut out = vec![];
        for (i, l) in lines.iter().enumerate() {
            if l.contains("TASK [log-classify") {
                break;
            }
            let (t, d) = self.get(l);
            assert!((d - 0.3).abs() > room, "harness: line too close to the threshold: {l} {d}");
            if seen.insert(t) && d > 0.3 {
                out.push((i, d));
            }
        }
        out
    }
}

/// The lines that are inspected at all.
pub fn inspected(lines: &[String]) -> usize {
    lines.iter().position(|l| l.contains("TASK [log-classify")).unwrap_or(lines.len())
}

/// The expected contexts of the anomalies at these line indices, in a log of n lines.
pub fn contexts(idx: &[usize], n: usize) -> Vec<(std::ops::Range<usize>, std::ops::Range<usize>)> {
    let mut out = vec![];
    let mut free = 0;
    for (k, &i) in idx.iter().enumerate() {
        let next = idx.get(k + 1).copied().unwrap_or(n);
        let before = i.saturating_sub(3).max(free)..i;
        let after = i + 1..(i + 4).min(next);
        free = after.end.max(i + 1);
        out.push((before, after));
    }
    out
}

pub fn train(base: &[String]) -> ChunkIndex {
    let mut index = hashing_index::new();
    ChunkTrainer::single(&mut index, false, std::io::Cursor::new(base.join("\n"))).expect("train");
    index
}

/// Reader giving at most `step` bytes at once.
pub struct Slow<'a>(pub &'a [u8], pub usize);
impl Read for Slow<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = buf.len().min(self.0.len()).min(self.1);
        buf[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}

/// The lines of a log as they are inspected, with their numbers: lines are split at written out line returns and, in
/// JSON, at separators; empty ones and the ones over 6000 bytes are left out.
fn pieces(bytes: &[u8], json: bool) -> Vec<(String, usize)> {
    let mut out: Vec<(String, usize)> = Vec::new();
    let (mut cur, mut line, mut escaped, mut in_string) = (Vec::new(), 1usize, false, false);
    let mut emit = |cur: &mut Vec<u8>, line: usize| {
        if !cur.is_empty() && cur.len() <= 6000 {
            out.push((String::from_utf8(cur.clone()).expect("harness: utf-8"), line));
        }
        cur.clear();
    };
    for &c in bytes {
        if c == b'\n' {
            emit(&mut cur, line);
            line += 1;
            escaped = false;
        } else if escaped {
            escaped = false;
            if c == b'n' {
                cur.pop();
                emit(&mut cur, line);
            } else {
                cur.push(c);
            }
        } else if c == b'\\' {
            escaped = true;
            cur.push(c);
        } else if json && c == b'"' {
            in_string = !in_string;
            cur.push(c);
        } else if json && !in_string && matches!(c, b',' | b'[' | b']' | b'{' | b'}') {
            emit(&mut cur, line);
        } else {
            cur.push(c);
        }
    }
    emit(&mut cur, line);
    out
}

#[derive(Clone, Copy, PartialEq)]
pub enum Aspect {
    Novel,
    Context,
}

pub fn run_log(index: &ChunkIndex, text: &[u8], step: usize, seen: &mut HashSet<String>, key: &str) -> Result<Vec<AnomalyContext>, Fail> {
    run_json(index, text, false, step, seen, key)
}

fn run_json(index: &ChunkIndex, text: &[u8], json: bool, step: usize, seen: &mut HashSet<String>, key: &str) -> Result<Vec<AnomalyContext>, Fail> {
    let mut p = ChunkProcessor::new(Slow(text, step), index, json, seen);
    let mut got = vec![];
    for a in p.by_ref() {
        match a {
            Ok(a) => got.push(a),
            Err(e) => return Err(Fail::new(key, format!("unexpected error {e:#}"))),
        }
    }
    for _ in 0..2 {
        if let Some(x) = p.next() {
            return Err(Fail::new(key, format!("an item after the end: {:?}", x.map(|a| a.anomaly.line))));
        }
    }
    Ok(got)
}

fn numbered(lines: &[String]) -> Vec<(String, usize)> {
    lines.iter().enumerate().map(|(i, l)| (l.clone(), i + 1)).collect()
}

fn check_novel(r: &Ref, lines: &[String], seen: &mut HashSet<String>, got: &[AnomalyContext]) -> Res {
    check_novel_at(r, &numbered(lines), seen, got, 0.01)
}

fn check_novel_at(r: &Ref, at: &[(String, usize)], seen: &mut HashSet<String>, got: &[AnomalyContext], room: f64) -> Res {
    let lines: Vec<String> = at.iter().map(|x| x.0.clone()).collect();
    let exp = r.novel_within(&lines, seen, room);
    let e: Vec<_> = exp.iter().map(|&(i, _)| (at[i].1, lines[i].as_str())).collect();
    let g: Vec<_> = got.iter().map(|a| (a.anomaly.pos, a.anomaly.line.as_str())).collect();
    if e != g {
        let k = e.iter().zip(&g).position(|(a, b)| a != b).unwrap_or(e.len().min(g.len()));
        let (f, t) = (k.saturating_sub(2), k + 8);
        return Err(Fail::new("novel", format!("{} lines: reported {} {:?}, expected {} {:?} (from report {f})", lines.len(), g.len(), &g[f.min(g.len())..t.min(g.len())], e.len(), &e[f.min(e.len())..t.min(e.len())])));
    }
    for ((i, d), a) in exp.iter().zip(got) {
        ensure!((a.anomaly.distance as f64 - d).abs() < 1e-4, "distance", "line {} {:?}: distance {}, expected {}", i + 1, lines[*i], a.anomaly.distance, d);
    }
    Ok(())
}

fn check_context(lines: &[String], got: &[AnomalyContext]) -> Res {
    check_context_at(&numbered(lines), got)
}

fn check_context_at(at: &[(String, usize)], got: &[AnomalyContext]) -> Res {
    let lines: Vec<String> = at.iter().map(|x| x.0.clone()).collect();
    let n = inspected(&lines);
    let mut idx: Vec<usize> = vec![];
    for a in got {
        let from = idx.last().map_or(0, |l| l + 1);
        let i = (from..n).find(|&i| at[i].1 == a.anomaly.pos && lines[i] == a.anomaly.line);
        ensure!(i.is_some(), "context-pos", "anomaly {:?} is not line {} of the log, or not after {:?}", a.anomaly.line, a.anomaly.pos, idx.last());
        idx.extend(i);
    }
    for ((b, f), a) in contexts(&idx, n).into_iter().zip(got) {
        ensure!(a.before == lines[b.clone()], "before", "anomaly at line {} of {n}: before {:?}, expected lines {:?} {:?}", a.anomaly.pos, a.before, b.start + 1..b.end + 1, &lines[b]);
        ensure!(a.after == lines[f.clone()], "after", "anomaly at line {} of {n}: after {:?}, expected lines {:?} {:?}", a.anomaly.pos, a.after, f.start + 1..f.end + 1, &lines[f]);
    }
    Ok(())
}

/// Builds logs from symbols, keeping track of fresh lines.
#[derive(Default)]
pub struct Log {
    pub lines: Vec<String>,
    nears: usize,
    fars: usize,
    agains: usize,
}

impl Log {
    pub fn sym(&mut self, s: usize) {
        let l = match s {
            0 => {
                self.fars += 1;
                far(self.fars)
            }
            1 => {
                self.nears += 1;
                near(self.nears)
            }
            2 => {
                self.agains += 1;
                again(self.agains)
            }
            3 => KNOWN.to_string(),
            _ => TASK.to_string(),
        };
        self.lines.push(l);
    }
    pub fn fill(&mut self, n: usize) {
        for _ in 0..n {
            self.sym(1);
        }
    }
    pub fn known(&mut self, n: usize) {
        for _ in 0..n {
            self.sym(3);
        }
    }
}

const SYM: [&str; 5] = ["novel", "near", "again", "known", "TASK"];
fn names(s: &[usize]) -> Vec<&'static str> {
    s.iter().map(|&x| SYM[x]).collect()
}

thread_local! {
    static BASE: (ChunkIndex, Ref) = (train(&base_lines()), Ref::new(&base_lines()));
}

fn judge(aspect: Aspect, lines: &[String], step: usize, ctx: &mut Ctx) -> Res {
    BASE.with(|(index, r)| {
        let mut text = lines.join("\n");
        if lines.len() % 2 == 0 {
            text.push('\n');
        }
        let mut seen = HashSet::new();
        let key = if aspect == Aspect::Novel { "novel" } else { "context" };
        let got = run_log(index, text.as_bytes(), step, &mut seen, key)?;
        ctx.eval();
        ctx.step(lines.len() as u64);
        ctx.outcome(got.iter().map(|a| (a.before.len(), a.after.len())).collect::<Vec<_>>());
        if got.len() > 1 {
            ctx.nontrivial(h(got.iter().map(|a| a.anomaly.pos).collect::<Vec<_>>()));
        }
        match aspect {
            Aspect::Novel => check_novel(r, lines, &mut HashSet::new(), &got),
            Aspect::Context => check_context(lines, &got),
        }
    })
}

pub fn spaces(aspect: Aspect, tier: Tier) -> Vec<Space> {
    let mut v = vec![];
    // every short log
    let max = tier.pick(7, 8);
    v.push(Space::new(
        "short",
        format!("every log of 0..={max} lines over novel / near / repeated novel / known lines"),
        seq_count(4, 0, max),
        move |i| json!({"log": names(&seq_decode(i, 4, 0, max))}),
        move |i, ctx| {
            let s = seq_decode(i, 4, 0, max);
            let mut l = Log::default();
            s.iter().for_each(|&x| l.sym(x));
            ctx.state(&s);
            judge(aspect, &l.lines, usize::MAX, ctx)
        },
    ));
    let tmax = tier.pick(6, 7);
    v.push(Space::new(
        "task",
        format!("every log of 1..={tmax} lines over novel / near / repeated / known / analysis task lines"),
        seq_count(5, 1, tmax),
        move |i| json!({"log": names(&seq_decode(i, 5, 1, tmax))}),
        move |i, ctx| {
            let s = seq_decode(i, 5, 1, tmax);
            let mut l = Log::default();
            s.iter().for_each(|&x| l.sym(x));
            ctx.state(&s);
            judge(aspect, &l.lines, 9, ctx)
        },
    ));
    // windows around the batch boundaries
    type B = (u32, &'static [usize], &'static [usize]);
    let menus: &'static [B] = tier.pick(&[(5, &[1], &[0, 3]), (3, &[1, 2, 3], &[0, 1, 2, 3])], &[(6, &[1], &[0, 1, 2, 3]), (5, &[1, 2], &[0, 1, 2, 3]), (4, &[1, 2, 3, 4], &[0, 1, 2, 3])]);
    for &(w, ks, tails) in menus {
        let offs = w as u64 + 3;
        let total = 4u64.pow(w) * offs * ks.len() as u64 * tails.len() as u64;
        let build = move |i: u64| {
            let mut d = Dec(i);
            let tail = *d.pick(tails);
            let off = d.take(offs);
            let k = *d.pick(ks);
            let s = seq_decode(d.0, 4, w, w);
            let mut l = Log::default();
            l.fill(512 * k - off);
            s.iter().for_each(|&x| l.sym(x));
            match tail {
                0 => {}
                1 => l.known(2),
                2 => {
                    l.fill(1);
                    l.sym(0);
                    l.known(1);
                }
                _ => {
                    // to the next boundary and the same window again
                    l.fill(512 - off.min(4));
                    s.iter().for_each(|&x| l.sym(x));
                    l.known(1);
                }
            }
            (k, off, tail, s, l)
        };
        v.push(Space::new(
            &format!("batch{w}"),
            format!("every window of {w} lines (novel/near/repeated/known) at every offset -2..={w} of the 512-line batch ends {ks:?}, with tails {tails:?} (end, 2 known lines, near+novel+known, next batch end and the same window)"),
            total,
            move |i| {
                let (k, off, tail, s, l) = build(i);
                json!({"filler_lines": 512 * k - off, "window": names(&s), "tail": tail, "lines": l.lines.len()})
            },
            move |i, ctx| {
                let (k, off, tail, s, l) = build(i);
                ctx.state((k, off, tail, &s));
                judge(aspect, &l.lines, if off % 2 == 0 { usize::MAX } else { 1000 }, ctx)
            },
        ));
    }
    // the batch made of repeated lines
    let w = tier.pick(3, 5);
    let offs = w as u64 + 3;
    let total = 4u64.pow(w) * offs * 3 * 2;
    let build = move |i: u64| {
        let mut d = Dec(i);
        let off = d.take(offs);
        let tail = d.take(3);
        let lead = d.take(2);
        let s = seq_decode(d.0, 4, w, w);
        let mut l = Log::default();
        for _ in 0..lead {
            l.sym(0);
        }
        let n = 5123 - off;
        for _ in l.lines.len()..n {
            l.sym(3);
        }
        s.iter().for_each(|&x| l.sym(x));
        match tail {
            0 => {}
            1 => l.known(3),
            _ => {
                l.known(5122);
                s.iter().for_each(|&x| l.sym(x));
            }
        }
        (lead, off, tail, s, l)
    };
    v.push(Space::new(
        "repeats",
        format!("every window of {w} lines at every offset of the batch end caused by 5120 repeated lines, after nothing or a novel line, with three tails"),
        total,
        move |i| {
            let (lead, off, tail, s, l) = build(i);
            json!({"first_line_novel": lead, "known_lines": 5123 - off, "window": names(&s), "tail": tail, "lines": l.lines.len()})
        },
        move |i, ctx| {
            let (lead, off, tail, s, l) = build(i);
            ctx.state((lead, off, tail, &s));
            judge(aspect, &l.lines, usize::MAX, ctx)
        },
    ));
    // longer windows of fewer kinds there
    let w = tier.pick(7, 9);
    let offs = w as u64 + 3;
    let build = move |i: u64| {
        let mut d = Dec(i);
        let off = d.take(offs);
        let s: Vec<usize> = seq_decode(d.0, 2, w, w).iter().map(|x| x * 3).collect();
        let mut l = Log::default();
        l.known(5123 - off);
        s.iter().for_each(|&x| l.sym(x));
        l.known(2);
        (off, s, l)
    };
    v.push(Space::new(
        "repeats-long",
        format!("every window of {w} novel or known lines at every offset of the batch end caused by 5120 repeated lines"),
        2u64.pow(w) * offs,
        move |i| {
            let (off, s, _) = build(i);
            json!({"known_lines": 5123 - off, "window": names(&s)})
        },
        move |i, ctx| {
            let (off, s, l) = build(i);
            ctx.state((off, &s));
            judge(aspect, &l.lines, usize::MAX, ctx)
        },
    ));
    // and around the batch end of 512 different lines
    let build = move |i: u64| {
        let mut d = Dec(i);
        let off = d.take(offs);
        let s: Vec<usize> = seq_decode(d.0, 2, w, w).iter().map(|x| x * 3).collect();
        let mut l = Log::default();
        l.fill(512 - off);
        s.iter().for_each(|&x| l.sym(x));
        l.fill(1);
        (off, s, l)
    };
    v.push(Space::new(
        "batch-long",
        format!("every window of {w} novel or known lines at every offset of the first 512-line batch end"),
        2u64.pow(w) * offs,
        move |i| {
            let (off, s, _) = build(i);
            json!({"near_lines": 512 - off, "window": names(&s)})
        },
        move |i, ctx| {
            let (off, s, l) = build(i);
            ctx.state((off, &s));
            judge(aspect, &l.lines, usize::MAX, ctx)
        },
    ));
    // the task line around a batch end
    let total = 4u64.pow(3) * 7 * 3;
    let build = |i: u64| {
        let mut d = Dec(i);
        let off = d.take(7);
        let at = d.take(3);
        let s = seq_decode(d.0, 4, 3, 3);
        let mut l = Log::default();
        l.fill(512 - off);
        for (j, &x) in s.iter().enumerate() {
            if j == at {
                l.sym(4);
            }
            l.sym(x);
        }
        l.fill(600);
        l.sym(0);
        l.known(1);
        (off, at, s, l)
    };
    v.push(Space::new(
        "task-batch",
        "an analysis task line at 3 places of every window of 3 lines around the first batch end, followed by 600 lines",
        total,
        move |i| {
            let (off, at, s, _) = build(i);
            json!({"filler_lines": 512 - off, "window": names(&s), "task_before": at})
        },
        move |i, ctx| {
            let (off, at, s, l) = build(i);
            ctx.state((off, at, &s));
            judge(aspect, &l.lines, usize::MAX, ctx)
        },
    ));
    v.push(odd_lines(aspect, tier));
    v.push(characters(aspect));
    v.push(lengths(aspect, tier));
    v.push(blanks(aspect));
    v.push(long_logs(aspect, tier));
    v.push(failing(aspect, tier));
    if aspect == Aspect::Novel {
        v.extend(novel_only(tier));
        v.push(threshold(tier));
        v.push(ties(tier));
        v.push(long_baseline(tier));
    }
    v
}

thread_local! {
    static BASE_JSON: (ChunkIndex, Ref) = {
        let text: String = base_lines().iter().map(|l| format!("{{\"msg\":\"{l}\"}}\n")).collect();
        let mut index = hashing_index::new();
        ChunkTrainer::single(&mut index, true, std::io::Cursor::new(text.clone())).expect("train");
        let r = Ref::new(&pieces(text.as_bytes(), true).into_iter().map(|x| x.0).collect::<Vec<_>>());
        (index, r)
    };
}

fn judge_text(aspect: Aspect, text: &[u8], json: bool, step: usize, ctx: &mut Ctx) -> Res {
    let run = |(index, r): &(ChunkIndex, Ref)| {
        let key = if aspect == Aspect::Novel { "novel" } else { "context" };
        let got = run_json(index, text, json, step, &mut HashSet::new(), key)?;
        let at = pieces(text, json);
        ctx.eval();
        ctx.step(at.len() as u64);
        ctx.outcome(got.iter().map(|a| (a.anomaly.pos, a.before.len(), a.after.len())).collect::<Vec<_>>());
        if got.len() > 1 {
            ctx.nontrivial(h(got.iter().map(|a| a.anomaly.pos).collect::<Vec<_>>()));
        }
        match aspect {
            Aspect::Novel => check_novel_at(r, &at, &mut HashSet::new(), &got, 0.001),
            Aspect::Context => check_context_at(&at, &got),
        }
    };
    if json { BASE_JSON.with(run) } else { BASE.with(run) }
}

const ODD: [&str; 8] = ["novel", "near", "known", "empty", "over 6000 bytes", "novel\\nknown", "near\\n\\nnovel\\nnovel", "novel with CR"];

/// Logs whose lines are not one piece each.
fn odd_text(s: &[usize], json: bool, skip: usize) -> Vec<u8> {
    let (mut f, mut n) = (0, 0);
    let mut fa = || {
        f += 1;
        far(f)
    };
    let mut ne = || {
        n += 1;
        near(n)
    };
    let mut t = String::new();
    for _ in 0..skip {
        let l = ne();
        t += &if json { format!("{{\"msg\":\"{l}\"}}\n") } else { format!("{l}\n") };
    }
    for (k, &x) in s.iter().enumerate() {
        if k > 0 {
            t.push('\n');
        }
        let l = match x {
            0 => fa(),
            1 => ne(),
            2 => KNOWN.to_string(),
            3 => String::new(),
            4 => "o".repeat(6001),
            5 => format!("{}\\n{KNOWN}", fa()),
            6 => format!("{}\\n\\n{}\\n{}", ne(), fa(), fa()),
            _ => format!("{}\r", fa()),
        };
        t += &match (json, l.is_empty(), k % 2) {
            (false, _, _) | (_, true, _) => l,
            (true, _, 0) => format!("{{\"msg\":\"{l}\"}}"),
            _ => format!("{{\"msg\":\"{KNOWN}\",\"msg\":\"{l}\", \"msg\" : [\"{KNOWN}\"]}}"),
        };
    }
    t.into_bytes()
}

fn odd_lines(aspect: Aspect, tier: Tier) -> Space {
    let max = tier.pick(4, 5);
    let skips: &'static [usize] = tier.pick(&[0, 509], &[0, 507, 508, 509, 510, 511, 512]);
    let per = seq_count(8, 1, max);
    let dec = move |i: u64| {
        let mut d = Dec(i);
        let json = d.take(2) == 1;
        let skip = *d.pick(skips);
        let step = [usize::MAX, 7][d.take(2)];
        (seq_decode(d.0, 8, 1, max), json, skip, step)
    };
    Space::new(
        "odd lines",
        format!("every log of 1..={max} lines over {ODD:?}, plain or JSON, after {skips:?} near lines, read whole or 7 bytes at a time"),
        per * 4 * skips.len() as u64,
        move |i| {
            let (s, json, skip, step) = dec(i);
            json!({"log": s.iter().map(|&x| ODD[x]).collect::<Vec<_>>(), "json": json, "near_lines_before": skip, "read": step.min(1 << 30)})
        },
        move |i, ctx| {
            let (s, json, skip, step) = dec(i);
            if skip > 0 && s.len() as u32 > max - 1 {
                return Ok(());
            }
            ctx.state((&s, json, skip));
            judge_text(aspect, &odd_text(&s, json, skip), json, step, ctx)
        },
    )
}

/// Every character, in novel lines and around them.
fn characters(aspect: Aspect) -> Space {
    let chars: Vec<char> = (0u32..0x250).chain([0x1680, 0x2000, 0x200b, 0x2028, 0x2029, 0x3000, 0xfeff, 0xfffd, 0xffff, 0x1f600, 0x10ffff]).filter_map(char::from_u32).filter(|c| *c != '\n').collect();
    let n = chars.len() as u64;
    let text = move |i: u64| {
        let c = chars[(i % n) as usize];
        let l = [
            KNOWN.to_string(), format!("{c}{}", far(0)), near(1), format!("{}{c}", far(2)), format!("{c}{c}"), far(4).replace(' ', &format!("{c} {c}")), format!("{c} {}", far(6)), format!("{} {c}", far(8)),
            format!("{c}{KNOWN}{c}"), far(10).replace(' ', &c.to_string()), format!(" {}", far(12)), far(14),
        ];
        let json = i / n % 2 == 1;
        let l = if json { l.map(|l| format!("{{\"msg\":\"{l}\"}}")) } else { l };
        (l.join("\n"), json)
    };
    let t2 = text.clone();
    Space::new(
        "characters",
        format!("logs of 12 lines with each of {n} characters at the ends and within the words of novel, near and known lines and alone, plain or JSON"),
        n * 2,
        move |i| json!({"log": t2(i).0, "json": t2(i).1}),
        move |i, ctx| {
            let (t, json) = text(i);
            ctx.state(i);
            judge_text(aspect, t.as_bytes(), json, usize::MAX, ctx)
        },
    )
}

/// Lines of every length that differ at one place.
fn lengths(aspect: Aspect, tier: Tier) -> Space {
    let lens: &'static [usize] = tier.pick(&[30, 63, 100, 128, 255, 257, 500, 513, 1000, 1023, 1025, 2047, 2049, 4097, 5990, 6000], &[30, 31, 32, 33, 63, 64, 65, 80, 100, 120, 127, 128, 129, 200, 254, 255, 256, 257, 500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2000, 2047, 2048, 2049, 3000, 4000, 4095, 4096, 4097, 5000, 5990, 5999, 6000]);
    let max = tier.pick(5, 6);
    let per = seq_count(3, 1, max);
    let make = move |i: u64| -> (usize, usize, Vec<usize>, Vec<String>) {
        let mut d = Dec(i);
        let (len, place) = (*d.pick(lens), d.take(3));
        let s = seq_decode(d.0, 3, 1, max);
        let mut fresh = 0;
        let long = |k: usize| {
            let own = format!("{} {}", word(300 + 2 * k), word(301 + 2 * k));
            let room = len - own.len() - 2;
            let mut pad: String = (0..).flat_map(|j| [word(j % 3), " ".to_string()]).take(room / 7 * 2 + 4).collect();
            pad.truncate(room);
            let pad = pad.trim_end().to_string() + &"x".repeat(room - pad.trim_end().len());
            match place {
                0 => format!("{own} {pad}"),
                1 => format!("{pad} {own}"),
                _ => format!("{} {own} {}", &pad[..room / 2], &pad[room / 2..]),
            }
        };
        let lines = s
            .iter()
            .map(|x| match x {
                0 => {
                    fresh += 1;
                    long(fresh)
                }
                1 => long(1),
                _ => KNOWN.to_string(),
            })
            .collect();
        (len, place, s, lines)
    };
    Space::new(
        "lengths",
        format!("every log of 1..={max} lines, new, repeated or known, where the former two have {} lengths up to 6000 bytes and differ from each other by two words at the start, at the end or in the middle", lens.len()),
        per * 3 * lens.len() as u64,
        move |i| {
            let (len, place, s, _) = make(i);
            json!({"length": len, "differ": (["start", "end", "middle"][place]), "lines": s.iter().map(|&x| ["new", "repeated", "known"][x]).collect::<Vec<_>>()})
        },
        move |i, ctx| {
            let (len, place, s, lines) = make(i);
            ctx.state((len, place, &s));
            judge_text(aspect, lines.join("\n").as_bytes(), false, usize::MAX, ctx)
        },
    )
}

/// Lines with blanks around them, near the end of a batch.
fn blanks(aspect: Aspect) -> Space {
    const B: [(&str, &str); 7] = [("", " "), ("", "\t"), (" ", ""), ("\t \t", " \t "), ("", "\r"), ("", " \r"), ("\u{a0}", "\u{2003}")];
    let make = move |i: u64| {
        let mut d = Dec(i);
        let (b, off, tail) = (*d.pick(&B), d.take(7), d.take(2));
        let s = seq_decode(d.0, 4, 4, 4);
        let mut l = Log::default();
        l.fill(512 - off);
        s.iter().for_each(|&x| l.sym(x));
        if tail == 1 {
            l.fill(1);
            l.sym(0);
            l.known(1);
        }
        (b, off, tail, s, l.lines.iter().map(|l| format!("{}{l}{}", b.0, b.1)).collect::<Vec<_>>())
    };
    Space::new(
        "blanks",
        format!("every window of 4 lines (novel/near/repeated/known) at every offset -2..=4 of the first batch end, followed by nothing or three lines, where every line has one of {} blanks around it", B.len()),
        256 * 7 * 7 * 2,
        move |i| {
            let (b, off, tail, s, _) = make(i);
            json!({"around": format!("{b:?}"), "near_lines": 512 - off, "window": names(&s), "tail": tail})
        },
        move |i, ctx| {
            let (b, off, tail, s, lines) = make(i);
            ctx.state((b, off, tail, &s));
            judge(aspect, &lines, usize::MAX, ctx)
        },
    )
}

/// Positions and counts of every width.
fn long_logs(aspect: Aspect, tier: Tier) -> Space {
    let sizes: &'static [usize] = tier.pick(&[300, 5000, 33_000, 70_000], &[300, 5000, 33_000, 70_000, 140_000, 600_000, 1_100_000]);
    const FILL: [&str; 4] = ["known", "empty", "near", "novel"];
    let dec = move |i: u64| {
        let mut d = Dec(i);
        (d.take(4), *d.pick(sizes), [1usize, 255, 4000, 65_537][d.take(4)])
    };
    Space::new(
        "long",
        format!("logs of {sizes:?} lines of 4 kinds {FILL:?} with a novel line every 1, 255, 4000 or 65537 lines, and five of the lines once more at the end"),
        16 * sizes.len() as u64,
        move |i| {
            let (f, n, every) = dec(i);
            json!({"fill": FILL[f], "lines": n, "novel_every": every})
        },
        move |i, ctx| {
            let (f, n, every) = dec(i);
            // all different, by two words
            let id = |k: usize| format!("{} {}", word(k % 38416), word(k / 38416 * 3 + 11));
            let mut t = String::new();
            for k in 0..n {
                if k % every == every - 1 {
                    t += &format!("{} {}", id(k), id(k));
                } else {
                    match f {
                        0 => t += KNOWN,
                        1 => {}
                        2 => t += &format!("node manager started unit {} without {} today", word(k % 38416), word(k / 38416 * 3 + 11)),
                        _ => t += &format!("run {} of night", id(k)),
                    }
                }
                t.push('\n');
            }
            // the first and the middle ones once more
            let again: Vec<&str> = t.split('\n').take(3).chain(t.split('\n').skip(n / 2).take(2)).collect();
            t += &again.join("\n");
            ctx.state(i);
            judge_text(aspect, t.as_bytes(), false, usize::MAX, ctx)
        },
    )
    .timeout(600)
}

/// Reads that fail: what comes before is reported as usual, then the error.
struct Failing<'a>(&'a [u8], usize, bool);
impl Read for Failing<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.0.is_empty() && !self.2 {
            self.2 = true;
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "injected"));
        }
        let n = buf.len().min(self.0.len()).min(self.1);
        buf[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}

fn failing(aspect: Aspect, tier: Tier) -> Space {
    let max = tier.pick(4, 5);
    let skips: &'static [usize] = &[0, 509, 510, 511, 512, 1023];
    let per = seq_count(4, 0, max);
    let dec = move |i: u64| {
        let mut d = Dec(i);
        let how = d.take(2);
        let skip = *d.pick(skips);
        (seq_decode(d.0, 4, 0, max), how, skip)
    };
    Space::new(
        "failing",
        format!("every log of 0..={max} lines over novel / near / repeated / known after {skips:?} near lines, then a failing read or a line that is no text: what comes before it is reported, then one error"),
        per * 2 * skips.len() as u64,
        move |i| {
            let (s, how, skip) = dec(i);
            json!({"log": names(&s), "near_lines_before": skip, "then": (["failing read", "invalid text"][how])})
        },
        move |i, ctx| {
            let (s, how, skip) = dec(i);
            let mut l = Log::default();
            l.fill(skip);
            s.iter().for_each(|&x| l.sym(x));
            let mut text: Vec<u8> = l.lines.iter().flat_map(|l| [l.as_bytes(), b"\n"].concat()).collect();
            if how == 1 {
                text.extend_from_slice(b"no \xff\xfe text\nmore words come after this\n");
            }
            ctx.state((&s, how, skip));
            BASE.with(|(index, r)| {
                let mut seen = HashSet::new();
                let mut got = vec![];
                let mut err = false;
                for x in ChunkProcessor::new(Failing(&text, usize::MAX, false), index, false, &mut seen) {
                    match x {
                        Ok(a) => got.push(a),
                        Err(_) => {
                            err = true;
                            break;
                        }
                    }
                }
                ctx.eval();
                ctx.outcome((got.len(), err));
                if !got.is_empty() {
                    ctx.nontrivial((&s, how, skip));
                }
                ensure!(err, "error", "the failure is not reported");
                match aspect {
                    Aspect::Novel => check_novel(r, &l.lines, &mut HashSet::new(), &got),
                    Aspect::Context => check_context(&l.lines, &got),
                }
            })
        },
    )
}

/// Lines just below and just above the distance of 0.3.
fn threshold(tier: Tier) -> Space {
    let max = tier.pick(40usize, 100);
    let mut cases: Vec<(usize, usize, usize)> = vec![];
    for a in 1..=max {
        for b in 1..=max {
            for c in 1..=a.min(b) {
                let d = 1.0 - c as f64 / ((a * b) as f64).sqrt();
                if (0.28..0.32).contains(&d) && (d - 0.3).abs() > 2e-5 {
                    cases.push((a, b, c));
                }
            }
        }
    }
    let cases: &'static [(usize, usize, usize)] = cases.leak();
    Space::new(
        "threshold",
        format!("lines of 1..={max} distinct words against baseline lines of 1..={max} words with every number of words in common that makes a distance in 0.28..0.32 (0.3 itself left out)"),
        cases.len() as u64,
        move |i| {
            let (a, b, c) = cases[i as usize];
            json!({"line_words": a, "baseline_words": b, "common": c, "distance": 1.0 - c as f64 / ((a * b) as f64).sqrt()})
        },
        move |i, ctx| {
            let (a, b, c) = cases[i as usize];
            // at least two words in a line: one that is not a single word
            let line: Vec<String> = (0..a).map(word).collect();
            let base: Vec<String> = (a - c..a - c + b).map(word).collect();
            let (line, base) = (line.join(" "), vec![base.join(" ")]);
            let index = train(&base);
            let r = Ref::new(&base);
            let got = run_log(&index, line.as_bytes(), usize::MAX, &mut HashSet::new(), "novel")?;
            ctx.eval();
            ctx.state(i);
            ctx.outcome(got.len());
            ctx.nontrivial(i);
            check_novel_at(&r, &[(line, 1)], &mut HashSet::new(), &got, 1e-5)
        },
    )
}

/// Lines at 0.3 but for the rounding: what the index says decides.
fn ties(tier: Tier) -> Space {
    let max = tier.pick(60usize, 200);
    let mut cases: Vec<(usize, usize, usize)> = vec![];
    for a in 1..=max {
        for b in 1..=max {
            for c in 1..=a.min(b) {
                if 100 * c * c == 49 * a * b {
                    cases.push((a, b, c));
                }
            }
        }
    }
    let cases: &'static [(usize, usize, usize)] = cases.leak();
    Space::new(
        "ties",
        format!("lines and baseline lines of 1..={max} distinct words which are at 0.3 but for the rounding of the index: reported when the index says more than 0.3"),
        cases.len() as u64,
        move |i| {
            let (a, b, c) = cases[i as usize];
            json!({"line_words": a, "baseline_words": b, "common": c})
        },
        move |i, ctx| {
            let (a, b, c) = cases[i as usize];
            let line: String = (0..a).map(word).collect::<Vec<_>>().join(" ");
            let base: String = (a - c..a - c + b).map(word).collect::<Vec<_>>().join(" ");
            let tokens = |l: &str| vec![logreduce_tokenizer::process(l)];
            let d = logreduce_index::search_mat_chunk(&[logreduce_index::index_mat(&tokens(&base))], &tokens(&line))[0];
            let got = run_log(&train(&[base]), line.as_bytes(), usize::MAX, &mut HashSet::new(), "ties")?;
            ctx.eval();
            ctx.state(i);
            ctx.outcome((got.len(), d == 0.3));
            if d == 0.3 {
                ctx.nontrivial(i);
            }
            ensure_eq!(got.len(), (d > 0.3) as usize, "tie", "a line at {d:.9} is reported");
            Ok(())
        },
    )
}

/// Baselines of very many lines, of which few are different.
fn long_baseline(tier: Tier) -> Space {
    let sizes: &'static [usize] = tier.pick(&[10_001, 66_000, 262_145], &[10_001, 33_000, 66_000, 100_001, 131_073, 262_145, 524_289, 1_048_577]);
    let distinct: &'static [usize] = &[3, 600, 6000];
    Space::new(
        "long baselines",
        format!("baselines of {sizes:?} lines of which {distinct:?} are different, the last ones only once: all of them are known"),
        (sizes.len() * distinct.len()) as u64,
        move |i| json!({"lines": (sizes[i as usize / 3]), "different": (distinct[i as usize % 3])}),
        move |i, ctx| {
            let (n, k) = (sizes[i as usize / 3], distinct[i as usize % 3]);
            let pool: Vec<String> = (0..k).map(square).collect();
            let mut text = String::new();
            for j in 0..n - 1 {
                text += &pool[j % (k - 1)];
                text.push('\n');
            }
            text += &pool[k - 1];
            // new ones after all those, more than a batch
            let late: Vec<String> = (7000..8600).map(square).collect();
            for l in &late {
                text.push('\n');
                text += l;
            }
            let n = n + late.len();
            let mut index = hashing_index::new();
            let mut t = ChunkTrainer::new(&mut index, false);
            t.add(Slow(text.as_bytes(), usize::MAX)).map_err(|e| Fail::new("train", format!("{e:#}")))?;
            t.complete();
            ensure_eq!(t.line_count, n, "train-count", "line count");
            let mut target = pool;
            target.extend(late);
            target.push(square(9000));
            let got = run_log(&index, target.join("\n").as_bytes(), usize::MAX, &mut HashSet::new(), "long baselines")?;
            ctx.eval();
            ctx.step((n + k) as u64);
            ctx.state(i);
            ctx.nontrivial(i);
            ensure_eq!(got.iter().map(|x| x.anomaly.pos).collect::<Vec<_>>(), vec![k + 1601], "training", "baseline of {n} lines: reported lines");
            Ok(())
        },
    )
    .timeout(600)
}

/// Lines of every kind the tokenizer knows.
fn kind(k: usize) -> String {
    match k {
        0 => far(0),
        1 => far(1),
        2 => again(3),
        3 => again(9),
        // nothing is left of it
        4 => "12 2022-10-01 34".into(),
        5 => "98 7 65".into(),
        // filtered as a whole
        6 => "singleword".into(),
        7 => "otherword".into(),
        8 => "error fatal warning".into(),
        9 => "ERROR Fatal, warning".into(),
        10 => format!("é… {} ü {}", word(901), word(902)),
        _ => (0..700).map(|j| word(7000 + j % 60)).collect::<Vec<_>>().join(" "),
    }
}

/// Different lines of few words.
fn filler(n: usize, from: usize) -> Vec<String> {
    (0..n).map(|k| (0..3).map(|p| word(from + 11 * p + k / 11usize.pow(p as u32) % 11)).collect::<Vec<_>>().join(" ")).collect()
}

/// The i-th of 9409 lines any two of which share at most one word in four.
fn square(i: usize) -> String {
    const P: usize = 97;
    let (a, b) = (i % P, i / P % P);
    [a, b, (a + b) % P, (a + 2 * b) % P].iter().enumerate().map(|(k, x)| word(100 + k * P + x)).collect::<Vec<_>>().join(" ")
}

/// Baselines and logs of lines of every kind.
fn kinds(tier: Tier) -> Space {
    const K: u64 = 12;
    let bmax = tier.pick(2, 3);
    let at: &'static [usize] = tier.pick(&[0, 511, 512], &[0, 1, 510, 511, 512, 1023, 1024]);
    let per = seq_count(K, 0, bmax);
    let dec = move |i: u64| {
        let mut d = Dec(i);
        (*d.pick(at), seq_decode(d.0, K, 0, bmax))
    };
    Space::new(
        "kinds",
        format!("every baseline of 0..={bmax} lines of 12 kinds (novel, repeated, without tokens, filtered, error words, not ASCII, long) after {at:?} other ones x every log of one or two such lines, and one after 511 others"),
        per * at.len() as u64,
        move |i| {
            let (n, b) = dec(i);
            json!({"lines_before": n, "baseline": b.into_iter().map(|k| kind(k).chars().take(40).collect::<String>()).collect::<Vec<_>>()})
        },
        move |i, ctx| {
            let (n, b) = dec(i);
            let base: Vec<String> = filler(n, 3000).into_iter().chain(b.iter().map(|&k| kind(k))).collect();
            let index = train(&base);
            let r = Ref::new(&base);
            ctx.state(i);
            ctx.nontrivial(i);
            let many = filler(511, 3500);
            for t in (0..seq_count(K, 1, 2)).map(|t| seq_decode(t, K, 1, 2)) {
                let mut lines: Vec<String> = t.iter().map(|&k| kind(k)).collect();
                // every kind of target after many lines, with some of the baselines
                for long in 0..=(t.len() == 1 && n == 0) as usize {
                    if long == 1 {
                        lines = many.iter().chain(&lines).cloned().collect();
                    }
                    let got = run_log(&index, lines.join("\n").as_bytes(), usize::MAX, &mut HashSet::new(), "kinds")?;
                    ctx.eval();
                    ctx.step(lines.len() as u64);
                    ctx.outcome(got.iter().map(|a| a.anomaly.pos).collect::<Vec<_>>());
                    check_novel_at(&r, &numbered(&lines), &mut HashSet::new(), &got, 0.001)?;
                }
            }
            Ok(())
        },
    )
}

fn novel_only(tier: Tier) -> Vec<Space> {
    let mut v = vec![kinds(tier)];
    // several logs of one group share what was seen
    let max = tier.pick(3, 4);
    let per = seq_count(5, 0, max);
    let menu = |k: usize| -> String {
        match k {
            0 => far(0),
            1 => far(1),
            2 => again(0),
            3 => again(7),
            _ => near(1),
        }
    };
    v.push(Space::new(
        "group",
        format!("every pair of logs of 0..={max} lines of one group over two novel lines, two variants of a third one and a near line"),
        per * per,
        move |i| json!({"first": seq_decode(i % per, 5, 0, max).iter().map(|&k| menu(k)).collect::<Vec<_>>(), "second": seq_decode(i / per, 5, 0, max).iter().map(|&k| menu(k)).collect::<Vec<_>>()}),
        move |i, ctx| {
            BASE.with(|(index, r)| {
                let (mut real, mut exp) = (HashSet::new(), HashSet::new());
                for s in [seq_decode(i % per, 5, 0, max), seq_decode(i / per, 5, 0, max)] {
                    let lines: Vec<String> = s.iter().map(|&k| menu(k)).collect();
                    let got = run_log(index, lines.join("\n").as_bytes(), usize::MAX, &mut real, "group")?;
                    ctx.eval();
                    ctx.step(lines.len() as u64);
                    check_novel(r, &lines, &mut exp, &got)?;
                    ctx.outcome(got.len());
                }
                ctx.state(i);
                ctx.nontrivial(i);
                Ok(())
            })
        },
    ));
    // baselines around the training batch, cut in readers
    let sizes: &'static [usize] = tier.pick(&[0, 1, 2, 511, 512, 513, 1023, 1024, 1025, 3000, 7700], &[0, 1, 2, 3, 510, 511, 512, 513, 514, 1022, 1023, 1024, 1025, 1026, 1535, 1536, 1537, 2048, 2049, 3000, 5000, 7700, 8300]);
    let cutn = 4u64;
    let total = sizes.len() as u64 * cutn * 2;
    let parts = move |i: u64| {
        let mut d = Dec(i);
        let n = *d.pick(sizes);
        let cut = d.take(cutn);
        let dup = d.take(2);
        let lines: Vec<String> = (0..n).map(square).collect();
        let at = match cut {
            0 => n,
            1 => n / 2,
            2 => n.min(512),
            _ => n.min(511),
        };
        let (a, b) = lines.split_at(at);
        let (mut a, mut b) = (a.to_vec(), b.to_vec());
        if dup == 1 {
            // repeated lines do not count for the batches but must not lose others
            b.extend(a.iter().take(3).cloned());
            let c = a.clone();
            a.extend(c.into_iter().take(5));
        }
        (lines, a, b, cut, dup)
    };
    v.push(Space::new(
        "training",
        format!("baselines of {sizes:?} distinct lines cut in two readers at 4 places, with and without repeats; every baseline line and 8 unknown lines are then inspected"),
        total,
        move |i| {
            let (l, a, b, cut, dup) = parts(i);
            json!({"distinct": l.len(), "first_reader": a.len(), "second_reader": b.len(), "cut": cut, "repeats": dup})
        },
        move |i, ctx| {
            let (lines, a, b, _, _) = parts(i);
            let mut index = hashing_index::new();
            let mut t = ChunkTrainer::new(&mut index, false);
            for part in [&a, &b] {
                t.add(Slow(part.join("\n").as_bytes(), 700)).map_err(|e| Fail::new("train", format!("{e:#}")))?;
            }
            t.complete();
            ensure_eq!(t.line_count, a.len() + b.len(), "train-count", "line count");
            ctx.eval();
            let n = lines.len();
            let mut target = vec![];
            for (k, l) in lines.iter().enumerate() {
                target.push(l.clone());
                if k % 300 == 0 {
                    target.push(far(6000 + k / 300 * 2));
                }
            }
            target.push("completely different closing sentence nobody wrote".to_string());
            let r = Ref::new(&[]);
            // without baseline every line is at distance 1; the trained ones must be at 0
            let known: HashSet<&String> = lines.iter().collect();
            let exp: Vec<usize> = r.novel(&target, &mut HashSet::new()).iter().map(|x| x.0).filter(|&j| !known.contains(&target[j])).map(|j| j + 1).collect();
            let got = run_log(&index, target.join("\n").as_bytes(), usize::MAX, &mut HashSet::new(), "training")?;
            let g: Vec<usize> = got.iter().map(|x| x.anomaly.pos).collect();
            ensure_eq!(g, exp, "training", "baseline of {n} lines: reported lines");
            ctx.step((n + target.len()) as u64);
            ctx.state(i);
            if n > 500 {
                ctx.nontrivial(i);
            }
            Ok(())
        },
    ));
    v
}

