//! C01-C04: the line iterator against a buffer-free byte automaton.
use logreduce_iterator::BytesLines;
use std::alloc::{GlobalAlloc, Layout, System};
use std::io::Read;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};
use vengine::serde_json::json;
use vengine::*;

const MAX: usize = 6000;

// ---- reference -----------------------------------------------------------

type Piece = (Vec<u8>, usize);

/// The pieces completed by `bytes`, plus the trailing one if `eof`.
fn reference(bytes: &[u8], json: bool, eof: bool) -> Vec<Piece> {
    let mut out = Vec::new();
    let (mut cur, mut line, mut escaped, mut in_string) = (Vec::new(), 1usize, false, false);
    fn emit(out: &mut Vec<Piece>, cur: &mut Vec<u8>, line: usize) {
        if !cur.is_empty() && cur.len() <= MAX {
            out.push((std::mem::take(cur), line));
        }
        cur.clear();
    }
    for &c in bytes {
        if c == b'\n' {
            emit(&mut out, &mut cur, line);
            line += 1;
            escaped = false;
        } else if escaped {
            escaped = false;
            if c == b'n' {
                cur.pop();
                emit(&mut out, &mut cur, line);
            } else {
                cur.push(c);
            }
        } else if c == b'\\' {
            escaped = true;
            cur.push(c);
        } else if json && c == b'"' {
            in_string = !in_string;
            cur.push(c);
        } else if json && !in_string && matches!(c, b',' | b'[' | b']' | b'{' | b'}') {
            emit(&mut out, &mut cur, line);
        } else {
            cur.push(c);
        }
    }
    if eof {
        emit(&mut out, &mut cur, line);
    }
    out
}

// ---- scripted reader -----------------------------------------------------

/// Delivers `data`; never across a cut; fails before the reads listed in `errs`.
struct Scripted<'a> {
    data: &'a [u8],
    pos: usize,
    cuts: &'a [usize],
    step: usize,
    calls: usize,
    errs: &'a [usize],
    /// bytes delivered before each error
    err_at: &'a std::cell::RefCell<Vec<usize>>,
    kind: std::io::ErrorKind,
}

impl Read for Scripted<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let call = self.calls;
        self.calls += 1;
        if self.errs.contains(&call) {
            self.err_at.borrow_mut().push(self.pos);
            return Err(std::io::Error::new(self.kind, format!("err{call}")));
        }
        let mut end = self.data.len().min(self.pos + buf.len()).min(self.pos.saturating_add(self.step));
        for &c in self.cuts {
            if c > self.pos && c < end {
                end = c;
            }
        }
        let n = end - self.pos;
        buf[..n].copy_from_slice(&self.data[self.pos..end]);
        // The rest of the buffer is the reader's to scribble on.
        let fill = (n + 8).min(buf.len());
        for b in &mut buf[n..fill] {
            *b = b'?';
        }
        self.pos = end;
        Ok(n)
    }
}

#[derive(Debug, PartialEq)]
enum Item {
    P(Piece),
    E(String),
}

fn drive(data: &[u8], json: bool, cuts: &[usize], step: usize, errs: &[usize]) -> (Vec<Item>, Vec<usize>, usize) {
    drive_kind(data, json, cuts, step, errs, std::io::ErrorKind::Other)
}

fn drive_kind(data: &[u8], json: bool, cuts: &[usize], step: usize, errs: &[usize], kind: std::io::ErrorKind) -> (Vec<Item>, Vec<usize>, usize) {
    let err_at = Default::default();
    let r = Scripted { data, pos: 0, cuts, step, calls: 0, errs, err_at: &err_at, kind };
    let mut out = Vec::new();
    let limit = data.len() + errs.len() + 4;
    let mut it = BytesLines::new(r, json);
    loop {
        match it.next() {
            None => break,
            Some(Ok((b, n))) => out.push(Item::P((b.to_vec(), n))),
            Some(Err(e)) => out.push(Item::E(e.to_string())),
        }
        if out.len() > limit {
            panic!("the iterator does not end: more items than bytes");
        }
    }
    drop(it);
    let reads = data.len();
    let at = err_at.into_inner();
    (out, at, reads)
}

fn show(data: &[u8]) -> String {
    // run-length encoded
    let mut s = String::new();
    let mut i = 0;
    while i < data.len() {
        let mut j = i;
        while j < data.len() && data[j] == data[i] {
            j += 1;
        }
        let c = std::ascii::escape_default(data[i]).to_string();
        if j - i > 8 {
            s += &format!("<{}x{}>", c, j - i);
        } else {
            for _ in i..j {
                s += &c;
            }
        }
        i = j;
    }
    s
}

fn show_pieces(p: &[Piece]) -> String {
    let v: Vec<String> = p.iter().map(|(b, n)| format!("{n}:{}", show(b))).collect();
    format!("[{}]", v.join(" | "))
}

#[derive(Clone, Copy, PartialEq)]
enum Judge {
    Content,
    Numbers,
}

fn judge(j: Judge, data: &[u8], json: bool, got: Vec<Item>, tag: &str) -> Res {
    let exp = reference(data, json, true);
    let mut ps: Vec<Piece> = Vec::new();
    for i in got {
        match i {
            Item::P(p) => ps.push(p),
            Item::E(e) => return Err(Fail::new("error", format!("{tag}: unexpected error {e}"))),
        }
    }
    let same = ps.len() == exp.len() && ps.iter().zip(&exp).all(|(a, b)| a.0 == b.0);
    match j {
        Judge::Content => {
            ensure!(same, "content", "{tag}: got {}, expected {}", show_pieces(&ps), show_pieces(&exp));
        }
        Judge::Numbers => {
            if same {
                ensure!(ps == exp, "number", "{tag}: got {}, expected {}", show_pieces(&ps), show_pieces(&exp));
            } else {
                // The pieces themselves are another property's business: each must still carry the number of a
                // line where its text occurs.
                for (b, n) in &ps {
                    let mut line = 1;
                    let mut ok = false;
                    for at in 0..=data.len().saturating_sub(b.len()) {
                        if line == *n && data[at..].starts_with(b) {
                            ok = true;
                            break;
                        }
                        if at < data.len() && data[at] == b'\n' {
                            line += 1;
                        }
                    }
                    ensure!(ok, "number", "{tag}: {} is not on line {n}; got {}, expected {}", show(b), show_pieces(&ps), show_pieces(&exp));
                }
            }
        }
    }
    Ok(())
}

/// C03: pieces completed so far, the error, then the rest.
fn judge_errors(data: &[u8], json: bool, got: &[Item], at: &[usize], errs: &[usize], tag: &str) -> Res {
    let all = reference(data, json, true);
    let mut exp: Vec<Item> = Vec::new();
    let mut sent = 0;
    for (k, pos) in at.iter().enumerate() {
        let done = reference(&data[..*pos], json, false);
        // A piece completed so far is a piece of the whole stream.
        for p in &done[sent..] {
            exp.push(Item::P(p.clone()));
        }
        sent = done.len();
        exp.push(Item::E(format!("err{}", errs[k])));
    }
    for p in &all[sent..] {
        exp.push(Item::P(p.clone()));
    }
    if got != &exp[..] {
        let f = |v: &[Item]| {
            let v: Vec<String> = v
                .iter()
                .map(|i| match i {
                    Item::P((b, n)) => format!("{n}:{}", show(b)),
                    Item::E(e) => format!("!{e}"),
                })
                .collect();
            v.join(" | ")
        };
        return Err(Fail::new("error-place", format!("{tag}: got [{}], expected [{}]", f(got), f(&exp))));
    }
    Ok(())
}

fn account(ctx: &mut Ctx, data: &[u8], json: bool, got: &[Item], reads: u64) {
    ctx.eval();
    ctx.trace();
    ctx.step(data.len() as u64 + reads);
    let o: Vec<u64> = got
        .iter()
        .map(|i| match i {
            Item::P(p) => h(p),
            Item::E(e) => h(e),
        })
        .collect();
    ctx.outcome(&o);
    if !o.is_empty() {
        ctx.nontrivial((data, json));
    }
}

/// Distinct abstract states of the reference automaton × position inside a read.
fn note_states(ctx: &mut Ctx, data: &[u8], json: bool, cuts: &[usize]) {
    let (mut esc, mut ins, mut len, mut nl) = (false, false, 0usize, 0usize);
    for (i, &c) in data.iter().enumerate() {
        if c == b'\n' {
            esc = false;
            len = 0;
            nl += 1;
        } else if esc {
            esc = false;
            len = if c == b'n' { 0 } else { len + 1 };
        } else if c == b'\\' {
            esc = true;
            len += 1;
        } else {
            if json && c == b'"' {
                ins = !ins;
            }
            len += 1;
        }
        let cls = match len {
            0..=16 => len,
            17..=5990 => 17,
            5991..=6010 => len,
            _ => 6011 + (len / 8192),
        };
        ctx.state((esc, ins, cls, nl.min(64), json, cuts.contains(&(i + 1))));
    }
}

const ALPHA: [u8; 7] = [b'a', b'\n', b'\\', b'n', b',', b'"', b'{'];

fn subset(base: usize, n: usize, mask: u64) -> Vec<usize> {
    (0..n).filter(|k| mask >> k & 1 == 1).map(|k| base + k).collect()
}

/// A: every string, every chunking.
fn space_strings(j: Judge, tier: Tier) -> Space {
    let max = tier.pick(6, 7);
    let k = ALPHA.len() as u64;
    let total = seq_count(k, 0, max) * 2;
    let dec = move |i: u64| -> (Vec<u8>, bool) {
        let s = seq_decode(i / 2, k, 0, max);
        (s.iter().map(|&x| ALPHA[x]).collect(), i % 2 == 1)
    };
    Space::new(
        "strings",
        format!("all strings of length <= {max} over 7 symbols x every cut into reads x json on/off"),
        total,
        move |i| {
            let (s, json) = dec(i);
            json!({"data": show(&s), "json": json, "cuts": "all"})
        },
        move |i, ctx| {
            let (data, json) = dec(i);
            let n = data.len();
            let masks = 1u64 << n.saturating_sub(1);
            for m in 0..masks {
                let cuts = subset(1, n.saturating_sub(1), m);
                let (got, _, _) = drive(&data, json, &cuts, usize::MAX, &[]);
                account(ctx, &data, json, &got, cuts.len() as u64 + 2);
                if m == 0 || m == masks - 1 {
                    note_states(ctx, &data, json, &cuts);
                }
                judge(j, &data, json, got, &format!("cuts {cuts:?}"))?;
            }
            Ok(())
        },
    )
}

/// A2: every byte value in every role of a small context.
fn space_bytes(j: Judge) -> Space {
    let ctxs: [(&[u8], &[u8]); 8] = [
        (b"", b""),
        (b"x", b"y"),
        (b"x\\", b"y"),
        (b"x\\\\", b"ny"),
        (b"x\n", b"\ny"),
        (b"\"x", b",\"y,z"),
        (b"x\"", b"\"y,z"),
        (b"x\\n", b"\\ny"),
    ];
    let dec = move |i: u64| -> (Vec<u8>, bool) {
        let mut d = Dec(i);
        let json = d.take(2) == 1;
        let c = ctxs[d.take(8)];
        let b1 = d.take(256) as u8;
        let two = d.take(17);
        let mut v = c.0.to_vec();
        v.push(b1);
        if two > 0 {
            v.push([b'a', b'n', b'\\', b'\n', b',', b'"', b'{', b'}', b'[', b']', 0, b'\r', b'\t', 0x80, 0xff, b' '][two - 1]);
        }
        v.extend_from_slice(c.1);
        (v, json)
    };
    Space::new(
        "bytes",
        "each of the 256 byte values (and a following symbol of 16) in 8 contexts x json on/off x {one read, byte reads}",
        2 * 8 * 256 * 17,
        move |i| {
            let (s, json) = dec(i);
            json!({"data": show(&s), "json": json})
        },
        move |i, ctx| {
            let (data, json) = dec(i);
            for step in [usize::MAX, 1] {
                let (got, _, _) = drive(&data, json, &[], step, &[]);
                account(ctx, &data, json, &got, 2);
                judge(j, &data, json, got, &format!("step {step}"))?;
            }
            Ok(())
        },
    )
}

/// Prefix kinds which bring the buffer to a boundary of `target` bytes minus k.
fn prefix(kind: usize, k: usize) -> Vec<u8> {
    let lines = |total: usize| -> Vec<u8> {
        let mut v = Vec::new();
        while v.len() + 101 < total {
            v.extend(std::iter::repeat(b'x').take(100));
            v.push(b'\n');
        }
        while v.len() < total {
            v.push(b'y');
        }
        v
    };
    let long = |n: usize| vec![b'z'; n];
    match kind {
        0 => lines(8196 - k),
        1 => long(6004 - k),
        2 => long(8196 - k),
        3 => long(16388 - k),
        4 => {
            // short lines, then a long piece that starts in the middle of a chunk
            let mut v = lines(5000);
            v.push(b'\n');
            v.extend(long(6004 - k));
            v
        }
        5 => {
            // a dropped line, then the chunk boundary
            let mut v = long(8100);
            v.extend_from_slice(b"\\n");
            v.extend(lines(8192 * 2 - 8102 + 4 - k));
            v
        }
        6 => {
            // escaped separators only: one long piece
            let mut v = Vec::new();
            while v.len() + 3 < 6004 - k {
                v.extend_from_slice(b"\\\\n");
            }
            while v.len() < 6004 - k {
                v.push(b'w');
            }
            v
        }
        _ => unreachable!(),
    }
}
const KINDS: u64 = 7;
const OFFS: u64 = 9;
const TAILS: [&[u8]; 3] = [b"", b"t\nu", b"\nv\n"];
const ALPHA2: [u8; 5] = [b'a', b'\n', b'\\', b'n', b','];

struct Bound {
    data: Vec<u8>,
    json: bool,
    base: usize,
    n: usize,
}

fn dec_boundary(i: u64, max: u32) -> Bound {
    let mut d = Dec(i);
    let json = d.take(2) == 1;
    let tail = TAILS[d.take(3)];
    let k = d.take(OFFS);
    let kind = d.take(KINDS);
    let w: Vec<u8> = seq_decode(d.0, 5, 0, max).iter().map(|&x| ALPHA2[x]).collect();
    let mut data = prefix(kind, k);
    let base = data.len();
    data.extend_from_slice(&w);
    data.extend_from_slice(tail);
    Bound { data, json, base, n: w.len() + 1 }
}

/// B: the real limits (6000 byte pieces, 8192 byte reads) approached from every side.
fn space_boundary(j: Judge, tier: Tier) -> Space {
    let max = tier.pick(3, 4);
    let total = 2 * 3 * OFFS * KINDS * seq_count(5, 0, max);
    Space::new(
        "boundary",
        format!("7 prefixes reaching the 6000/8192/16384 limits at 9 offsets x every string of length <= {max} over 5 symbols x 3 tails x every cut around it, and read sizes 1000/4096"),
        total,
        move |i| {
            let b = dec_boundary(i, max);
            json!({"data": show(&b.data), "json": b.json, "cuts": format!("subsets of {}..{}", b.base, b.base + b.n)})
        },
        move |i, ctx| {
            let b = dec_boundary(i, max);
            for m in 0..(1u64 << b.n) {
                let cuts = subset(b.base, b.n, m);
                let (got, _, _) = drive(&b.data, b.json, &cuts, usize::MAX, &[]);
                account(ctx, &b.data, b.json, &got, cuts.len() as u64 + 2);
                if m == 0 {
                    note_states(ctx, &b.data, b.json, &cuts);
                }
                judge(j, &b.data, b.json, got, &format!("cuts {cuts:?}"))?;
            }
            for step in [1000, 4096] {
                let (got, _, _) = drive(&b.data, b.json, &[], step, &[]);
                account(ctx, &b.data, b.json, &got, 2);
                judge(j, &b.data, b.json, got, &format!("step {step}"))?;
            }
            Ok(())
        },
    )
}

const LENS: [usize; 8] = [0, 1, 5999, 6000, 6001, 8192, 8193, 17000];
const SEPS: [&[u8]; 6] = [b"\n", b"\\n", b"\\\n", b",", b"\\\\n", b"\"\n"];

fn dec_segments(i: u64, max: u32) -> (Vec<u8>, bool) {
    let json = i % 2 == 1;
    let k = (LENS.len() * SEPS.len()) as u64;
    let s = seq_decode(i / 2, k, 1, max);
    let mut data = Vec::new();
    for (n, x) in s.iter().enumerate() {
        data.extend(std::iter::repeat(b'p' + n as u8).take(LENS[x % LENS.len()]));
        data.extend_from_slice(SEPS[x / LENS.len()]);
    }
    data.extend_from_slice(b"end");
    (data, json)
}

/// C: every sequence of segments with lengths around the limits.
fn space_segments(j: Judge, tier: Tier) -> Space {
    let max = tier.pick(2, 3);
    let k = (LENS.len() * SEPS.len()) as u64;
    Space::new(
        "segments",
        format!("every sequence of 1..={max} segments (8 lengths x 6 separators) x json on/off x read sizes unbounded/8191/6001/5/1"),
        seq_count(k, 1, max) * 2,
        move |i| {
            let (s, json) = dec_segments(i, max);
            json!({"data": show(&s), "json": json})
        },
        move |i, ctx| {
            let (data, json) = dec_segments(i, max);
            let small: &[usize] = if max == 2 { &[usize::MAX, 8191, 6001, 61] } else { &[usize::MAX, 8191, 61] };
            for &step in small {
                let (got, _, _) = drive(&data, json, &[], step, &[]);
                account(ctx, &data, json, &got, (data.len() / step.min(8192)) as u64 + 1);
                note_states(ctx, &data, json, &[]);
                judge(j, &data, json, got, &format!("step {step}"))?;
            }
            Ok(())
        },
    )
}

/// E: contents that mean something to somebody, repeated, in every place of a stream.
fn space_contents(j: Judge, tier: Tier) -> Space {
    const WHAT: [&[u8]; 40] = [
        b"\xef\xbb\xbf", b"\xff\xfe", b"\xfe\xff", b"\r", b"\r\r", b" ", b"\t", b" \t", b"\0", b"\x1b[0m", b"\x1b[2K", b"\x08", b"\x0b", b"\x0c", b"\x1a", b"\x04", b"\x1f\x8b",
        b"\xc2\x85", b"\xc2\xa0", b"\xe2\x80\xa8", b"\xe2\x80\xa9", b"\xe2\x80\x8b", b"\xf0\x9f\x98\x80", b"\xc3", b"\x80", b"\xff", b"\xed\xa0\x80", b"-", b"=", b"#", b"# ", b"%", b"'", b"`", b"()", b"<>", b"null", b"\\r", b"\\u000a", b"\\x0a",
    ];
    const BEFORE: [&[u8]; 6] = [b"", b"\n", b"a\n", b"a\\n", b"\n\n\\n", b"\"k\": "];
    const AFTER: [&[u8]; 6] = [b"", b"\n", b"\r\n", b"\\n", b"\nz", b"z\n"];
    let times: &'static [usize] = tier.pick(
        &[1, 2, 3, 4, 7, 8, 16, 31, 32, 33, 64, 79, 80, 81, 100, 127, 128, 129, 255, 256, 257, 500, 1000, 1024, 2000, 3000, 4096, 6000],
        &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 79, 80, 81, 99, 100, 101, 119, 120, 121, 127, 128, 129, 131, 132, 133, 199, 200, 201, 255, 256, 257, 500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2000, 2048, 3000, 4095, 4096, 5000, 5999, 6000, 6001],
    );
    let dec = move |i: u64| {
        let mut d = Dec(i);
        let json = d.take(2) == 1;
        let a = d.take(6);
        let b = d.take(6);
        let n = times[d.take(times.len() as u64)];
        (WHAT[d.0 as usize], n, BEFORE[b], AFTER[a], json)
    };
    Space::new(
        "contents",
        format!("{} contents (byte order marks, blanks, control sequences, bad UTF-8, rulers...) x {} repetitions up to 6000 x 6 things before x 6 after x json on/off x read sizes unbounded/7", WHAT.len(), times.len()),
        WHAT.len() as u64 * times.len() as u64 * 72,
        move |i| {
            let (w, n, b, a, json) = dec(i);
            json!({"content": show(w), "times": n, "before": show(b), "after": show(a), "json": json})
        },
        move |i, ctx| {
            let (w, n, b, a, json) = dec(i);
            let data = [b.to_vec(), w.repeat(n), a.to_vec()].concat();
            for step in [usize::MAX, 7] {
                let (got, _, _) = drive(&data, json, &[], step, &[]);
                account(ctx, &data, json, &got, (data.len() / step.min(8192)) as u64 + 1);
                judge(j, &data, json, got, &format!("step {step}"))?;
            }
            Ok(())
        },
    )
}

/// D: many lines; counters and offsets of every width below 2^21 lines.
fn space_many(j: Judge, tier: Tier) -> Space {
    const UNITS: [&[u8]; 8] = [b"\n", b"a\n", b"ab\\nc\n", b"\r\n", b"x\\\\n\n", b"\"k\", v\n", b"\n\nlog\n", b"l\\\n"];
    let counts: &'static [usize] = if tier == Tier::Quick { &[254, 300, 5000, 33_000, 66_000, 140_000] } else { &[254, 300, 5000, 33_000, 66_000, 140_000, 600_000, 1_100_000, 2_200_000, 4_300_000] };
    const STEPS: [usize; 3] = [usize::MAX, 4095, 3];
    let dec = move |i: u64| {
        let mut d = Dec(i);
        let json = d.take(2) == 1;
        let u = UNITS[d.take(8)];
        let step = STEPS[d.take(3)];
        let n = counts[d.take(counts.len() as u64)];
        (u, n, step, json)
    };
    Space::new(
        "many lines",
        format!("8 line shapes repeated up to {} times x read sizes unbounded/4095/3 x json on/off", counts[counts.len() - 1]),
        2 * 8 * 3 * counts.len() as u64,
        move |i| {
            let (u, n, step, json) = dec(i);
            json!({"repeated": show(u), "times": n, "read": step.min(1 << 30), "json": json})
        },
        move |i, ctx| {
            let (u, n, step, json) = dec(i);
            let mut data = u.repeat(n);
            data.extend_from_slice(b"end");
            let (got, _, _) = drive(&data, json, &[], step, &[]);
            account(ctx, &data, json, &got, (data.len() / step.min(8192)) as u64 + 1);
            let exp = reference(&data, json, true);
            // reported compactly: the first difference
            ensure!(got.len() == exp.len() || j == Judge::Numbers, "content", "{} pieces instead of {}", got.len(), exp.len());
            for (k, (g, e)) in got.iter().zip(&exp).enumerate() {
                match g {
                    Item::E(e) => return Err(Fail::new("error", format!("piece {k}: unexpected error {e}"))),
                    Item::P(p) => match j {
                        Judge::Content => ensure!(p.0 == e.0, "content", "piece {k}: got {}, expected {}", show(&p.0), show(&e.0)),
                        Judge::Numbers => {
                            if p.0 != e.0 || got.len() != exp.len() {
                                break;
                            }
                            ensure!(p.1 == e.1, "number", "piece {k}: line {} instead of {}", p.1, e.1)
                        }
                    },
                }
            }
            Ok(())
        },
    )
    .timeout(600)
}

// ---- C03 -------------------------------------------------------------------

fn err_sets(calls: usize, two: bool) -> Vec<Vec<usize>> {
    let mut v: Vec<Vec<usize>> = (0..calls).map(|c| vec![c]).collect();
    if two {
        for a in 0..calls {
            for b in a + 1..calls + 1 {
                v.push(vec![a, b]);
            }
        }
    }
    v
}

fn c03_strings(tier: Tier) -> Space {
    let max = tier.pick(5, 6);
    let k = ALPHA.len() as u64;
    let dec = move |i: u64| -> (Vec<u8>, bool) {
        let s = seq_decode(i / 2, k, 0, max);
        (s.iter().map(|&x| ALPHA[x]).collect(), i % 2 == 1)
    };
    Space::new(
        "strings",
        format!("all strings of length <= {max} over 7 symbols x every cut into reads x every position of 1 or 2 failing reads x json on/off"),
        seq_count(k, 0, max) * 2,
        move |i| {
            let (s, json) = dec(i);
            json!({"data": show(&s), "json": json, "cuts": "all", "errors": "all"})
        },
        move |i, ctx| {
            let (data, json) = dec(i);
            let n = data.len();
            for m in 0..(1u64 << n.saturating_sub(1)) {
                let cuts = subset(1, n.saturating_sub(1), m);
                // reads: one per part, one for the end
                let calls = if n == 0 { 1 } else { cuts.len() + 2 };
                for errs in err_sets(calls, true) {
                    let (got, at, _) = drive(&data, json, &cuts, usize::MAX, &errs);
                    account(ctx, &data, json, &got, (calls + errs.len()) as u64);
                    ctx.state((&data, json, &at));
                    judge_errors(&data, json, &got, &at, &errs, &format!("cuts {cuts:?} errors {errs:?}"))?;
                }
            }
            Ok(())
        },
    )
}

fn c03_boundary(tier: Tier) -> Space {
    let max = tier.pick(2, 3);
    let total = 2 * 3 * OFFS * KINDS * seq_count(5, 0, max);
    Space::new(
        "boundary",
        format!("the boundary streams of C01 with strings of length <= {max} x every cut around them x every position of 1 failing read (2 without cuts)"),
        total,
        move |i| {
            let b = dec_boundary(i, max);
            json!({"data": show(&b.data), "json": b.json})
        },
        move |i, ctx| {
            let b = dec_boundary(i, max);
            for m in 0..(1u64 << b.n) {
                let cuts = subset(b.base, b.n, m);
                let calls = b.data.len() / 8192 + cuts.len() + 2;
                for errs in err_sets(calls, m == 0) {
                    let (got, at, _) = drive(&b.data, b.json, &cuts, usize::MAX, &errs);
                    account(ctx, &b.data, b.json, &got, (calls + errs.len()) as u64);
                    ctx.state((i, m, &at));
                    judge_errors(&b.data, b.json, &got, &at, &errs, &format!("cuts {cuts:?} errors {errs:?}"))?;
                }
            }
            Ok(())
        },
    )
}

/// Every kind of error; a kind the reader may retry (Interrupted) may also pass unseen.
fn c03_kinds(tier: Tier) -> Space {
    use std::io::ErrorKind::*;
    const KINDS: [std::io::ErrorKind; 22] = [
        Other, UnexpectedEof, WouldBlock, InvalidData, InvalidInput, TimedOut, BrokenPipe, ConnectionReset, ConnectionAborted, ConnectionRefused, NotConnected, AddrInUse, NotFound, PermissionDenied, AlreadyExists,
        WriteZero, OutOfMemory, Unsupported, HostUnreachable, StorageFull, StaleNetworkFileHandle, Interrupted,
    ];
    let max = tier.pick(3, 4);
    let k = ALPHA.len() as u64;
    let strings = seq_count(k, 0, max);
    let n_long = 4u64;
    let dec = move |i: u64| -> (Vec<u8>, std::io::ErrorKind, bool) {
        let mut d = Dec(i);
        let json = d.take(2) == 1;
        let kind = KINDS[d.take(KINDS.len() as u64)];
        let data = if d.0 < strings {
            seq_decode(d.0, k, 0, max).iter().map(|&x| ALPHA[x]).collect()
        } else {
            // around the limit of a line and of a read
            let n = [5999, 6001, 8192, 20000][(d.0 - strings) as usize];
            [b"a\nb".to_vec(), vec![b'x'; n], b"\nc\nd".to_vec()].concat()
        };
        (data, kind, json)
    };
    Space::new(
        "kinds",
        format!("all strings of length <= {max} over 7 symbols and 4 long lines x every cut (of short ones) x every position of 1 failing read x 22 kinds of errors x json on/off"),
        (strings + n_long) * 2 * KINDS.len() as u64,
        move |i| {
            let (s, kind, json) = dec(i);
            json!({"data": show(&s), "json": json, "kind": format!("{kind:?}")})
        },
        move |i, ctx| {
            let (data, kind, json) = dec(i);
            let n = if data.len() > 100 { 0 } else { data.len() };
            for m in 0..(1u64 << n.saturating_sub(1)) {
                let cuts = subset(1, n.saturating_sub(1), m);
                let calls = if data.is_empty() { 1 } else { data.len() / 8192 + cuts.len() + 2 };
                for errs in err_sets(calls, false) {
                    let (got, at, _) = drive_kind(&data, json, &cuts, usize::MAX, &errs, kind);
                    account(ctx, &data, json, &got, (calls + errs.len()) as u64);
                    ctx.state((&data, json, &at, format!("{kind:?}")));
                    if kind == Interrupted && got == drive(&data, json, &cuts, usize::MAX, &[]).0 {
                        continue;
                    }
                    judge_errors(&data, json, &got, &at, &errs, &format!("{kind:?} cuts {cuts:?} errors {errs:?}"))?;
                }
            }
            Ok(())
        },
    )
}

// ---- C04 -------------------------------------------------------------------

struct Counting;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static ON: AtomicBool = AtomicBool::new(false);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if ON.load(Relaxed) {
            let v = LIVE.fetch_add(l.size(), Relaxed) + l.size();
            PEAK.fetch_max(v, Relaxed);
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if ON.load(Relaxed) {
            LIVE.fetch_sub(l.size(), Relaxed);
        }
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Counting = Counting;

/// An endless repetition of `pat`, made on the fly.
struct Repeat {
    pat: Vec<u8>,
    left: usize,
    at: usize,
    step: usize,
}
impl Read for Repeat {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = buf.len().min(self.step).min(self.left);
        for b in &mut buf[..n] {
            *b = self.pat[self.at];
            self.at += 1;
            if self.at == self.pat.len() {
                self.at = 0;
            }
        }
        self.left -= n;
        Ok(n)
    }
}

const C04_SYMS: usize = 9;
fn c04_sym(i: usize) -> Vec<u8> {
    match i {
        0 => b"\n".to_vec(),
        1 => b"a".to_vec(),
        2 => b"\\n".to_vec(),
        3 => b",".to_vec(),
        4 => b"\\".to_vec(),
        5 => b"\"".to_vec(),
        6 => vec![b'b'; 3000],
        7 => vec![b'c'; 7000],
        _ => vec![b'd'; 9000],
    }
}
const LIMIT: usize = 256 * 1024;

fn c04_dec(i: u64) -> (Vec<u8>, Vec<usize>, bool, usize) {
    let mut d = Dec(i);
    let json = d.take(2) == 1;
    let step = [usize::MAX, 1][d.take(2)];
    let s = seq_decode(d.0, C04_SYMS as u64, 1, 3);
    let pat: Vec<u8> = s.iter().flat_map(|&x| c04_sym(x)).collect();
    (pat, s, json, step)
}

fn c04_run(pat: Vec<u8>, len: usize, json: bool, step: usize, ctx: &mut Ctx, key: impl std::hash::Hash) -> Res {
    // Room for the thread's own start-up on top of what the iterator may use.
    let t = std::thread::Builder::new().stack_size(LIMIT + 16 * 1024).spawn(move || {
        LIVE.store(1 << 30, Relaxed);
        PEAK.store(1 << 30, Relaxed);
        ON.store(true, Relaxed);
        let mut items = 0u64;
        for x in BytesLines::new(Repeat { pat, left: len, at: 0, step }, json) {
            drop(x);
            items += 1;
            if items > len as u64 + 2 {
                break;
            }
        }
        ON.store(false, Relaxed);
        (PEAK.load(Relaxed) - (1 << 30), items)
    });
    let (peak, items) = t.unwrap().join().map_err(|_| Fail::new("panic", last_panic()))?;
    ctx.eval();
    ctx.outcome((peak, items));
    if items > 0 || len > 0 {
        ctx.nontrivial(key);
    }
    ctx.count("peak_heap_bytes_max_sum", 0);
    ensure!(items <= len as u64 + 2, "endless", "more items than bytes");
    ensure!(peak <= LIMIT, "heap", "peak heap {peak} bytes for {len} bytes of input");
    Ok(())
}

/// Streams of one byte value, alone or after another.
fn c04_bytes(tier: Tier) -> Space {
    let size = tier.pick(300_000usize, 3_000_000);
    const HEADS: [&[u8]; 5] = [b"", b"\n", b"\"", b"\\", b"a"];
    let dec = |i: u64| {
        let mut d = Dec(i);
        let json = d.take(2) == 1;
        let head = HEADS[d.take(5)];
        // the head comes back rarely, never, or before each byte
        let every = [1usize, 50_000, usize::MAX][d.take(3)];
        (d.0 as u8, head, every, json)
    };
    Space::new(
        "bytes",
        format!("streams of {size} bytes of each of the 256 byte values, after one of 5 heads that comes once, every 50000 bytes or before each byte x json on/off; same bounds"),
        256 * 2 * 5 * 3,
        move |i| {
            let (b, head, every, json) = dec(i);
            json!({"byte": b, "head": show(head), "every": every.min(1 << 30), "json": json})
        },
        move |i, ctx| {
            let (b, head, every, json) = dec(i);
            let pat = [head.to_vec(), vec![b; every.min(size)]].concat();
            c04_run(pat, size, json, usize::MAX, ctx, i)
        },
    )
    .timeout(300)
}

/// Long streams: what grows slowly with the number of lines, sub-lines or pieces.
fn c04_long(tier: Tier) -> Space {
    let size = tier.pick(10_000_000usize, 80_000_000);
    const PATS: [&[u8]; 10] = [b"\n", b"a\n", b"\\n", b"a\\n", b"a\\na\n", b",", b"a,", b"\"a\",\n", b"\\\\\n", b"ab cd ef gh"];
    let dec = |i: u64| {
        let mut d = Dec(i);
        (PATS[d.take(10)], d.take(2) == 1)
    };
    Space::new(
        "long",
        format!("streams of {size} bytes of 10 short patterns x json on/off; same bounds"),
        2 * PATS.len() as u64,
        move |i| json!({"pattern": show(dec(i).0), "json": dec(i).1}),
        move |i, ctx| {
            let (pat, json) = dec(i);
            c04_run(pat.to_vec(), size, json, usize::MAX, ctx, i)
        },
    )
    .timeout(600)
}

/// Long streams of long lines: what grows slowly with the number of lines kept or dropped.
fn c04_lines(tier: Tier) -> Space {
    let size = tier.pick(100_000_000usize, 400_000_000);
    const SHAPES: [(usize, &[u8]); 8] = [(6100, b"\n"), (9000, b"\n"), (6100, b"\\n"), (3000, b"\n"), (9000, b"\\n\n"), (6100, b","), (8192, b"\n"), (20_000, b"\n")];
    let dec = |i: u64| {
        let mut d = Dec(i);
        (SHAPES[d.take(8)], d.take(2) == 1)
    };
    Space::new(
        "long lines",
        format!("streams of {size} bytes of lines of 8 shapes, 7 of them over the length limit x json on/off; same bounds"),
        2 * SHAPES.len() as u64,
        move |i| json!({"line": dec(i).0 .0, "end": show(dec(i).0 .1), "json": dec(i).1}),
        move |i, ctx| {
            let ((n, end), json) = dec(i);
            let pat = [vec![b'x'; n], end.to_vec()].concat();
            c04_run(pat, size, json, usize::MAX, ctx, i)
        },
    )
    .timeout(600)
}

fn c04_space(tier: Tier) -> Space {
    let size = tier.pick(400_000usize, 6_000_000);
    Space::new(
        "patterns",
        format!("streams repeating every pattern of 1..=3 of 9 symbols for {size} bytes (a twelfth of that when read byte by byte) x json on/off x {{whole, byte}} reads; heap < 256 KiB, stack < 256 KiB, unoptimised build"),
        seq_count(C04_SYMS as u64, 1, 3) * 4,
        |i| {
            let (pat, _, json, step) = c04_dec(i);
            json!({"pattern": show(&pat), "json": json, "read": if step == 1 { "bytes" } else { "full" }})
        },
        move |i, ctx| {
            let (pat, s, json, step) = c04_dec(i);
            let len = if step == 1 { size / 12 } else { size };
            c04_run(pat, len, json, step, ctx, (s, json, step))?;
            Ok(())
        },
    )
    .timeout(300)
}

fn main() {
    run_main(|p, tier| {
        let spaces = |j| vec![space_strings(j, tier), space_bytes(j), space_boundary(j, tier), space_segments(j, tier), space_contents(j, tier), space_many(j, tier)];
        let assume = vec![
            "Reads return between 1 and the requested number of bytes, 0 at the end of input.".to_string(),
            "Byte values outside the alphabets behave like 'a' (each of the 256 values is tried in 8 contexts).".to_string(),
        ];
        Some(match p {
            "C01" => Check {
                level: "model_checking",
                rule: "state: (pending backslash, in string, piece length class, line, at a read boundary) of the reference automaton; transition: one byte or one read; every execution of the real iterator is compared with the automaton's run".into(),
                assumptions: assume,
                spaces: spaces(Judge::Content),
            },
            "C02" => Check {
                level: "model_checking",
                rule: "as C01, comparing the line numbers".into(),
                assumptions: assume,
                spaces: spaces(Judge::Numbers),
            },
            "C03" => Check {
                level: "model_checking",
                rule: "state: (stream, bytes delivered before each error); transition: one byte, read or failure; every execution is compared with the pieces of the uninterrupted stream".into(),
                assumptions: assume,
                spaces: vec![c03_strings(tier), c03_boundary(tier), c03_kinds(tier)],
            },
            "C04" => Check {
                level: "exploration",
                rule: "every repetition pattern is run to the end on a thread with a small stack under a counting allocator".into(),
                assumptions: vec!["Growth with the length of the stream shows within the stated length.".into()],
                spaces: vec![c04_long(tier), c04_lines(tier), c04_space(tier), c04_bytes(tier)],
            },
            _ => return None,
        })
    });
}
