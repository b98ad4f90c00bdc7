//! C05-C08: the tokenizer on every short word and every short sequence of representative words.
use logreduce_tokenizer::process;
use vengine::serde_json::json;
use vengine::*;

const NEUTRAL: &str = "zzzz";

/// The tokens of one word, read off a line where it follows a neutral word.
fn word_tokens(w: &str) -> Result<Vec<String>, Fail> {
    let r = process(&format!("{NEUTRAL} {w}"));
    let mut it = r.split(' ').map(|s| s.to_string());
    ensure!(it.next().as_deref() == Some(NEUTRAL), "neutral", "'{NEUTRAL} {w}' gives '{r}'");
    Ok(it.collect())
}

fn well_formed(line: &str, r: &str) -> Res {
    // the placeholder %BASE64 is no number of the line
    ensure!(!r.replace("%BASE64", "").bytes().any(|b| b.is_ascii_digit()), "digit", "{line:?} gives {r:?}, which contains a digit");
    ensure!(!r.contains(['\t', '\n']), "blank", "{line:?} gives {r:?}, which contains a tab or a new line");
    ensure!(r.trim_matches(' ') == r, "trim", "{line:?} gives {r:?}, which is not trimmed");
    ensure!(!r.contains("  ") || line.contains('\u{a0}'), "double", "{line:?} gives {r:?}, which contains an empty word");
    Ok(())
}

fn digits(line: &str, f: impl Fn(usize, u8) -> u8) -> String {
    let mut n = 0;
    line.chars()
        .map(|c| {
            if c.is_ascii_digit() {
                n += 1;
                (b'0' + f(n, c as u8 - b'0') % 10) as char
            } else {
                c
            }
        })
        .collect()
}

fn c05_line(line: &str, ctx: &mut Ctx) -> Res {
    let r = process(line);
    ctx.eval();
    ctx.outcome(&r);
    if !r.is_empty() {
        ctx.nontrivial(line);
    }
    well_formed(line, &r)?;
    ensure_eq!(process(line), r, "deterministic", "{line:?} a second time");
    if line.bytes().any(|b| b.is_ascii_digit()) {
        for v in [
            digits(line, |_, d| d + 1),
            digits(line, |_, _| 0),
            digits(line, |_, _| 1),
            digits(line, |_, _| 9),
            digits(line, |n, d| d + (n % 10) as u8 * 3),
            digits(line, |n, _| (n % 10) as u8),
        ] {
            ctx.eval();
            ensure_eq!(process(&v), r, "digits", "{line:?} with other digits {v:?}");
        }
    }
    Ok(())
}

/// One representative per recognizer and branch; none makes a line match a noise filter.
fn rep_words() -> Vec<&'static str> {
    vec![
        "word", "Other", "abc", "a", "run42", "12.5", "2022-01-25", "12:11:14.5", "10.0.0.1", "fa:16:3e:94:88:3f",
        "0x4243", "3e75e420-761f-11ec-8d18-a0957bd68c36", "sunday", "July", "error", "FAILED", "non-zero", "Warn:",
        "sha256:aabb", "zjxRGFLA4ZVTXXSKpL_U37kHYHoyJ25GcMqoN27A5OS4PodEjDomArnq_36WggVk", "req-b932", "gAAAAB", "https://x/y",
        "/tmp/foo", "tmpab12", "refs/zuul/master", "abcdef1..abcdef2", "PobDt1cxalvf40uv9Om5VTNkw", "abcd==", "systemd[42]",
        "systemd[42]:", "a{$@b", "key=01", "name=value42", "user:", "id:", "path/to/file", "one-two", "a-bcde-fghi-jklm-nopq",
        "left|right", "->", "averyveryveryveryverylongwordhere1_", "DHCP(tap44)", "Node@83d2", "'quoted'", "(paren),", "u'uni'",
        "\"x\"", "é", "日本語ログ", "it's", "..", "-", "=", ":", "/", "a=b=c", "x_y_z.py",
    ]
}

/// Ordered pairs of lines, each tokenized after the other; with `fresh`, in a process of its own.
fn after(name: &'static str, bound: String, lines: Vec<String>, fresh: bool) -> Space {
    let n = lines.len() as u64;
    let l2 = lines.clone();
    let table: std::cell::OnceCell<Vec<Result<String, Fail>>> = std::cell::OnceCell::new();
    Space::new(
        name,
        bound,
        n * n,
        move |i| json!({"first": l2[(i / n) as usize], "then": l2[(i % n) as usize]}),
        move |i, ctx| {
            let t = table.get_or_init(|| {
                // compile the regular expressions once, not in every child
                process("qq ww=yy jj/hh kk-pp vv|gg ddd@fff");
                lines.iter().map(|l| in_child(|| process(l))).collect()
            });
            let (a, b) = ((i / n) as usize, (i % n) as usize);
            let both = || format!("{}\0{}", process(&lines[a]), process(&lines[b]));
            let r = if fresh { in_child(both)? } else { both() };
            let (ra, rb) = r.split_once('\0').unwrap();
            ctx.evals(2);
            ctx.nontrivial((a, b));
            ctx.outcome(rb);
            ensure_eq!(ra, t[a].clone()?, "history", "{:?}", lines[a]);
            ensure_eq!(rb, t[b].clone()?, "history", "{:?} after {:?}", lines[b], lines[a]);
            Ok(())
        },
    )
}

fn c05_spaces(tier: Tier) -> Vec<Space> {
    let mut v = Vec::new();
    // every short word over confusable characters
    let alpha: Vec<char> = "a4:-/=['\".|\\".chars().collect();
    let max = tier.pick(6, 7);
    let k = alpha.len() as u64;
    let dec = move |i: u64| -> String { seq_decode(i, k, 0, max).iter().map(|&x| alpha[x]).collect() };
    let d2 = dec.clone();
    v.push(Space::new(
        "chars",
        format!("every word of length <= {max} over 12 confusable characters, in a line"),
        seq_count(k, 0, max),
        move |i| json!({"line": format!("ab4cd {}", dec(i))}),
        move |i, ctx| {
            let w = d2(i);
            c05_line(&format!("ab4cd {w}"), ctx)
        },
    ));
    // every short line over a rich alphabet, including blanks and multi-byte characters
    let alpha: Vec<char> = "a0f \t\\nN[]()<>{}%$,*:;=@-/|.'\"u_+x^éß\u{a0}日\r".chars().collect();
    let max = tier.pick(3, 4);
    let k = alpha.len() as u64;
    let dec = move |i: u64| -> String { seq_decode(i, k, 0, max).iter().map(|&x| alpha[x]).collect() };
    let d2 = dec.clone();
    v.push(Space::new(
        "rich",
        format!("every string of length <= {max} over 38 characters, alone, and around words"),
        seq_count(k, 0, max),
        move |i| json!({"text": dec(i)}),
        move |i, ctx| {
            let w = d2(i);
            c05_line(&w, ctx)?;
            c05_line(&format!("some {w}4 text"), ctx)?;
            c05_line(&format!("host12{w}name33 {w}xx"), ctx)
        },
    ));
    // long lines
    let syms: Vec<&'static str> = vec!["/", "-", "|", "a", "4", "=", ":", "[", "(", "@", "\\", " ", "aaaa/", "word", "é", "key=", "x[4]", ".", "\"", "日"];
    let n = syms.len() as u64;
    let dec = move |i: u64| -> String {
        let p: String = seq_decode(i, n, 1, 2).iter().map(|&x| syms[x]).collect();
        let mut s = String::from("b4 ");
        while s.len() + p.len() <= 6000 {
            s += &p;
        }
        s
    };
    let d2 = dec.clone();
    v.push(
        Space::new(
            "long",
            "6000 byte lines repeating every pattern of 1..=2 of 20 symbols",
            seq_count(n, 1, 2),
            move |i| json!({"line": dec(i)[..60.min(dec(i).len())].to_string(), "repeated_to": 6000}),
            move |i, ctx| {
                let l = d2(i);
                let r = process(&l);
                ctx.eval();
                ctx.nontrivial(&l);
                ctx.outcome(&r);
                well_formed("(long line)", &r)?;
                let l2 = digits(&l, |_, d| d + 3);
                if l2 != l {
                    ensure!(process(&l2) == r, "digits", "long line with other digits differs");
                } else {
                    ensure!(process(&l) == r, "deterministic", "long line differs the second time");
                }
                Ok(())
            },
        )
        .timeout(600),
    );
    // words with many numbers, lines with many such words
    let seps: Vec<&'static str> = vec!["_", "-", ".", "/", "|", ":", "=", "q", "z_", "@", "(", "+", "é", "~", "wy", "%"];
    let heads: Vec<&'static str> = vec!["slot", "", "q", "kz_", "name=", "Wait/"];
    let (ns, nh) = (seps.len() as u64, heads.len() as u64);
    const GROUPS: [usize; 14] = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 17, 33, 70];
    let dec = move |i: u64| -> String {
        let mut d = Dec(i);
        let (a, b) = (seps[d.take(ns)], seps[d.take(ns)]);
        let head = heads[d.take(nh)];
        let num = ["4", "205", "3.7"][d.take(3)];
        let g = GROUPS[d.take(14)];
        let words = [1usize, 2, 9, 40][d.take(4)];
        let mut w = String::from(head);
        for k in 0..g {
            w += if k % 2 == 0 { a } else { b };
            w += num;
        }
        let mut s = String::from("then");
        for _ in 0..words {
            if s.len() + w.len() + 10 > 6000 {
                break;
            }
            s += " ";
            s += &w;
        }
        s + " now"
    };
    let d2 = dec.clone();
    v.push(Space::new(
        "numbers",
        "words of 1..70 numbers with every ordered pair of 16 separators, 6 heads, 3 kinds of numbers, 1..40 times in a line",
        ns * ns * nh * 3 * 14 * 4,
        move |i| json!({"line": dec(i)}),
        move |i, ctx| c05_line(&d2(i), ctx),
    ));
    // every place of a number in a word
    const FILL: [&str; 6] = ["z", "f", "Kx", "q-r", "w.", "é"];
    let nf = FILL.len() as u64;
    let longest = tier.pick(72u64, 140);
    let dec = move |i: u64| -> String {
        let mut d = Dec(i);
        let fill = *d.pick(&FILL);
        let (pos, len) = (d.take(3), d.take(longest) as usize + 1);
        let run = d.take(longest) as usize + 1;
        let letters: String = fill.chars().cycle().take(len).collect();
        let number = "7".repeat(run);
        match pos {
            0 => format!("some {letters}{number} text"),
            1 => format!("some {number}{letters} text"),
            _ => {
                let (a, b): (String, String) = (letters.chars().take(len / 2).collect(), letters.chars().skip(len / 2).collect());
                format!("some {a}{number}{b} text")
            }
        }
    };
    let d2 = dec.clone();
    v.push(Space::new(
        "number places",
        format!("words of 1..={longest} letters of 6 fills and one number of 1..={longest} digits at the end, start or middle"),
        nf * 3 * longest * longest,
        move |i| json!({"line": dec(i)}),
        move |i, ctx| c05_line(&d2(i), ctx),
    ));
    // every character
    let chars: Vec<char> = (0u32..0x4000).chain([0xa000, 0xac00, 0xd7ff, 0xe000, 0xfb01, 0xfeff, 0xff11, 0xfffd, 0xffff, 0x10000, 0x1d7d8, 0x1f600, 0x10ffff]).filter_map(char::from_u32).filter(|c| *c != '\n').collect();
    let n = chars.len() as u64;
    let c2 = chars.clone();
    v.push(Space::new(
        "unicode",
        "every character below U+4000 and 13 above, at the ends and in the middle of words, doubled and alone",
        n,
        move |i| json!({"character": format!("U+{:04X}", c2[i as usize] as u32)}),
        move |i, ctx| {
            let c = chars[i as usize];
            for l in [
                format!("some {c}4 text"),
                format!("ab{c}cd12 x{c}"),
                format!("{c}{c}{c}{c} y4"),
                format!("key={c}3 a/{c}/b-{c}|{c}"),
                format!("{c}"),
                format!("proc[{c}4] x(4{c}) u'{c}' {c}@{c}9"),
                format!("w {}", c.to_string().repeat(40)),
            ] {
                c05_line(&l, ctx)?;
            }
            Ok(())
        },
    ));
    // histories: any line after any other
    let ws = rep_words();
    let lines: Vec<String> = ws.iter().flat_map(|w| [format!("{w} tail"), format!("head {w}"), w.to_string()]).collect();
    v.push(after(
        "histories",
        format!("every ordered pair of {} lines: the second gives what it gives alone in a new process", lines.len()),
        lines,
        false,
    ));
    // lines which share their length and most of their text
    let mut alike = Vec::new();
    for head in ["", "controller-manager/", "service_name=", "supervisor"] {
        for mid in ["zone", "4242", "fail", "7f3a", "a=bc", "x/yz", "q-rt", "Err:", "e|fg", "tmp/", "[12]", "FAIL"] {
            for tail in ["", "/console.log", "_value.txt", "=instance"] {
                alike.push(format!("some {head}{mid}{tail} text"));
            }
        }
    }
    v.push(after(
        "alike",
        format!("every ordered pair of {} lines made of 4 heads, 12 middles of one length and 4 tails: the second gives what it gives alone in a new process", alike.len()),
        alike,
        true,
    ));
    // pairs of words
    let ws = rep_words();
    let n = ws.len() as u64;
    let k = tier.pick(2, 3);
    let w2 = ws.clone();
    let line = move |i: u64| -> String { seq_decode(i, n, 1, k).iter().map(|&x| w2[x]).collect::<Vec<_>>().join(" ") };
    let l2 = line.clone();
    v.push(Space::new(
        "words",
        format!("every line of 1..={k} of {n} representative words"),
        seq_count(n, 1, k),
        move |i| json!({"line": line(i)}),
        move |i, ctx| c05_line(&l2(i), ctx),
    ));
    v
}

// ---- C06 -------------------------------------------------------------------

/// Kinds of volatile values; all values of a kind must give the same tokens.
fn kinds() -> Vec<(&'static str, Vec<String>)> {
    let mut v: Vec<(&'static str, Vec<String>)> = Vec::new();
    let mut dates = Vec::new();
    for d in [
        "sunday", "monday", "tuesday", "wednesday", "thursday", "friday", "saturday", "january", "february", "march", "april",
        "may", "june", "july", "august", "september", "october", "november", "december",
    ] {
        dates.push(d.to_string());
        dates.push(d.to_uppercase());
        dates.push(d[..1].to_uppercase() + &d[1..]);
        dates.push(d.chars().enumerate().map(|(i, c)| if i % 2 == 0 { c } else { c.to_ascii_uppercase() }).collect());
    }
    v.push(("date", dates));
    let s = |x: &[&str]| x.iter().map(|s| s.to_string()).collect::<Vec<_>>();
    v.push(("number", s(&["0", "7", "42", "65535", "3.14", "1000000.5", "007", "4242424242424242424242"])));
    v.push(("clock", s(&["12:11:14", "00:00:00", "9:05", "18:01:00.1", "23:59:59.999"])));
    v.push(("day", s(&["2022-01-25", "1999-12-31", "2017-06-24"])));
    v.push(("iso", s(&["2022-01-25T14:09:24.422Z", "2017-06-24T02:52:17.732Z", "1999-12-31T23:59:59.000Z"])));
    v.push(("hex", s(&["0x4243", "0xdeadBEEF", "a0957bd68c36", "DEADBEEF", "0", "9249f6066a2041bbbeb838e2ca1cf2b4", "abab-efef", "f"])));
    v.push(("mac", s(&["fa:16:3e:94:88:3f", "00:11:22:33:44:55", "AA:BB:CC:DD:EE:FF"])));
    v.push(("ip", s(&["127.0.0.1", "10.0.1.9", "255.255.255.255", "::1", "fd00:fd00:fd00:2000::21e", "[fd00::1]:5672"])));
    v.push(("uuid", s(&["3e75e420-761f-11ec-8d18-a0957bd68c36", "f671eb00-730e-11ec-915f-abcd86bae8f1", "00000000-0000-0000-0000-000000000000", "FFFFFFFF-AAAA-BBBB-CCCC-DDDDDDDDDDDD"])));
    v.push(("url", s(&["https://10.0.1.9/identity/v3/auth/tokens", "http://example.com", "HTTP://X/?a=b&c=d", "ftp://host/file.tar.gz", "ssh://git@host:29418/p", "Https://a-b-c-d-e-f.example/x|y"])));
    v.push(("hash", s(&["sha256:aabbcc00", "md5:test", "MD42:abab", "hash:zzz", "SHA1:e7b26fc34f528b5b19c4450867b9d597", "sha:x"])));
    v.push(("csrf", s(&["zjxRGFLA4ZVTXXSKpL_U37kHYHoyJ25GcMqoN27A5OS4PodEjDomArnq_36WggVk", ".eJw1j81OwkAURl-lmTVNZu78dbojUSEKagQB3TTTuXcQkBZKSUTCu1NiXH6b851zZkU4NLFo6w1VLGe_65-3wcOorz5n", "A1b2C3d4E5f6G7h8I9j0K1l2M3n4O5p6Q7r8S9t0U1v2W3x4Y5z6A7b8C9d0E1f2G3h4"])));
    v.push(("cookie", s(&["req-b932e095-6706-4f5a-bd75-241c407a9d01", "req-08043549", "gAAAABxyz", "AAAAB3NzaC1yc2E", "tap44302f40-8", "txabc123-005", "AUTH_deadbeef"])));
    v.push(("tmp", s(&["/tmp/test", "/var/tmp/key", "tmpmh4nrjbd", "tmp7v726n_c", "/tmp", "tmp/x/y-z"])));
    v.push(("ref", s(&["refs/zuul/master/6546b192211a4531859db9d8b9375154", "refs/changes/01/2/3", "refs/heads/", "refs/tags/v1.2", "repos/x/", "repos/openstack-nova", "zzzzzzz..yyyyyyy", "q_w_e_r..1234567"])));
    v.push(("range", s(&["abcdef1..bcdef12", "1234567..fedcba9", "0000000..aaaaaaa"])));
    v.push(("base64", s(&["PobDt1cxalvf40uv9Om5VTNkw", "MqoplXLA2LPnJKTNMQW5JpGyMLJcLxRDDEejzh6b1im8KV/5", "UIbv1LPZWIXpBtaToNzsmgZI3=", "Zm9vYmFy+/Zm9vYmFyZm9vYmFyZm9v", "abcd==", "Zm9vYg=="])));
    v.push(("pid", s(&["systemd[42]", "systemd[4248]", "systemd[1]"])));
    v.push(("pid:", s(&["dnsmasq[42]:", "dnsmasq[4248]:", "dnsmasq[1]:"])));
    for key in ["id", "instance_id", "api_key", "KEY", "zuul_ref", "ref", "region", "REGION_NAME", "token", "auth_token", "client_secret", "Secret_x", "password", "OS_PASSWORD"] {
        for sep in ["=", ":"] {
            // same length, over letters and digits
            let vals = ["PobDt1cxal", "0123456789", "aaaaaaaaaa", "zZzZzZzZzZ", "x7Qm2Lw9Rt"];
            let name: &'static str = Box::leak(format!("{key}{sep}").into_boxed_str());
            v.push((name, vals.iter().map(|x| format!("{key}{sep}{x}")).collect()));
        }
    }
    v
}

const ALNUM: &str = "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";
const HEXD: &str = "0123456789abcdefABCDEF";

/// Kinds with values in which every part varies over its whole range.
fn many_kinds() -> Vec<(String, Vec<String>)> {
    let mut v: Vec<(String, Vec<String>)> = vec![];
    let mut add = |k: &str, x: Vec<String>| v.push((k.to_string(), x));
    let rep = |c: char, n: usize| c.to_string().repeat(n);
    let mut nums: Vec<String> = (0..1000).map(|n| n.to_string()).collect();
    for d in '0'..='9' {
        for n in 1..=30 {
            nums.push(rep(d, n));
            nums.push(format!("{}.{}", rep(d, n), rep(d, 31 - n)));
        }
    }
    add("number", nums.clone());
    for (a, b) in [("worker", ""), ("worker_", "_done"), ("running.", "x"), ("slot", "of"), ("gigaset", ".log")] {
        add(&format!("number in {a}{b}"), nums.iter().filter(|n| n.len() + a.len() + b.len() < 25).map(|n| format!("{a}{n}{b}")).collect());
    }
    add("hex", HEXD.chars().flat_map(|c| (1..=63).map(move |n| rep(c, n))).chain(HEXD.chars().flat_map(|c| (1..=60).map(move |n| format!("0x{}", rep(c, n))))).collect());
    for (k, a, b) in [("pid", "systemd[", "]"), ("pid:", "dnsmasq[", "]:"), ("pid-short", "sshd[", "]"), ("pid-upper", "CROND[", "]:")] {
        let short = nums.iter().filter(|n| !n.contains('.') && n.len() < 12);
        add(k, short.map(|n| format!("{a}{n}{b}")).collect());
    }
    add("ip", (0..256).flat_map(|n| [format!("{n}.0.0.1"), format!("10.{n}.3.4"), format!("10.2.{n}.4"), format!("10.2.3.{n}")]).collect());
    add("ip6", HEXD.chars().flat_map(|c| (1..=4).flat_map(move |n| [format!("{}::1", rep(c, n)), format!("fd00::{}", rep(c, n)), format!("fd00:{}:0:1::2", rep(c, n)), format!("::{}", rep(c, n))])).collect());
    let bytes: Vec<String> = (0..256).flat_map(|b| [format!("{b:02x}"), format!("{b:02X}")]).collect();
    add("mac", bytes.iter().flat_map(|b| [format!("{b}:16:3e:94:88:3f"), format!("fa:16:{b}:94:88:3f"), format!("fa:16:3e:94:88:{b}")]).collect());
    let mut uuids = vec![];
    for at in 0..36 {
        for c in HEXD.chars() {
            let mut u: Vec<char> = "3e75e420-761f-11ec-8d18-a0957bd68c36".chars().collect();
            if u[at] != '-' {
                u[at] = c;
                uuids.push(u.into_iter().collect());
            }
        }
    }
    add("uuid", uuids);
    add("clock", (0..24).flat_map(|h| (0..60).map(move |m| format!("{h:02}:{m:02}:{:02}", (h * 7 + m) % 60))).collect());
    add("clock-ms", (0..24).flat_map(|h| (0..60).map(move |m| format!("{h:02}:{m:02}:{:02}.{:03}", (h * 7 + m) % 60, (h * 41 + m * 13) % 1000))).collect());
    add("clock-ms,", (0..24).flat_map(|h| (0..60).map(move |m| format!("{h:02}:{m:02}:{:02},{:03}", (h * 7 + m) % 60, (h * 41 + m * 13) % 1000))).collect());
    let days: Vec<(u32, u32, u32)> = (1..=12).flat_map(|m| (1..=31).map(move |d| (1970 + m * 7 + d, m, d))).collect();
    add("day", days.iter().map(|(y, m, d)| format!("{y}-{m:02}-{d:02}")).collect());
    add("iso", days.iter().map(|(y, m, d)| format!("{y}-{m:02}-{d:02}T{:02}:{:02}:{:02}.{:03}Z", d % 24, d + 20, m + 31, m * 77)).collect());
    let graph: Vec<char> = ('!'..='~').filter(|c| !"'\",;()[]{}<>\\".contains(*c)).collect();
    for scheme in ["http", "https", "ftp", "ssh"] {
        let mut u = vec![format!("{scheme}://host/path")];
        for c in &graph {
            u.push(format!("{scheme}://{c}host/path"));
            u.push(format!("{scheme}://host{c}8/pa{c}th"));
            u.push(format!("{scheme}://host/path{c}"));
        }
        u.extend((1..60).step_by(7).map(|n| format!("{scheme}://{}/x", rep('w', n))));
        u.push(format!("{}://host/path", scheme.to_uppercase()));
        add(&format!("url-{scheme}"), u);
    }
    for h in ["sha", "md", "hash", "SHA", "Md"] {
        let mut x: Vec<String> = [String::new()].into_iter().chain((0..=600).map(|n| n.to_string())).map(|n| format!("{h}{n}:d41d8cd98f00b204e9800998ecf8427e")).collect();
        x.extend(ALNUM.chars().flat_map(|c| (1..=70).map(move |n| (c, n))).map(|(c, n)| format!("{h}256:{}", rep(c, n))));
        add(&format!("hash-{h}"), x);
    }
    add("long-token", ALNUM.chars().chain("_".chars()).flat_map(|c| (64..=200).step_by(3).map(move |n| rep(c, n))).collect());
    for (pre, n) in [("req-", 1..40), ("gAAAA", 1..40), ("AAAA", 1..40), ("tap", 1..40), ("AUTH_", 1..40), ("txa", 1..40), ("txz", 1..40)] {
        // hexadecimal words are ids, long ones are digests: fixed tails keep the kind
        add(&format!("cookie-{pre}"), ALNUM.chars().flat_map(|c| n.clone().map(move |n| (c, n))).flat_map(|(c, n)| [format!("{pre}q_{}", rep(c, n)), format!("{pre}{}q_", rep(c, n)), format!("{pre}{}q_{c}", rep(c, n / 2))]).collect());
        if pre != "AAAA" {
            add(&format!("cookie-{pre} alone"), ALNUM.chars().flat_map(|c| n.clone().map(move |n| (c, n))).map(|(c, n)| format!("{pre}{}", rep(c, n))).collect());
        }
    }
    add("cookie-tx", ('a'..='z').map(|c| format!("tx{c}0123")).collect());
    for (a, b) in [("/tmp/", ""), ("/tmp/", "/x"), ("/var/tmp/", ""), ("/home/user/tmp/", "/y"), ("/srv/tmp", ""), ("/var/lib/tmp", "/z"), ("tmp", ""), ("tmp/", ""), ("build/tmp/", ""), ("build-tmp/", ""), (".tmp/", "/x")] {
        add(&format!("tmp-{a}{b}"), ALNUM.chars().chain("_-.".chars()).flat_map(|c| (1..=20).map(move |n| (c, n))).map(|(c, n)| format!("{a}{}{b}", rep(c, n))).collect());
    }
    add("tmp-places", ["/tmp/a", "/var/tmp/a", "/home/user/tmp/a", "build-tmp/a", "x.tmp/q9", "/srv/tmpabc", "/var/lib/tmpq/z", "tmpab", "tmp/a", "build/tmp/a", "/tmp", "/var/tmp", "./tmp/x"].map(String::from).to_vec());
    for pre in ["refs/", "repos/"] {
        add(&format!("ref-{pre}"), ALNUM.chars().flat_map(|c| (1..=50).map(move |n| (c, n))).flat_map(|(c, n)| [format!("{pre}g{}/{}", rep(c, n), n % 7), format!("{pre}{}", rep(c, n)), format!("{pre}x/{}", rep(c, n))]).collect());
    }
    add("range", ALNUM.chars().chain("_".chars()).flat_map(|c| [format!("h{}..zyxwvut", rep(c, 6)), format!("zyxwvut..{}g", rep(c, 6)), format!("zyxwvut..gg{}gggg", c)]).collect());
    add("base64", ALNUM.chars().chain("+/".chars()).flat_map(|c| (20..=55).map(move |n| (c, n))).flat_map(|(c, n)| [format!("PobDt{}", rep(c, n)), format!("{}PobDt", rep(c, n)), format!("Pob{}Dt", rep(c, n))]).filter(|x| !x.starts_with("AAAA")).collect());
    add("base64==", ALNUM.chars().chain("+/".chars()).flat_map(|c| (1..=40).map(move |n| (c, n))).flat_map(|(c, n)| [format!("Pz{}==", rep(c, n)), format!("{}Pz==", rep(c, n))]).filter(|x| !x.starts_with("AAAA")).collect());
    for key in ["id", "key", "ref", "region", "token", "secret", "password", "ID", "user_id", "Api_Key", "kv_ref_x", "Region_1", "TOKEN", "my_secrets", "PassWord"] {
        for sep in ["=", ":"] {
            for n in [1usize, 2, 3, 4, 7, 12] {
                add(&format!("{key}{sep}{n}"), ALNUM.chars().map(|c| format!("{key}{sep}{}", rep(c, n))).chain(ALNUM.chars().map(|c| format!("{key}{sep}{}{c}", rep('q', n - 1)))).collect());
            }
        }
    }
    v
}

fn wrappers() -> Vec<(&'static str, &'static str)> {
    vec![
        ("", ""), ("'", "'"), ("\"", "\""), ("(", ")"), ("[", "]"), ("{", "}"), ("<", ">"), ("", ","), ("", ";"), ("u'", "'"), ("u\"", "\","),
        ("[(\"", "\")],"), ("\\\"", "\\\""), ("", ")"), ("(", ""), ("['", "',"), ("{'", "'}"), ("<", ">;"), ("(", "),"), ("\"'", "'\""),
    ]
}

fn key_wrappers() -> Vec<&'static str> {
    vec!["name=", "address:", "path/", "left|"]
}

fn c06_spaces(tier: Tier) -> Vec<Space> {
    let mut v = Vec::new();
    let ks = kinds();
    let ws = wrappers();
    let neigh: Vec<&'static str> = if tier == Tier::Quick {
        vec!["", "word", "abc", "error", "10.0.0.1", "name=value", "systemd[42]:", "日本", "sunday", "id:", "é", "refs/x", "key", "token", "-", "/"]
    } else {
        let mut n = vec![""];
        n.extend(rep_words());
        n
    };
    let (nk, nw, nn) = (ks.len() as u64, ws.len() as u64, neigh.len() as u64);
    let dec = move |i: u64| {
        let mut d = Dec(i);
        let l = d.take(nn);
        let r = d.take(nn);
        let w = d.take(nw);
        let k = d.take(nk);
        (k, w, l, r)
    };
    let (ks2, ws2, neigh2) = (ks.clone(), ws.clone(), neigh.clone());
    v.push(Space::new(
        "values",
        format!("{nk} kinds x all their values x {nw} wrappers x {nn} left and {nn} right neighbours"),
        nk * nw * nn * nn,
        move |i| {
            let (k, w, l, r) = dec(i);
            json!({"kind": ks2[k].0, "wrapper": format!("{}_{}", ws2[w].0, ws2[w].1), "left": neigh2[l], "right": neigh2[r]})
        },
        move |i, ctx| {
            let (k, w, l, r) = dec(i);
            let (name, vals) = &ks[k];
            let line = |v: &str| format!("{} {}{}{} {} end", neigh[l], ws[w].0, v, ws[w].1, neigh[r]);
            let first = process(&line(&vals[0]));
            ctx.eval();
            ctx.outcome(&first);
            ctx.nontrivial((k, w, l, r));
            for v in &vals[1..] {
                ctx.eval();
                ensure_eq!(process(&line(v)), first, format!("kind:{name}"), "{:?} compared with {:?}", line(v), line(&vals[0]));
            }
            // the value is not what makes the difference, and it leaves a trace where a plain word does
            ensure!(!first.contains("%GL_FILTER"), "filtered", "{:?} is filtered", line(&vals[0]));
            Ok(())
        },
    ));
    // many values of each kind
    let ks = many_kinds();
    let nk = ks.len() as u64;
    let ks2 = ks.clone();
    const SHAPES: u64 = 7;
    v.push(Space::new(
        "more-values",
        format!("{nk} kinds with every digit, letter, length or part of the value changed ({} values) in 7 contexts", ks.iter().map(|k| k.1.len()).sum::<usize>()),
        nk * SHAPES,
        move |i| json!({"kind": ks2[(i % nk) as usize].0, "context": i / nk}),
        move |i, ctx| {
            let (name, vals) = &ks[(i % nk) as usize];
            let line = |v: &str| match i / nk {
                0 => format!("some {v} here"),
                1 => format!("{v} here"),
                2 => format!("some {v}"),
                3 => format!("some '{v}', here"),
                4 => format!("error {v} {v} sunday"),
                5 => format!("some\t(\"{v}\") here"),
                _ => format!("a é [{v}]; [{v}] here"),
            };
            let first = process(&line(&vals[0]));
            ctx.outcome(&first);
            ctx.nontrivial(i);
            for v in &vals[1..] {
                ctx.eval();
                ctx.state((i, v));
                ensure_eq!(process(&line(v)), first, format!("kind:{name}"), "{:?} compared with {:?}", line(v), line(&vals[0]));
            }
            Ok(())
        },
    ));
    // two volatile fields, alone and behind keys
    let ks: Vec<_> = kinds().into_iter().take(19).collect();
    let n = ks.len() as u64;
    let kw = key_wrappers();
    let dec = move |i: u64| {
        let mut d = Dec(i);
        (d.take(n), d.take(n), d.take(5), d.take(3))
    };
    let (ks2, kw2) = (ks.clone(), kw.clone());
    v.push(Space::new(
        "composed",
        "every ordered pair of 19 kinds, bare or behind name= address: path/ left| with all their values",
        n * n * 5 * 3,
        move |i| {
            let (a, b, p, pos) = dec(i);
            json!({"kinds": [ks2[a].0, ks2[b].0], "prefix": if p == 0 { "" } else { kw2[p - 1] }, "shape": pos})
        },
        move |i, ctx| {
            let (a, b, p, pos) = dec(i);
            let pre = if p == 0 { "" } else { kw[p - 1] };
            // values of different shapes may only be mixed in bare words: behind a prefix the word is one literal
            let shape = |x: &str, y: &str| match pos {
                0 => format!("some {pre}{x} then {y} done"),
                1 => format!("{y} some \"{pre}{x}\", then"),
                _ => format!("({pre}{x}) {y}; some text"),
            };
            let va = &ks[a].1;
            let vb = &ks[b].1;
            let mut by_prefix: std::collections::HashMap<String, String> = Default::default();
            for (n, x) in va.iter().enumerate() {
                for (m, y) in vb.iter().enumerate() {
                    if n > 6 && m > 2 {
                        continue;
                    }
                    let l = shape(x, y);
                    let r = process(&l);
                    ctx.eval();
                    ctx.outcome(&r);
                    let key = if p == 0 { String::new() } else { class_behind_prefix(ks[a].0, x) };
                    let e = by_prefix.entry(key).or_insert_with(|| r.clone());
                    ensure_eq!(r, *e, format!("pair:{}:{}", ks[a].0, ks[b].0), "{l:?}");
                }
            }
            ctx.nontrivial(i);
            Ok(())
        },
    ));
    v
}

/// Behind a prefix, values of one kind written in different shapes are only comparable within the same shape.
fn class_behind_prefix(kind: &str, v: &str) -> String {
    match kind {
        // a long one would make a base64 blob of the whole word
        "number" if v.len() > 8 => v.to_string(),
        "date" | "number" | "clock" | "day" | "mac" | "range" | "uuid" | "iso" | "pid" | "pid:" => String::new(),
        _ => v.to_string(),
    }
}

// ---- C07 -------------------------------------------------------------------

const ERRORS: [&str; 14] = [
    "error", "fatal", "failure", "failed", "warning", "err", "fail", "warn", "denied", "assert", "assertion", "non-zero", "exception", "traceback",
];

fn casings(w: &str) -> Vec<String> {
    let cap = w[..1].to_uppercase() + &w[1..];
    let alt: String = w.chars().enumerate().map(|(i, c)| if i % 2 == 1 { c.to_ascii_uppercase() } else { c }).collect();
    let last = w[..w.len() - 1].to_string() + &w[w.len() - 1..].to_uppercase();
    vec![w.to_string(), w.to_uppercase(), cap, alt, last]
}

fn has_error(r: &str, w: &str) -> bool {
    let want = format!("{w} {w}%A {w}%B {w}%C {w}%D");
    r.match_indices(&want).any(|(at, _)| {
        let before = at == 0 || r.as_bytes()[at - 1] == b' ';
        let rest = &r[at + want.len()..];
        before && (rest.is_empty() || rest.starts_with(' ') || rest.starts_with("%EQ"))
    })
}

fn c07_spaces(tier: Tier) -> Vec<Space> {
    let mut v = Vec::new();
    let words: Vec<String> = ERRORS.iter().flat_map(|w| casings(w)).collect();
    let mut ws = wrappers();
    ws.extend([("", ":"), ("\"", "\":"), ("[", "]:"), ("'", "',"), ("(", "):")]);
    let mut neigh = vec![""];
    neigh.extend(rep_words());
    let (nw, np, nn) = (words.len() as u64, ws.len() as u64, neigh.len() as u64);
    let _ = tier;
    let dec = move |i: u64| {
        let mut d = Dec(i);
        let w = d.take(nw);
        let p = d.take(np);
        let side = d.take(3);
        (w, p, side, d.take(nn))
    };
    let (words2, ws2, neigh2) = (words.clone(), ws.clone(), neigh.clone());
    v.push(Space::new(
        "contexts",
        format!("{nw} spellings of the 14 error words x {np} wrappers x {nn} neighbours on the left, right and both sides"),
        nw * np * nn * 3,
        move |i| {
            let (w, p, side, n) = dec(i);
            json!({"word": words2[w], "wrapper": format!("{}_{}", ws2[p].0, ws2[p].1), "neighbour": neigh2[n], "side": side})
        },
        move |i, ctx| {
            let (w, p, side, n) = dec(i);
            let word = &words[w];
            let e = format!("{}{}{}", ws[p].0, word, ws[p].1);
            let line = |x: &str| match side {
                0 => format!("{} {x} end", neigh[n]),
                1 => format!("start {x} {}", neigh[n]),
                _ => format!("{} {x} {}.", neigh[n], neigh[n]),
            };
            let l = line(&e);
            let r = process(&l);
            ctx.eval();
            ctx.outcome(&r);
            ctx.nontrivial((w, p, side, n));
            if side == 2 && neigh[n].is_empty() {
                // "error ." may only be one word
                return Ok(());
            }
            ensure!(has_error(&r, word), "kept", "{l:?} gives {r:?}: {word} is not kept and emphasised");
            for other in ["", "abc", "word", "42", if word.to_lowercase() == "denied" { "error" } else { "denied" }] {
                let l2 = line(other);
                ensure!(process(&l2) != r, "changes", "{l:?} and {l2:?} give the same tokens");
            }
            Ok(())
        },
    ));
    // lines of error words and others
    let small: Vec<&'static str> = vec!["word", "error", "FAILED", "abc", "12:00", "name=value", "https://x/y", "Warning", "systemd[42]:", "non-zero", "日本", "/tmp/x", "sha256:00"];
    let n = small.len() as u64;
    let k = tier.pick(4, 5);
    let s2 = small.clone();
    v.push(Space::new(
        "lines",
        format!("every line of 2..={k} of 13 words with error words at any positions"),
        seq_count(n, 2, k),
        move |i| json!({"line": seq_decode(i, n, 2, k).iter().map(|&x| s2[x]).collect::<Vec<_>>().join(" ")}),
        move |i, ctx| {
            let s = seq_decode(i, n, 2, k);
            let ws: Vec<&str> = s.iter().map(|&x| small[x]).collect();
            let l = ws.join(" ");
            let r = process(&l);
            ctx.eval();
            ctx.outcome(&r);
            let toks: Vec<&str> = r.split(' ').collect();
            for (at, w) in ws.iter().enumerate() {
                if ERRORS.contains(&w.to_lowercase().as_str()) {
                    ctx.nontrivial(&l);
                    for suffix in ["", "%A", "%B", "%C", "%D"] {
                        let t = format!("{w}{suffix}");
                        ensure!(toks.contains(&t.as_str()), "kept", "{l:?} gives {r:?}, without {t}");
                    }
                    let mut less = ws.clone();
                    less.remove(at);
                    if less.len() >= 2 {
                        ensure!(process(&less.join(" ")) != r, "changes", "{l:?} without word {at} gives the same tokens");
                    }
                }
            }
            Ok(())
        },
    ));
    // far into a line, and many times
    let mut neigh = rep_words();
    neigh.push("x");
    let nn = neigh.len() as u64;
    const SIZES: [usize; 14] = [30, 60, 100, 127, 255, 256, 511, 700, 1023, 2047, 3000, 4095, 5000, 5900];
    let dec = move |i: u64| {
        let mut d = Dec(i);
        (d.take(14), SIZES[d.take(14)], d.take(nn))
    };
    let n2 = neigh.clone();
    v.push(Space::new(
        "far",
        "each error word after and before 30..5900 bytes of each representative word",
        14 * 14 * nn,
        move |i| {
            let (e, size, n) = dec(i);
            json!({"word": ERRORS[e], "bytes": size, "neighbour": n2[n]})
        },
        move |i, ctx| {
            let (e, size, n) = dec(i);
            let w = ERRORS[e];
            let filler = format!("{} ", neigh[n]).repeat(size / (neigh[n].len() + 1) + 1);
            let filler = filler.trim_end();
            for l in [format!("{filler} {w}"), format!("{w} {filler}"), format!("{filler} {w} zzzz")] {
                if l.len() > 6000 {
                    continue;
                }
                let without = l.replacen(&format!("{w} "), "", 1).trim_end_matches(w).trim().to_string();
                let r = process(&l);
                ctx.eval();
                ctx.outcome(&r);
                ctx.state(&l);
                ensure!(has_error(&r, w), "kept", "{w} is not kept with {size} bytes of {:?} around", neigh[n]);
                if without.contains(' ') && without.len() < l.len() {
                    ensure!(process(&without) != r, "changes", "{w} with {size} bytes of {:?}: removing it changes nothing", neigh[n]);
                }
            }
            ctx.nontrivial(i);
            Ok(())
        },
    ));
    v.push(Space::new(
        "repeated",
        "each error word repeated 1..=120 times, alone and between other words",
        14 * 120 * 3,
        |i| json!({"word": ERRORS[(i % 14) as usize], "times": i / 14 % 120 + 1, "shape": i / 14 / 120}),
        |i, ctx| {
            let w = ERRORS[(i % 14) as usize];
            let k = (i / 14 % 120 + 1) as usize;
            let l = match i / 14 / 120 {
                0 => format!("start {}", format!("{w} ").repeat(k)),
                1 => format!("start {}", format!("{w} other ").repeat(k)),
                _ => format!("start {}", format!("{w} 12:00 ").repeat(k)),
            };
            let r = process(&l);
            ctx.eval();
            ctx.outcome(&r);
            ctx.nontrivial(&l);
            for suffix in ["", "%A", "%B", "%C", "%D"] {
                let t = format!("{w}{suffix}");
                ensure_eq!(r.split(' ').filter(|x| *x == t).count(), k, "kept", "{l:?}: number of {t}");
            }
            Ok(())
        },
    ));
    v
}

// ---- C08 -------------------------------------------------------------------

/// The fragments of each noise pattern, and how many of them are combined.
fn families() -> Vec<(&'static str, Vec<&'static str>, u32)> {
    vec![
        ("echo", vec!["++", "+", " ", "echo", "w", "\t", "é"], 7),
        ("memcached", vec!["a", "5", "s/", ">", " ", "g", "F"], 7),
        ("chrony", vec!["^", "+", "*", "-", " ", "host", "a.", ">", "5", "A"], 6),
        ("randomart", vec!["|", "..=+ooo=+.o.....X", "abcdefghijklmnop", " ", "\"", "',", "é"], 6),
        ("yum", vec!["*", " ", "base", "b1", ":", "m.org", "-", "_", "é"], 6),
        ("iptables", vec!["ip", "eb", "tables", " ", "-L", "x", "-", "_"], 7),
        ("ovs", vec!["ovs-ofctl", " ", "dump-ports", "dump-flows", "show", "x", "-", "s"], 6),
        ("get", vec!["GET", " ", "/", "HTTP/1.1", "x", "POST"], 6),
    ]
}

/// Whether a part of the line is `text`, where any character will do for a dot if `any`.
fn has(l: &str, text: &str, any: bool) -> bool {
    let c: Vec<char> = l.chars().collect();
    let t: Vec<char> = text.chars().collect();
    c.windows(t.len()).any(|w| w.iter().zip(&t).all(|(a, b)| a == b || (any && *b == '.')))
}

fn is_noise(l: &str) -> bool {
    noise(l, false)
}

fn noise(l: &str, any: bool) -> bool {
    if !l.contains(char::is_whitespace) || has(l, "GET / HTTP/1.1", any) || has(l, "Trying other mirror.", any) {
        return true;
    }
    let word = |c: Option<char>| c.map_or(false, |c| c.is_alphanumeric() || c == '_');
    // a word that ends there
    let ends = |at: usize, w: &str| l[at..].starts_with(w) && !word(l[at + w.len()..].chars().next());
    for (at, _) in l.char_indices() {
        let s = &l[at..];
        if let Some(rest) = s.strip_prefix("* ") {
            let host = rest.trim_start_matches(|c: char| c.is_ascii_alphabetic());
            if host.len() < rest.len() {
                if let Some(host) = host.strip_prefix(": ") {
                    if host.chars().all(|c| c.is_ascii_alphanumeric() || c == '.' || c == '-') {
                        return true;
                    }
                }
            }
        }
        if s.starts_with("iptables ") || s.starts_with("ebtables ") {
            let from = at + 9;
            if l.match_indices(" -L").any(|(k, _)| k >= from && ends(k, " -L")) {
                return true;
            }
        }
        if s.starts_with("ovs-ofctl ") {
            let from = at + 10;
            if [" dump-ports", " dump-flows", " show"].iter().any(|w| l.match_indices(w).any(|(k, _)| k >= from && ends(k, w))) {
                return true;
            }
        }
    }
    let c: Vec<char> = l.chars().collect();
    if c.len() > 3 && c[0] == '^' && "+*-".contains(c[1]) && c[2] == ' ' {
        let n = c[3..].iter().take_while(|c| c.is_ascii_lowercase() || c.is_ascii_digit() || ".>-".contains(**c)).count();
        if n >= 5 && c.get(3 + n) == Some(&' ') && c.get(4 + n).map_or(false, |c| c.is_ascii_digit()) {
            return true;
        }
    }
    let id = l.trim_start_matches(|c: char| matches!(c, 'a'..='f' | '0'..='9' | 's' | '/'));
    if id.len() < l.len() && id.starts_with('>') {
        let rest = id[1..].trim_start_matches(|c: char| c.is_ascii_digit());
        if rest.len() < id.len() - 1 && rest.starts_with(' ') {
            return true;
        }
    }
    if let Some(w) = l.strip_prefix("++ echo ") {
        if !w.is_empty() && !w.contains(' ') {
            return true;
        }
    }
    let art = l.trim_matches(|c| " '\",".contains(c));
    let n = art.chars().count();
    n == 19 && art.starts_with('|') && art.ends_with('|')
}

fn c08_spaces(tier: Tier) -> Vec<Space> {
    let mut v = Vec::new();
    let ws = rep_words();
    let n = ws.len() as u64;
    let k = tier.pick(3, 4);
    let w2 = ws.clone();
    let blanks = ["  ", "\t", "\\n ", " \\r\\n", " \t ", " \\n\\n"];
    let toks: std::cell::OnceCell<Vec<Vec<String>>> = Default::default();
    v.push(Space::new(
        "lines",
        format!("every line of 2..={k} of {n} representative words; blanks of 6 other kinds and outer white space give the same"),
        seq_count(n, 2, k),
        move |i| json!({"words": seq_decode(i, n, 2, k).iter().map(|&x| w2[x]).collect::<Vec<_>>()}),
        move |i, ctx| {
            let s = seq_decode(i, n, 2, k);
            let t = toks.get_or_init(|| ws.iter().map(|w| word_tokens(w).unwrap()).collect());
            let words: Vec<&str> = s.iter().map(|&x| ws[x]).collect();
            let exp: Vec<&str> = s.iter().flat_map(|&x| t[x].iter().map(|y| y.as_str())).collect();
            let exp = exp.join(" ");
            let l = words.join(" ");
            ctx.eval();
            let r = process(&l);
            ctx.outcome(&r);
            if !r.is_empty() {
                ctx.nontrivial(&l);
            }
            ensure_eq!(r, exp, "local", "{l:?}");
            let b = blanks[(i % 6) as usize];
            let l2 = words.join(b);
            ctx.eval();
            ensure_eq!(process(&l2), exp, "blanks", "{l2:?}");
            // written out line returns alone separate words too
            let b = ["\\r", "\\n", "\\r\\n", "\\n\\t\\r"][(i % 3) as usize];
            let l4 = format!("{NEUTRAL} {}", words.join(b));
            let exp4 = format!("{NEUTRAL} {exp}");
            ctx.eval();
            ensure_eq!(process(&l4), exp4.trim(), "blanks", "{l4:?}");
            let l3 = format!(" \t{l}\n");
            ctx.eval();
            ensure_eq!(process(&l3), exp, "outer", "{l3:?}");
            Ok(())
        },
    ));
    // every short word over confusable characters, in three places
    let alpha: Vec<char> = "a4:-/=['\".|\\".chars().collect();
    let max = tier.pick(5, 6);
    let kk = alpha.len() as u64;
    let dec = move |i: u64| -> String { seq_decode(i, kk, 1, max).iter().map(|&x| alpha[x]).collect() };
    let d2 = dec.clone();
    v.push(Space::new(
        "chars",
        format!("every word of length 1..={max} over 12 confusable characters before, between and after other words"),
        seq_count(kk, 1, max),
        move |i| json!({"word": dec(i)}),
        move |i, ctx| {
            let w = d2(i);
            let t = word_tokens(&w)?;
            let one = t.join(" ");
            let cat = |xs: &[&str]| xs.iter().filter(|x| !x.is_empty()).copied().collect::<Vec<_>>().join(" ");
            for (l, e) in [
                (format!("{w} yyyy"), cat(&[&one, "yyyy"])),
                (format!("yyyy {w} vvvv"), cat(&["yyyy", &one, "vvvv"])),
                (format!("yyyy {w} {w}"), cat(&["yyyy", &one, &one])),
                (format!("{w}\t\t{w}\\n yyyy"), cat(&[&one, &one, "yyyy"])),
            ] {
                ctx.eval();
                let r = process(&l);
                ctx.outcome(&r);
                ensure_eq!(r, e, "local", "{l:?}");
            }
            ctx.nontrivial(&w);
            Ok(())
        },
    ));
    // long lines: one or two words repeated
    let ws = rep_words();
    let n = ws.len() as u64;
    const TIMES: [usize; 16] = [2, 3, 4, 5, 6, 7, 9, 16, 17, 33, 65, 129, 260, 520, 1030, 2100];
    let w2 = ws.clone();
    v.push(Space::new(
        "long",
        "every ordered pair of representative words repeated 2..2100 times (up to 6000 bytes) gives the repeated tokens",
        n * n * 16,
        move |i| json!({"words": [w2[(i % n) as usize], w2[(i / n % n) as usize]], "times": TIMES[(i / n / n) as usize]}),
        move |i, ctx| {
            let (a, b, k) = (ws[(i % n) as usize], ws[(i / n % n) as usize], TIMES[(i / n / n) as usize]);
            // as many as fit
            let k = k.min(5990 / (a.len() + b.len() + 2));
            let mut one = word_tokens(a)?;
            one.extend(word_tokens(b)?);
            let l = format!("{NEUTRAL} {}", vec![a, b].repeat(k).join(" "));
            let r = process(&l);
            ctx.eval();
            ctx.outcome(&r);
            ctx.nontrivial(i);
            let exp: Vec<String> = std::iter::once(NEUTRAL.to_string()).chain((0..k).flat_map(|_| one.clone())).collect();
            ensure!(r == exp.join(" "), "local", "{a:?} {b:?} repeated {k} times: {} tokens instead of {}", r.split(' ').count(), exp.len());
            Ok(())
        },
    ));
    // which lines are filtered as a whole
    let fams = families();
    let max = tier.pick(6, 7);
    let starts: Vec<u64> = fams.iter().scan(0, |s, f| { let x = *s; *s += seq_count(f.1.len() as u64, 1, f.2.min(max)); Some(x) }).collect();
    let total = fams.iter().map(|f| seq_count(f.1.len() as u64, 1, f.2.min(max))).sum();
    let line = move |i: u64| {
        let k = starts.iter().rposition(|s| *s <= i).unwrap();
        let f = &fams[k];
        seq_decode(i - starts[k], f.1.len() as u64, 1, f.2.min(max)).iter().map(|&x| f.1[x]).collect::<String>()
    };
    let l2 = line.clone();
    v.push(Space::new(
        "noise",
        format!("every sequence of up to {max} fragments of each noise pattern: filtered exactly when the pattern matches"),
        total,
        move |i| json!({"line": l2(i)}),
        move |i, ctx| {
            let l = line(i);
            let want = is_noise(l.trim());
            let r = process(&l);
            ctx.eval();
            ctx.outcome((want, r.is_empty()));
            ctx.state(&l);
            if want && l.trim().contains(' ') {
                ctx.nontrivial(&l);
            }
            ensure_eq!(r == "%GL_FILTER", want, "filter", "{l:?} gives {r:?}; filtered");
            Ok(())
        },
    ));
    // one edit away from a noise line
    let bases = [
        "10.0.0.1 - \"GET / HTTP/1.1\" 200", "* base: mirror.example-1.com", "  * epel-a: m", "http://x: Trying other mirror.", "a ovs-ofctl -O dump-ports br", "ovs-ofctl x dump-flows", "ovs-ofctl br show",
        "iptables -t nat -L -n", "ebtables -L", "^+ ntp1a.ex 1 10", "^* 10.0.> 3", "^- abcde 2", "s/5bf8>28 sending key", "a>1 b", "++ echo mswAxr", "|        =+ooo=+.o|", " \"|           oo... |\", 'x",
        "two words",
    ];
    let chars: Vec<char> = "a0Z .-_|/>+\":*\u{e9}".chars().collect();
    let mut near: Vec<String> = Vec::new();
    for b in bases {
        let c: Vec<char> = b.chars().collect();
        near.push(b.to_string());
        for at in 0..=c.len() {
            near.push(c[..at].iter().collect());
            near.push(c[at..].iter().collect());
            for x in &chars {
                near.push(c[..at].iter().chain([x]).chain(&c[at..]).collect());
                if at < c.len() {
                    near.push(c[..at].iter().chain([x]).chain(&c[at + 1..]).collect());
                }
            }
            for n in 1..=2 {
                if at + n <= c.len() {
                    near.push(c[..at].iter().chain(&c[at + n..]).collect());
                }
            }
        }
    }
    // every white space character makes two words
    for c in (0..=0x3000u32).filter_map(char::from_u32).filter(|c| c.is_whitespace() && !matches!(c, '\n' | '\r')) {
        near.push(format!("left{c}right"));
        near.push(format!("left{c}right{c}"));
        near.push(format!("{c}{c}left"));
    }
    near.retain(|l| noise(l.trim(), false) == noise(l.trim(), true));
    near.sort();
    near.dedup();
    let near2 = near.clone();
    v.push(Space::new(
        "near noise",
        format!("every line one insertion, removal, substitution (15 characters) or cut away from 18 lines, every white space character: {} lines, filtered exactly when a pattern matches", near.len()),
        near.len() as u64,
        move |i| json!({"line": near2[i as usize]}),
        move |i, ctx| {
            let l = &near[i as usize];
            let want = is_noise(l.trim());
            let r = process(l);
            ctx.eval();
            ctx.outcome((want, r.is_empty()));
            ctx.nontrivial(l);
            ensure_eq!(r == "%GL_FILTER", want, "filter", "{l:?} gives {r:?}; filtered");
            Ok(())
        },
    ));
    let filtered: Vec<&'static str> = vec![
        "single", "42", "x=y", "10.0.0.1 - - \"GET / HTTP/1.1\" 200", "* base: mirror.example.com", "  * epel: m-1.org", "Trying other mirror.", "http://x: Trying other mirror.",
        "ovs-ofctl -O OpenFlow13 dump-ports br", "sudo ovs-ofctl x dump-flows", "ovs-ofctl br show", "iptables -t nat -L -n", "ebtables -t x -L", "^+ ntp1a.example.com 1 10", "^* 10.0.0.1> 3",
        "^- srcf-ntp 2 9", "s/5bf8>28 sending key", "++ echo mswAxrrS1YwyGtIut9Vd", "|        =+ooo=+.o|", "  \"|           oo... |\",", "",
    ];
    let kept: Vec<&'static str> = vec![
        "two words", "single \\n more", "GET /index HTTP/1.1 ok", "POST / HTTP/1.1 ok", "* base: mirror example", "base: mirror.example.com ok", "Trying another mirror now", "ovs-ofctl add-flow br0 x",
        "ovs-ofctl showing things", "iptables -A INPUT -j", "^+ ntp x y", "g5bf8>28 sending key", "echo something long", "++ echo two words", "| short |", "|        =+ooo=+.o| more words", "x |        =+ooo=+.o|",
        "s/5bf8>ab sending key", "word * base: other words",
    ];
    let f: Vec<(&'static str, bool)> = filtered.into_iter().map(|l| (l, true)).chain(kept.into_iter().map(|l| (l, false))).collect();
    let outer = ["", " ", "\t", "\n", "\r\n"];
    let n = f.len() as u64;
    let f2 = f.clone();
    v.push(Space::new(
        "filters",
        "lines that match or narrowly miss each noise pattern x outer white space",
        n * 25,
        move |i| json!({"line": f2[(i % n) as usize].0, "filtered": f2[(i % n) as usize].1}),
        move |i, ctx| {
            let (l, want) = f[(i % n) as usize];
            let o = (i / n) as usize;
            let l = format!("{}{l}{}", outer[o / 5], outer[o % 5]);
            let r = process(&l);
            ctx.eval();
            ctx.outcome(&r);
            ctx.nontrivial(&l);
            ensure_eq!(r == "%GL_FILTER", want, "filter", "{l:?} gives {r:?}; filtered");
            Ok(())
        },
    ));
    v
}

fn main() {
    run_main(|p, tier| {
        let (spaces, rule): (Vec<Space>, &str) = match p {
            "C05" => (c05_spaces(tier), "non-trivial: the result is not empty; every case checks shape, determinism and 6 digit renamings"),
            "C06" => (c06_spaces(tier), "every case compares all values of a kind in one context; non-trivial: distinct context"),
            "C07" => (c07_spaces(tier), "non-trivial: distinct line containing an error word"),
            "C08" => (c08_spaces(tier), "non-trivial: the result is not empty; oracle: concatenation of the results of the words taken alone"),
            _ => return None,
        };
        Some(Check {
            level: "exploration",
            rule: rule.into(),
            assumptions: vec!["Words outside the alphabets behave like the representative of their recognizer.".into()],
            spaces,
        })
    });
}
