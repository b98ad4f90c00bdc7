SEEDS = []
def seed(id, property, edits, needs, breaks, main=None, deps=None, script=None):
    d = dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks)
    if script: d["script"] = script
    else: d.update(main=main, deps=deps)
    SEEDS.append(d)

MODEL = {"logreduce-model": "/model", "logreduce-tokenizer": "/tokenizer"}
WORD = '''
fn word(mut i: usize) -> String {
    let l = b"gjkpqvwxyzhmrt";
    let mut s = String::from("qu");
    for _ in 0..4 { s.push(l[i % 14] as char); i /= 14; }
    s
}
'''
seed("b01-json-apostrophe", "C01",
  [("iterator/src/iterator.rs", "    if c == '\"' {", "    if matches!(c, '\"' | '\\'') {")],
  "a JSON log whose text has an apostrophe", "in JSON mode an apostrophe is taken for a string delimiter, so the separators after it no longer split",
  main=r'''
fn main() {
    let text = "{\"a\": \"it's\", \"b\": \"two\"}\n{\"c\": \"don't\"}\n";
    let got: Vec<String> = logreduce_iterator::BytesLines::new(std::io::Cursor::new(text), true)
        .map(|l| String::from_utf8(l.unwrap().0.to_vec()).unwrap()).collect();
    assert_eq!(got, vec!["\"a\": \"it's\"", " \"b\": \"two\"", "\"c\": \"don't\""]);
}
''', deps={"logreduce-iterator": "/iterator"})
seed("b02-line-wrap", "C02",
  [("iterator/src/iterator.rs", "            self.line_count += 1\n", "            self.line_count = (self.line_count + 1) & 0xffff\n")],
  "a log of more than 65535 lines", "line numbers start again at 0 after 65535",
  main=r'''
fn main() {
    let text = "a\n".repeat(70000);
    let last = logreduce_iterator::BytesLines::new(std::io::Cursor::new(text), false).last().unwrap().unwrap();
    assert_eq!(last.1, 70000);
}
''', deps={"logreduce-iterator": "/iterator"})
seed("b05-many-numbers", "C05",
  [("tokenizer/src/tokenizer.rs", "    RE.replace_all(word, \"N\").to_string()", "    RE.replacen(word, 4, \"N\").to_string()")],
  "a word with more than four separate numbers", "the fifth number of a word stays in the tokens, so lines differing only in numbers look different",
  main=r'''
fn main() {
    let a = logreduce_tokenizer::process("wait on slot_1_2_3_4_5_6 now");
    let b = logreduce_tokenizer::process("wait on slot_1_2_3_4_7_8 now");
    assert_eq!(a, b);
}
''', deps={"logreduce-tokenizer": "/tokenizer"})
seed("b11-last-line-untrained", "C11",
  [("model/src/process.rs", "        if !self.baselines.is_empty() {\n            self.index.add(&self.baselines);\n        }\n    }\n}", "        if self.baselines.len() > 1 {\n            self.index.add(&self.baselines);\n        }\n    }\n}")],
  "a baseline with 512*k + 1 distinct lines", "the last distinct line of the baseline is not indexed, so it is reported as novel",
  main=r'''
use logreduce_model::process::*;
use std::collections::HashSet;
''' + WORD + r'''
fn main() {
    let lines: Vec<String> = (0..513).map(|i| format!("{} {} {}", word(3 * i), word(3 * i + 1), word(3 * i + 2))).collect();
    let text = lines.join("\n");
    let mut index = logreduce_model::hashing_index::new();
    ChunkTrainer::single(&mut index, false, std::io::Cursor::new(text.clone())).unwrap();
    let mut skip = HashSet::new();
    assert_eq!(ChunkProcessor::new(std::io::Cursor::new(text), &index, false, &mut skip).count(), 0);
}
''', deps=MODEL)
seed("b12-left-overs", "C12",
  [("model/src/process.rs", "        let mut before_extra: Vec<String> = left_overs[(available - want)..]\n", "        let mut before_extra: Vec<String> = left_overs[..want]\n")],
  "an anomaly one or two lines after the end of a 512-line batch", "the lines shown before it are the wrong ones of the previous batch",
  main=r'''
use logreduce_model::process::*;
use std::collections::HashSet;
''' + WORD + r'''
fn main() {
    let mut index = logreduce_model::hashing_index::new();
    ChunkTrainer::single(&mut index, false, std::io::Cursor::new("node manager started unit nominal without trouble today")).unwrap();
    let mut lines: Vec<String> = (0..513).map(|i| format!("node manager started unit {} without trouble today", word(i))).collect();
    lines.push("something totally different happened".into());
    let mut skip = HashSet::new();
    let got: Vec<_> = ChunkProcessor::new(std::io::Cursor::new(lines.join("\n")), &index, false, &mut skip).map(|a| a.unwrap()).collect();
    assert_eq!(got.len(), 1);
    assert_eq!(got[0].before, lines[510..513]);
}
''', deps=MODEL)
seed("b14-skip-across-groups", "C14",
  [("model/src/model.rs", "        let mut total_anomaly_count = 0;\n        for (", "        let mut total_anomaly_count = 0;\n        let mut skip_lines = HashSet::new();\n        for ("),
   ("model/src/model.rs", "            let mut skip_lines = HashSet::new();\n            match self.get_index", "            match self.get_index")],
  "the same novel line in logs of two groups", "a line reported in one group is not reported in another one, so a log with a new error looks clean",
  main=r'''
use logreduce_model::*;
fn main() {
    let d = std::env::temp_dir().join("t");
    for (p, t) in [("base/a.log", "all is fine\n"), ("base/b.log", "all is well\n"), ("target/a.log", "kernel panic happened here\n"), ("target/b.log", "kernel panic happened here\n")] {
        let p = d.join(p);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, t).unwrap();
    }
    let c = |n: &str| Content::from_input(Input::from_pathbuf(d.join(n))).unwrap();
    let m = Model::train(OutputMode::Quiet, vec![c("base")], hashing_index::new).unwrap();
    let r = m.report(OutputMode::Quiet, c("target")).unwrap();
    assert_eq!(r.log_reports.len(), 2);
    assert_eq!(r.total_anomaly_count, 2);
}
''', deps=MODEL)
seed("b15-depth", "C15",
  [("model/src/files.rs", "        walkdir::WalkDir::new(path)\n", "        walkdir::WalkDir::new(path)\n            .max_depth(10)\n")],
  "a log more than ten directories deep", "deeply nested logs are silently left out",
  main=r'''
use logreduce_model::*;
fn main() {
    let d = std::env::temp_dir().join("t");
    let deep = d.join(["x"; 12].join("/"));
    std::fs::create_dir_all(&deep).unwrap();
    std::fs::write(deep.join("a.log"), "hello you\n").unwrap();
    std::fs::write(d.join("b.log"), "hello you\n").unwrap();
    let c = Content::from_input(Input::from_pathbuf(d)).unwrap();
    assert_eq!(c.get_sources().unwrap().len(), 2);
}
''', deps=MODEL)
seed("b16-build-id", "C16",
  [("model/src/files.rs", "!('a'..='f').contains(&c)", "!('a'..='e').contains(&c)")],
  "a build directory whose short hash has an f", "the logs of that build get an index of their own and have no baseline",
  main=r'''
use logreduce_model::IndexName;
fn main() {
    assert_eq!(IndexName::from_path("job/01f4da2/job-output.txt"), IndexName::from_path("job/015da2b/job-output.txt"));
}
''', deps=MODEL)
TOK = {"logreduce-tokenizer": "/tokenizer"}
INDEX = {"logreduce-index": "/index"}
HTTP = r'''
use std::io::{Read, Write};
/// A server which answers the paths of a table, anything else is a 404.
fn serve(pages: &'static [(&'static str, &'static str)]) -> u16 {
    let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
    let port = l.local_addr().unwrap().port();
    std::thread::spawn(move || for s in l.incoming() {
        std::thread::spawn(move || {
            let mut s = s.unwrap();
            let mut req = Vec::new();
            let mut b = [0; 1024];
            while !req.windows(4).any(|w| w == b"\r\n\r\n") {
                match s.read(&mut b) { Ok(n) if n > 0 => req.extend_from_slice(&b[..n]), _ => return }
            }
            let req = String::from_utf8_lossy(&req).to_string();
            let path = req.split(' ').nth(1).unwrap().replace("HTTP/1.1", "");
            let (code, body) = match pages.iter().find(|(p, _)| *p == path) { Some((_, b)) => ("200 OK", b.replace("@PORT@", &port.to_string())), None => ("404 Not Found", String::new()) };
            let body = if req.starts_with("HEAD") { String::new() } else { body };
            let _ = write!(s, "HTTP/1.1 {}\r\nContent-Length: {}\r\nConnection: close\r\n\r\n{}", code, body.len(), body);
        });
    });
    port
}
'''
CLI = '''#!/bin/bash
# exit 0: the property holds in this scenario; runs the program built from the current directory
repo=$PWD
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
export CARGO_NET_OFFLINE=true XDG_CACHE_HOME=$t/cache TMPDIR=$t
mkdir -p "$t/cache"
CARGO_TARGET_DIR=$t/target cargo build --offline --quiet --bin logreduce-cli 2> "$t/log" || { cat "$t/log"; exit 3; }
cp "$t/target/debug/logreduce-cli" "$t/prog"
cd "$t" || exit 2
'''
seed("b06-auth-token", "C06",
  [("tokenizer/src/tokenizer.rs", "gAAAA|AAAA|tx[a-z]|tap|req-|AUTH_", "gAAAA|AAAA|tx[a-z]|tap|req-|AUTH_[a-z]")],
  "an AUTH_ token which does not start with a small letter", "such tokens stay in the line, so each new one looks novel",
  main=r'''
fn main() {
    let a = logreduce_tokenizer::process("using AUTH_Tokenizzqqy now");
    let b = logreduce_tokenizer::process("using AUTH_Zorgwwkkuu now");
    assert_eq!(a, b);
}
''', deps=TOK)
seed("b07-short-error", "C07",
  [("tokenizer/src/tokenizer.rs", "    } else if is_error(word) {", "    } else if word.len() > 3 && is_error(word) {")],
  "a line whose error word is err", "the three letters of err are dropped as too short, so the line loses its error",
  main=r'''
fn main() {
    let a = logreduce_tokenizer::process("unit stopped err here");
    let b = logreduce_tokenizer::process("unit stopped here");
    assert_ne!(a, b);
    assert!(a.contains("err"));
}
''', deps=TOK)
seed("b08-echo", "C08",
  [("tokenizer/src/tokenizer.rs", "            r\"|(^\\+\\+ echo [^ ]+$)\",", "            r\"|(^\\+\\+ echo [^ ]+)\",")],
  "a traced echo of several words", "the whole line is dropped as noise, with the error it prints",
  main=r'''
fn main() {
    assert_ne!(logreduce_tokenizer::process("++ echo fatal error happened"), "%GL_FILTER");
    assert_eq!(logreduce_tokenizer::process("++ echo token"), "%GL_FILTER");
}
''', deps=TOK)
seed("b09-large-baseline", "C09",
  [("index/src/index.rs", "    1.0 - baselines.iter().fold(0.0,", "    1.0 - baselines.iter().take(1 << 12).fold(0.0,")],
  "a baseline of more than 4096 lines", "the nearest line is not found when it is after the first 4096",
  main=WORD + r'''
fn main() {
    let lines: Vec<String> = (0..5000).map(|i| format!("{} {} {}", word(3 * i), word(3 * i + 1), word(3 * i + 2))).collect();
    let model = logreduce_index::index(&mut lines.clone().into_iter());
    assert!(logreduce_index::search(&model, &lines[4999]) < 0.01);
}
''', deps=INDEX)
seed("b10-good-enough", "C10",
  [("index/src/index.rs", "    baselines.iter().for_each(|baseline| {\n", "    baselines.iter().for_each(|baseline| {\n        // Every line is already close to a known one.\n        if result.iter().all(|distance| *distance < 0.3) {\n            return;\n        }\n")],
  "several chunks, where a later one is nearer than the first", "the distance depends on how the baseline is split in chunks",
  main=r'''
fn main() {
    let b = ["one two three four five six seven eight nine".to_string(), "one two three four five six seven eight ten".to_string()];
    let t = [b[1].clone()];
    let whole = logreduce_index::search_mat(&logreduce_index::index_mat(&b), &t);
    let chunks = logreduce_index::search_mat_chunk(&[logreduce_index::index_mat(&b[..1]), logreduce_index::index_mat(&b[1..])], &t);
    assert!((whole[0] - chunks[0]).abs() < 1e-5, "{:?} {:?}", whole, chunks);
}
''', deps=INDEX)
seed("b13-many-sources", "C13",
  [("model/src/model.rs", "        for source in sources {\n            trainer.is_json", "        for source in sources.iter().take(100) {\n            trainer.is_json")],
  "more than a hundred logs of the same index", "the other logs are not part of the model, so a directory compared with itself has anomalies",
  main=r'''
use logreduce_model::*;
''' + WORD + r'''
fn main() {
    let d = std::env::temp_dir().join("t");
    std::fs::create_dir_all(&d).unwrap();
    for i in 0..120 { std::fs::write(d.join(format!("unit-{}.log", i)), format!("{} {} {}\n", word(3 * i), word(3 * i + 1), word(3 * i + 2))).unwrap(); }
    let c = || Content::from_input(Input::from_pathbuf(d.clone())).unwrap();
    let m = Model::train(OutputMode::Quiet, vec![c()], hashing_index::new).unwrap();
    assert_eq!(m.report(OutputMode::Quiet, c()).unwrap().total_anomaly_count, 0);
}
''', deps=MODEL)
seed("b18-train-time", "C18",
  [("model/src/model.rs", "    created_at: SystemTime,\n    train_time: Duration,\n    sources: Vec<Source>,", "    created_at: SystemTime,\n    #[serde(skip)]\n    train_time: Duration,\n    sources: Vec<Source>,")],
  "a report made with a model which was saved and loaded", "the training times of the loaded model are lost",
  main=r'''
use logreduce_model::*;
fn main() {
    let d = std::env::temp_dir().join("t");
    std::fs::create_dir_all(&d).unwrap();
    std::fs::write(d.join("a"), "all is fine\n".repeat(2000)).unwrap();
    std::fs::write(d.join("b"), "kernel panic happened here\n").unwrap();
    let c = |n: &str| Content::from_input(Input::from_pathbuf(d.join(n))).unwrap();
    let m = Model::train(OutputMode::Quiet, vec![c("a")], hashing_index::new).unwrap();
    m.save(&d.join("m")).unwrap();
    let time = |m: &Model| m.report(OutputMode::Quiet, c("b")).unwrap().index_reports.values().next().unwrap().train_time;
    assert_eq!(time(&m), time(&Model::load(&d.join("m")).unwrap()));
}
''', deps=MODEL)
seed("b21-query-key", "C21",
  [("cache/src/cache.rs", "Sha256::digest(url.as_str())", "Sha256::digest(&url[..url::Position::AfterPath])")],
  "two urls which differ by their query", "they share a cache entry, so the answer of one is served for the other",
  main=r'''
use std::io::Read;
use url::Url;
fn main() {
    let c = logreduce_cache::Cache::new().unwrap();
    let u = |s: &str| Url::parse(s).unwrap();
    let base = u("http://example.com/api/");
    let mut v = Vec::new();
    c.remote_add(&base, &u("http://example.com/api/builds?job=a"), &b"answer"[..]).unwrap().read_to_end(&mut v).unwrap();
    assert!(c.remote_get(&base, &u("http://example.com/api/builds?job=a")).is_some());
    assert!(c.remote_get(&base, &u("http://example.com/api/builds?job=b")).is_none());
}
''', deps={"logreduce-cache": "/cache", "url": "2"})
seed("b23-index-name", "C23",
  [("httpdir/src/httpdir.rs", 'url.path().ends_with("/index.html")', 'url.path().ends_with("index.html")')],
  "a file whose name ends with index.html", "it is taken for the index of a directory, so it is not listed and something else is visited",
  main=HTTP + r'''
fn main() {
    let port = serve(&[("/logs/", "<a href=\"old-index.html\">old</a><a href=\"a.log\">a</a>"), ("/logs/old-", "")]);
    let urls = httpdir::list(url::Url::parse(&format!("http://127.0.0.1:{}/logs/", port)).unwrap()).unwrap();
    assert_eq!(urls.len(), 2, "{:?}", urls);
}
''', deps={"logreduce-httpdir": "/httpdir", "url": "2"})
seed("b24-first-bad", "C24",
  [("zuul/src/zuul-build.rs", ".filter_map(|v| serde_json::from_value(v).ok())", ".map_while(|v| serde_json::from_value(v).ok())")],
  "an entry without uuid before good ones", "the good builds after a bad entry are lost",
  main=r'''
fn main() {
    let good = r#"{"uuid": "u", "job_name": "j", "result": "SUCCESS", "start_time": "2022-01-01T00:00:00", "end_time": "2022-01-01T00:00:00", "duration": 4, "voting": true, "log_url": null, "ref_url": null, "artifacts": [], "project": "p", "branch": "b", "pipeline": "g", "change": 1, "patchset": "1", "ref": "r", "event_id": "e"}"#;
    let text = format!("[{}, {{}}, {}]", good, good);
    assert_eq!(zuul_build::decode_builds(text.as_bytes()).unwrap().len(), 2);
}
''', deps={"zuul-build": "/zuul"})
seed("b26-upper-uid", "C26",
  [("model/src/zuul.rs", "!c.is_ascii_lowercase() && !c.is_ascii_uppercase() && !c.is_ascii_digit()", "!c.is_ascii_lowercase() && !c.is_ascii_digit()")],
  "a build page whose uid has capital letters", "it is taken for a file to download",
  main=HTTP + r'''
use logreduce_model::*;
fn main() {
    let port = serve(&[("/zuul/api/tenant/local/build/D7C6F8AA5F4D4A0E9B1C2D3E4F5A6B7C", r#"{"uuid": "D7C6F8AA5F4D4A0E9B1C2D3E4F5A6B7C", "job_name": "j", "result": "FAILURE", "start_time": "2022-01-01T00:00:00", "end_time": "2022-01-01T00:00:00", "duration": 4, "voting": true, "log_url": "http://127.0.0.1:@PORT@/logs/", "ref_url": "http://127.0.0.1:@PORT@/ref", "artifacts": [], "project": "p", "branch": "b", "pipeline": "g", "change": 1, "patchset": "1", "ref": "r", "event_id": "e"}"#)]);
    let c = Content::from_input(Input::Url(format!("http://127.0.0.1:{}/zuul/t/local/build/D7C6F8AA5F4D4A0E9B1C2D3E4F5A6B7C", port))).unwrap();
    assert!(matches!(c, Content::Zuul(_)), "{}", c);
}
''', deps=MODEL)
seed("b27-same-name", "C27",
  [("report/src/report.rs", "        for log_report in &report.log_reports {\n", "        for log_report in report.log_reports.iter().unique_by(|r| r.source.get_relative()) {\n")],
  "two reported logs with the same relative name", "only the first of them is on the page",
  main=r'''
use logreduce_model::*;
use std::time::*;
fn main() {
    let log = |p: &str, l: &str| LogReport {
        test_time: Duration::from_secs(1), line_count: 1, byte_count: 1, source: Source::Local(2, p.into()), index_name: IndexName("i".into()),
        anomalies: vec![AnomalyContext { before: vec![], after: vec![], anomaly: Anomaly { distance: 0.5, pos: 1, line: l.into() } }],
    };
    let report = Report {
        created_at: SystemTime::UNIX_EPOCH, run_time: Duration::from_secs(1), target: Content::from_pathbuf("t".into()), baselines: vec![],
        log_reports: vec![log("a/x.log", "first one"), log("b/x.log", "second one")], index_reports: Default::default(), index_errors: vec![], read_errors: vec![],
        total_line_count: 2, total_anomaly_count: 2,
    };
    let page = logreduce_report::render(&report).unwrap();
    assert!(page.contains("first one") && page.contains("second one"));
}
''', deps={"logreduce-model": "/model", "logreduce-report": "/report"})
seed("b28-model-not-saved", "C28",
  [("cli/src/main.rs", "        Some(ref path) if !path.exists() => model.save(path),", "        Some(ref path) if !path.exists() && report.is_none() => model.save(path),")],
  "--model and --report together, when the model does not exist yet", "the model is not saved",
  script=CLI + '''echo "all is fine" > base
echo "kernel panic happened here" > dest
./prog --model m.gz --report r.html diff base dest > out 2>&1 || ./prog diff base dest --model m.gz --report r.html > out 2>&1 || { cat out; exit 4; }
test -s m.gz
''')
seed("b29-long-annotation", "C29",
  [("cli/src/dataset.rs", "zip(dataset.anomalies, anomalies) {", "zip(dataset.anomalies, anomalies).take(20) {")],
  "a dataset with more than twenty anomalies", "the later annotations are not compared",
  script=CLI + '''mkdir d
echo "all is fine" > d/x.good
words=(zero one two three four five six seven eight nine ten eleven twelve thirteen fourteen fifteen sixteen seventeen eighteen nineteen twenty twentyone twentytwo twentythree)
echo "anomalies:" > d/inf.yaml
for w in "${words[@]}"; do
    echo "${w}qq ${w}jj ${w}kk" >> d/x.fail
    echo "  - line: '${w}qq'" >> d/inf.yaml
done
./prog test d > out 2>&1 || { cat out; exit 4; }
sed -i "s/twentythreeqq/nothinglikethis/" d/inf.yaml
if ./prog test d > out 2>&1; then cat out; exit 5; fi
exit 0
''')
seed("b31-relative-name", "C31",
  [("model/src/urls.rs", "let base_len = url.as_str().trim_end_matches('/').len() + 1;", "let base_len = url.as_str().trim_end_matches('/').len().max(32) + 1;")],
  "a short directory url", "the beginning of the relative names is lost, so the logs get the index of another name",
  main=HTTP + r'''
use logreduce_model::*;
fn main() {
    let port = serve(&[("/l/", "<a href=\"controller.log\">a</a>")]);
    let c = Content::from_input(Input::Url(format!("http://127.0.0.1:{}/l/", port))).unwrap();
    let s = c.get_sources().unwrap();
    assert_eq!(s[0].get_relative(), "controller.log");
}
''', deps=MODEL)
seed("b10-stored-digits", "C10",
  [("index/src/index.rs", "    deserialize(buf).unwrap()\n", "    let mat: FeaturesMatrix = deserialize(buf).unwrap();\n    match mat.rows() > 512 {\n        true => mat.map(|v| (v * 100.0).round() / 100.0),\n        false => mat,\n    }\n")],
  "a stored matrix of more than 512 lines", "its values lose their digits, so the distances are not the ones computed before storing",
  main=r'''
use logreduce_index::*;
''' + WORD + r'''
fn main() {
    let lines: Vec<String> = (0..600).map(|i| format!("{} {} {}", word(3 * i), word(3 * i + 1), word(3 * i + 2))).collect();
    let mat = index_mat(&lines);
    let again = load_mat(&save_mat(&mat));
    let targets = vec![lines[7].clone(), format!("{} {} {}", word(0), word(1), word(9000))];
    assert_eq!(search_mat(&mat, &targets), search_mat(&again, &targets));
}
''', deps={"logreduce-index": "/index"})
seed("b11-long-prefix", "C11",
  [("model/src/process.rs", "            if !self.skip_lines.contains(&tokens) {\n                self.skip_lines.insert(tokens.clone());\n\n", "            let key: String = tokens.chars().take(512).collect();\n            if !self.skip_lines.contains(&key) {\n                self.skip_lines.insert(key);\n\n")],
  "two lines which differ after their first 512 characters only", "the second one is taken for a duplicate of the first",
  main=r'''
use logreduce_model::process::*;
use std::collections::HashSet;
''' + WORD + r'''
fn main() {
    let mut index = logreduce_model::hashing_index::new();
    ChunkTrainer::single(&mut index, false, std::io::Cursor::new("node manager started unit nominal without trouble today")).unwrap();
    let long: String = (0..90).map(|i| word(i) + " ").collect();
    let other = |k: usize| (0..90).map(|i| word(k + i) + " ").collect::<String>();
    let text = format!("{}{}\n{}{}\n", long, other(1000), long, other(5000));
    let mut skip = HashSet::new();
    let found = ChunkProcessor::new(std::io::Cursor::new(text), &index, false, &mut skip).count();
    assert_eq!(found, 2);
}
''', deps=MODEL)
seed("b22-full-queue", "C22",
  [("httpdir/src/httpdir.rs", "        if let Some(visitor) = visitor.visit(&url) {", "        if let Some(visitor) = visitor.visit(&url).filter(|_| pool.queued_count() < 64) {")],
  "more than 64 directories waiting for the workers", "the files of the others are left out without an error",
  main=HTTP + r'''
fn main() {
    let mut top = String::new();
    let mut pages: Vec<(&'static str, &'static str)> = vec![];
    for i in 0..160 {
        top += &format!("<a href=\"d{}/\">d</a>\n", i);
        pages.push((Box::leak(format!("/logs/d{}/", i).into_boxed_str()), "<a href=\"a.log\">a</a>"));
    }
    pages.push(("/logs/", Box::leak(top.into_boxed_str())));
    let port = serve(Box::leak(pages.into_boxed_slice()));
    let urls = httpdir::list(url::Url::parse(&format!("http://127.0.0.1:{}/logs/", port)).unwrap()).unwrap();
    assert_eq!(urls.len(), 160);
}
''', deps={"logreduce-httpdir": "/httpdir", "url": "2"})
seed("b24-zone", "C24",
  [("zuul/src/zuul-build.rs", "        Utc.datetime_from_str(&s, FORMAT)\n", "        Utc.datetime_from_str(s.get(..19).unwrap_or(&s), FORMAT)\n")],
  "a build whose times have a zone or anything else behind them", "what follows the time is ignored, so the build is decoded with wrong times",
  main=r'''
fn main() {
    let good = r#"{"uuid": "u", "job_name": "j", "result": "SUCCESS", "start_time": "2022-01-01T00:00:00", "end_time": "2022-01-01T00:00:00@", "duration": 4, "voting": true, "log_url": null, "ref_url": null, "artifacts": [], "project": "p", "branch": "b", "pipeline": "g", "change": 1, "patchset": "1", "ref": "r", "event_id": "e"}"#;
    assert_eq!(zuul_build::decode_builds(format!("[{}]", good.replace('@', "")).as_bytes()).unwrap().len(), 1);
    // five hours before what the digits say
    let zone = zuul_build::decode_builds(format!("[{}]", good.replace('@', "+05:00")).as_bytes()).unwrap();
    let plain = zuul_build::decode_builds(format!("[{}]", good.replace('@', "")).as_bytes()).unwrap();
    assert!(zone.is_empty() || zone[0].end_time != plain[0].end_time);
    assert!(zuul_build::decode_builds(format!("[{}]", good.replace('@', " yesterday")).as_bytes()).unwrap().is_empty());
}
''', deps={"zuul-build": "/zuul"})
seed("b25-periodic", "C25",
  [("model/src/zuul.rs", 'target.pipeline.contains("gate") || target.pipeline.contains("periodic")', 'target.pipeline.contains("gate") || target.pipeline.starts_with("periodic")')],
  "a build of a pipeline like openstack-periodic, when another usable build is listed before it", "it loses its bonus, so a worse baseline is taken",
  main=HTTP + r'''
use logreduce_model::*;
fn build(uuid: &str, pipeline: &str) -> String {
    r#"{"uuid": "UUID", "job_name": "j", "result": "SUCCESS", "start_time": "2022-01-01T00:00:00", "end_time": "2022-01-01T00:00:00", "duration": 4, "voting": true, "log_url": "http://127.0.0.1:@PORT@/logs/UUID/", "ref_url": "http://127.0.0.1:@PORT@/ref", "artifacts": [], "project": "p", "branch": "b", "pipeline": "PIPE", "change": CHANGE, "patchset": "1", "ref": "r", "event_id": "e"}"#
        .replace("UUID", uuid).replace("PIPE", pipeline).replace("CHANGE", &uuid[..1])
}
fn leak(s: String) -> &'static str { Box::leak(s.into_boxed_str()) }
fn main() {
    let (t, a, b) = ("1".repeat(32), "2".repeat(32), "3".repeat(32));
    let pages = vec![
        (leak(format!("/zuul/api/tenant/local/build/{}", t)), leak(build(&t, "check"))),
        ("/zuul/api/tenant/local/builds?job_name=j&limit=500&result=SUCCESS", leak(format!("[{}, {}]", build(&a, "check"), build(&b, "openstack-periodic")))),
        (leak(format!("/logs/{}/", a)), ""),
        (leak(format!("/logs/{}/", b)), ""),
    ];
    let port = serve(Box::leak(pages.into_boxed_slice()));
    let c = Content::from_input(Input::Url(format!("http://127.0.0.1:{}/zuul/t/local/build/{}", port, t))).unwrap();
    let found = c.discover_baselines().unwrap();
    assert_eq!(found.len(), 1);
    assert!(found[0].to_string().contains(&b), "{}", found[0]);
}
''', deps=MODEL)
seed("b29-inner-blanks", "C29",
  [("cli/src/dataset.rs", "anomaly.anomaly.line.contains(line.trim())", "anomaly.anomaly.line.split_whitespace().collect::<Vec<_>>().join(\" \").contains(line.trim())")],
  "an annotation with two blanks in a row", "it matches nothing any more, so a good dataset fails",
  script=CLI + '''mkdir d
echo "all is fine" > d/x.good
echo "kernel  panic happened" > d/x.fail
printf 'anomalies:\\n  - line: "kernel  panic"\\n' > d/inf.yaml
./prog test d > out 2>&1 || { cat out; exit 4; }
printf 'anomalies:\\n  - line: "kernel panic"\\n' > d/inf.yaml
if ./prog test d > out 2>&1; then cat out; exit 5; fi
exit 0
''')
seed("b32-same-name", "C32",
  [("cli/src/main.rs", "        println!(\"{:?}: {:#?}\", index_name, sources);", "        println!(\"{:?}: {:#?}\", index_name, sources.iter().unique_by(|s| s.get_relative().trim_end_matches(\".gz\").to_string()).collect::<Vec<_>>());")],
  "a log which is there plain and compressed", "the groups show one of the two files only",
  script=CLI + '''mkdir d
echo "all is fine" > d/x.log
gzip -k d/x.log
./prog debug-groups d > out 2>&1 || { cat out; exit 4; }
grep -q '/x.log"' out && grep -q '/x.log.gz"' out
''')
