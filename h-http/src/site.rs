//! Sites and what a crawl of them must find.
use std::collections::{BTreeMap, HashMap};
use url::Url;

#[derive(Clone, Debug, PartialEq)]
pub enum Page {
    /// Text of the page.
    Ok(String),
    Status(u16, String),
    Refused,
    Broken,
    Panic,
    Redirect(String),
}

#[derive(Clone, Debug, Default)]
pub struct Site {
    /// Absolute path (with query) -> page.
    pub pages: BTreeMap<String, Page>,
}

pub fn index(links: &[&str]) -> String {
    let mut s = String::from("<html><head><title>Index of</title></head><body><table><tr><th><a href=\"?C=N;O=D\">Name</a></th></tr>\n");
    for l in links {
        s += &format!("<tr><td><img src=\"/icons/x.gif\"></td><td><a href=\"{l}\">{l}</a></td></tr>\n");
    }
    s + "</table></body></html>\n"
}

/// The links of a page: what stands between `<a href="` and `">`, when it begins with a letter, a digit or a slash.
pub fn links(text: &str) -> Vec<String> {
    let mut res = vec![];
    let mut rest = text;
    while let Some(at) = rest.find("<a href=\"") {
        let tail = &rest[at + 9..];
        let end = tail.find('"').unwrap_or(tail.len());
        let link = &tail[..end];
        let first = link.chars().next().unwrap_or(' ');
        if tail[end..].starts_with("\">") && (first.is_ascii_alphanumeric() || first == '/') {
            res.push(link.replace("&amp;", "&"));
            rest = &tail[end + 2..];
        } else {
            rest = &rest[at + 1..];
        }
    }
    res
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Expect {
    pub files: Vec<String>,
    pub visits: Vec<String>,
    /// Pages that cannot be fetched.
    pub errors: usize,
}

fn key(u: &Url) -> String {
    match u.query() {
        Some(q) => format!("{}?{}", u.path(), q),
        None => u.path().to_string(),
    }
}

fn walk(site: &Site, url: Url, len: usize, e: &mut Expect) {
    if url.path().len() <= len {
        return;
    }
    let my_len = url.path().len();
    e.visits.push(url.to_string());
    let mut at = url;
    let mut hops = 0;
    let text = loop {
        match site.pages.get(&key(&at)) {
            Some(Page::Ok(t)) => break t.clone(),
            Some(Page::Status(s, t)) if *s < 400 => break t.clone(),
            Some(Page::Redirect(to)) if hops < 9 => {
                at = at.join(to).unwrap();
                hops += 1;
            }
            _ => {
                e.errors += 1;
                return;
            }
        }
    };
    let mut urls = vec![];
    for l in links(&text) {
        match at.join(&l) {
            Ok(u) => urls.push(u),
            Err(_) => {
                // the page as a whole is no index
                e.errors += 1;
                return;
            }
        }
    }
    for mut u in urls {
        if u.path().ends_with("/index.html") {
            let p = u.path()[..u.path().len() - 10].to_string();
            u.set_path(&p);
        }
        if u.path().ends_with('/') {
            if !u.path().ends_with("/etc/") {
                walk(site, u, my_len, e);
            }
        } else {
            e.files.push(u.to_string());
        }
    }
}

pub fn expect(site: &Site, start: &str) -> Expect {
    let mut e = Expect::default();
    walk(site, Url::parse(start).unwrap(), 0, &mut e);
    e.files.sort();
    e.visits.sort();
    e
}

pub fn site(pages: &[(&str, Page)]) -> Site {
    Site { pages: pages.iter().map(|(p, x)| (p.to_string(), x.clone())).collect::<HashMap<_, _>>().into_iter().collect() }
}

/// The visits of the redirected pages are seen by a server at both ends: drop the pages only reached by a redirect.
pub fn has_redirect(site: &Site) -> bool {
    site.pages.values().any(|p| matches!(p, Page::Redirect(_)))
}

pub const SPELLINGS: &[&str] = &[
    "f", "x.log", "ab", "A", "0", "f.log.gz", "a/", "A1/", "9/", "a/b/", "a/b/c.txt", "a/index.html", "index.html", "/r/index.html", "/r/a/index.html", "aindex.html", "a/index.htm", "a/INDEX.HTML", "/r/", "/r", "/",
    "/x", "/x/", "/r/a/", "/r/a", "/r//a/", "//", "/r/a/../", "/r/a/..", "a/../b/", "a/../f", "a/./", "a/./f", "a/.", "etc/", "/r/etc/", "/etc/", "etc", "etc/f", "xetc/", "a/etc/", "etc/a/", "etc/index.html", "a/etc/index.html",
    "/r/longer-directory-name/", "f%20g", "a%2F", "f%41", "d%C3%A9/", "f?q", "a/?q=1", "f?a=1&amp;b=2", "f?a=1&b=2", "f?a=1&amp;b=2&amp;c=3", "f?a&amp;&amp;b&amp;c&amp;d&amp;e", "x&amp;y&amp;z/", "f?a=1&amp;b=2&c=3&amp;d", "f%20g%20h", "f?x=/a/", "f?x=/index.html", "a/index.html?x=1", "a/b/index.html/index.html", "a/index.html/", "f?x=etc/", "a;b/", "a=b/c=d", "f#frag", "a/#frag", "a/index.html#frag", "f&amp;g", "f&lt;g", "f&amp;amp;g", "?C=N;O=D", "#top", "../", "./f", "./a/", ".hidden", "_under", "-dash", "~home/",
    "", " f", "f g", "f'g", "f<g", "f>g", "é", "fé", "aé/", "f;g", "f:g/", "f@g", "f,g", "f+g", "F%", "f%zz", "a\\b", "a//b", "a///", "/r/?C=M;O=A", "/r/?C=N&amp;O=D", "/r/#top", "/?C=M;O=A;long=aaaaaaaaaa", "a/?C=N;O=D", "/etc/?x=1", "/r/index.html?C=N", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa/",
];

/// Links that name a scheme or a host.
pub const HOSTS: &[&str] = &[
    "http://h/r/a/", "http://h/r/", "http://h/r/f", "http://h/", "http://h", "https://h/r/", "https://h/r/a/", "https://h/r/f", "//h/r/a/", "//h/r/f", "//longer.host.example/r/", "//longer.host.example/r/a/", "//longer.host.example/x/", "http://longer.host.example/", "http://longer.host.example/r/a/",
    "http://longer.host.example/f", "http://h:8080/r/", "http://h:8080/r/a/", "http://h:80/r/a/", "http://h:80/r/f", "http://user:pw@h/r/", "http://user@h/r/a/", "http://H/r/a/", "HTTP://h/r/f", "http:a/", "http:f", "http://", "http:///r/a/", "http://[::1]/r/a/", "http://h:99999/f", "http://a b/f",
];

/// Pages whose text is not the usual table.
pub const MARKUP: &[&str] = &[
    "", " ", "oops", "<a href=\"f\">", "<a href=\"f\">f</a><a href=\"g\">g</a>", "<a href=\"f\">\n<a href=\"g\">", "<A HREF=\"f\">f</A>", "<a href='f'>f</a>", "<a class=\"x\" href=\"f\">f</a>", "<a href=\"f\" class=\"x\">f</a>",
    "<a  href=\"f\">f</a>", "<a\nhref=\"f\">f</a>", "<a href = \"f\">f</a>", "<a href=f>f</a>", "<a href=\"f\"", "<a href=\"f", "<a href=\"f\n\">f</a>", "<link href=\"f\">", "<img src=\"f\">", "<!-- <a href=\"f\">f</a> -->",
    "<a href=\"<a href=\"f\">", "<a href=\"\"><a href=\"f\">", "<a href=\"f\">f</a>\u{0}<a href=\"g\">", "<pre><a href=\"../\">../</a>\n<a href=\"a/\">a/</a>   01-Jan-2023 00:00   -\n<a href=\"f\">f</a>  01-Jan-2023 00:00  10\n</pre>", "\u{feff}<a href=\"f\">",
    "<ul><li><a href=\"/\">Parent</a></li><li><a href=\"f\"> f</a></li></ul>", "<a href=\"f\">é</a>", "<aa href=\"f\">", "xx<a href=\"f\">xx", "{\"a\": \"<a href=\\\"f\\\">\"}", "<a href=\"f\"><a href=\"f\">", "<a href=\"a/\"><a href=\"a/\">",
];
