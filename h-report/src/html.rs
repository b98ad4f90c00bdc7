//! What a browser makes of a page: tags, attributes and texts.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ev {
    Open(String, Vec<(String, String)>),
    Close(String),
    Text(String),
    /// Comments, doctypes, processing instructions.
    Other(String),
}

const VOID: [&str; 14] = ["area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "param", "source", "track", "wbr"];

pub fn is_void(t: &str) -> bool {
    VOID.contains(&t)
}

/// Character references, also the legacy ones without a semicolon.
pub fn decode(s: &str) -> String {
    let mut out = String::new();
    let mut rest = s;
    while let Some(p) = rest.find('&') {
        out.push_str(&rest[..p]);
        rest = &rest[p..];
        let body = &rest[1..];
        if let Some(num) = body.strip_prefix('#') {
            let (digits, radix) = match num.strip_prefix(['x', 'X']) {
                Some(d) => (d, 16),
                None => (num, 10),
            };
            let n = digits.find(|c: char| !c.is_digit(radix)).unwrap_or(digits.len());
            if n > 0 {
                let c = u32::from_str_radix(&digits[..n], radix).ok().and_then(char::from_u32).unwrap_or('\u{fffd}');
                out.push(c);
                let mut used = 1 + 1 + (num.len() - digits.len()) + n;
                if rest[used..].starts_with(';') {
                    used += 1;
                }
                rest = &rest[used..];
                continue;
            }
        } else {
            const NAMES: [(&str, &str); 12] =
                [("lt", "<"), ("gt", ">"), ("amp", "&"), ("quot", "\""), ("apos;", "'"), ("LT", "<"), ("GT", ">"), ("AMP", "&"), ("QUOT", "\""), ("nbsp", "\u{a0}"), ("copy", "©"), ("not", "¬")];
            if let Some((n, c)) = NAMES.iter().find(|(n, _)| body.starts_with(n)) {
                out.push_str(c);
                let mut used = 1 + n.len();
                if !n.ends_with(';') && rest[used..].starts_with(';') {
                    used += 1;
                }
                rest = &rest[used..];
                continue;
            }
        }
        out.push('&');
        rest = body;
    }
    out.push_str(rest);
    out
}

pub fn parse(page: &str) -> Vec<Ev> {
    let mut evs = vec![];
    let mut text = String::new();
    let b = page.as_bytes();
    let mut i = 0;
    let flush = |text: &mut String, evs: &mut Vec<Ev>| {
        if !text.is_empty() {
            evs.push(Ev::Text(decode(text)));
            text.clear();
        }
    };
    while i < b.len() {
        let next = b.get(i + 1).copied().unwrap_or(0);
        if b[i] == b'<' && (next.is_ascii_alphabetic() || next == b'/' || next == b'!' || next == b'?') {
            flush(&mut text, &mut evs);
            if next == b'!' || next == b'?' || (next == b'/' && !b.get(i + 2).copied().unwrap_or(0).is_ascii_alphabetic()) {
                let end = if page[i..].starts_with("<!--") { page[i + 4..].find("-->").map(|e| i + 4 + e + 3) } else { page[i..].find('>').map(|e| i + e + 1) }.unwrap_or(b.len());
                evs.push(Ev::Other(page[i..end].to_string()));
                i = end;
                continue;
            }
            let close = next == b'/';
            i += if close { 2 } else { 1 };
            let start = i;
            while i < b.len() && !b[i].is_ascii_whitespace() && b[i] != b'>' && b[i] != b'/' {
                i += 1;
            }
            let tag = page[start..i].to_ascii_lowercase();
            let mut attrs = vec![];
            loop {
                while i < b.len() && (b[i].is_ascii_whitespace() || b[i] == b'/') {
                    i += 1;
                }
                if i >= b.len() || b[i] == b'>' {
                    i = (i + 1).min(b.len());
                    break;
                }
                let start = i;
                while i < b.len() && !b[i].is_ascii_whitespace() && b[i] != b'>' && b[i] != b'/' && (b[i] != b'=' || i == start) {
                    i += 1;
                }
                let name = page[start..i].to_ascii_lowercase();
                let mut j = i;
                while j < b.len() && b[j].is_ascii_whitespace() {
                    j += 1;
                }
                let mut value = String::new();
                if j < b.len() && b[j] == b'=' {
                    j += 1;
                    while j < b.len() && b[j].is_ascii_whitespace() {
                        j += 1;
                    }
                    let (from, to, after) = match b.get(j) {
                        Some(q @ (b'"' | b'\'')) => {
                            let e = b[j + 1..].iter().position(|c| c == q).map(|p| j + 1 + p).unwrap_or(b.len());
                            (j + 1, e, (e + 1).min(b.len()))
                        }
                        _ => {
                            let e = b[j..].iter().position(|c| c.is_ascii_whitespace() || *c == b'>').map(|p| j + p).unwrap_or(b.len());
                            (j, e, e)
                        }
                    };
                    value = decode(&page[from.min(to)..to]);
                    i = after;
                }
                attrs.push((name, value));
            }
            if close {
                evs.push(Ev::Close(tag));
                continue;
            }
            evs.push(Ev::Open(tag.clone(), attrs));
            if ["script", "style", "title", "textarea"].contains(&tag.as_str()) {
                let low = page[i..].to_ascii_lowercase();
                let end = low.find(&format!("</{tag}")).map(|e| i + e).unwrap_or(b.len());
                let raw = &page[i..end];
                if !raw.is_empty() {
                    evs.push(Ev::Text(if tag == "script" || tag == "style" { raw.to_string() } else { decode(raw) }));
                }
                i = end;
            }
            continue;
        }
        let c = page[i..].chars().next().unwrap();
        text.push(c);
        i += c.len_utf8();
    }
    flush(&mut text, &mut evs);
    evs
}

/// An element with its elements and texts.
#[derive(Clone, Debug, Default)]
pub struct El {
    pub tag: String,
    pub attrs: Vec<(String, String)>,
    pub kids: Vec<Kid>,
}
#[derive(Clone, Debug)]
pub enum Kid {
    El(El),
    Text(String),
}

impl El {
    pub fn attr(&self, n: &str) -> &str {
        self.attrs.iter().find(|a| a.0 == n).map(|a| a.1.as_str()).unwrap_or("")
    }
    pub fn has_class(&self, c: &str) -> bool {
        self.attr("class").split_whitespace().any(|x| x == c)
    }
    /// Every element below for which f holds, in order.
    pub fn all<'a>(&'a self, f: &dyn Fn(&El) -> bool, out: &mut Vec<&'a El>) {
        for k in &self.kids {
            if let Kid::El(e) = k {
                if f(e) {
                    out.push(e);
                }
                e.all(f, out);
            }
        }
    }
    pub fn find<'a>(&'a self, f: impl Fn(&El) -> bool) -> Vec<&'a El> {
        let mut v = vec![];
        self.all(&f, &mut v);
        v
    }
    pub fn text(&self) -> String {
        self.kids
            .iter()
            .map(|k| match k {
                Kid::El(e) => e.text(),
                Kid::Text(t) => t.clone(),
            })
            .collect()
    }
}

/// The tree, if every element is closed where it should be.
pub fn tree(evs: &[Ev]) -> Result<El, String> {
    let mut stack = vec![El::default()];
    for e in evs {
        match e {
            Ev::Open(t, a) => {
                let el = El { tag: t.clone(), attrs: a.clone(), kids: vec![] };
                if is_void(t) {
                    stack.last_mut().unwrap().kids.push(Kid::El(el));
                } else {
                    stack.push(el);
                }
            }
            Ev::Close(t) => {
                let el = stack.pop().unwrap();
                if stack.is_empty() || &el.tag != t {
                    return Err(format!("</{t}> closes <{}>", el.tag));
                }
                stack.last_mut().unwrap().kids.push(Kid::El(el));
            }
            Ev::Text(t) => stack.last_mut().unwrap().kids.push(Kid::Text(t.clone())),
            Ev::Other(_) => {}
        }
    }
    if stack.len() != 1 {
        return Err(format!("<{}> is not closed", stack.last().unwrap().tag));
    }
    Ok(stack.pop().unwrap())
}
