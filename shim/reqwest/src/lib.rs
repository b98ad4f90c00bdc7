//! A stand-in for the blocking client: a scripted site, and every exchange is a scheduling point.
use std::collections::HashMap;
use std::fmt;
use std::sync::Mutex;

pub use http::{header, Method, StatusCode, Version};
pub use url::Url;

/// What the site answers.
#[derive(Clone, Debug)]
pub enum Answer {
    Page(u16, Vec<u8>),
    Redirect(String),
    /// No connection.
    Refused,
    /// The connection breaks in the body.
    Broken,
    /// The client itself panics.
    Panic,
}

#[derive(Default)]
pub struct Site {
    pub pages: HashMap<String, Answer>,
    pub visits: Vec<String>,
    /// Exchanges under way.
    pub open: usize,
}

pub static SITE: Mutex<Option<Site>> = Mutex::new(None);

pub fn with_site<T>(f: impl FnOnce(&mut Site) -> T) -> T {
    let mut g = SITE.lock().unwrap_or_else(|e| e.into_inner());
    f(g.get_or_insert_with(Site::default))
}

#[derive(Debug, Clone, PartialEq)]
enum Kind {
    Connect,
    Status(StatusCode),
    Body,
    Builder,
}

pub struct Error {
    kind: Kind,
    url: Option<Url>,
}

pub type Result<T> = std::result::Result<T, Error>;

impl Error {
    pub fn url(&self) -> Option<&Url> {
        self.url.as_ref()
    }
    pub fn with_url(mut self, u: Url) -> Self {
        self.url = Some(u);
        self
    }
    pub fn without_url(mut self) -> Self {
        self.url = None;
        self
    }
    pub fn status(&self) -> Option<StatusCode> {
        match self.kind {
            Kind::Status(s) => Some(s),
            _ => None,
        }
    }
    pub fn is_status(&self) -> bool {
        self.status().is_some()
    }
    pub fn is_connect(&self) -> bool {
        self.kind == Kind::Connect
    }
    pub fn is_request(&self) -> bool {
        self.kind == Kind::Connect
    }
    pub fn is_body(&self) -> bool {
        self.kind == Kind::Body
    }
    pub fn is_decode(&self) -> bool {
        false
    }
    pub fn is_timeout(&self) -> bool {
        false
    }
    pub fn is_redirect(&self) -> bool {
        false
    }
    pub fn is_builder(&self) -> bool {
        self.kind == Kind::Builder
    }
}

impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?} {:?}", self.kind, self.url)
    }
}
impl fmt::Debug for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(self, f)
    }
}
impl std::error::Error for Error {}

pub trait IntoUrl {
    fn into_url(self) -> Result<Url>;
}
impl IntoUrl for Url {
    fn into_url(self) -> Result<Url> {
        Ok(self)
    }
}
impl IntoUrl for &Url {
    fn into_url(self) -> Result<Url> {
        Ok(self.clone())
    }
}
impl IntoUrl for &str {
    fn into_url(self) -> Result<Url> {
        Url::parse(self).map_err(|_| Error { kind: Kind::Builder, url: None })
    }
}
impl IntoUrl for String {
    fn into_url(self) -> Result<Url> {
        self.as_str().into_url()
    }
}
impl IntoUrl for &String {
    fn into_url(self) -> Result<Url> {
        self.as_str().into_url()
    }
}

pub mod redirect {
    pub struct Policy;
    impl Policy {
        pub fn none() -> Policy {
            Policy
        }
        pub fn limited(_: usize) -> Policy {
            Policy
        }
    }
}

pub mod blocking {
    use super::*;
    use std::time::Duration;

    #[derive(Clone, Debug, Default)]
    pub struct Client;
    #[derive(Debug, Default)]
    pub struct ClientBuilder;

    impl ClientBuilder {
        pub fn new() -> Self {
            ClientBuilder
        }
        pub fn danger_accept_invalid_certs(self, _: bool) -> Self {
            self
        }
        pub fn danger_accept_invalid_hostnames(self, _: bool) -> Self {
            self
        }
        pub fn timeout(self, _: impl Into<Option<Duration>>) -> Self {
            self
        }
        pub fn connect_timeout(self, _: impl Into<Option<Duration>>) -> Self {
            self
        }
        pub fn pool_max_idle_per_host(self, _: usize) -> Self {
            self
        }
        pub fn pool_idle_timeout(self, _: impl Into<Option<Duration>>) -> Self {
            self
        }
        pub fn gzip(self, _: bool) -> Self {
            self
        }
        pub fn deflate(self, _: bool) -> Self {
            self
        }
        pub fn no_gzip(self) -> Self {
            self
        }
        pub fn no_deflate(self) -> Self {
            self
        }
        pub fn no_proxy(self) -> Self {
            self
        }
        pub fn user_agent(self, _: impl AsRef<[u8]>) -> Self {
            self
        }
        pub fn redirect(self, _: redirect::Policy) -> Self {
            self
        }
        pub fn build(self) -> Result<Client> {
            Ok(Client)
        }
    }

    pub struct RequestBuilder(Result<Url>);

    impl Client {
        pub fn new() -> Client {
            Client
        }
        pub fn builder() -> ClientBuilder {
            ClientBuilder
        }
        pub fn get<U: IntoUrl>(&self, u: U) -> RequestBuilder {
            RequestBuilder(u.into_url())
        }
    }

    pub fn get<U: IntoUrl>(u: U) -> Result<Response> {
        Client::new().get(u).send()
    }

    struct Open;
    impl Open {
        fn new(u: &Url) -> Open {
            with_site(|s| {
                s.visits.push(u.to_string());
                s.open += 1;
            });
            Open
        }
    }
    impl Drop for Open {
        fn drop(&mut self) {
            with_site(|s| s.open -= 1);
        }
    }

    impl RequestBuilder {
        pub fn header<K, V>(self, _: K, _: V) -> Self {
            self
        }
        pub fn timeout(self, _: Duration) -> Self {
            self
        }
        pub fn send(self) -> Result<Response> {
            let mut url = self.0?;
            let _open = Open::new(&url);
            cstd::explore::point();
            for _ in 0..10 {
                let key = {
                    let mut k = url.clone();
                    k.set_fragment(None);
                    k.to_string()
                };
                let a = with_site(|s| s.pages.get(&key).cloned());
                let res = match a {
                    None => Response { url: bare(url), status: StatusCode::NOT_FOUND, body: b"<a href=\"oops\">oops</a>".to_vec(), at: 0, broken: false, headers: Default::default() },
                    Some(Answer::Page(st, body)) => Response { url: bare(url), status: StatusCode::from_u16(st).unwrap(), body, at: 0, broken: false, headers: Default::default() },
                    Some(Answer::Broken) => Response { url: bare(url), status: StatusCode::OK, body: b"<a href=\"oops\">oops</a>".to_vec(), at: 0, broken: true, headers: Default::default() },
                    Some(Answer::Refused) => return Err(Error { kind: Kind::Connect, url: Some(url) }),
                    Some(Answer::Panic) => panic!("client panic"),
                    Some(Answer::Redirect(to)) => {
                        url = url.join(&to).unwrap();
                        continue;
                    }
                };
                cstd::explore::point();
                return Ok(res);
            }
            Err(Error { kind: Kind::Connect, url: Some(url) })
        }
    }

    /// The credentials of a url are sent, and not part of the url of the response.
    fn bare(mut url: Url) -> Url {
        let _ = url.set_username("");
        let _ = url.set_password(None);
        url
    }

    #[derive(Debug)]
    pub struct Response {
        url: Url,
        status: StatusCode,
        body: Vec<u8>,
        at: usize,
        broken: bool,
        headers: header::HeaderMap,
    }

    impl Response {
        pub fn status(&self) -> StatusCode {
            self.status
        }
        pub fn url(&self) -> &Url {
            &self.url
        }
        pub fn headers(&self) -> &header::HeaderMap {
            &self.headers
        }
        pub fn content_length(&self) -> Option<u64> {
            Some(self.body.len() as u64)
        }
        pub fn error_for_status(self) -> Result<Self> {
            if self.status.is_client_error() || self.status.is_server_error() {
                Err(Error { kind: Kind::Status(self.status), url: Some(self.url) })
            } else {
                Ok(self)
            }
        }
        pub fn error_for_status_ref(&self) -> Result<&Self> {
            if self.status.is_client_error() || self.status.is_server_error() {
                Err(Error { kind: Kind::Status(self.status), url: Some(self.url.clone()) })
            } else {
                Ok(self)
            }
        }
        pub fn bytes(self) -> Result<bytes::Bytes> {
            cstd::explore::point();
            if self.broken {
                return Err(Error { kind: Kind::Body, url: Some(self.url) });
            }
            Ok(self.body.into())
        }
        pub fn text(self) -> Result<String> {
            self.bytes().map(|b| String::from_utf8_lossy(&b).into_owned())
        }
        pub fn text_with_charset(self, _: &str) -> Result<String> {
            self.text()
        }
        pub fn copy_to<W: ?Sized + std::io::Write>(&mut self, w: &mut W) -> Result<u64> {
            cstd::explore::point();
            if self.broken || w.write_all(&self.body).is_err() {
                return Err(Error { kind: Kind::Body, url: Some(self.url.clone()) });
            }
            Ok(self.body.len() as u64)
        }
    }

    impl std::io::Read for Response {
        fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
            cstd::explore::point();
            let n = b.len().min(self.body.len() - self.at);
            if n == 0 && self.broken && !b.is_empty() {
                return Err(std::io::Error::other("broken"));
            }
            b[..n].copy_from_slice(&self.body[self.at..self.at + n]);
            self.at += n;
            Ok(n)
        }
    }
}
