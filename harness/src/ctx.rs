use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub struct Fail { pub tags: String, pub site: String, pub msg: String, pub known: bool }

/// unwinds out of a case once a failure of the wanted property was recorded
pub struct Stop;

pub struct Cx {
    pub want: String,
    pub fails: Vec<Fail>,
    pub checks: BTreeMap<String, u64>,
    pub phase: String,
    pub log: Vec<String>,
    pub nontrivial: bool,
    pub verbose: bool,
    pub known: Vec<String>,
    /// probe only ids near the listed triples (set while histories are still growing)
    pub lite: bool,
}

impl Cx {
    pub fn new(want: &str, verbose: bool, known: Vec<String>) -> Cx {
        Cx { want: want.to_string(), fails: vec![], checks: BTreeMap::new(), phase: String::new(), log: vec![], nontrivial: false, verbose, known, lite: false }
    }
    pub fn ph(&mut self, tags: &[&str], what: String) {
        self.phase = tags.join(",");
        if self.verbose { eprintln!("[{}] {}", self.phase, what); }
        if !what.is_empty() { self.log.push(what); }
    }
    pub fn wants(&self, tags: &[&str]) -> bool {
        self.want.is_empty() || tags.iter().any(|t| *t == self.want)
    }
    pub fn count(&mut self, tags: &[&str]) {
        for t in tags {
            if self.want.is_empty() || *t == self.want {
                *self.checks.entry(t.to_string()).or_default() += 1;
            }
        }
    }
    pub fn fail(&mut self, tags: &[&str], site: &str, msg: String) {
        if self.wants(tags) {
            let known = self.known.iter().any(|k| k == site);
            self.fails.push(Fail { tags: tags.join(","), site: site.to_string(), msg, known });
        }
    }
}

/// chk!(cx, ["A01"], "site", cond, "message {}", x): one oracle comparison.
#[macro_export]
macro_rules! chk {
    ($cx:expr, $tags:expr, $site:expr, $c:expr, $($m:tt)*) => {{
        let tags: &[&str] = &$tags[..];
        if $cx.wants(tags) {
            $cx.count(tags);
            if !$c {
                let m = format!($($m)*);
                $cx.fail(tags, $site, m);
                if !$cx.fails.last().map(|f| f.known).unwrap_or(true) { std::panic::panic_any($crate::ctx::Stop); }
            }
        }
    }};
}

/// unwrap an io::Result of the code under test; an error is a failure of the phase's properties
#[macro_export]
macro_rules! ok {
    ($cx:expr, $tags:expr, $site:expr, $e:expr) => {
        match $e {
            Ok(v) => v,
            Err(e) => {
                let tags: &[&str] = &$tags[..];
                $cx.fail(tags, $site, format!("unexpected error: {:?}", e));
                std::panic::panic_any($crate::ctx::Stop)
            }
        }
    };
}
