//! `semver::Version`, the part the repository uses.
use std::cmp::Ordering;
use std::fmt;
use std::str::FromStr;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Version { pub major: u64, pub minor: u64, pub patch: u64, pub pre: String, pub build: String }
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Error(&'static str);
impl fmt::Display for Error { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(self.0) } }
impl std::error::Error for Error {}
impl Version {
    pub fn new(major: u64, minor: u64, patch: u64) -> Self { Version { major, minor, patch, pre: String::new(), build: String::new() } }
    pub fn parse(s: &str) -> Result<Self, Error> {
        let (s, build) = s.split_once('+').map(|(a, b)| (a, b.to_string())).unwrap_or((s, String::new()));
        let (s, pre) = s.split_once('-').map(|(a, b)| (a, b.to_string())).unwrap_or((s, String::new()));
        let mut it = s.split('.');
        let mut n = || -> Result<u64, Error> {
            let p = it.next().ok_or(Error("missing version part"))?;
            if p.is_empty() || !p.bytes().all(|b| b.is_ascii_digit()) || (p.len() > 1 && p.starts_with('0')) { return Err(Error("invalid number")) }
            p.parse().map_err(|_| Error("number too large"))
        };
        let (major, minor, patch) = (n()?, n()?, n()?);
        if it.next().is_some() { return Err(Error("too many parts")) }
        Ok(Version { major, minor, patch, pre, build })
    }
}
impl FromStr for Version { type Err = Error; fn from_str(s: &str) -> Result<Self, Error> { Version::parse(s) } }
impl fmt::Display for Version {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}.{}.{}", self.major, self.minor, self.patch)?;
        if !self.pre.is_empty() { write!(f, "-{}", self.pre)? }
        if !self.build.is_empty() { write!(f, "+{}", self.build)? }
        Ok(())
    }
}
fn pre_cmp(a: &str, b: &str) -> Ordering {
    match (a.is_empty(), b.is_empty()) {
        (true, true) => return Ordering::Equal,
        (true, false) => return Ordering::Greater,
        (false, true) => return Ordering::Less,
        _ => {}
    }
    let (mut x, mut y) = (a.split('.'), b.split('.'));
    loop {
        match (x.next(), y.next()) {
            (None, None) => return Ordering::Equal,
            (None, _) => return Ordering::Less,
            (_, None) => return Ordering::Greater,
            (Some(p), Some(q)) => {
                let o = match (p.parse::<u64>(), q.parse::<u64>()) {
                    (Ok(m), Ok(n)) => m.cmp(&n),
                    (Ok(_), _) => Ordering::Less,
                    (_, Ok(_)) => Ordering::Greater,
                    _ => p.cmp(q),
                };
                if o != Ordering::Equal { return o }
            }
        }
    }
}
impl PartialOrd for Version { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for Version {
    fn cmp(&self, o: &Self) -> Ordering {
        (self.major, self.minor, self.patch).cmp(&(o.major, o.minor, o.patch)).then_with(|| pre_cmp(&self.pre, &o.pre)).then_with(|| self.build.cmp(&o.build))
    }
}
#[cfg(feature = "serde")]
impl serde::Serialize for Version { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.collect_str(self) } }
#[cfg(feature = "serde")]
impl<'de> serde::Deserialize<'de> for Version {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = <String as serde::Deserialize>::deserialize(d)?;
        Version::parse(&s).map_err(serde::de::Error::custom)
    }
}
