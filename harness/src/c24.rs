//! C24: the web service only gives access to what a request is entitled to.
use crate::aql::*;
use crate::c13::read_xml;
use crate::c14::{Files, corpus_dir, tree, unpercent, write_xml};
use crate::c20::{make_zip, observe_storage};
use crate::corpus::*;
use crate::gmodel::*;
use crate::rt::*;
use crate::store::*;
use graphannis::CorpusStorage;
use graphannis::corpusstorage::{CacheStrategy, FrequencyDefEntry, ImportFormat, QueryLanguage, ResultOrder};
use graphannis::model::AnnotationComponentType;
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};
use std::net::TcpStream;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::str::FromStr;
use std::time::{Duration, Instant};

pub fn run(ctx: &mut Ctx) {
    ctx.cases("requests", ctx.n(56, 2000), case);
    ctx.cases("concurrent", ctx.n(16, 300), concurrent_case);
}

// ---------- tokens ----------

fn sha256(data: &[u8]) -> [u8; 32] {
    // first 32 bits of the fractional parts of the cube (square) roots of the first primes
    let primes: Vec<u64> = (2u64..).filter(|n| (2..*n).all(|d| n % d != 0)).take(64).collect();
    let root = |p: u64, third: bool| -> u32 {
        // floor(root(p) * 2^32) by binary search with exact integers
        let (mut lo, mut hi) = (0u128, 1u128 << 36);
        while lo + 1 < hi {
            let m = (lo + hi) / 2;
            let small = if third {
                // m^3 <= p * 2^96
                m.checked_mul(m).and_then(|x| x.checked_mul(m)).is_some_and(|x| x >> 96 < p as u128)
            } else {
                m * m < (p as u128) << 64
            };
            if small { lo = m } else { hi = m }
        }
        lo as u32
    };
    let k: Vec<u32> = primes.iter().map(|p| root(*p, true)).collect();
    let mut h: Vec<u32> = primes.iter().take(8).map(|p| root(*p, false)).collect();
    let mut d = data.to_vec();
    d.push(0x80);
    while d.len() % 64 != 56 {
        d.push(0);
    }
    d.extend(((data.len() as u64) * 8).to_be_bytes());
    for b in d.chunks(64) {
        let mut w: Vec<u32> = b.chunks(4).map(|c| u32::from_be_bytes(c.try_into().unwrap())).collect();
        for i in 16..64 {
            let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
            let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
            w.push(w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1));
        }
        let mut v = h.clone();
        for i in 0..64 {
            let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(k[i]).wrapping_add(w[i]);
            let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
            let t2 = s0.wrapping_add((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
            v.rotate_right(1);
            v[4] = v[4].wrapping_add(t1);
            v[0] = t1.wrapping_add(t2);
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    }
    let mut r = [0; 32];
    for (i, x) in h.iter().enumerate() {
        r[i * 4..i * 4 + 4].copy_from_slice(&x.to_be_bytes());
    }
    r
}
fn hmac(key: &[u8], msg: &[u8]) -> [u8; 32] {
    let mut k = if key.len() > 64 { sha256(key).to_vec() } else { key.to_vec() };
    k.resize(64, 0);
    let inner: Vec<u8> = k.iter().map(|b| b ^ 0x36).chain(msg.iter().copied()).collect();
    let outer: Vec<u8> = k.iter().map(|b| b ^ 0x5c).chain(sha256(&inner)).collect();
    sha256(&outer)
}
fn b64(d: &[u8]) -> String {
    const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
    let mut r = String::new();
    for c in d.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..=c.len() {
            r.push(A[(n >> (18 - 6 * i) & 63) as usize] as char);
        }
    }
    r
}
fn jwt(alg: &str, claims: &Value, key: &[u8]) -> String {
    let h = format!("{}.{}", b64(json!({"alg": alg, "typ": "JWT"}).to_string().as_bytes()), b64(claims.to_string().as_bytes()));
    let s = b64(&hmac(key, h.as_bytes()));
    format!("{h}.{s}")
}

const GROUPS: &[&str] = &["g1", "g2", "anonymous", "G1", "%", "_", "x'y", "g/1", "ü", "g1 ", "'; DROP TABLE groups;--"];

#[derive(Clone, Debug)]
struct Token {
    header: Option<String>,
    valid: bool,
    groups: Vec<String>,
    admin: bool,
    what: String,
}

fn anonymous() -> Token {
    Token { header: None, valid: true, groups: vec![], admin: false, what: "anonymous".into() }
}

struct Keys {
    secret: Vec<u8>,
    rsa: Option<Value>,
}

const GK: &str = "https://corpus-tools.org/annis/groups";
const RK: &str = "https://corpus-tools.org/annis/roles";
fn now() -> i64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs() as i64
}

impl Keys {
    fn admin(&self) -> Token {
        let t = match &self.rsa {
            Some(r) => r["good"][0]["token"].as_str().unwrap().to_string(),
            None => jwt("HS256", &json!({"sub": "a", "exp": now() + 3600, RK: ["admin"]}), &self.secret),
        };
        Token { header: Some(format!("Bearer {t}")), valid: true, groups: vec![], admin: true, what: "admin".into() }
    }
    fn random(&self, rng: &mut Rng, groups: &[String]) -> Token {
        if rng.chance(18) {
            return self.admin();
        }
        if rng.chance(15) {
            let mut t = anonymous();
            if rng.chance(50) {
                let a = self.admin().header.unwrap();
                t.header = Some(match rng.below(4) {
                    0 => "Basic YWRtaW46YWRtaW4=".into(),
                    1 => a.replacen("Bearer", "Basic", 1),
                    2 => a.replacen("Bearer ", "", 1),
                    _ => "".into(),
                });
                t.what = format!("no bearer token: {:.20}", t.header.as_ref().unwrap());
            }
            return t;
        }
        let bad = rng.chance(35);
        let gs: Vec<String> = (0..rng.below(3)).map(|_| if rng.chance(70) && !groups.is_empty() { rng.pick(groups).clone() } else { rng.pick(GROUPS).to_string() }).collect();
        let role = |rng: &mut Rng| (0..rng.below(2)).map(|_| rng.pick(&["Admin", "administrator", "admin ", "user", "", "ADMIN", "admin,user", "adm"]).to_string()).collect::<Vec<_>>();
        let scheme = *rng.pick(&["Bearer ", "Bearer ", "bearer ", "Bearer  "]);
        if let Some(r) = &self.rsa {
            let list = |k: &str| r[k].as_array().unwrap().clone();
            if bad {
                let mut what = "wrong RSA token".to_string();
                let t = if rng.chance(50) {
                    rng.pick(&list("bad")).as_str().unwrap().to_string()
                } else if rng.chance(60) {
                    // the public key used as secret of another algorithm
                    what = "algorithm confusion".into();
                    let alg = *rng.pick(&["HS256", "RS256", "none", "HS512"]);
                    jwt(alg, &json!({"sub": "a", "exp": now() + 3600, RK: ["admin"], GK: groups}), r["public"].as_str().unwrap().as_bytes())
                } else {
                    what = "changed claims".into();
                    let g = list("good");
                    let (a, b) = (g[0]["token"].as_str().unwrap(), g[4]["token"].as_str().unwrap());
                    let p: Vec<&str> = a.split('.').collect();
                    format!("{}.{}.{}", p[0], p[1], b.rsplit('.').next().unwrap())
                };
                return Token { header: Some(format!("{scheme}{t}")), valid: false, groups: vec![], admin: false, what };
            }
            let g = rng.pick(&list("good")).clone();
            let strings = |v: &Value| v.as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect::<Vec<_>>();
            let (gs, rs) = (strings(&g["groups"]), strings(&g["roles"]));
            return Token { header: Some(format!("{scheme}{}", g["token"].as_str().unwrap())), valid: true, admin: rs.contains(&"admin".to_string()), what: format!("groups {gs:?} roles {rs:?}"), groups: gs };
        }
        if bad {
            let good = json!({"sub": "a", "exp": now() + 3600, RK: ["admin"], GK: groups});
            let t = jwt("HS256", &good, &self.secret);
            let p: Vec<String> = t.split('.').map(|s| s.to_string()).collect();
            let (t, what) = match rng.below(14) {
                0 => (jwt("HS256", &json!({"sub": "a", "exp": now() - rng.range(100, 100000) as i64, RK: ["admin"], GK: groups}), &self.secret), "expired"),
                1 => (jwt("HS256", &json!({"sub": "a", RK: ["admin"], GK: groups}), &self.secret), "without expiration"),
                2 => (jwt("HS256", &good, b"another"), "wrong secret"),
                3 => (jwt("HS256", &good, b""), "empty secret"),
                4 => (jwt("HS256", &good, b"not-a-random-secret"), "default secret"),
                5 => (format!("{}.{}.", b64(b"{\"alg\":\"none\"}"), p[1]), "none"),
                6 => (format!("{}.{}.{}", b64(b"{\"alg\":\"none\"}"), p[1], p[2]), "none with signature"),
                7 => (jwt("HS512", &good, &self.secret), "other algorithm"),
                8 => {
                    let u = jwt("HS256", &json!({"sub": "a", "exp": now() + 3600}), &self.secret);
                    (format!("{}.{}.{}", p[0], p[1], u.rsplit('.').next().unwrap()), "changed claims")
                }
                9 => (format!("{}.{}.{}", p[0], p[1], &p[2][..p[2].len() - rng.range(1, 20)]), "truncated signature"),
                10 => (format!("{}.{}", p[0], p[1]), "without signature"),
                11 => ("".to_string(), "empty"),
                12 => ("x.y.z".to_string(), "garbage"),
                _ => (jwt("HS256", &json!({"sub": "a", "exp": now() + 3600, RK: "admin"}), &self.secret), "wrong type of claim"),
            };
            return Token { header: Some(format!("{scheme}{t}")), valid: false, groups: vec![], admin: false, what: what.into() };
        }
        let rs = role(rng);
        let mut c = json!({"sub": "u", "exp": now() + 3600});
        if !gs.is_empty() || rng.chance(50) {
            c[GK] = json!(gs);
        }
        if !rs.is_empty() || rng.chance(50) {
            c[RK] = json!(rs);
        }
        Token { header: Some(format!("{scheme}{}", jwt("HS256", &c, &self.secret))), valid: true, what: format!("groups {gs:?} roles {rs:?}"), groups: gs, admin: false }
    }
}

// ---------- server ----------

struct Server {
    child: Child,
    port: u16,
}
impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
unsafe extern "C" {
    fn prctl(option: i32, ...) -> i32;
    fn kill(pid: i32, sig: i32) -> i32;
}

impl Server {
    fn start(dir: &Path, config: &dyn Fn(u16) -> String, admin: &Token, rng: &mut Rng) -> Result<Server, Violation> {
        let bin = verif_dir().join("target/ws/debug/graphannis-webservice");
        for _ in 0..20 {
            let port = 10000 + ((std::process::id() as usize * 61 + rng.below(2000)) % 22000) as u16;
            std::fs::write(dir.join("config.toml"), config(port)).map_err(serr)?;
            let log = std::fs::OpenOptions::new().create(true).append(true).open(dir.join("log.txt")).map_err(serr)?;
            let mut cmd = Command::new(&bin);
            cmd.arg("--config").arg(dir.join("config.toml")).current_dir(dir).env("TMPDIR", dir.join("tmp")).stdin(Stdio::null()).stdout(log.try_clone().map_err(serr)?).stderr(log);
            unsafe {
                cmd.pre_exec(|| {
                    prctl(1, 9);
                    Ok(())
                });
            }
            let child = cmd.spawn().unwrap_or_else(|e| panic!("harness: web service not started: {e}"));
            let mut s = Server { child, port };
            let t = Instant::now();
            loop {
                if s.child.try_wait().ok().flatten().is_some() {
                    break;
                }
                let r = s.request("GET", "/v1/groups", admin, None, None);
                if let Ok(r) = r
                    && r.status == 200
                {
                    std::thread::sleep(Duration::from_millis(10));
                    if s.child.try_wait().ok().flatten().is_none() {
                        return Ok(s);
                    }
                    break;
                }
                if t.elapsed() > Duration::from_secs(30) {
                    break;
                }
                std::thread::sleep(Duration::from_millis(10));
            }
        }
        viol("not-started", std::fs::read_to_string(dir.join("log.txt")).unwrap_or_default().chars().rev().take(600).collect::<String>().chars().rev().collect::<String>())
    }
    fn stop(mut self, hard: bool) -> Case {
        unsafe { kill(self.child.id() as i32, if hard { 9 } else { 15 }) };
        let t = Instant::now();
        while t.elapsed() < Duration::from_secs(70) {
            if self.child.try_wait().ok().flatten().is_some() {
                return Ok(());
            }
            std::thread::sleep(Duration::from_millis(5));
        }
        viol("not-stopped", "the service does not end after a signal")
    }
    fn request(&self, method: &str, path: &str, token: &Token, body: Option<(&str, &[u8])>, range: Option<(usize, usize)>) -> Result<Response, String> {
        request(self.port, method, path, token, body, range)
    }
}

#[derive(Clone, Debug)]
struct Response {
    status: u16,
    body: Vec<u8>,
}
impl Response {
    fn text(&self) -> String {
        String::from_utf8_lossy(&self.body).to_string()
    }
    fn json(&self) -> Value {
        serde_json::from_slice(&self.body).unwrap_or(Value::Null)
    }
}

fn request(port: u16, method: &str, path: &str, token: &Token, body: Option<(&str, &[u8])>, range: Option<(usize, usize)>) -> Result<Response, String> {
    let mut s = TcpStream::connect(("127.0.0.1", port)).map_err(|e| format!("connect: {e}"))?;
    s.set_read_timeout(Some(Duration::from_secs(60))).map_err(|e| e.to_string())?;
    let mut h = format!("{method} {path} HTTP/1.1\r\nHost: localhost\r\nConnection: close\r\n");
    if let Some(t) = &token.header {
        h += &format!("Authorization: {t}\r\n");
    }
    if let Some((a, b)) = range {
        h += &format!("Range: bytes={a}-{b}\r\n");
    }
    if let Some((ct, b)) = &body {
        h += &format!("Content-Type: {ct}\r\nContent-Length: {}\r\n", b.len());
    }
    h += "\r\n";
    let mut out = h.into_bytes();
    if let Some((_, b)) = body {
        out.extend(b);
    }
    // (the server can answer before it has read everything)
    let w = s.write_all(&out);
    let mut r = vec![];
    let e = s.read_to_end(&mut r);
    let p = r.windows(4).position(|w| w == b"\r\n\r\n").ok_or_else(|| format!("incomplete answer of {} bytes ({w:?}, {e:?})", r.len()))?;
    let head = String::from_utf8_lossy(&r[..p]).to_lowercase();
    let status: u16 = head.split(' ').nth(1).and_then(|s| s.parse().ok()).ok_or_else(|| format!("no status: {head}"))?;
    let mut rest = &r[p + 4..];
    let field = |n: &str| head.lines().find_map(|l| l.strip_prefix(n).map(|v| v.trim().to_string()));
    let body = if field("transfer-encoding:").is_some_and(|v| v.contains("chunked")) {
        let mut b = vec![];
        loop {
            let n = rest.windows(2).position(|w| w == b"\r\n").ok_or("incomplete chunk")?;
            let l = usize::from_str_radix(String::from_utf8_lossy(&rest[..n]).trim(), 16).map_err(|e| e.to_string())?;
            rest = &rest[n + 2..];
            if l == 0 {
                break b;
            }
            b.extend(rest.get(..l).ok_or("incomplete chunk")?);
            rest = rest.get(l + 2..).ok_or("incomplete chunk")?;
        }
    } else {
        if let Some(l) = field("content-length:").and_then(|v| v.parse::<usize>().ok()) {
            if l != rest.len() {
                return Err(format!("{} of {l} bytes", rest.len()));
            }
        }
        rest.to_vec()
    };
    Ok(Response { status, body })
}

fn enc(s: &str) -> String {
    s.bytes().map(|b| if b.is_ascii_alphanumeric() { (b as char).to_string() } else { format!("%{b:02X}") }).collect()
}

// ---------- world ----------

const CORPORA: &[&str] = &["a", "A", "a b", "a:b", "x|y", "a*", "ü", "a%", "a_", ".", "..", "files", "a/b", "current", "anonymous", "a,b", "'; DROP TABLE corpus_groups;--", "a\\b", "db.lock", "a%20b", "/x", "data"];

struct World {
    dir: PathBuf,
    data: PathBuf,
    reference: CorpusStorage,
    ref_dir: PathBuf,
    models: BTreeMap<String, Model>,
    /// corpus -> text that must only be visible for those who may read the corpus
    secrets: BTreeMap<String, Vec<String>>,
    outside: String,
    files: BTreeMap<String, Files>,
    groups: BTreeMap<String, BTreeSet<String>>,
    public: bool,
    disk: bool,
    keys: Keys,
    log: Vec<String>,
}

fn secret(rng: &mut Rng) -> String {
    format!("SECRET{:016x}", rng.next())
}

fn copy_dir(a: &Path, b: &Path) -> Case {
    for (f, c) in tree(a) {
        if f != "db.lock" {
            let p = b.join(f);
            std::fs::create_dir_all(p.parent().unwrap()).map_err(serr)?;
            std::fs::write(p, c).map_err(serr)?;
        }
    }
    Ok(())
}

/// GraphML document and linked files of a new corpus
fn new_corpus(rng: &mut Rng, root: &str) -> (Model, Vec<(String, Vec<u8>)>, Vec<String>) {
    let valid = |t: &str| AnnotationComponentType::from_str(t).is_ok();
    let gc = Cfg { docs: (1, 2), toks: (1, 7), ..Default::default() };
    let s = secret(rng);
    let (mut e, info) = gen_corpus(rng, root, &gc);
    e.push(label(root, "", "secret", &s));
    let mut secrets = vec![s];
    let mut files = vec![];
    for i in 0..rng.below(4) {
        let parent = if rng.chance(50) || info.docs.is_empty() { root.to_string() } else { rng.pick(&info.docs).clone() };
        let n = format!("{parent}/{}", rng.pick(&["x.txt", "y%20z.txt", "y z.txt", "ü.css", "100%.txt", "a+b.txt", "sub/x.txt", "a..b.txt", "x", "#x?.txt"]));
        if e.iter().any(|x| matches!(x, U::AddNode { node_name, .. } if *node_name == n || node_name.starts_with(&format!("{n}/")) || n.starts_with(&format!("{node_name}/")) && matches!(x, U::AddNode { node_type, .. } if node_type == "file"))) {
            continue;
        }
        let f = format!("f{i}.bin");
        let s = secret(rng);
        let mut b = s.clone().into_bytes();
        b.extend((0..rng.below(300)).map(|_| rng.next() as u8));
        secrets.push(s);
        files.push((f.clone(), b));
        e.push(add_node(&n, "file"));
        e.push(label(&n, "annis", "file", &f));
        e.push(edge("PartOf", "annis", "", &n, &parent));
    }
    let mut m = Model::default();
    for x in &e {
        m.apply(x, &valid);
    }
    (m, files, secrets)
}

fn refresh(w: &mut World) {
    for c in w.models.keys() {
        let f = corpus_dir(&w.ref_dir, c).map(|d| tree(&d.join("files"))).unwrap_or_default();
        // names of the nodes
        let f = f.into_iter().map(|(p, b)| (p.strip_prefix("%escaped/").and_then(|p| p.strip_suffix(".file")).map(unpercent).unwrap_or(p.clone()), b)).collect();
        w.files.insert(c.clone(), f);
    }
}

impl World {
    fn new(rng: &mut Rng, dir: &Path) -> Result<World, Violation> {
        let data = dir.join("l1/data");
        let ref_dir = dir.join("ref");
        for d in ["l1/data", "l1/files", "ref", "tmp", "src"] {
            std::fs::create_dir_all(dir.join(d)).map_err(serr)?;
        }
        let outside = secret(rng);
        for f in ["secret.txt", "l1/secret.txt", "l1/files/secret.txt", "l1/data/secret.txt"] {
            std::fs::write(dir.join(f), &outside).map_err(serr)?;
        }
        let rsa: Option<Value> = rng.chance(25).then(|| serde_json::from_str(include_str!("rsa_tokens.json")).unwrap());
        let keys = Keys { secret: rng.pick(&["s", "another secret", "äöü", "0123456789012345678901234567890123456789012345678901234567890123456789"]).as_bytes().to_vec(), rsa };
        // used to create the initial corpora
        let _ = std::fs::remove_file(dir.join("l1/data/secret.txt"));
        let cs = CorpusStorage::with_cache_strategy(&ref_dir, CacheStrategy::FixedMaxMemory(1000), false).map_err(serr)?;
        let mut w = World { dir: dir.into(), data, reference: cs, ref_dir, models: BTreeMap::new(), secrets: BTreeMap::new(), outside, files: BTreeMap::new(), groups: BTreeMap::new(), public: rng.chance(20), disk: rng.chance(25), keys, log: vec![] };
        for _ in 0..rng.range(1, 5) {
            let c = rng.pick(CORPORA).to_string();
            let root = if rng.chance(60) { c.clone() } else { "root".into() };
            let (m, files, secrets) = new_corpus(rng, &root);
            if w.models.contains_key(&c) {
                continue;
            }
            let src = dir.join("src");
            for (f, b) in &files {
                std::fs::write(src.join(f), b).map_err(serr)?;
            }
            std::fs::write(src.join("c.graphml"), write_xml(&m, None)).map_err(serr)?;
            w.reference.import_from_fs(&src.join("c.graphml"), ImportFormat::GraphML, Some(c.clone()), rng.chance(25), false, |_| {}).map_err(serr)?;
            w.log.push(format!("corpus {c:?} with root {root:?}"));
            w.models.insert(c.clone(), m);
            w.secrets.insert(c, secrets);
        }
        // the service gets a copy
        let WorldDirs { data, ref_dir } = WorldDirs { data: w.data.clone(), ref_dir: w.ref_dir.clone() };
        copy_dir(&ref_dir, &data)?;
        refresh(&mut w);
        Ok(w)
    }
    fn config(&self) -> impl Fn(u16) -> String + use<> {
        let verification = match &self.keys.rsa {
            Some(r) => format!("type = \"RS256\"\npublic_key = {}", json!(r["public"].as_str().unwrap())),
            None => format!("type = \"HS256\"\nsecret = {}", json!(String::from_utf8_lossy(&self.keys.secret))),
        };
        let (public, disk, data, sqlite) = (self.public, self.disk, self.data.clone(), self.dir.join("service.sqlite"));
        move |port| {
            format!(
                "[bind]\nhost = \"127.0.0.1\"\nport = {port}\n[database]\ngraphannis = {}\nsqlite = {}\ndisk_based = {disk}\n[auth]\n{}[auth.token_verification]\n{verification}\n[logging]\ndebug = false\n",
                json!(data),
                json!(sqlite),
                if public { "anonymous_access_all_corpora = true\n" } else { "" }
            )
        }
    }
    fn may_read(&self, t: &Token, c: &str) -> bool {
        t.valid && (t.admin || self.public || t.groups.iter().map(|g| g.as_str()).chain(["anonymous"]).any(|g| self.groups.get(g).is_some_and(|s| s.contains(c))))
    }
    fn corpus(&self, rng: &mut Rng) -> String {
        let l: Vec<&String> = self.models.keys().collect();
        if !l.is_empty() && rng.chance(75) { rng.pick(&l).to_string() } else if rng.chance(70) { rng.pick(CORPORA).to_string() } else { rng.pick(&["../data/a", "./a", "a/", "a\u{0}", "A ", "a/../a", "l1", "%2e%2e"]).to_string() }
    }
    /// no text of a corpus that the request may not read, and nothing from outside
    fn no_leak(&self, t: &Token, r: &Response, what: &str) -> Case {
        let has = |s: &str| r.body.windows(s.len()).any(|x| x == s.as_bytes());
        check!(!has(&self.outside), "outside-disclosed", "{what}: {}", r.text());
        for (c, ss) in &self.secrets {
            if !self.may_read(t, c) {
                for s in ss {
                    check!(!has(s), "corpus-disclosed", "content of {c:?}: {what}: {}", self.show());
                }
            }
        }
        Ok(())
    }
    fn show(&self) -> String {
        format!("public {}, rsa {}, disk {}, groups {:?}; {}", self.public, self.keys.rsa.is_some(), self.disk, self.groups, self.log.join("; "))
    }
}
struct WorldDirs {
    data: PathBuf,
    ref_dir: PathBuf,
}

/// What is expected for an entitled request
enum Exp {
    Json(Value),
    /// result of the library was an error
    Error,
    Lines(Vec<String>, bool),
    Graph(Model),
    Bytes(Vec<u8>),
    /// JSON list compared as set
    Set(BTreeSet<String>),
    /// an error, or the content of one of the files
    ErrorOrFile(Files),
    ErrorOrSubset(BTreeSet<String>),
}

struct ReadReq {
    method: &'static str,
    path: String,
    body: Option<String>,
    corpora: Vec<String>,
    range: Option<(usize, usize)>,
    exp: Exp,
    what: String,
}

fn lib<T: serde::Serialize, E>(r: Result<T, E>) -> Exp {
    match r {
        Ok(x) => Exp::Json(serde_json::to_value(x).unwrap()),
        Err(_) => Exp::Error,
    }
}
fn graph_of(g: Result<graphannis::AnnotationGraph, graphannis::errors::GraphAnnisError>) -> Result<Exp, Violation> {
    let Ok(g) = g else { return Ok(Exp::Error) };
    let mut out = vec![];
    graphannis_core::graph::serialization::graphml::export(&g, None, &mut out, |_| {}).map_err(serr)?;
    Ok(Exp::Graph(read_xml(&String::from_utf8_lossy(&out)).map_err(serr)?.0.normalized()))
}

fn gen_read(rng: &mut Rng, w: &World) -> Result<ReadReq, Violation> {
    let cs = &w.reference;
    let c = w.corpus(rng);
    let pools = w.models.get(&c).or(w.models.values().next()).map(Pools::new);
    let q = match &pools {
        Some(p) if rng.chance(60) => gen_query(rng, p, 2, true).text,
        _ => rng.pick(&["tok", "secret", "node", "tok . tok", "annis:doc", "tok . ", "#1 > #2", "tok .", "secret=/.*/ @* node", "x=\"", "lemma & pos"]).to_string(),
    };
    let lang = if rng.chance(80) { QueryLanguage::AQL } else { QueryLanguage::AQLQuirksV3 };
    let langs = if matches!(lang, QueryLanguage::AQL) { "AQL" } else { "AQLQuirksV3" };
    let mut sel = vec![c.clone()];
    for _ in 0..rng.below(3) {
        sel.push(w.corpus(rng));
    }
    if rng.chance(80) {
        sel.sort();
        sel.dedup();
    }
    if rng.chance(4) {
        sel.clear();
    }
    let get = |path: String, exp: Exp, c: &str| ReadReq { method: "GET", what: path.clone(), path, body: None, corpora: vec![c.to_string()], range: None, exp };
    let post = |path: &str, body: Value, exp: Exp, sel: &[String]| ReadReq { method: "POST", path: path.into(), what: format!("{path} {body}"), body: Some(body.to_string()), corpora: sel.to_vec(), range: None, exp };
    let flags = |rng: &mut Rng| (rng.chance(60), rng.chance(30));
    Ok(match rng.below(15) {
        0 | 1 => post("/v1/search/count", json!({"query": q, "query_language": langs, "corpora": sel}), lib(cs.count_extra(sq(&sel, &q, lang, None))), &sel),
        2 | 3 => {
            let (o, on) = *rng.pick(&[(ResultOrder::Normal, "Normal"), (ResultOrder::Inverted, "Inverted"), (ResultOrder::NotSorted, "NotSorted")]);
            let (off, lim) = if rng.chance(60) { (0, None) } else { (rng.below(4), Some(rng.below(5))) };
            let sorted = !matches!(o, ResultOrder::NotSorted);
            let (off, lim) = if sorted { (off, lim) } else { (0, None) };
            let exp = match cs.find(sq(&sel, &q, lang, None), off, lim, o) {
                Ok(l) => Exp::Lines(l, sorted),
                Err(_) => Exp::Error,
            };
            post("/v1/search/find", json!({"query": q, "query_language": langs, "corpora": sel, "offset": off, "limit": lim, "order": on}), exp, &sel)
        }
        4 => {
            let def = vec![FrequencyDefEntry { ns: None, name: rng.pick(&["tok", "pos", "secret"]).to_string(), node_ref: "1".into() }];
            post("/v1/search/frequency", json!({"query": q, "query_language": langs, "corpora": sel, "definition": [{"ns": null, "name": def[0].name, "node_ref": "1"}]}), lib(cs.frequency(sq(&sel, &q, lang, None), def.clone())), &sel)
        }
        5 => {
            let (a, b) = flags(rng);
            get(format!("/v1/corpora/{}/node-annotations?list_values={a}&only_most_frequent_values={b}", enc(&c)), lib(cs.list_node_annotations(&c, a, b)), &c)
        }
        6 => {
            let t = rng.chance(40).then_some(AnnotationComponentType::Dominance);
            let n = rng.chance(20).then_some("");
            let exp = match cs.list_components(&c, t.clone(), n) {
                Ok(l) => Exp::Set(l.into_iter().map(|c| json!({"type": c.get_type(), "name": c.name, "layer": c.layer}).to_string()).collect()),
                Err(_) => Exp::Error,
            };
            let mut a: Vec<String> = t.iter().map(|t| format!("type={t}")).collect();
            a.extend(n.map(|n| format!("name={n}")));
            get(format!("/v1/corpora/{}/components?{}", enc(&c), a.join("&")), exp, &c)
        }
        7 => {
            let comps = cs.list_components(&c, None, None).unwrap_or_default();
            let mut named: Vec<_> = comps.into_iter().filter(|c| !c.name.is_empty() && !c.layer.is_empty()).collect();
            named.push(graphannis_core::types::Component::new(AnnotationComponentType::Pointing, "no".into(), "no".into()));
            let k = rng.pick(&named).clone();
            let (a, b) = flags(rng);
            get(format!("/v1/corpora/{}/edge-annotations/{}/{}/{}/?list_values={a}&only_most_frequent_values={b}", enc(&c), k.get_type(), enc(&k.layer), enc(&k.name)), lib(cs.list_edge_annotations(&c, &k, a, b)), &c)
        }
        8 => get(format!("/v1/corpora/{}/configuration", enc(&c)), lib(cs.info(&c).map(|i| i.config)), &c),
        9 => {
            let names: Vec<String> = w.models.get(&c).map(|m| m.nodes.keys().cloned().collect()).unwrap_or_default();
            let ids: Vec<String> = (0..rng.range(1, 3)).map(|_| if names.is_empty() { "x".into() } else { rng.pick(&names).clone() }).collect();
            let (l, r) = (rng.below(3), rng.below(3));
            let exp = graph_of(cs.subgraph(&c, ids.clone(), l, r, None))?;
            post(&format!("/v1/corpora/{}/subgraph", enc(&c)), json!({"node_ids": ids, "left": l, "right": r}), exp, std::slice::from_ref(&c))
        }
        10 => get(format!("/v1/corpora/{}/subgraph-for-query?query={}&query_language={langs}", enc(&c), enc(&q)), graph_of(cs.subgraph_for_query(&c, &q, lang, None))?, &c),
        11 => {
            // list of files
            let f = w.files.get(&c).cloned().unwrap_or_default();
            let all: BTreeSet<String> = f.keys().cloned().collect();
            match rng.below(3) {
                0 => get(format!("/v1/corpora/{}/files", enc(&c)), if all.is_empty() { Exp::ErrorOrSubset(all) } else { Exp::Set(all) }, &c),
                1 => {
                    let mut dirs: Vec<String> = all.iter().filter_map(|f| f.rsplit_once('/').map(|x| x.0.to_string())).collect();
                    dirs.push("root".into());
                    let d = rng.pick(&dirs).clone();
                    let s: BTreeSet<String> = all.iter().filter(|f| f.starts_with(&format!("{d}/"))).cloned().collect();
                    let e = if s.is_empty() || d.split('/').any(|x| x == "..") || d.starts_with('/') { Exp::ErrorOrSubset(all) } else { Exp::Set(s) };
                    get(format!("/v1/corpora/{}/files?node={}", enc(&c), enc(&d)), e, &c)
                }
                _ => {
                    let n = rng.pick(&["..", "../..", "/", "../current", ".", "./..", "/etc", "x/../..", "%2e%2e", " ..", "../../secret.txt", "../../../l1"]).to_string();
                    get(format!("/v1/corpora/{}/files?node={}", enc(&c), enc(&n)), Exp::ErrorOrSubset(all), &c)
                }
            }
        }
        _ => {
            let f = w.files.get(&c).cloned().unwrap_or_default();
            let l: Vec<(&String, &Vec<u8>)> = f.iter().collect();
            if !l.is_empty() && rng.chance(60) {
                let (n, b) = *rng.pick(&l);
                let mut r = get(format!("/v1/corpora/{}/files/{}", enc(&c), enc(n)), Exp::Bytes(b.clone()), &c);
                if !b.is_empty() && rng.chance(30) {
                    let a = rng.below(b.len());
                    let e = rng.range(a, b.len());
                    r.range = Some((a, e));
                }
                r
            } else {
                let n = match rng.below(4) {
                    0 => format!("../{}", rng.pick(&["secret.txt", "current/nodes_v1.bin", "../secret.txt", "../../secret.txt", "../service.sqlite", "corpus-config.toml"])),
                    1 => w.dir.join("secret.txt").to_string_lossy().to_string(),
                    2 => rng.pick(&["x/../../secret.txt", "./x", "%2e%2e/secret.txt", "..%2fsecret.txt", "current/nodes_v1.bin", "current/custom_annotations.bin", " ../secret.txt", "%252e%252e/secret.txt", "secret.txt", "/secret.txt", "..\\secret.txt", ".", "a/", "files/root/x.txt", "root"]).to_string(),
                    _ => w.files.values().flat_map(|f| f.keys()).next().cloned().unwrap_or_default() + "x",
                };
                get(format!("/v1/corpora/{}/files/{}", enc(&c), enc(&n)), Exp::ErrorOrFile(f), &c)
            }
        }
    })
}

fn judge(w: &World, t: &Token, r: &ReadReq, a: &Result<Response, String>) -> Case {
    let what = || format!("{} by {}", r.what, t.what);
    let a = match a {
        Ok(a) => a,
        Err(e) => return viol("no-answer", format!("{e}: {}: {}", what(), w.show())),
    };
    w.no_leak(t, a, &what())?;
    let got = || format!("{} {:.300}: {}: {}", a.status, a.text(), what(), w.show());
    let kind = r.path.trim_start_matches("/v1/").split(['?']).next().unwrap().split('/').nth(if r.path.starts_with("/v1/search") { 1 } else { 2 }).unwrap_or("").to_string();
    if !t.valid {
        check!(a.status == 401, format!("invalid-token-accepted:{kind}"), "{}", got());
        return Ok(());
    }
    // (a segment "." or ".." can be resolved before)
    let dots = r.path.starts_with("/v1/corpora") && r.corpora.iter().any(|c| c == "." || c == ".." || c.is_empty());
    if !r.corpora.iter().all(|c| w.may_read(t, c)) {
        check!(a.status == 403 || dots && a.status == 404, format!("access-not-denied:{kind}"), "{}", got());
        return Ok(());
    }
    if dots && a.status == 404 {
        return Ok(());
    }
    check!(a.status != 403 && a.status != 401, format!("access-denied:{kind}"), "{}", got());
    match &r.exp {
        Exp::Error => check!(a.status >= 400, format!("answer-instead-of-error:{kind}"), "{}", got()),
        Exp::Json(v) => check!(a.status == 200 && same_json(&a.json(), v), format!("different-answer:{kind}"), "expected {v:.600}: {}", got()),
        Exp::Lines(l, sorted) => {
            let mut g: Vec<String> = a.text().lines().map(|s| s.to_string()).collect();
            let mut l = l.clone();
            if !sorted {
                g.sort();
                l.sort();
            }
            check!(a.status == 200 && g == l, format!("different-answer:{kind}"), "expected {l:?}: {}", got())
        }
        Exp::Graph(m) => {
            check!(a.status == 200, format!("different-answer:{kind}"), "{}", got());
            match read_xml(&a.text()) {
                Ok((mut g, _)) => {
                    let mut m = m.clone();
                    if kind == "subgraph-for-query" {
                        // only defined for the context of nodes
                        let gap = ("Ordering".to_string(), "annis".to_string(), "datasource-gap".to_string());
                        g.edges.remove(&gap);
                        m.edges.remove(&gap);
                    }
                    if let Some(d) = m.diff(&g.normalized()) {
                        return viol(format!("different-answer:{kind}"), format!("{d}: {}", got()));
                    }
                }
                Err(e) => return viol(format!("different-answer:{kind}"), format!("{e}: {}", got())),
            }
        }
        Exp::Bytes(b) => match r.range {
            Some((x, y)) => check!(a.status == 206 && a.body == b[x..(y + 1).min(b.len())], "different-range", "{x}-{y} of {} bytes: {}", b.len(), got()),
            None => check!(a.status == 200 && a.body == *b, format!("different-answer:{kind}"), "{} bytes expected: {}", b.len(), got()),
        },
        Exp::Set(s) => check!(a.status == 200 && set(&a.json()).as_ref() == Some(s), format!("different-answer:{kind}"), "expected {s:?}: {}", got()),
        Exp::ErrorOrSubset(s) => check!(a.status >= 400 || set(&a.json()).is_some_and(|g| g.is_subset(s)), format!("outside-listed:{kind}"), "only {s:?} exist: {}", got()),
        Exp::ErrorOrFile(f) => check!(a.status >= 400 || a.status == 200 && f.values().any(|b| *b == a.body), format!("outside-read:{kind}"), "{:?}: {}", f.keys(), got()),
    }
    Ok(())
}
fn set(v: &Value) -> Option<BTreeSet<String>> {
    Some(v.as_array()?.iter().map(|x| x.as_str().map(|s| s.to_string()).unwrap_or_else(|| x.to_string())).collect())
}
/// lists without defined order
fn same_json(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Array(x), Value::Array(y)) => {
            let s = |v: &Vec<Value>| {
                let mut r: Vec<String> = v.iter().map(|x| x.to_string()).collect();
                r.sort();
                r
            };
            s(x) == s(y)
        }
        _ => a == b,
    }
}

fn check_list(w: &World, s: &Server, t: &Token) -> Case {
    let a = s.request("GET", "/v1/corpora", t, None, None).map_err(|e| Violation { sig: "no-answer".into(), detail: format!("{e}: {}", w.show()) })?;
    let got = || format!("{} {:.300}: corpora for {}: {}", a.status, a.text(), t.what, w.show());
    if !t.valid {
        check!(a.status == 401, "invalid-token-accepted:corpora", "{}", got());
        return Ok(());
    }
    let exp: Vec<&String> = w.models.keys().filter(|c| w.may_read(t, c)).collect();
    check!(a.status == 200 && a.json() == json!(exp), "different-list", "expected {exp:?}: {}", got());
    Ok(())
}

/// Wait for the end of a job and return the last answer
fn wait_job(w: &World, s: &Server, a: &Response) -> Result<Response, Violation> {
    let id = a.json()["uuid"].as_str().unwrap_or_default().to_string();
    let err = |e: String| Violation { sig: "no-answer".into(), detail: format!("{e}: {}", w.show()) };
    for (t, st) in [(anonymous(), 403), (Token { header: Some("Bearer x.y.z".into()), valid: false, groups: vec![], admin: false, what: "".into() }, 401)] {
        let r = s.request("GET", &format!("/v1/jobs/{id}"), &t, None, None).map_err(err)?;
        check!(r.status == st, "access-not-denied:jobs", "{}: {}", r.status, w.show());
        w.no_leak(&t, &r, "jobs")?;
    }
    let t = Instant::now();
    loop {
        let r = s.request("GET", &format!("/v1/jobs/{id}"), &w.keys.admin(), None, None).map_err(err)?;
        if r.status != 202 {
            let again = s.request("GET", &format!("/v1/jobs/{id}"), &w.keys.admin(), None, None).map_err(err)?;
            check!(again.status == 404, "job-twice", "{}: {}", again.status, w.show());
            return Ok(r);
        }
        check!(t.elapsed() < Duration::from_secs(60), "job-not-finished", "{}: {}", r.text(), w.show());
        std::thread::sleep(Duration::from_millis(5));
    }
}

fn case(ctx: &mut Ctx, rng: &mut Rng) -> Case {
    let scr = scratch();
    let mut w = World::new(rng, scr.path())?;
    let config = w.config();
    let mut srv = Server::start(scr.path(), &config, &w.keys.admin(), rng)?;
    let noans = |e: String, w: &World| Violation { sig: "no-answer".into(), detail: format!("{e}: {}", w.show()) };
    for step in 0..rng.range(40, 90) {
        let gnames: Vec<String> = w.groups.keys().cloned().collect();
        let t = if step < 4 && rng.chance(60) { w.keys.admin() } else { w.keys.random(rng, &gnames) };
        ctx.count("requests", 1);
        ctx.count(if !t.valid { "with_invalid_token" } else if t.admin { "by_admin" } else if t.header.is_none() { "anonymous" } else { "by_user" }, 1);
        let k = if step < 4 { rng.below(14) } else { rng.below(60) };
        let what = |w: &World, s: &str, a: &Response| format!("{s} by {}: {} {:.300}: {}", t.what, a.status, a.text(), w.show());
        // requests of administrators
        let denied = |a: &Response| a.status == if t.valid { 403 } else { 401 };
        match k {
            0..9 => {
                let g = rng.pick(GROUPS).to_string();
                let mut cs: Vec<String> = (0..rng.below(4)).map(|_| w.corpus(rng)).collect();
                if rng.chance(85) {
                    cs.sort();
                    cs.dedup();
                }
                let dup = cs.iter().collect::<BTreeSet<_>>().len() < cs.len();
                let name = if rng.chance(10) { rng.pick(GROUPS).to_string() } else { g.clone() };
                let body = json!({"name": name, "corpora": cs}).to_string();
                let a = srv.request("PUT", &format!("/v1/groups/{}", enc(&g)), &t, Some(("application/json", body.as_bytes())), None).map_err(|e| noans(e, &w))?;
                let s = format!("group {g:?} {body}");
                w.no_leak(&t, &a, &s)?;
                if t.admin {
                    if name != g {
                        check!(a.status == 400, "group-name-mismatch", "{}", what(&w, &s, &a));
                    } else {
                        check!(a.status == 200 || dup, "group-not-changed", "{}", what(&w, &s, &a));
                        if a.status == 200 {
                            w.groups.insert(g, cs.into_iter().collect());
                        }
                    }
                    w.log.push(s);
                } else {
                    check!(denied(&a), "access-not-denied:groups", "{}", what(&w, &s, &a));
                }
            }
            9 => {
                let g = if !gnames.is_empty() && rng.chance(70) { rng.pick(&gnames).clone() } else { rng.pick(GROUPS).to_string() };
                let a = srv.request("DELETE", &format!("/v1/groups/{}", enc(&g)), &t, None, None).map_err(|e| noans(e, &w))?;
                let s = format!("delete group {g:?}");
                if t.admin {
                    check!(a.status == 200, "group-not-deleted", "{}", what(&w, &s, &a));
                    w.groups.remove(&g);
                    w.log.push(s);
                } else {
                    check!(denied(&a), "access-not-denied:groups", "{}", what(&w, &s, &a));
                }
            }
            10 => {
                let a = srv.request("GET", "/v1/groups", &t, None, None).map_err(|e| noans(e, &w))?;
                if t.admin {
                    let got: Option<BTreeMap<String, BTreeSet<String>>> = a.json().as_array().map(|l| l.iter().map(|g| (g["name"].as_str().unwrap_or_default().to_string(), set(&g["corpora"]).unwrap_or_default())).collect());
                    check!(a.status == 200 && got.as_ref() == Some(&w.groups), "different-groups", "{}", what(&w, "list of groups", &a));
                } else {
                    check!(denied(&a), "access-not-denied:groups", "{}", what(&w, "list of groups", &a));
                }
            }
            11 => {
                // delete a corpus
                let c = w.corpus(rng);
                let a = srv.request("DELETE", &format!("/v1/corpora/{}", enc(&c)), &t, None, None).map_err(|e| noans(e, &w))?;
                let s = format!("delete corpus {c:?}");
                if t.admin && (a.status == 404 && (c == "." || c == "..") && w.models.contains_key(&c)) {
                    // not addressable
                } else if t.admin {
                    let existed = w.models.contains_key(&c);
                    check!(a.status == if existed { 200 } else { 404 }, "delete-status", "{}", what(&w, &s, &a));
                    if existed {
                        w.reference.delete(&c).map_err(serr)?;
                        w.models.remove(&c);
                        w.files.remove(&c);
                    }
                    w.log.push(s);
                } else {
                    check!(denied(&a) || a.status == 404 && (c == "." || c == ".."), "access-not-denied:delete", "{}", what(&w, &s, &a));
                }
            }
            12 => {
                // import
                let n = rng.pick(&["a", "n1", "n2", "a b", "ü"]).to_string();
                let (m, files, secrets) = new_corpus(rng, &n);
                let mut e = vec![(format!("{}.graphml", enc(&n)), write_xml(&m, None).into_bytes())];
                e.extend(files);
                let bad = rng.chance(15);
                let z = if bad { b"no archive".to_vec() } else { make_zip(&e) };
                let over = rng.chance(50);
                let a = srv.request("POST", &format!("/v1/import?override_existing={over}"), &t, Some(("application/zip", &z)), None).map_err(|e| noans(e, &w))?;
                let s = format!("import {n:?} overwrite {over}");
                if t.admin {
                    check!(a.status == 202, "import-not-accepted", "{}", what(&w, &s, &a));
                    let r = w.reference.import_all_from_zip(std::io::Cursor::new(z), w.disk, over, |_| {});
                    let j = wait_job(&w, &srv, &a)?;
                    check!(j.status == if r.is_ok() { 200 } else { 410 }, "import-status", "library {:?}: {}", r.as_ref().map_err(|e| e.to_string()), what(&w, &s, &j));
                    if let Ok(l) = r {
                        for c in l {
                            w.models.insert(c.clone(), m.clone());
                            w.secrets.insert(c, secrets.clone());
                        }
                        refresh(&mut w);
                    }
                    w.log.push(s);
                    ctx.count("imports", 1);
                } else {
                    check!(denied(&a), "access-not-denied:import", "{}", what(&w, &s, &a));
                }
            }
            13 => {
                let mut sel: Vec<String> = w.models.keys().filter(|_| rng.chance(60)).cloned().collect();
                if rng.chance(15) {
                    sel.push("missing".into());
                }
                let body = json!({"corpora": sel}).to_string();
                let a = srv.request("POST", "/v1/export", &t, Some(("application/json", body.as_bytes())), None).map_err(|e| noans(e, &w))?;
                let s = format!("export {sel:?}");
                if t.admin {
                    check!(a.status == 202, "export-not-accepted", "{}", what(&w, &s, &a));
                    let j = wait_job(&w, &srv, &a)?;
                    check!(j.status == if sel.contains(&"missing".to_string()) { 410 } else { 200 }, "export-status", "{}", what(&w, &s, &j));
                    if j.status == 200 && !sel.is_empty() {
                        let x = scr.path().join(format!("x{step}"));
                        let cs = CorpusStorage::with_cache_strategy(&x, CacheStrategy::FixedMaxMemory(1000), false).map_err(serr)?;
                        let l = cs.import_all_from_zip(std::io::Cursor::new(j.body.clone()), false, false, |_| {}).map_err(|e| Violation { sig: "exported-archive".into(), detail: format!("{e}: {}", w.show()) })?;
                        let l: BTreeSet<String> = l.into_iter().collect();
                        check!(l == sel.iter().cloned().collect(), "exported-corpora", "{l:?} instead of {sel:?}: {}", w.show());
                        let x1 = observe_storage(&cs, &x, scr.path())?;
                        let x2 = observe_storage(&w.reference, &w.ref_dir, scr.path())?;
                        for c in &sel {
                            if let Some(d) = x2[c].0.diff(&x1[c].0) {
                                return viol("exported-content", format!("{c:?}: {d}: {}", w.show()));
                            }
                            check!(x2[c].2 == x1[c].2, "exported-files", "{c:?}: {:?} instead of {:?}: {}", x1[c].2.keys(), x2[c].2.keys(), w.show());
                        }
                        drop(cs);
                        std::fs::remove_dir_all(&x).map_err(serr)?;
                        ctx.count("exports", 1);
                    }
                } else {
                    check!(denied(&a), "access-not-denied:export", "{}", what(&w, &s, &a));
                }
            }
            14 if rng.chance(50) => {
                let hard = rng.chance(50);
                srv.stop(hard)?;
                w.log.push(format!("restart {hard}"));
                srv = Server::start(scr.path(), &config, &w.keys.admin(), rng)?;
                ctx.count("restarts", 1);
            }
            15 | 16 | 17 => check_list(&w, &srv, &t)?,
            18 => {
                let q = rng.pick(&["tok", "tok . tok", "tok .", "#1 . #2", "node & tok & #1 > #2"]).to_string();
                let a = srv.request("GET", &format!("/v1/search/node-descriptions?query={}", enc(&q)), &t, None, None).map_err(|e| noans(e, &w))?;
                match w.reference.node_descriptions(&q, QueryLanguage::AQL) {
                    Ok(d) => check!(a.status == 200 && a.json() == serde_json::to_value(d).unwrap(), "different-answer:node-descriptions", "{}", what(&w, &q, &a)),
                    Err(_) => check!(a.status == 400, "different-answer:node-descriptions", "{}", what(&w, &q, &a)),
                }
            }
            19 => {
                // foreign or invalid job
                let id = *rng.pick(&["00000000-0000-4000-8000-000000000000", "x", "..", "1"]);
                let a = srv.request("GET", &format!("/v1/jobs/{}", enc(id)), &t, None, None).map_err(|e| noans(e, &w))?;
                if t.admin {
                    check!(a.status == 404 || a.status == 400, "unknown-job", "{}", what(&w, id, &a));
                } else {
                    check!(denied(&a) || a.status == 404 && id == "..", "access-not-denied:jobs", "{}", what(&w, id, &a));
                }
            }
            _ => {
                let r = gen_read(rng, &w)?;
                let a = srv.request(r.method, &r.path, &t, r.body.as_ref().map(|b| ("application/json", b.as_bytes())), r.range);
                judge(&w, &t, &r, &a)?;
                let allowed = t.valid && r.corpora.iter().all(|c| w.may_read(&t, c));
                ctx.count(if allowed { "entitled_reads" } else { "denied_reads" }, 1);
                ctx.distinct(&format!("{} {} {}", r.what, t.what, allowed));
            }
        }
    }
    check_list(&w, &srv, &w.keys.admin())?;
    srv.stop(rng.chance(30))?;
    // rejected requests had no effect
    let cs = CorpusStorage::with_cache_strategy(&w.data, CacheStrategy::FixedMaxMemory(1000), false).map_err(serr)?;
    let a = observe_storage(&cs, &w.data, scr.path())?;
    let b = observe_storage(&w.reference, &w.ref_dir, scr.path())?;
    check!(a.keys().eq(b.keys()), "different-corpora", "{:?} instead of {:?}: {}", a.keys(), b.keys(), w.show());
    for (c, x) in &b {
        let y = &a[c];
        if let Some(d) = x.0.diff(&y.0) {
            return viol("different-content", format!("{c:?}: {d}: {}", w.show()));
        }
        check!(x.1 == y.1 && x.2 == y.2, "different-files", "{c:?}: {:?} instead of {:?}: {}", y.2.keys(), x.2.keys(), w.show());
    }
    ctx.sample(json!({"public": w.public, "rsa": w.keys.rsa.is_some(), "groups": w.groups, "log": w.log}));
    Ok(())
}

/// Many clients at once: readers get the same answers as alone, changes of a group never
/// take away an access that both the old and the new version grant
fn concurrent_case(ctx: &mut Ctx, rng: &mut Rng) -> Case {
    let scr = scratch();
    let mut w = World::new(rng, scr.path())?;
    w.public = false;
    let config = w.config();
    let srv = Server::start(scr.path(), &config, &w.keys.admin(), rng)?;
    let all: Vec<String> = w.models.keys().filter(|c| *c != "." && *c != "..").cloned().collect();
    if all.is_empty() {
        return Ok(());
    }
    // constant for g1 (also while it is replaced), g2 changes
    let keep: BTreeSet<String> = all.iter().filter(|_| rng.chance(60)).cloned().collect();
    let put = |port: u16, t: &Token, g: &str, l: &BTreeSet<String>| {
        let b = json!({"name": g, "corpora": l}).to_string();
        request(port, "PUT", &format!("/v1/groups/{}", enc(g)), t, Some(("application/json", b.as_bytes())), None)
    };
    let a = put(srv.port, &w.keys.admin(), "g1", &keep).map_err(serr)?;
    check!(a.status == 200, "group-not-changed", "{} {}", a.status, a.text());
    w.groups.insert("g1".into(), keep.clone());
    let mut jobs: Vec<Vec<(Token, ReadReq)>> = vec![];
    for _ in 0..5 {
        let mut l = vec![];
        for _ in 0..25 {
            // tokens without the changing group
            let t = loop {
                let t = w.keys.random(rng, &["g1".to_string()]);
                if !t.groups.iter().any(|g| g == "g2") {
                    break t;
                }
            };
            l.push((t, gen_read(rng, &w)?));
        }
        jobs.push(l);
    }
    let changes: Vec<(String, BTreeSet<String>)> = (0..40)
        .map(|_| {
            if rng.chance(50) {
                let mut s = keep.clone();
                s.insert(format!("other{}", rng.below(5)));
                ("g1".to_string(), s)
            } else {
                ("g2".to_string(), all.iter().filter(|_| rng.chance(50)).cloned().collect())
            }
        })
        .collect();
    let port = srv.port;
    let admin = w.keys.admin();
    let mut done: Vec<Vec<Result<Response, String>>> = vec![];
    let mut put_results = vec![];
    std::thread::scope(|s| {
        let hs: Vec<_> = jobs
            .iter()
            .map(|l| s.spawn(move || l.iter().map(|(t, r)| request(port, r.method, &r.path, t, r.body.as_ref().map(|b| ("application/json", b.as_bytes())), r.range)).collect::<Vec<_>>()))
            .collect();
        let h = s.spawn(|| changes.iter().map(|(g, l)| put(port, &admin, g, l)).collect::<Vec<_>>());
        done = hs.into_iter().map(|h| h.join().unwrap()).collect();
        put_results = h.join().unwrap();
    });
    for (l, d) in jobs.iter().zip(&done) {
        for ((t, r), a) in l.iter().zip(d) {
            judge(&w, t, r, a)?;
            ctx.count("concurrent_requests", 1);
            ctx.distinct(&format!("{} {}", r.what, t.what));
        }
    }
    for a in &put_results {
        match a {
            Ok(a) => check!(a.status == 200, "group-not-changed", "while others read: {} {}", a.status, a.text()),
            Err(e) => return viol("no-answer", e.clone()),
        }
    }
    for (g, l) in changes {
        w.groups.insert(g, l);
    }
    for g in ["g1", "g2"] {
        if w.keys.rsa.is_none() {
            let t = jwt("HS256", &json!({"sub": "u", "exp": now() + 3600, GK: [g]}), &w.keys.secret);
            check_list(&w, &srv, &Token { header: Some(format!("Bearer {t}")), valid: true, groups: vec![g.into()], admin: false, what: g.into() })?;
        }
    }
    ctx.count("concurrent_changes", put_results.len() as u64);
    srv.stop(false)
}
