//! The PostgreSQL wire protocol over a unix socket, spoken by the stand-in, with latencies and
//! faults chosen by the case.
#![allow(dead_code)]
use crate::db::*;
use crate::sql::*;
use std::collections::{HashMap, HashSet};
use std::path::PathBuf;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::{UnixListener, UnixStream};
use tokio::sync::mpsc;

#[derive(Clone, Copy, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub enum FaultKind {
    /// the statement is refused by the server
    Error,
    /// the connection is lost before the statement reaches the server
    Drop,
    /// the connection is lost after the statement was carried out
    Lost,
}
#[derive(Clone, Debug, Default)]
pub struct Net {
    /// nothing below applies before this is set
    pub armed: bool,
    /// milliseconds: until the statement arrives, between what it sees and what it does, until its
    /// answer arrives
    pub before: Vec<u32>,
    pub mid: Vec<u32>,
    pub after: Vec<u32>,
    /// count every statement, not only those on the jobs table
    pub all: bool,
    /// by number of the statement on the jobs table
    pub faults: HashMap<u64, FaultKind>,
    pub count: u64,
    pub hit: Vec<(u64, FaultKind)>,
    /// when statements failed, microseconds since 2000
    pub hit_at: Vec<i64>,
    /// something the stand-in does not understand: the case decides nothing
    pub unsupported: Option<String>,
    /// statements refused with an SQL error that was not injected
    pub refused: Vec<String>,
    pub connections: u64,
    pub down: bool,
}
pub struct Server {
    pub sh: Shared,
    pub net: Arc<Mutex<Net>>,
    pub dir: PathBuf,
}
impl Drop for Server {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(self.dir.join(SOCKET));
        let _ = std::fs::remove_dir(&self.dir);
    }
}
pub const SOCKET: &str = ".s.PGSQL.5432";
static SERIAL: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

impl Server {
    pub fn start(seed: u64) -> Server {
        let n = SERIAL.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let dir = std::env::temp_dir().join(format!("rxpg-{}-{n}", std::process::id()));
        let _ = std::fs::remove_file(dir.join(SOCKET));
        std::fs::create_dir_all(&dir).expect("harness: scratch directory");
        let l = UnixListener::bind(dir.join(SOCKET)).expect("harness: socket");
        let sh = Shared::new(seed);
        let net = Arc::new(Mutex::new(Net::default()));
        let (s2, n2) = (sh.clone(), net.clone());
        tokio::spawn(async move {
            let mut id = 0u64;
            while let Ok((sock, _)) = l.accept().await {
                id += 1;
                let mut n = n2.lock().unwrap();
                n.connections += 1;
                if n.down {
                    continue;
                }
                let mut c = Session::new(id, sock, s2.clone(), n2.clone());
                tokio::spawn(async move {
                    let _ = c.serve().await;
                    c.sh.lock().close(c.id);
                    c.sh.changed.notify_waiters();
                });
            }
        });
        Server { sh, net, dir }
    }
    pub fn url(&self) -> String {
        let p = self.dir.to_str().unwrap().replace('/', "%2F");
        format!("postgres://rx@{p}/rx?sslmode=disable")
    }
    /// Closes every connection that listens.
    pub fn drop_listeners(&self) {
        let db = self.sh.lock();
        for c in db.conns.values().filter(|c| !c.listens.is_empty()) {
            let _ = c.out.send(Push::Kill);
        }
    }
    pub fn drop_all(&self) {
        let db = self.sh.lock();
        for c in db.conns.values() {
            let _ = c.out.send(Push::Kill);
        }
    }
    pub fn unsupported(&self) -> Option<String> {
        self.net.lock().unwrap().unsupported.clone()
    }
}

struct Prepared {
    plans: Vec<Plan>,
    special: Option<Special>,
    params: Vec<Ty>,
    cols: Vec<(String, Ty)>,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Special {
    RegtypeOid,
    OidArray,
    TypeInfo,
    EnumLabels,
}
struct Session {
    id: u64,
    sock: UnixStream,
    sh: Shared,
    net: Arc<Mutex<Net>>,
    stmts: HashMap<String, Arc<Prepared>>,
    portal: Option<(Arc<Prepared>, Vec<Val>, bool)>,
    out: Vec<u8>,
    push: mpsc::UnboundedReceiver<Push>,
    failed: bool,
    unlisten: HashSet<String>,
}
enum Stop {
    Io,
    Dropped,
}
impl From<std::io::Error> for Stop {
    fn from(_: std::io::Error) -> Self {
        Stop::Io
    }
}
struct Rd<'a>(&'a [u8]);
impl<'a> Rd<'a> {
    fn cstr(&mut self) -> String {
        let n = self.0.iter().position(|b| *b == 0).unwrap_or(self.0.len());
        let s = String::from_utf8_lossy(&self.0[..n]).into_owned();
        self.0 = &self.0[(n + 1).min(self.0.len())..];
        s
    }
    fn u8(&mut self) -> u8 {
        let x = self.0[0];
        self.0 = &self.0[1..];
        x
    }
    fn i16(&mut self) -> i16 {
        let x = i16::from_be_bytes(self.0[..2].try_into().unwrap());
        self.0 = &self.0[2..];
        x
    }
    fn i32(&mut self) -> i32 {
        let x = i32::from_be_bytes(self.0[..4].try_into().unwrap());
        self.0 = &self.0[4..];
        x
    }
    fn bytes(&mut self, n: usize) -> &'a [u8] {
        let x = &self.0[..n];
        self.0 = &self.0[n..];
        x
    }
}

impl Session {
    fn new(id: u64, sock: UnixStream, sh: Shared, net: Arc<Mutex<Net>>) -> Session {
        let (tx, push) = mpsc::unbounded_channel();
        sh.lock().conns.insert(id, Conn { tx: None, listens: Default::default(), out: tx });
        Session { id, sock, sh, net, stmts: HashMap::new(), portal: None, out: vec![], push, failed: false, unlisten: HashSet::new() }
    }
    fn msg(&mut self, ty: u8, f: impl FnOnce(&mut Vec<u8>)) {
        self.out.push(ty);
        let at = self.out.len();
        self.out.extend([0; 4]);
        f(&mut self.out);
        let n = (self.out.len() - at) as i32;
        self.out[at..at + 4].copy_from_slice(&n.to_be_bytes());
    }
    async fn flush(&mut self) -> Result<(), Stop> {
        let o = std::mem::take(&mut self.out);
        self.sock.write_all(&o).await?;
        Ok(())
    }
    fn ready(&mut self) {
        let s = {
            let db = self.sh.lock();
            match db.conns[&self.id].tx {
                None => b'I',
                Some(t) if db.txs[&t].failed => b'E',
                Some(t) if db.txs[&t].explicit => b'T',
                Some(_) => b'I',
            }
        };
        self.msg(b'Z', |o| o.push(s));
    }
    fn error(&mut self, code: &str, m: &str) {
        self.msg(b'E', |o| {
            for (k, v) in [(b'S', "ERROR"), (b'V', "ERROR"), (b'C', code), (b'M', m)] {
                o.push(k);
                o.extend(v.as_bytes());
                o.push(0);
            }
            o.push(0);
        });
    }
    fn fail(&mut self, f: Fail, what: &str) {
        match f {
            Fail::Sql(c, m) => {
                self.net.lock().unwrap().refused.push(format!("{c} {m} [{}]", what.split_whitespace().collect::<Vec<_>>().join(" ")));
                self.error(c, &m);
            }
            Fail::Unsupported(m) => {
                self.net.lock().unwrap().unsupported.get_or_insert(format!("{m} [{}]", what.split_whitespace().collect::<Vec<_>>().join(" ")));
                self.error("0A000", &format!("not known to the stand-in: {m}"));
            }
        }
        let mut db = self.sh.lock();
        if let Some(t) = db.conns[&self.id].tx {
            let tx = db.txs.get_mut(&t).unwrap();
            if tx.explicit {
                tx.failed = true;
            } else {
                db.finish(self.id, false);
            }
        }
        drop(db);
        self.sh.changed.notify_waiters();
    }
    async fn serve(&mut self) -> Result<(), Stop> {
        // startup
        loop {
            let n = self.sock.read_i32().await? as usize;
            let mut b = vec![0; n - 4];
            self.sock.read_exact(&mut b).await?;
            let code = i32::from_be_bytes(b[..4].try_into().unwrap());
            if code == 80877103 {
                self.sock.write_all(b"N").await?;
                continue;
            }
            if code != 196608 {
                return Err(Stop::Io);
            }
            break;
        }
        self.msg(b'R', |o| o.extend(0i32.to_be_bytes()));
        for (k, v) in [("server_version", "16.0"), ("client_encoding", "UTF8"), ("TimeZone", "UTC"), ("integer_datetimes", "on")] {
            self.msg(b'S', |o| {
                o.extend(k.as_bytes());
                o.push(0);
                o.extend(v.as_bytes());
                o.push(0);
            });
        }
        let id = self.id as i32;
        self.msg(b'K', |o| {
            o.extend(id.to_be_bytes());
            o.extend(7i32.to_be_bytes());
        });
        self.ready();
        self.flush().await?;
        let mut skipping = false;
        loop {
            let mut head = [0u8; 5];
            // notifications go out only between transactions
            let idle = self.sh.lock().conns[&self.id].tx.is_none();
            let mut got = 0;
            while got < 5 {
                tokio::select! {
                    biased;
                    p = self.push.recv(), if got == 0 && idle => match p {
                        Some(Push::Note { channel, payload, pid }) => {
                            self.msg(b'A', |o| {
                                o.extend(pid.to_be_bytes());
                                o.extend(channel.as_bytes());
                                o.push(0);
                                o.extend(payload.as_bytes());
                                o.push(0);
                            });
                            self.flush().await?;
                        }
                        Some(Push::Kill) | None => return Err(Stop::Dropped),
                    },
                    r = self.sock.read(&mut head[got..]) => {
                        let n = r?;
                        if n == 0 {
                            return Err(Stop::Io);
                        }
                        got += n;
                    }
                }
            }
            let n = i32::from_be_bytes(head[1..].try_into().unwrap()) as usize;
            let mut body = vec![0; n - 4];
            self.sock.read_exact(&mut body).await?;
            let ty = head[0];
            if skipping && ty != b'S' && ty != b'X' {
                continue;
            }
            match ty {
                b'X' => return Ok(()),
                b'S' => {
                    skipping = false;
                    let implicit = {
                        let db = self.sh.lock();
                        db.conns[&self.id].tx.is_some_and(|t| !db.txs[&t].explicit)
                    };
                    if implicit {
                        self.sh.lock().finish(self.id, true);
                        self.sh.changed.notify_waiters();
                    }
                    self.ready();
                    self.flush().await?;
                }
                b'H' => self.flush().await?,
                b'Q' => {
                    let q = Rd(&body).cstr();
                    self.simple(&q).await?;
                    self.ready();
                    self.flush().await?;
                }
                b'P' => {
                    let mut r = Rd(&body);
                    let name = r.cstr();
                    let q = r.cstr();
                    let oids: Vec<u32> = (0..r.i16()).map(|_| r.i32() as u32).collect();
                    match self.parse(&q, &oids) {
                        Ok(p) => {
                            self.stmts.insert(name, Arc::new(p));
                            self.msg(b'1', |_| {});
                        }
                        Err(f) => {
                            self.fail(f, &q);
                            skipping = true;
                        }
                    }
                }
                b'D' => {
                    let mut r = Rd(&body);
                    let kind = r.u8();
                    let name = r.cstr();
                    let p = if kind == b'S' { self.stmts.get(&name).cloned() } else { self.portal.as_ref().map(|p| p.0.clone()) };
                    let Some(p) = p else {
                        self.error("26000", "prepared statement does not exist");
                        skipping = true;
                        continue;
                    };
                    if kind == b'S' {
                        self.msg(b't', |o| {
                            o.extend((p.params.len() as i16).to_be_bytes());
                            for t in &p.params {
                                o.extend(oid_of(*t).to_be_bytes());
                            }
                        });
                    }
                    if p.cols.is_empty() {
                        self.msg(b'n', |_| {});
                    } else {
                        self.describe(&p.cols, true);
                    }
                }
                b'B' => {
                    let mut r = Rd(&body);
                    let _portal = r.cstr();
                    let name = r.cstr();
                    let fmts: Vec<i16> = (0..r.i16()).map(|_| r.i16()).collect();
                    let Some(p) = self.stmts.get(&name).cloned() else {
                        self.error("26000", "prepared statement does not exist");
                        skipping = true;
                        continue;
                    };
                    let np = r.i16() as u16 as usize;
                    let mut vals = vec![];
                    let mut bad = None;
                    if np != p.params.len() {
                        bad = Some(Fail::Sql("08P01", format!("bind message supplies {np} parameters, but prepared statement requires {}", p.params.len())));
                    }
                    for i in 0..np {
                        let n = r.i32();
                        if n < 0 {
                            vals.push(Val::Null);
                            continue;
                        }
                        let b = r.bytes(n as usize);
                        if bad.is_some() {
                            continue;
                        }
                        let f = match fmts.len() {
                            0 => 0,
                            1 => fmts[0],
                            _ => fmts[i],
                        };
                        let db = self.sh.lock();
                        let v = if f == 1 { decode(&db, p.params[i], b) } else { String::from_utf8(b.to_vec()).map_err(|_| Fail::Sql("22021", "invalid byte sequence".into())).and_then(|s| db.input(p.params[i], &s)) };
                        match v {
                            Ok(v) => vals.push(v),
                            Err(e) => bad = Some(e),
                        }
                    }
                    let rf: Vec<i16> = (0..r.i16()).map(|_| r.i16()).collect();
                    let failed_tx = {
                        let mut db = self.sh.lock();
                        match db.conns[&self.id].tx {
                            None => {
                                db.begin(self.id, false);
                                false
                            }
                            Some(t) => db.txs[&t].failed,
                        }
                    };
                    let ends = matches!(p.plans.first().map(|p| &p.kind), Some(Kind::Other(Stmt::Commit | Stmt::Rollback)));
                    if failed_tx && !ends {
                        bad = Some(Fail::Sql("25P02", "current transaction is aborted, commands ignored until end of transaction block".into()));
                    }
                    match bad {
                        Some(f) => {
                            let t = p.plans.first().map(|p| p.text.clone()).unwrap_or_default();
                            self.fail(f, &t);
                            skipping = true;
                        }
                        None => {
                            self.portal = Some((p, vals, rf.first() == Some(&1)));
                            self.msg(b'2', |_| {});
                        }
                    }
                }
                b'E' => {
                    let Some((p, vals, binary)) = self.portal.take() else {
                        self.error("34000", "portal does not exist");
                        skipping = true;
                        continue;
                    };
                    if let Some(sp) = p.special {
                        self.special(sp, &vals);
                        continue;
                    }
                    let Some(plan) = p.plans.first() else {
                        self.msg(b'I', |_| {});
                        continue;
                    };
                    match self.execute(plan, &vals).await? {
                        Ok(out) => self.rows(&plan.cols, &out, binary, false),
                        Err(f) => {
                            self.fail(f, &plan.text);
                            skipping = true;
                        }
                    }
                }
                b'C' => {
                    let mut r = Rd(&body);
                    if r.u8() == b'S' {
                        let n = r.cstr();
                        self.stmts.remove(&n);
                    }
                    self.msg(b'3', |_| {});
                }
                x => panic!("harness: message {:?}", x as char),
            }
        }
    }
    fn describe(&mut self, cols: &[(String, Ty)], binary: bool) {
        self.msg(b'T', |o| {
            o.extend((cols.len() as i16).to_be_bytes());
            for (n, ty) in cols {
                o.extend(n.as_bytes());
                o.push(0);
                o.extend(0i32.to_be_bytes());
                o.extend(0i16.to_be_bytes());
                o.extend(oid_of(*ty).to_be_bytes());
                o.extend((-1i16).to_be_bytes());
                o.extend((-1i32).to_be_bytes());
                o.extend((binary as i16).to_be_bytes());
            }
        });
    }
    fn rows(&mut self, cols: &[(String, Ty)], out: &Out, binary: bool, describe: bool) {
        if describe && !cols.is_empty() {
            self.describe(cols, binary);
        }
        for r in &out.rows {
            if cols.is_empty() {
                break;
            }
            let mut b = vec![];
            b.extend((r.len() as i16).to_be_bytes());
            {
                let db = self.sh.lock();
                for (v, (_, ty)) in r.iter().zip(cols) {
                    if *v == Val::Null {
                        b.extend((-1i32).to_be_bytes());
                        continue;
                    }
                    let e = if binary { encode(&db, v, *ty) } else { db.output(v, *ty).into_bytes() };
                    b.extend((e.len() as i32).to_be_bytes());
                    b.extend(e);
                }
            }
            self.msg(b'D', |o| o.extend(b));
        }
        self.msg(b'C', |o| {
            o.extend(out.tag.as_bytes());
            o.push(0);
        });
    }
    fn parse(&mut self, q: &str, oids: &[u32]) -> R<Prepared> {
        let flat = q.split_whitespace().collect::<Vec<_>>().join(" ");
        let special = match flat.as_str() {
            "SELECT $1::regtype::oid" => Some((Special::RegtypeOid, vec![t(B::Text)], vec![("oid", t(B::Oid))])),
            "SELECT oid, typarray FROM pg_catalog.pg_type WHERE oid = $1::regtype::oid" => Some((Special::OidArray, vec![t(B::Text)], vec![("oid", t(B::Oid)), ("typarray", t(B::Oid))])),
            "SELECT oid::regtype::text, typtype, typcategory, typrelid, typelem, typbasetype FROM pg_catalog.pg_type WHERE oid = $1" => Some((
                Special::TypeInfo,
                vec![t(B::Oid)],
                vec![("oid", t(B::Text)), ("typtype", t(B::Char)), ("typcategory", t(B::Char)), ("typrelid", t(B::Oid)), ("typelem", t(B::Oid)), ("typbasetype", t(B::Oid))],
            )),
            "SELECT enumlabel FROM pg_catalog.pg_enum WHERE enumtypid = $1 ORDER BY enumsortorder" => Some((Special::EnumLabels, vec![t(B::Oid)], vec![("enumlabel", t(B::Name))])),
            _ => None,
        };
        if let Some((sp, params, cols)) = special {
            return Ok(Prepared { plans: vec![], special: Some(sp), params, cols: cols.into_iter().map(|(n, t)| (n.to_string(), t)).collect() });
        }
        let stmts = P::script(q)?;
        if stmts.len() > 1 {
            return sql("42601", "cannot insert multiple commands into a prepared statement");
        }
        let db = self.sh.lock();
        let plans = stmts.iter().map(|s| db.plan(s, oids, q)).collect::<R<Vec<_>>>()?;
        let (params, cols) = plans.first().map(|p| (p.params.clone(), p.cols.clone())).unwrap_or_default();
        Ok(Prepared { plans, special: None, params, cols })
    }
    fn special(&mut self, sp: Special, vals: &[Val]) {
        let db = self.sh.lock();
        let by_name = |v: &Val| -> R<i64> {
            let Val::Text(s) = v else { return sql("42704", "no such type") };
            match db.input(t(B::Regtype), s)? {
                Val::Int(i) => Ok(i),
                _ => unreachable!(),
            }
        };
        let num = |v: &Val| if let Val::Int(i) = v { *i as u32 } else { 0 };
        let r: R<(Vec<(String, Ty)>, Vec<Row>)> = (|| {
            Ok(match sp {
                Special::RegtypeOid => (vec![("oid".into(), t(B::Oid))], vec![vec![Val::Int(by_name(&vals[0])?)]]),
                Special::OidArray => {
                    let o = by_name(&vals[0])?;
                    let ty = ty_of_oid(o as u32, db.enums.len())?;
                    (vec![("oid".into(), t(B::Oid)), ("typarray".into(), t(B::Oid))], vec![vec![Val::Int(o), Val::Int(oid_of(ta(ty.b)) as i64)]])
                }
                Special::TypeInfo => {
                    let o = num(&vals[0]);
                    let ty = ty_of_oid(o, db.enums.len())?;
                    let B::Enum(i) = ty.b else { return unsupported(format!("type information for {o}")) };
                    let name = format!("{}{}", db.enums[i].name, if ty.arr { "[]" } else { "" });
                    let row = vec![
                        Val::Text(name),
                        Val::Text(if ty.arr { "b" } else { "e" }.into()),
                        Val::Text(if ty.arr { "A" } else { "E" }.into()),
                        Val::Int(0),
                        Val::Int(if ty.arr { oid_of(t(ty.b)) as i64 } else { 0 }),
                        Val::Int(0),
                    ];
                    (
                        vec![("oid".into(), t(B::Text)), ("typtype".into(), t(B::Char)), ("typcategory".into(), t(B::Char)), ("typrelid".into(), t(B::Oid)), ("typelem".into(), t(B::Oid)), ("typbasetype".into(), t(B::Oid))],
                        vec![row],
                    )
                }
                Special::EnumLabels => {
                    let ty = ty_of_oid(num(&vals[0]), db.enums.len())?;
                    let B::Enum(i) = ty.b else { return Ok((vec![], vec![])) };
                    (vec![("enumlabel".into(), t(B::Name))], db.enums[i].labels.iter().map(|l| vec![Val::Text(l.clone())]).collect())
                }
            })
        })();
        drop(db);
        match r {
            Ok((cols, rows)) => {
                let tag = format!("SELECT {}", rows.len());
                self.rows(&cols, &Out { rows, tag }, true, false)
            }
            Err(f) => self.fail(f, "catalog query"),
        }
    }
    /// One statement, with its latencies and faults.
    async fn execute(&mut self, plan: &Plan, vals: &[Val]) -> Result<R<Out>, Stop> {
        let (before, mid, after, fault) = {
            let mut n = self.net.lock().unwrap();
            if n.armed && (n.all || plan.touches("rexecutor_jobs")) {
                let k = n.count;
                n.count += 1;
                let pick = |v: &Vec<u32>| if v.is_empty() { 0 } else { v[k as usize % v.len()] };
                let f = n.faults.get(&k).copied();
                if let Some(f) = f {
                    n.hit.push((k, f));
                    n.hit_at.push(now_us());
                }
                (pick(&n.before), pick(&n.mid), pick(&n.after), f)
            } else {
                (0, 0, 0, None)
            }
        };
        if before > 0 {
            tokio::time::sleep(Duration::from_millis(before as u64)).await;
            // the statement arrives now
            let mut db = self.sh.lock();
            if let Some(t) = db.conns[&self.id].tx {
                let tx = db.txs.get_mut(&t).unwrap();
                if !tx.explicit {
                    tx.start = now_us();
                }
            }
        }
        match fault {
            Some(FaultKind::Drop) => return Err(Stop::Dropped),
            Some(FaultKind::Error) => return Ok(Err(Fail::Sql("53200", "injected: out of memory".into()))),
            Some(FaultKind::Lost) | None => {}
        }
        let r = self.control(plan).await;
        let r = match r {
            Some(r) => r,
            None => self.sh.run(self.id, plan, vals, Duration::from_millis(mid as u64)).await,
        };
        if after > 0 {
            // the work is done (and committed, if on its own) before the answer is on its way
            {
                let mut db = self.sh.lock();
                let auto = db.conns[&self.id].tx.is_some_and(|t| !db.txs[&t].explicit);
                if auto && r.is_ok() {
                    db.finish(self.id, true);
                    db.begin(self.id, false);
                }
            }
            self.sh.changed.notify_waiters();
            tokio::time::sleep(Duration::from_millis(after as u64)).await;
        }
        if fault == Some(FaultKind::Lost) {
            let mut db = self.sh.lock();
            if r.is_ok() && db.conns[&self.id].tx.is_some_and(|t| !db.txs[&t].explicit) {
                db.finish(self.id, true);
            }
            drop(db);
            self.sh.changed.notify_waiters();
            return Err(Stop::Dropped);
        }
        Ok(r)
    }
    async fn control(&mut self, plan: &Plan) -> Option<R<Out>> {
        let Kind::Other(s) = &plan.kind else { return None };
        let mut db = self.sh.lock();
        let tag = |x: &str| Some(Ok(Out { rows: vec![], tag: x.into() }));
        match s {
            Stmt::Begin => {
                let t = db.conns[&self.id].tx.unwrap();
                db.txs.get_mut(&t).unwrap().explicit = true;
                tag("BEGIN")
            }
            Stmt::Commit | Stmt::Rollback => {
                let commit = *s == Stmt::Commit;
                let failed = db.conns[&self.id].tx.is_some_and(|t| db.txs[&t].failed);
                db.finish(self.id, commit);
                drop(db);
                self.sh.changed.notify_waiters();
                tag(if commit && !failed { "COMMIT" } else { "ROLLBACK" })
            }
            _ => None,
        }
    }
    async fn simple(&mut self, q: &str) -> Result<(), Stop> {
        let stmts = match P::script(q) {
            Ok(s) => s,
            Err(f) => {
                self.fail(f, q);
                return Ok(());
            }
        };
        if stmts.is_empty() {
            self.msg(b'I', |_| {});
            return Ok(());
        }
        for s in stmts {
            {
                let mut db = self.sh.lock();
                match db.conns[&self.id].tx {
                    None => {
                        db.begin(self.id, false);
                    }
                    Some(t) if db.txs[&t].failed && !matches!(s, Stmt::Commit | Stmt::Rollback) => {
                        drop(db);
                        self.error("25P02", "current transaction is aborted");
                        return Ok(());
                    }
                    _ => {}
                }
            }
            let plan = self.sh.lock().plan(&s, &[], q);
            let r = match plan {
                Ok(p) => match self.execute(&p, &[]).await? {
                    Ok(o) => Ok((p, o)),
                    Err(f) => Err(f),
                },
                Err(f) => Err(f),
            };
            match r {
                Ok((p, o)) => self.rows(&p.cols, &o, false, true),
                Err(f) => {
                    self.fail(f, q);
                    return Ok(());
                }
            }
        }
        let implicit = {
            let db = self.sh.lock();
            db.conns[&self.id].tx.is_some_and(|t| !db.txs[&t].explicit)
        };
        if implicit {
            self.sh.lock().finish(self.id, true);
            self.sh.changed.notify_waiters();
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ binary formats

pub fn decode(db: &Db, ty: Ty, b: &[u8]) -> R<Val> {
    let text = |b: &[u8]| -> R<String> {
        match std::str::from_utf8(b) {
            Ok(s) if !s.contains('\0') => Ok(s.to_string()),
            _ => sql("22021", "invalid byte sequence for encoding \"UTF8\": 0x00"),
        }
    };
    let need = |n: usize| -> R<()> {
        if b.len() == n { Ok(()) } else { sql("22P03", format!("incorrect binary data format: {} bytes for {ty:?}", b.len())) }
    };
    if ty.arr {
        let mut r = Rd(b);
        let nd = r.i32();
        let _flags = r.i32();
        let oid = r.i32() as u32;
        if oid != oid_of(t(ty.b)) {
            return sql("42804", format!("binary data has array element type {oid}, expected {}", oid_of(t(ty.b))));
        }
        if nd == 0 {
            return Ok(Val::Arr(vec![]));
        }
        if nd != 1 {
            return unsupported("nested arrays");
        }
        let n = r.i32();
        let _lb = r.i32();
        let mut v = vec![];
        for _ in 0..n {
            let l = r.i32();
            v.push(if l < 0 { Val::Null } else { decode(db, t(ty.b), r.bytes(l as usize))? });
        }
        return Ok(Val::Arr(v));
    }
    Ok(match ty.b {
        B::Bool => {
            need(1)?;
            Val::Bool(b[0] != 0)
        }
        B::Int2 => {
            need(2)?;
            Val::Int(i16::from_be_bytes(b.try_into().unwrap()) as i64)
        }
        B::Int4 => {
            need(4)?;
            Val::Int(i32::from_be_bytes(b.try_into().unwrap()) as i64)
        }
        B::Oid | B::Regtype => {
            need(4)?;
            Val::Int(u32::from_be_bytes(b.try_into().unwrap()) as i64)
        }
        B::Int8 => {
            need(8)?;
            Val::Int(i64::from_be_bytes(b.try_into().unwrap()))
        }
        B::Float8 => {
            need(8)?;
            Val::Float(f64::from_be_bytes(b.try_into().unwrap()))
        }
        B::Timestamp | B::Timestamptz => {
            need(8)?;
            ts_range(Some(i64::from_be_bytes(b.try_into().unwrap())))?
        }
        B::Interval => {
            need(16)?;
            let us = i64::from_be_bytes(b[..8].try_into().unwrap());
            let d = i32::from_be_bytes(b[8..12].try_into().unwrap()) as i64;
            let m = i32::from_be_bytes(b[12..].try_into().unwrap()) as i64;
            Val::Iv(us.saturating_add((d + m * 30) * 86_400_000_000))
        }
        B::Text | B::Varchar | B::Name | B::Unknown | B::Char => Val::Text(text(b)?),
        B::Json => json_input(&text(b)?, B::Json)?,
        B::Jsonb => {
            if b.first() != Some(&1) {
                return sql("XX000", "unsupported jsonb version number");
            }
            json_input(&text(&b[1..])?, B::Jsonb)?
        }
        B::Enum(_) => db.input(ty, &text(b)?)?,
        B::Bytea => Val::Bytes(b.to_vec()),
        B::Void => Val::Null,
    })
}
pub fn encode(db: &Db, v: &Val, ty: Ty) -> Vec<u8> {
    match v {
        Val::Null => vec![],
        Val::Bool(b) => vec![*b as u8],
        Val::Int(i) => match ty.b {
            B::Int2 => (*i as i16).to_be_bytes().to_vec(),
            B::Int8 => i.to_be_bytes().to_vec(),
            B::Oid | B::Regtype => (*i as u32).to_be_bytes().to_vec(),
            _ => (*i as i32).to_be_bytes().to_vec(),
        },
        Val::Float(f) => f.to_be_bytes().to_vec(),
        Val::Ts(u) => u.to_be_bytes().to_vec(),
        Val::Iv(u) => {
            let mut o = u.to_be_bytes().to_vec();
            o.extend([0; 8]);
            o
        }
        Val::Bytes(b) => b.clone(),
        Val::Json(j) => {
            let mut o = if ty.b == B::Jsonb { vec![1] } else { vec![] };
            o.extend(j.to_string().into_bytes());
            o
        }
        Val::Text(s) => s.clone().into_bytes(),
        Val::En(..) => db.output(v, ty).into_bytes(),
        Val::Arr(a) => {
            let mut o = vec![];
            o.extend((if a.is_empty() { 0i32 } else { 1 }).to_be_bytes());
            o.extend((a.contains(&Val::Null) as i32).to_be_bytes());
            o.extend(oid_of(t(ty.b)).to_be_bytes());
            if !a.is_empty() {
                o.extend((a.len() as i32).to_be_bytes());
                o.extend(1i32.to_be_bytes());
                for x in a {
                    if *x == Val::Null {
                        o.extend((-1i32).to_be_bytes());
                        continue;
                    }
                    let e = encode(db, x, t(ty.b));
                    o.extend((e.len() as i32).to_be_bytes());
                    o.extend(e);
                }
            }
            o
        }
    }
}
