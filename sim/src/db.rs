//! Reads a copied database image (never the live one) into plain maps.
use crate::content;
use crate::kernel::Snap;
use libsqlite3_sys as q;
use std::collections::BTreeMap;
use std::ffi::{CStr, CString};

#[derive(Clone, Debug, PartialEq)]
pub struct Sub {
    /// P in progress, C completed, F failed, X cancelled
    pub st: char,
    pub prefix: Option<String>,
    pub total: i64,
    pub done: Option<i64>,
    pub md: Option<Vec<u8>>,
    pub cs: Option<i64>,
    pub oc: String,
    pub fci: Option<i64>,
    pub at: String,
}
#[derive(Clone, Debug, Default)]
pub struct DbState {
    pub t: u64,
    pub ev: usize,
    pub hyp: bool,
    /// Integrity problem or open failure.
    pub bad: Option<String>,
    /// All tables exist (migrations ran).
    pub ready: bool,
    pub subs: BTreeMap<i64, Vec<Sub>>,
    /// (submission, index) -> (retries, length, hash)
    pub chunks: BTreeMap<(i64, i64), (i64, i64, u64)>,
    pub done: BTreeMap<(i64, i64), (i64, u64)>,
    /// failure text, skipped, length, hash
    pub failed: BTreeMap<(i64, i64), (String, bool, i64, u64)>,
    pub meta: BTreeMap<i64, BTreeMap<String, i64>>,
}
impl DbState {
    pub fn one(&self, id: i64) -> Option<&Sub> {
        self.subs.get(&id).and_then(|v| v.first())
    }
    pub fn open(&self) -> usize {
        self.subs.values().filter(|v| v.iter().any(|s| s.st == 'P')).count()
    }
    pub fn completed_of(&self, id: i64) -> i64 {
        self.done.range((id, i64::MIN)..=(id, i64::MAX)).count() as i64
    }
}
struct Db(*mut q::sqlite3);
impl Drop for Db {
    fn drop(&mut self) {
        unsafe { q::sqlite3_close(self.0) };
    }
}
enum V {
    Null,
    Int(i64),
    Bytes(Vec<u8>),
}
impl V {
    fn int(&self) -> i64 {
        match self {
            V::Int(i) => *i,
            _ => i64::MIN,
        }
    }
    fn oint(&self) -> Option<i64> {
        match self {
            V::Int(i) => Some(*i),
            _ => None,
        }
    }
    fn bytes(&self) -> Option<Vec<u8>> {
        match self {
            V::Bytes(b) => Some(b.clone()),
            _ => None,
        }
    }
    fn text(&self) -> Option<String> {
        self.bytes().map(|b| String::from_utf8_lossy(&b).into_owned())
    }
}
impl Db {
    fn rows(&self, sql: &str) -> Result<Vec<Vec<V>>, String> {
        unsafe {
            let mut st = std::ptr::null_mut();
            let c = CString::new(sql).unwrap();
            if q::sqlite3_prepare_v2(self.0, c.as_ptr(), -1, &mut st, std::ptr::null_mut()) != q::SQLITE_OK {
                return Err(self.err());
            }
            let mut out = vec![];
            loop {
                match q::sqlite3_step(st) {
                    q::SQLITE_ROW => {
                        let n = q::sqlite3_column_count(st);
                        let mut r = vec![];
                        for i in 0..n {
                            r.push(match q::sqlite3_column_type(st, i) {
                                q::SQLITE_INTEGER => V::Int(q::sqlite3_column_int64(st, i)),
                                q::SQLITE_NULL => V::Null,
                                _ => {
                                    let l = q::sqlite3_column_bytes(st, i) as usize;
                                    let p = q::sqlite3_column_blob(st, i) as *const u8;
                                    V::Bytes(if l == 0 { vec![] } else { std::slice::from_raw_parts(p, l).to_vec() })
                                }
                            });
                        }
                        out.push(r);
                    }
                    q::SQLITE_DONE => break,
                    _ => {
                        let e = self.err();
                        q::sqlite3_finalize(st);
                        return Err(e);
                    }
                }
            }
            q::sqlite3_finalize(st);
            Ok(out)
        }
    }
    fn err(&self) -> String {
        unsafe { CStr::from_ptr(q::sqlite3_errmsg(self.0)).to_string_lossy().into_owned() }
    }
}
fn lh(b: Option<Vec<u8>>) -> (i64, u64) {
    content::sig(&b)
}
/// Parse a snapshot; `dir` is a scratch directory for the temporary copy.
pub fn parse(s: &Snap, dir: &str) -> DbState {
    let mut d = DbState { t: s.t, ev: s.ev, hyp: s.hyp, ..Default::default() };
    let base = format!("{dir}/snapshot-copy");
    for x in ["", "-wal", "-shm", "-journal"] {
        let _ = std::fs::remove_file(format!("{base}{x}"));
    }
    let Some(db) = &s.db else { return d };
    std::fs::write(&base, db).expect("snapshot");
    if let Some(w) = &s.wal {
        std::fs::write(format!("{base}-wal"), w).expect("snapshot");
    }
    if let Some(w) = &s.journal {
        std::fs::write(format!("{base}-journal"), w).expect("snapshot");
    }
    if let Err(e) = fill(&mut d, &base) {
        d.bad = Some(e);
    }
    for x in ["", "-wal", "-shm", "-journal"] {
        let _ = std::fs::remove_file(format!("{base}{x}"));
    }
    d
}
fn fill(d: &mut DbState, path: &str) -> Result<(), String> {
    let mut h = std::ptr::null_mut();
    let c = CString::new(path).unwrap();
    let rc = unsafe { q::sqlite3_open_v2(c.as_ptr(), &mut h, q::SQLITE_OPEN_READWRITE, std::ptr::null()) };
    let db = Db(h);
    if rc != q::SQLITE_OK {
        return Err(format!("open: {}", db.err()));
    }
    let r = db.rows("PRAGMA quick_check").map_err(|e| format!("quick_check: {e}"))?;
    let t = r.first().and_then(|r| r[0].text()).unwrap_or_default();
    if t != "ok" {
        return Err(format!("quick_check: {t}"));
    }
    let has = |n: &str| -> Result<bool, String> { Ok(!db.rows(&format!("SELECT 1 FROM sqlite_master WHERE type='table' AND name='{n}'"))?.is_empty()) };
    let tables = ["submissions", "submissions_completed", "submissions_failed", "submissions_cancelled", "chunks", "chunks_completed", "chunks_failed", "submissions_metadata"];
    for t in tables {
        if !has(t)? {
            return Ok(());
        }
    }
    // the last migrations add these columns; before them the schema is not final
    let cols = db.rows("SELECT name FROM pragma_table_xinfo('submissions') WHERE name IN ('chunk_size','random_order')")?;
    let colf = db.rows("SELECT name FROM pragma_table_xinfo('submissions_failed') WHERE name = 'chunks_done'")?;
    if cols.len() < 2 || colf.is_empty() {
        return Ok(());
    }
    d.ready = true;
    for (st, sql) in [
        ('P', "SELECT id,prefix,chunks_total,chunks_done,metadata,chunk_size,otel_trace_carrier,NULL,NULL FROM submissions"),
        ('C', "SELECT id,prefix,chunks_total,NULL,metadata,chunk_size,otel_trace_carrier,NULL,completed_at FROM submissions_completed"),
        ('F', "SELECT id,prefix,chunks_total,chunks_done,metadata,chunk_size,otel_trace_carrier,failed_chunk_id,failed_at FROM submissions_failed"),
        ('X', "SELECT id,prefix,chunks_total,chunks_done,metadata,NULL,'',NULL,cancelled_at FROM submissions_cancelled"),
    ] {
        for r in db.rows(sql)? {
            d.subs.entry(r[0].int()).or_default().push(Sub {
                st,
                prefix: r[1].text(),
                total: r[2].int(),
                done: r[3].oint(),
                md: r[4].bytes(),
                cs: r[5].oint(),
                oc: r[6].text().unwrap_or_default(),
                fci: r[7].oint(),
                at: match &r[8] {
                    V::Int(i) => i.to_string(),
                    v => v.text().unwrap_or_default(),
                },
            });
        }
    }
    for r in db.rows("SELECT submission_id,chunk_index,retries,input_content FROM chunks")? {
        let (l, h) = lh(r[3].bytes());
        d.chunks.insert((r[0].int(), r[1].int()), (r[2].int(), l, h));
    }
    for r in db.rows("SELECT submission_id,chunk_index,output_content FROM chunks_completed")? {
        d.done.insert((r[0].int(), r[1].int()), lh(r[2].bytes()));
    }
    for r in db.rows("SELECT submission_id,chunk_index,failure,skipped,input_content FROM chunks_failed")? {
        let (l, h) = lh(r[4].bytes());
        d.failed.insert((r[0].int(), r[1].int()), (r[2].text().unwrap_or_default(), r[3].int() != 0, l, h));
    }
    for r in db.rows("SELECT submission_id,metadata_key,metadata_value FROM submissions_metadata")? {
        d.meta.entry(r[0].int()).or_default().insert(r[1].text().unwrap_or_default(), r[2].int());
    }
    Ok(())
}
