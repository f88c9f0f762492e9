//! SQLite of the model: one database per file name, an interpreter for the SQL the embedded
//! discovery client speaks. Every statement is atomic; another task may run before each of them.
pub use sqlx_macros::FromRow;
use std::cell::RefCell;
use std::rc::Rc;
mod sql;
pub use sql::Val;

#[derive(Debug)]
pub enum Error { RowNotFound, Database(&'static str), ColumnNotFound, ColumnDecode, Configuration }
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(match self { Error::Database(s) => s, Error::RowNotFound => "no rows", _ => "sqlx error" }) } }
impl std::error::Error for Error {}
pub type Result<T, E = Error> = std::result::Result<T, E>;

#[derive(Clone, Copy, Debug)]
pub struct Sqlite;
pub trait Database {}
impl Database for Sqlite {}
#[derive(Clone)]
pub struct Pool<DB> { db: Rc<RefCell<sql::Db>>, _p: std::marker::PhantomData<DB> }
unsafe impl<DB> Send for Pool<DB> {}
unsafe impl<DB> Sync for Pool<DB> {}
pub type SqlitePool = Pool<Sqlite>;
static FILES: vx::Global<Vec<(String, Rc<RefCell<sql::Db>>)>> = vx::Global::new(Vec::new());
static FAIL: vx::Global<u32> = vx::Global::new(0);
/// The `n`-th statement from now fails (0: none).
pub fn fail_at(n: u32) { *FAIL.get() = n }
static OUTAGE: vx::Global<u32> = vx::Global::new(0);
/// Every statement fails from now on, until `outage(0)`; `max` of them are too many.
pub fn outage(max: u32) { *OUTAGE.get() = max }

pub mod sqlite {
    pub use super::{Row_ as SqliteRow, SqliteConnectOptions, SqlitePool, SqlitePoolOptions};
    pub struct SqliteQueryResult(pub u64);
    impl SqliteQueryResult { pub fn rows_affected(&self) -> u64 { self.0 } }
    pub enum SqliteJournalMode { Wal, Delete, Memory, Off, Truncate, Persist }
    pub enum SqliteSynchronous { Off, Normal, Full, Extra }
}
#[derive(Clone, Debug, Default)]
pub struct SqliteConnectOptions { f: String, c: bool }
impl SqliteConnectOptions {
    pub fn new() -> Self { Self::default() }
    pub fn filename(mut self, f: impl AsRef<std::path::Path>) -> Self { self.f = f.as_ref().to_str().unwrap_or("").to_string(); self }
    pub fn create_if_missing(mut self, c: bool) -> Self { self.c = c; self }
    pub fn journal_mode(self, _m: sqlite::SqliteJournalMode) -> Self { self }
    pub fn synchronous(self, _m: sqlite::SqliteSynchronous) -> Self { self }
    pub fn busy_timeout(self, _d: std::time::Duration) -> Self { self }
}
#[derive(Default)]
pub struct SqlitePoolOptions;
impl SqlitePoolOptions {
    pub fn new() -> Self { Self }
    pub fn max_connections(self, _n: u32) -> Self { self }
    pub async fn connect_with(self, o: SqliteConnectOptions) -> Result<SqlitePool> { SqlitePool::connect_with(o).await }
}
impl SqlitePool {
    pub async fn connect_with(o: SqliteConnectOptions) -> Result<Self> {
        let f = FILES.get();
        let db = match f.iter().find(|x| x.0 == o.f) {
            Some(x) => x.1.clone(),
            None if o.c => { let db = Rc::new(RefCell::new(sql::Db::default())); f.push((o.f, db.clone())); db }
            None => return Err(Error::Configuration),
        };
        Ok(Self { db, _p: std::marker::PhantomData })
    }
    pub async fn begin(&self) -> Result<Transaction<'static, Sqlite>> {
        vx::rt::yield_now().await;
        let mine = Rc::new(RefCell::new(self.db.borrow().clone()));
        Ok(Transaction { mine, main: self.db.clone(), state: 0, _p: std::marker::PhantomData })
    }
    pub async fn close(&self) {}
}
/// A transaction: works on its own copy, which replaces the database at commit; from its first statement on; once it wrote,
/// other writers wait. Rolled back when dropped without a commit.
pub struct Transaction<'c, DB> { mine: Rc<RefCell<sql::Db>>, main: Rc<RefCell<sql::Db>>, state: u8, _p: std::marker::PhantomData<(&'c (), DB)> }
unsafe impl<DB> Send for Transaction<'_, DB> {}
unsafe impl<DB> Sync for Transaction<'_, DB> {}
impl<DB> Transaction<'_, DB> {
    pub async fn commit(self) -> Result<()> {
        vx::rt::yield_now().await;
        fault()?;
        if self.state == 2 { let mut m = self.mine.borrow().clone(); m.writer = true; *self.main.borrow_mut() = m; }
        Ok(())
    }
    pub async fn rollback(self) -> Result<()> { Ok(()) }
}
impl<DB> Drop for Transaction<'_, DB> { fn drop(&mut self) { if self.state == 2 { self.main.borrow_mut().writer = false; } } }
pub struct Conn { db: Rc<RefCell<sql::Db>>, tx: Option<(Rc<RefCell<sql::Db>>, *mut u8)> }
unsafe impl Send for Conn {}
unsafe impl Sync for Conn {}
impl<DB> std::ops::Deref for Transaction<'_, DB> { type Target = SqliteConnection; fn deref(&self) -> &SqliteConnection { unsafe { &*std::ptr::from_ref(self).cast::<SqliteConnection>() } } }
impl<DB> std::ops::DerefMut for Transaction<'_, DB> { fn deref_mut(&mut self) -> &mut SqliteConnection { unsafe { &mut *std::ptr::from_mut(self).cast::<SqliteConnection>() } } }
#[repr(transparent)]
pub struct SqliteConnection(Transaction<'static, Sqlite>);

pub trait Executor { fn db(self) -> Conn; }
impl<DB> Executor for &Pool<DB> { fn db(self) -> Conn { Conn { db: self.db.clone(), tx: None } } }
impl<DB> Executor for &mut Transaction<'_, DB> { fn db(self) -> Conn { Conn { db: self.mine.clone(), tx: Some((self.main.clone(), &mut self.state)) } } }
impl Executor for &mut SqliteConnection { fn db(self) -> Conn { (&mut self.0).db() } }

pub trait Encode { fn val(self) -> Val; }
macro_rules! eint { ($($t:ty)*) => { $(impl Encode for $t { fn val(self) -> Val { Val::Int(self as i64) } } impl Encode for &$t { fn val(self) -> Val { Val::Int(*self as i64) } })* } }
eint!(u8 u16 u32 i8 i16 i32 i64 bool);
impl Encode for f64 { fn val(self) -> Val { Val::Real(self) } }
impl Encode for String { fn val(self) -> Val { Val::Text(self.into_bytes()) } }
impl Encode for &String { fn val(self) -> Val { Val::Text(self.as_bytes().to_vec()) } }
impl Encode for &str { fn val(self) -> Val { Val::Text(self.as_bytes().to_vec()) } }
impl Encode for Vec<u8> { fn val(self) -> Val { Val::Blob(self) } }
impl Encode for &Vec<u8> { fn val(self) -> Val { Val::Blob(self.clone()) } }
impl Encode for &[u8] { fn val(self) -> Val { Val::Blob(self.to_vec()) } }
impl<T: Encode> Encode for Option<T> { fn val(self) -> Val { self.map_or(Val::Null, Encode::val) } }

pub trait Decode: Sized { fn from_val(v: &Val) -> Option<Self>; }
macro_rules! dint { ($($t:ty)*) => { $(impl Decode for $t { fn from_val(v: &Val) -> Option<Self> { if let Val::Int(i) = v { Some(*i as $t) } else { None } } })* } }
dint!(u8 u16 u32 u64 i8 i16 i32 i64);
impl Decode for bool { fn from_val(v: &Val) -> Option<Self> { if let Val::Int(i) = v { Some(*i != 0) } else { None } } }
impl Decode for f64 { fn from_val(v: &Val) -> Option<Self> { if let Val::Real(i) = v { Some(*i) } else { None } } }
impl Decode for String { fn from_val(v: &Val) -> Option<Self> { if let Val::Text(t) = v { String::from_utf8(t.clone()).ok() } else { None } } }
impl Decode for Vec<u8> { fn from_val(v: &Val) -> Option<Self> { match v { Val::Text(t) | Val::Blob(t) => Some(t.clone()), _ => None } } }
impl<T: Decode> Decode for Option<T> { fn from_val(v: &Val) -> Option<Self> { if let Val::Null = v { Some(None) } else { T::from_val(v).map(Some) } } }

#[derive(Clone, Debug)]
pub struct Row_ { pub cols: Vec<String>, pub vals: Vec<Val> }
unsafe impl Send for Row_ {}
pub trait ColumnIndex { fn idx(&self, r: &Row_) -> Option<usize>; }
impl ColumnIndex for usize { fn idx(&self, r: &Row_) -> Option<usize> { (*self < r.vals.len()).then_some(*self) } }
impl ColumnIndex for &str { fn idx(&self, r: &Row_) -> Option<usize> { r.cols.iter().position(|c| c.eq_ignore_ascii_case(self)) } }
pub trait Row {
    fn try_get<T: Decode, I: ColumnIndex>(&self, i: I) -> Result<T>;
    fn get<T: Decode, I: ColumnIndex>(&self, i: I) -> T { self.try_get(i).unwrap() }
}
impl Row for Row_ {
    fn try_get<T: Decode, I: ColumnIndex>(&self, i: I) -> Result<T> { let i = i.idx(self).ok_or(Error::ColumnNotFound)?; T::from_val(&self.vals[i]).ok_or(Error::ColumnDecode) }
}
pub trait FromRow<'r, R>: Sized { fn from_row(r: &'r R) -> Result<Self>; }
impl<'r, A: Decode> FromRow<'r, Row_> for (A,) { fn from_row(r: &'r Row_) -> Result<Self> { Ok((r.try_get(0usize)?,)) } }
impl<'r, A: Decode, B: Decode> FromRow<'r, Row_> for (A, B) { fn from_row(r: &'r Row_) -> Result<Self> { Ok((r.try_get(0usize)?, r.try_get(1usize)?)) } }
impl<'r, A: Decode, B: Decode, C: Decode> FromRow<'r, Row_> for (A, B, C) { fn from_row(r: &'r Row_) -> Result<Self> { Ok((r.try_get(0usize)?, r.try_get(1usize)?, r.try_get(2usize)?)) } }

fn fault() -> Result<()> {
    if *OUTAGE.get() > 0 { *OUTAGE.get() -= 1; if *OUTAGE.get() == 0 { vx::fail("hammers-the-failing-store") } return Err(Error::Database("disk I/O error")) }
    if *FAIL.get() > 0 && { *FAIL.get() -= 1; *FAIL.get() == 0 } { Err(Error::Database("disk I/O error")) } else { Ok(()) }
}
struct AsSend<F>(F);
unsafe impl<F> Send for AsSend<F> {}
impl<F: std::future::Future> std::future::Future for AsSend<F> {
    type Output = F::Output;
    fn poll(self: std::pin::Pin<&mut Self>, c: &mut std::task::Context<'_>) -> std::task::Poll<F::Output> { unsafe { self.map_unchecked_mut(|s| &mut s.0) }.poll(c) }
}
fn run<'a>(db: Conn, sql: &'a str, args: &'a [Val]) -> impl std::future::Future<Output = Result<(Vec<Row_>, u64)>> + Send + 'a { AsSend(run_(db, sql, args)) }
async fn run_(mut db: Conn, sql: &str, args: &[Val]) -> Result<(Vec<Row_>, u64)> {
    let stmts = sql::split(sql);
    let mut rows = Vec::new();
    let mut n = 0;
    let mut used = 0;
    // BEGIN and COMMIT within the text
    let mut open: Option<(Conn, Box<Transaction<'static, Sqlite>>)> = None;
    for s in stmts {
        vx::rt::yield_now().await;
        fault()?;
        if sql::is(&s, "BEGIN") && db.tx.is_none() {
            let mut t = Box::new(Transaction { mine: Rc::new(RefCell::new(db.db.borrow().clone())), main: db.db.clone(), state: 0, _p: std::marker::PhantomData });
            let c = Conn { db: t.mine.clone(), tx: Some((t.main.clone(), &mut t.state)) };
            open = Some((std::mem::replace(&mut db, c), t));
            continue;
        }
        if sql::is(&s, "COMMIT") || sql::is(&s, "END") { if let Some((c, t)) = open.take() { db = c; t.commit().await?; } continue; }
        // a transaction's view of the database is that of its first statement
        if let Some(t) = &db.tx { unsafe { if *t.1 == 0 && !sql::writes(&s) { *t.1 = 1; let m = t.0.borrow().clone(); *db.db.borrow_mut() = m; } } }
        if sql::writes(&s) {
            let main = db.tx.as_ref().map_or(&db.db, |t| &t.0);
            if !db.tx.as_ref().is_some_and(|t| unsafe { *t.1 == 2 }) {
                let mut waited = 0; // up to the busy timeout
                while main.borrow().writer { waited += 1; if waited > 50 { return Err(Error::Database("database is locked")); } tokio::time::sleep(std::time::Duration::from_millis(100)).await; }
                if let Some(t) = &db.tx {
                    if unsafe { *t.1 == 0 } { let m = main.borrow().clone(); *db.db.borrow_mut() = m; }
                    else if main.borrow().version != db.db.borrow().version { return Err(Error::Database("database is locked")); }
                    unsafe { *t.1 = 2; }
                    main.borrow_mut().writer = true;
                }
            }
            db.db.borrow_mut().version += 1;
        }
        let r = db.db.borrow_mut().exec(&s, args, &mut used)?;
        rows.extend(r.0);
        n += r.1;
    }
    Ok((rows, n))
}
pub struct Query<'q> { sql: String, args: Vec<Val>, _p: std::marker::PhantomData<&'q ()> }
unsafe impl Send for Query<'_> {}
pub fn query<'q>(s: &'q str) -> Query<'q> { Query { sql: s.to_string(), args: Vec::new(), _p: std::marker::PhantomData } }
impl<'q> Query<'q> {
    pub fn bind<T: Encode>(mut self, t: T) -> Self { self.args.push(t.val()); self }
    pub async fn execute<E: Executor>(self, e: E) -> Result<sqlite::SqliteQueryResult> { run(e.db(), &self.sql, &self.args).await.map(|r| sqlite::SqliteQueryResult(r.1)) }
    pub async fn fetch_all<E: Executor>(self, e: E) -> Result<Vec<Row_>> { run(e.db(), &self.sql, &self.args).await.map(|r| r.0) }
    pub async fn fetch_optional<E: Executor>(self, e: E) -> Result<Option<Row_>> { run(e.db(), &self.sql, &self.args).await.map(|r| r.0.into_iter().next()) }
    pub async fn fetch_one<E: Executor>(self, e: E) -> Result<Row_> { self.fetch_optional(e).await?.ok_or(Error::RowNotFound) }
}
pub struct QueryAs<'q, DB, O> { q: Query<'q>, _p: std::marker::PhantomData<(DB, O)> }
unsafe impl<DB, O> Send for QueryAs<'_, DB, O> {}
pub fn query_as<'q, DB, O>(s: &'q str) -> QueryAs<'q, DB, O> where QueryAs<'q, DB, O>: IsSqlite { QueryAs { q: query(s), _p: std::marker::PhantomData } }
pub trait IsSqlite {}
impl<O> IsSqlite for QueryAs<'_, Sqlite, O> {}
impl<'q, O: for<'r> FromRow<'r, Row_>> QueryAs<'q, Sqlite, O> {
    pub fn bind<T: Encode>(mut self, t: T) -> Self { self.q.args.push(t.val()); self }
    pub async fn fetch_all<E: Executor>(self, e: E) -> Result<Vec<O>> { self.q.fetch_all(e).await?.iter().map(|r| O::from_row(r)).collect() }
    pub async fn fetch_optional<E: Executor>(self, e: E) -> Result<Option<O>> { self.q.fetch_optional(e).await?.map(|r| O::from_row(&r)).transpose() }
    pub async fn fetch_one<E: Executor>(self, e: E) -> Result<O> { self.fetch_optional(e).await?.ok_or(Error::RowNotFound) }
}
pub struct QueryScalar<'q, O> { q: Query<'q>, _p: std::marker::PhantomData<O> }
unsafe impl<O> Send for QueryScalar<'_, O> {}
pub fn query_scalar<'q, O: Decode>(s: &'q str) -> QueryScalar<'q, O> { QueryScalar { q: query(s), _p: std::marker::PhantomData } }
impl<'q, O: Decode> QueryScalar<'q, O> {
    pub fn bind<T: Encode>(mut self, t: T) -> Self { self.q.args.push(t.val()); self }
    pub async fn fetch_one<E: Executor>(self, e: E) -> Result<O> { self.q.fetch_one(e).await?.try_get(0usize) }
    pub async fn fetch_optional<E: Executor>(self, e: E) -> Result<Option<O>> { self.q.fetch_optional(e).await?.map(|r| r.try_get(0usize)).transpose() }
    pub async fn fetch_all<E: Executor>(self, e: E) -> Result<Vec<O>> { self.q.fetch_all(e).await?.iter().map(|r| r.try_get(0usize)).collect() }
}
pub struct QueryBuilder<'a, DB = Sqlite> { sql: String, args: Vec<Val>, _p: std::marker::PhantomData<(&'a (), DB)> }
unsafe impl<DB> Send for QueryBuilder<'_, DB> {}
pub struct Separated<'b> { sql: &'b mut String, args: &'b mut Vec<Val>, sep: &'static str, first: bool }
impl Separated<'_> {
    pub fn push_bind<T: Encode>(&mut self, t: T) -> &mut Self { if !self.first { self.sql.push_str(self.sep); } self.first = false; self.sql.push('?'); self.args.push(t.val()); self }
    pub fn push(&mut self, s: impl std::fmt::Display) -> &mut Self { if !self.first { self.sql.push_str(self.sep); } self.first = false; self.sql.push_str(&s.to_string()); self }
    pub fn push_unseparated(&mut self, s: impl std::fmt::Display) -> &mut Self { self.sql.push_str(&s.to_string()); self }
}
impl<'a> QueryBuilder<'a, Sqlite> {
    pub fn new(s: impl Into<String>) -> Self { Self { sql: s.into(), args: Vec::new(), _p: std::marker::PhantomData } }
    pub fn push(&mut self, s: impl std::fmt::Display) -> &mut Self { self.sql.push_str(&s.to_string()); self }
    pub fn push_bind<T: Encode>(&mut self, t: T) -> &mut Self { self.sql.push('?'); self.args.push(t.val()); self }
    pub fn separated(&mut self, sep: &'static str) -> Separated<'_> { Separated { sql: &mut self.sql, args: &mut self.args, sep, first: true } }
    pub fn push_values<I: IntoIterator, F: FnMut(Separated<'_>, I::Item)>(&mut self, it: I, mut f: F) -> &mut Self {
        self.sql.push_str("VALUES ");
        let mut first = true;
        for x in it {
            if !first { self.sql.push_str(", "); }
            first = false;
            self.sql.push('(');
            f(Separated { sql: &mut self.sql, args: &mut self.args, sep: ", ", first: true }, x);
            self.sql.push(')');
        }
        self
    }
    pub fn build(&mut self) -> Query<'a> { Query { sql: self.sql.clone(), args: std::mem::take(&mut self.args), _p: std::marker::PhantomData } }
    pub fn sql(&self) -> &str { &self.sql }
}
