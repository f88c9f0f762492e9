//! A KeyDB server per URL: strings with expiry, sets with member expiry, atomic pipelines.
use std::collections::HashSet;

#[derive(Debug, Clone)]
pub struct RedisError(pub &'static str);
impl std::fmt::Display for RedisError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(self.0) } }
impl std::error::Error for RedisError {}
pub type RedisResult<T> = Result<T, RedisError>;

#[derive(Debug, Clone, PartialEq)]
pub enum Value { Nil, Int(i64), BulkString(Vec<u8>), Array(Vec<Value>), Okay }

enum Data { Str(Vec<u8>), Set(Vec<(Vec<u8>, Option<u64>)>) }
struct Entry { key: Vec<u8>, data: Data, exp: Option<u64> }
struct Server { url: String, db: Vec<Entry> }
static SERVERS: vx::Global<Vec<Server>> = vx::Global::new(Vec::new());
/// The n-th round trip from now fails (0: none).
static FAIL: vx::Global<u32> = vx::Global::new(0);
static TRIPS: vx::Global<u32> = vx::Global::new(0);
pub fn fail_at(n: u32) { *FAIL.get() = n }
pub fn round_trips() -> u32 { *TRIPS.get() }

fn now() -> u64 { vx::clock::now_ns() }
fn num(b: &[u8]) -> RedisResult<u64> { std::str::from_utf8(b).ok().and_then(|s| s.parse().ok()).ok_or(RedisError("ERR value is not an integer or out of range")) }
const WRONG: RedisError = RedisError("WRONGTYPE");
impl Server {
    fn purge(&mut self) {
        let t = now();
        self.db.retain(|e| e.exp.map_or(true, |x| x > t));
        for e in &mut self.db { if let Data::Set(s) = &mut e.data { s.retain(|m| m.1.map_or(true, |x| x > t)); } }
        self.db.retain(|e| !matches!(&e.data, Data::Set(s) if s.is_empty()));
    }
    fn pos(&self, k: &[u8]) -> Option<usize> { self.db.iter().position(|e| e.key.as_slice() == k) }
    fn set(&mut self, k: &[u8]) -> RedisResult<Option<&mut Vec<(Vec<u8>, Option<u64>)>>> {
        match self.pos(k) { None => Ok(None), Some(i) => match &mut self.db[i].data { Data::Set(s) => Ok(Some(s)), Data::Str(_) => Err(WRONG) } }
    }
    fn exec(&mut self, a: &[Vec<u8>]) -> RedisResult<Value> {
        self.purge();
        let name = String::from_utf8_lossy(a.first().ok_or(RedisError("ERR empty"))?).to_ascii_uppercase();
        let k: &[u8] = a.get(1).ok_or(RedisError("ERR wrong number of arguments"))?;
        let need = |n: usize| if a.len() < n { Err(RedisError("ERR wrong number of arguments")) } else { Ok(()) };
        match name.as_str() {
            "SADD" => {
                need(3)?;
                if self.set(k)?.is_none() { self.db.push(Entry { key: k.to_vec(), data: Data::Set(Vec::new()), exp: None }); }
                let s = self.set(k)?.unwrap();
                let mut n = 0;
                for m in &a[2..] { if !s.iter().any(|x| x.0 == *m) { s.push((m.clone(), None)); n += 1; } }
                Ok(Value::Int(n))
            }
            "SREM" => {
                need(3)?;
                let Some(s) = self.set(k)? else { return Ok(Value::Int(0)) };
                let before = s.len();
                s.retain(|x| !a[2..].contains(&x.0));
                Ok(Value::Int((before - s.len()) as i64))
            }
            "EXPIREMEMBER" => {
                need(4)?;
                let secs = num(&a[3])?;
                let Some(s) = self.set(k)? else { return Ok(Value::Int(0)) };
                for m in s.iter_mut() { if m.0 == a[2] { m.1 = Some(now() + secs * 1_000_000_000); return Ok(Value::Int(1)); } }
                Ok(Value::Int(0))
            }
            "SCARD" => Ok(Value::Int(self.set(k)?.map_or(0, |s| s.len()) as i64)),
            "SMEMBERS" => Ok(Value::Array(self.set(k)?.map_or(Vec::new(), |s| s.iter().map(|m| Value::BulkString(m.0.clone())).collect()))),
            "SISMEMBER" => { need(3)?; Ok(Value::Int(i64::from(self.set(k)?.is_some_and(|s| s.iter().any(|m| m.0 == a[2]))))) }
            "SET" | "SETEX" => {
                need(3)?;
                let mut exp = None;
                let mut nx = false;
                let mut i = 3;
                let val = if name == "SETEX" { need(4)?; exp = Some(num(&a[2])? * 1_000_000_000); i = 4; &a[3] } else { &a[2] };
                while i < a.len() {
                    match a[i].to_ascii_uppercase().as_slice() {
                        b"EX" => { need(i + 2)?; let v = num(&a[i + 1])?; if v == 0 { return Err(RedisError("ERR invalid expire time")); } exp = Some(v * 1_000_000_000); i += 2; }
                        b"PX" => { need(i + 2)?; exp = Some(num(&a[i + 1])? * 1_000_000); i += 2; }
                        b"NX" => { nx = true; i += 1; }
                        _ => return Err(RedisError("ERR syntax error")),
                    }
                }
                let p = self.pos(k);
                if nx && p.is_some() { return Ok(Value::Nil); }
                if let Some(p) = p { self.db.remove(p); }
                self.db.push(Entry { key: k.to_vec(), data: Data::Str(val.clone()), exp: exp.map(|d| now() + d) });
                Ok(Value::Okay)
            }
            "GET" | "GETDEL" => {
                let Some(p) = self.pos(k) else { return Ok(Value::Nil) };
                let Data::Str(v) = &self.db[p].data else { return Err(WRONG) };
                let v = v.clone();
                if name == "GETDEL" { self.db.remove(p); }
                Ok(Value::BulkString(v))
            }
            "DEL" => { let mut n = 0; for key in &a[1..] { if let Some(p) = self.pos(key) { self.db.remove(p); n += 1; } } Ok(Value::Int(n)) }
            "EXISTS" => Ok(Value::Int(i64::from(self.pos(k).is_some()))),
            "EXPIRE" => { need(3)?; let s = num(&a[2])?; match self.pos(k) { Some(p) => { self.db[p].exp = Some(now() + s * 1_000_000_000); Ok(Value::Int(1)) } None => Ok(Value::Int(0)) } }
            "INCR" | "DECR" => {
                let p = self.pos(k);
                let cur = match p { Some(p) => match &self.db[p].data { Data::Str(v) => num(v)? as i64, Data::Set(_) => return Err(WRONG) }, None => 0 };
                let v = if name == "INCR" { cur + 1 } else { cur - 1 };
                let d = Data::Str(v.to_string().into_bytes());
                match p { Some(p) => self.db[p].data = d, None => self.db.push(Entry { key: k.to_vec(), data: d, exp: None }) }
                Ok(Value::Int(v))
            }
            _ => Err(RedisError("ERR unknown command")),
        }
    }
}

pub trait ToRedisArgs: Sized {
    fn put(&self, out: &mut Vec<Vec<u8>>);
    fn push_slice(items: &[Self], out: &mut Vec<Vec<u8>>) { for i in items { i.put(out); } }
}
impl ToRedisArgs for u8 { fn put(&self, out: &mut Vec<Vec<u8>>) { out.push(self.to_string().into_bytes()) } fn push_slice(i: &[u8], out: &mut Vec<Vec<u8>>) { out.push(i.to_vec()) } }
macro_rules! ints { ($($t:ty)*) => { $(impl ToRedisArgs for $t { fn put(&self, out: &mut Vec<Vec<u8>>) { out.push(self.to_string().into_bytes()) } })* } }
ints!(u16 u32 u64 usize i32 i64);
impl ToRedisArgs for String { fn put(&self, out: &mut Vec<Vec<u8>>) { out.push(self.as_bytes().to_vec()) } }
impl ToRedisArgs for &str { fn put(&self, out: &mut Vec<Vec<u8>>) { out.push(self.as_bytes().to_vec()) } }
impl ToRedisArgs for &String { fn put(&self, out: &mut Vec<Vec<u8>>) { out.push(self.as_bytes().to_vec()) } }
impl<T: ToRedisArgs> ToRedisArgs for Vec<T> { fn put(&self, out: &mut Vec<Vec<u8>>) { T::push_slice(self, out) } }
impl<T: ToRedisArgs> ToRedisArgs for &Vec<T> { fn put(&self, out: &mut Vec<Vec<u8>>) { T::push_slice(self, out) } }
impl<T: ToRedisArgs> ToRedisArgs for &[T] { fn put(&self, out: &mut Vec<Vec<u8>>) { T::push_slice(self, out) } }
impl<T: ToRedisArgs, const N: usize> ToRedisArgs for &[T; N] { fn put(&self, out: &mut Vec<Vec<u8>>) { T::push_slice(*self, out) } }
impl<T: ToRedisArgs, const N: usize> ToRedisArgs for [T; N] { fn put(&self, out: &mut Vec<Vec<u8>>) { T::push_slice(self, out) } }

pub trait FromRedisValue: Sized { fn from_redis(v: Value) -> RedisResult<Self>; }
const TYPE: RedisError = RedisError("Response type not convertible");
impl FromRedisValue for () { fn from_redis(_v: Value) -> RedisResult<()> { Ok(()) } }
impl FromRedisValue for Value { fn from_redis(v: Value) -> RedisResult<Self> { Ok(v) } }
impl FromRedisValue for String { fn from_redis(v: Value) -> RedisResult<Self> { match v { Value::BulkString(b) => String::from_utf8(b).map_err(|_| TYPE), Value::Int(i) => Ok(i.to_string()), Value::Okay => Ok("OK".into()), _ => Err(TYPE) } } }
impl FromRedisValue for bool { fn from_redis(v: Value) -> RedisResult<Self> { match v { Value::Nil => Ok(false), Value::Int(i) => Ok(i != 0), Value::Okay => Ok(true), Value::BulkString(b) => match b.as_slice() { b"1" => Ok(true), b"0" => Ok(false), _ => Err(TYPE) }, Value::Array(_) => Err(TYPE) } } }
macro_rules! fints { ($($t:ty)*) => { $(impl FromRedisValue for $t { fn from_redis(v: Value) -> RedisResult<Self> { match v { Value::Int(i) => Ok(i as $t), Value::BulkString(b) => std::str::from_utf8(&b).ok().and_then(|s| s.parse().ok()).ok_or(TYPE), _ => Err(TYPE) } } })* } }
fints!(u16 u32 u64 usize i32 i64);
impl<T: FromRedisValue> FromRedisValue for Option<T> { fn from_redis(v: Value) -> RedisResult<Self> { if v == Value::Nil { Ok(None) } else { T::from_redis(v).map(Some) } } }
impl FromRedisValue for Vec<u8> { fn from_redis(v: Value) -> RedisResult<Self> { match v { Value::BulkString(b) => Ok(b), Value::Nil => Ok(Vec::new()), _ => Err(TYPE) } } }
impl FromRedisValue for Vec<String> { fn from_redis(v: Value) -> RedisResult<Self> { match v { Value::Array(a) => a.into_iter().map(String::from_value).collect(), Value::Nil => Ok(Vec::new()), _ => Err(TYPE) } } }
trait FV: Sized { fn from_value(v: Value) -> RedisResult<Self>; }
impl FV for String { fn from_value(v: Value) -> RedisResult<Self> { <String as FromRedisValue>::from_redis(v) } }
impl<T: FromRedisValue + Eq + std::hash::Hash, S: std::hash::BuildHasher + Default> FromRedisValue for HashSet<T, S> { fn from_redis(v: Value) -> RedisResult<Self> { match v { Value::Array(a) => a.into_iter().map(T::from_redis).collect(), Value::Nil => Ok(HashSet::default()), _ => Err(TYPE) } } }
impl<T: FromRedisValue + Eq + std::hash::Hash, S> FromRedisValue for verif_std::collections::HashSet<T, S> where verif_std::collections::HashSet<T, S>: FromIterator<T> + Default { fn from_redis(v: Value) -> RedisResult<Self> { match v { Value::Array(a) => a.into_iter().map(T::from_redis).collect(), Value::Nil => Ok(Default::default()), _ => Err(TYPE) } } }

impl<A: FromRedisValue> FromRedisValue for (A,) { fn from_redis(v: Value) -> RedisResult<Self> { match v { Value::Array(a) if a.len() == 1 => Ok((A::from_redis(a.into_iter().next().unwrap())?,)), _ => Err(TYPE) } } }
impl<A: FromRedisValue, B: FromRedisValue> FromRedisValue for (A, B) { fn from_redis(v: Value) -> RedisResult<Self> { match v { Value::Array(a) if a.len() == 2 => { let mut i = a.into_iter(); Ok((A::from_redis(i.next().unwrap())?, B::from_redis(i.next().unwrap())?)) } _ => Err(TYPE) } } }
impl<A: FromRedisValue, B: FromRedisValue, C: FromRedisValue> FromRedisValue for (A, B, C) { fn from_redis(v: Value) -> RedisResult<Self> { match v { Value::Array(a) if a.len() == 3 => { let mut i = a.into_iter(); Ok((A::from_redis(i.next().unwrap())?, B::from_redis(i.next().unwrap())?, C::from_redis(i.next().unwrap())?)) } _ => Err(TYPE) } } }

#[derive(Clone, Debug)]
pub struct Client { url: String }
impl Client {
    pub fn open<S: Into<String>>(p: S) -> RedisResult<Self> { let url = p.into(); if url.starts_with("redis://") || url.starts_with("rediss://") { Ok(Self { url }) } else { Err(RedisError("invalid URL")) } }
}
pub mod aio {
    use super::*;
    #[derive(Clone)]
    pub struct ConnectionManager(pub(crate) usize);
    pub type MultiplexedConnection = ConnectionManager;
    impl ConnectionManager {
        pub async fn new(c: Client) -> RedisResult<Self> {
            let s = SERVERS.get();
            if let Some(i) = s.iter().position(|x| x.url == c.url) { return Ok(Self(i)); }
            s.push(Server { url: c.url, db: Vec::new() });
            Ok(Self(s.len() - 1))
        }
    }
    pub trait ConnectionLike { fn server(&self) -> usize; }
    impl ConnectionLike for ConnectionManager { fn server(&self) -> usize { self.0 } }
}
async fn trip() -> RedisResult<()> {
    *TRIPS.get() += 1;
    vx::rt::yield_now().await;
    if *FAIL.get() > 0 && { *FAIL.get() -= 1; *FAIL.get() == 0 } { return Err(RedisError("connection dropped")); }
    Ok(())
}
#[derive(Clone, Default)]
pub struct Cmd { a: Vec<Vec<u8>>, ignored: bool }
pub fn cmd(n: &str) -> Cmd { Cmd { a: vec![n.as_bytes().to_vec()], ignored: false } }
impl Cmd {
    pub fn new() -> Self { Self::default() }
    pub fn arg<T: ToRedisArgs>(&mut self, t: T) -> &mut Self { t.put(&mut self.a); self }
    pub async fn query_async<T: FromRedisValue>(&self, c: &mut impl aio::ConnectionLike) -> RedisResult<T> {
        trip().await?;
        T::from_redis(SERVERS.get()[c.server()].exec(&self.a)?)
    }
    pub async fn exec_async(&self, c: &mut impl aio::ConnectionLike) -> RedisResult<()> { self.query_async::<()>(c).await }
}
#[derive(Clone, Default)]
pub struct Pipeline { c: Vec<Cmd>, atomic: bool }
pub fn pipe() -> Pipeline { Pipeline::default() }
impl Pipeline {
    pub fn new() -> Self { Self::default() }
    pub fn atomic(&mut self) -> &mut Self { self.atomic = true; self }
    pub fn cmd(&mut self, n: &str) -> &mut Self { self.c.push(cmd(n)); self }
    pub fn add_command(&mut self, c: Cmd) -> &mut Self { self.c.push(c); self }
    pub fn ignore(&mut self) -> &mut Self { self.c.last_mut().expect("no command").ignored = true; self }
    pub fn arg<T: ToRedisArgs>(&mut self, t: T) -> &mut Self { self.c.last_mut().expect("no command").arg(t); self }
    pub async fn query_async<T: FromRedisValue>(&self, c: &mut impl aio::ConnectionLike) -> RedisResult<T> {
        trip().await?;
        let mut out = Vec::new();
        let mut err = None;
        for (i, k) in self.c.iter().enumerate() {
            if i > 0 && !self.atomic { vx::rt::yield_now().await; }
            match SERVERS.get()[c.server()].exec(&k.a) { Ok(v) => if !k.ignored { out.push(v) }, Err(e) => err = err.or(Some(e)) }
        }
        match err { Some(e) => Err(e), None => T::from_redis(Value::Array(out)) }
    }
    pub async fn exec_async(&self, c: &mut impl aio::ConnectionLike) -> RedisResult<()> { self.query_async::<()>(c).await }
}
/// The raw commands, for harnesses.
pub fn raw(url: &str, args: &[&[u8]]) -> RedisResult<Value> {
    let s = SERVERS.get();
    let i = match s.iter().position(|x| x.url == url) { Some(i) => i, None => { s.push(Server { url: url.into(), db: Vec::new() }); s.len() - 1 } };
    let a: Vec<Vec<u8>> = args.iter().map(|x| x.to_vec()).collect();
    s[i].exec(&a)
}
