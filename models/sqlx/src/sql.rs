//! Tokenizer, parser and interpreter.
use super::{Error, Result, Row_};
#[derive(Clone, Debug)]
pub enum Val { Null, Int(i64), Real(f64), Text(Vec<u8>), Blob(Vec<u8>) }
impl Val {
    /// SQLite's storage-class order; None if NULL is involved.
    fn cmp(&self, o: &Val) -> Option<std::cmp::Ordering> {
        use Val::*;
        Some(match (self, o) {
            (Null, _) | (_, Null) => return None,
            (Int(a), Int(b)) => a.cmp(b),
            (Int(a), Real(b)) => (*a as f64).partial_cmp(b)?,
            (Real(a), Int(b)) => a.partial_cmp(&(*b as f64))?,
            (Real(a), Real(b)) => a.partial_cmp(b)?,
            (Text(a), Text(b)) | (Blob(a), Blob(b)) => a.cmp(b),
            (a, b) => a.class().cmp(&b.class()),
        })
    }
    fn class(&self) -> u8 { match self { Val::Null => 0, Val::Int(_) | Val::Real(_) => 1, Val::Text(_) => 2, Val::Blob(_) => 3 } }
    fn equal(&self, o: &Val) -> bool {
        use Val::*;
        match (self, o) { (Int(a), Int(b)) => a == b, (Text(a), Text(b)) | (Blob(a), Blob(b)) => a == b, _ => self.cmp(o) == Some(std::cmp::Ordering::Equal) }
    }
}
#[derive(Clone, Debug, PartialEq)]
pub enum Tok { Id(String), Num(i64), Real(f64), Str(String), Param(Option<usize>), P(&'static str) }
fn tokens(s: &str) -> Vec<Tok> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = Vec::new();
    while i < b.len() {
        let c = b[i];
        if c.is_ascii_whitespace() { i += 1; continue; }
        if c == b'-' && b.get(i + 1) == Some(&b'-') { while i < b.len() && b[i] != b'\n' { i += 1; } continue; }
        if c.is_ascii_alphabetic() || c == b'_' { let j = i; while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') { i += 1; } out.push(Tok::Id(s[j..i].to_string())); continue; }
        if c.is_ascii_digit() { let j = i; while i < b.len() && (b[i].is_ascii_digit() || b[i] == b'.') { i += 1; } let t = &s[j..i]; out.push(t.parse().map(Tok::Num).unwrap_or_else(|_| Tok::Real(t.parse().unwrap_or(0.0)))); continue; }
        if c == b'\'' || c == b'"' || c == b'`' { let j = i + 1; i += 1; while i < b.len() && b[i] != c { i += 1; } let t = s[j..i].to_string(); i += 1; out.push(if c == b'\'' { Tok::Str(t) } else { Tok::Id(t) }); continue; }
        if c == b'?' || c == b'$' { i += 1; let j = i; while i < b.len() && b[i].is_ascii_digit() { i += 1; } out.push(Tok::Param(s[j..i].parse().ok())); continue; }
        for p in ["<=", ">=", "<>", "!=", "==", "||"] { if s[i..].starts_with(p) { out.push(Tok::P(p)); i += 2; break; } }
        if i < b.len() && b[i] == c {
            for p in ["(", ")", ",", ";", "*", "=", "<", ">", "+", "-", "."] { if p.as_bytes()[0] == c { out.push(Tok::P(p)); break; } }
            i += 1;
        }
    }
    out
}
pub fn split(s: &str) -> Vec<Vec<Tok>> { tokens(s).split(|t| *t == Tok::P(";")).filter(|s| !s.is_empty()).map(<[Tok]>::to_vec).collect() }

#[derive(Clone, Debug)]
struct Table { name: String, cols: Vec<String>, keys: Vec<Vec<usize>>, notnull: Vec<usize>, rows: Vec<Vec<Val>> }
#[derive(Clone, Debug, Default)]
pub struct Db { t: Vec<Table>, pub writer: bool, pub version: u64 }
pub fn is(s: &[Tok], k: &str) -> bool { matches!(s.first(), Some(Tok::Id(x)) if x.eq_ignore_ascii_case(k)) }
pub fn writes(s: &[Tok]) -> bool { !is(s, "SELECT") && !is(s, "PRAGMA") }

#[derive(Clone, Debug)]
enum Ex { Col(usize), Lit(Val), Bin(&'static str, Box<Ex>, Box<Ex>), And(Box<Ex>, Box<Ex>), Or(Box<Ex>, Box<Ex>), Not(Box<Ex>), In(Box<Ex>, Vec<Ex>), IsNull(Box<Ex>, bool) }
enum V3 { T, F, N }
fn truth(v: Val) -> V3 { match v { Val::Null => V3::N, Val::Int(i) => if i != 0 { V3::T } else { V3::F }, Val::Real(r) => if r != 0.0 { V3::T } else { V3::F }, _ => V3::F } }
fn b(x: bool) -> Val { Val::Int(i64::from(x)) }
fn eval(e: &Ex, r: &[Val]) -> Val {
    use std::cmp::Ordering::*;
    match e {
        Ex::Col(i) => r[*i].clone(),
        Ex::Lit(v) => v.clone(),
        Ex::And(x, y) => match truth(eval(x, r)) { V3::F => b(false), V3::T => match truth(eval(y, r)) { V3::T => b(true), V3::F => b(false), V3::N => Val::Null }, V3::N => match truth(eval(y, r)) { V3::F => b(false), _ => Val::Null } },
        Ex::Or(x, y) => match truth(eval(x, r)) { V3::T => b(true), V3::F => match truth(eval(y, r)) { V3::T => b(true), V3::F => b(false), V3::N => Val::Null }, V3::N => match truth(eval(y, r)) { V3::T => b(true), _ => Val::Null } },
        Ex::Not(x) => match truth(eval(x, r)) { V3::T => b(false), V3::F => b(true), V3::N => Val::Null },
        Ex::IsNull(x, n) => b(matches!(eval(x, r), Val::Null) == *n),
        Ex::In(x, l) => { let v = eval(x, r); b(l.iter().any(|y| v.equal(&eval(y, r)))) }
        Ex::Bin(op, x, y) => {
            let (x, y) = (eval(x, r), eval(y, r));
            if matches!(x, Val::Null) || matches!(y, Val::Null) { return Val::Null; }
            match *op {
                "=" => b(x.equal(&y)),
                "<>" => b(!x.equal(&y)),
                "<" => b(x.cmp(&y) == Some(Less)),
                ">" => b(x.cmp(&y) == Some(Greater)),
                "<=" => b(x.cmp(&y) != Some(Greater)),
                ">=" => b(x.cmp(&y) != Some(Less)),
                "+" | "-" => match (x, y) {
                    (Val::Int(a), Val::Int(c)) => Val::Int(if *op == "+" { a.wrapping_add(c) } else { a.wrapping_sub(c) }),
                    (a, c) => { let f = |v| match v { Val::Int(i) => i as f64, Val::Real(r) => r, _ => 0.0 }; Val::Real(if *op == "+" { f(a) + f(c) } else { f(a) - f(c) }) }
                },
                _ => Val::Null,
            }
        }
    }
}
const SYN: Error = Error::Database("syntax error");
struct P<'a> { t: &'a [Tok], i: usize, args: &'a [Val], used: &'a mut usize, base: usize, cols: &'a [String] }
impl<'a> P<'a> {
    fn kw(&mut self, k: &str) -> bool { if let Some(Tok::Id(s)) = self.t.get(self.i) { if s.eq_ignore_ascii_case(k) { self.i += 1; return true; } } false }
    fn p(&mut self, k: &str) -> bool { if let Some(Tok::P(s)) = self.t.get(self.i) { if *s == k { self.i += 1; return true; } } false }
    fn need(&mut self, k: &str) -> Result<()> { if self.kw(k) || self.p(k) { Ok(()) } else { Err(SYN) } }
    fn id(&mut self) -> Result<String> { match self.t.get(self.i) { Some(Tok::Id(s)) => { self.i += 1; Ok(s.clone()) } _ => Err(SYN) } }
    fn end(&self) -> bool { self.i >= self.t.len() }
    fn or(&mut self) -> Result<Ex> { let mut x = self.and()?; while self.kw("or") { let y = self.and()?; x = Ex::Or(Box::new(x), Box::new(y)); } Ok(x) }
    fn and(&mut self) -> Result<Ex> { let mut x = self.not()?; while self.kw("and") { let y = self.not()?; x = Ex::And(Box::new(x), Box::new(y)); } Ok(x) }
    fn not(&mut self) -> Result<Ex> { if self.kw("not") { Ok(Ex::Not(Box::new(self.not()?))) } else { self.cmp() } }
    fn cmp(&mut self) -> Result<Ex> {
        let x = self.sum()?;
        for (t, op) in [("=", "="), ("==", "="), ("<>", "<>"), ("!=", "<>"), ("<=", "<="), (">=", ">="), ("<", "<"), (">", ">")] { if self.p(t) { let y = self.sum()?; return Ok(Ex::Bin(op, Box::new(x), Box::new(y))); } }
        if self.kw("is") { let n = !self.kw("not"); self.need("null")?; return Ok(Ex::IsNull(Box::new(x), n)); }
        let neg = self.kw("not");
        if self.kw("in") {
            self.need("(")?;
            let mut l = Vec::new();
            while !self.p(")") { l.push(self.or()?); self.p(","); }
            let e = Ex::In(Box::new(x), l);
            return Ok(if neg { Ex::Not(Box::new(e)) } else { e });
        }
        if neg { return Err(SYN); }
        Ok(x)
    }
    fn sum(&mut self) -> Result<Ex> { let mut x = self.atom()?; loop { let op = if self.p("+") { "+" } else if self.p("-") { "-" } else { return Ok(x) }; let y = self.atom()?; x = Ex::Bin(op, Box::new(x), Box::new(y)); } }
    fn atom(&mut self) -> Result<Ex> {
        if self.p("(") { let x = self.or()?; self.need(")")?; return Ok(x); }
        if self.kw("null") { return Ok(Ex::Lit(Val::Null)); }
        let t = self.t.get(self.i).ok_or(SYN)?.clone();
        self.i += 1;
        Ok(match t {
            Tok::Num(n) => Ex::Lit(Val::Int(n)),
            Tok::Real(n) => Ex::Lit(Val::Real(n)),
            Tok::Str(s) => Ex::Lit(Val::Text(s.into_bytes())),
            Tok::Param(n) => {
                let i = match n { Some(n) => self.base + n - 1, None => *self.used };
                *self.used = (*self.used).max(i + 1);
                Ex::Lit(self.args.get(i).cloned().unwrap_or(Val::Null))
            }
            Tok::Id(s) => {
                let mut s = s;
                if self.p(".") { s = self.id()?; }
                Ex::Col(self.cols.iter().position(|c| c.eq_ignore_ascii_case(&s)).ok_or(Error::Database("no such column"))?)
            }
            Tok::P(_) => return Err(SYN),
        })
    }
    fn wher(&mut self) -> Result<Option<Ex>> { if self.kw("where") { Ok(Some(self.or()?)) } else { Ok(None) } }
}
fn holds(w: &Option<Ex>, r: &[Val]) -> bool { w.as_ref().map_or(true, |w| matches!(truth(eval(w, r)), V3::T)) }
impl Db {
    fn tab(&self, n: &str) -> Result<usize> { self.t.iter().position(|t| t.name.eq_ignore_ascii_case(n)).ok_or(Error::Database("no such table")) }
    pub fn exec(&mut self, t: &[Tok], args: &[Val], used: &mut usize) -> Result<(Vec<Row_>, u64)> {
        let base = *used;
        let mut p = P { t, i: 0, args, used, base, cols: &[] };
        if p.kw("begin") || p.kw("commit") || p.kw("end") || p.kw("pragma") { return Ok((Vec::new(), 0)); }
        if p.kw("create") {
            p.need("table")?;
            let ine = p.kw("if") && p.kw("not") && p.kw("exists");
            let name = p.id()?;
            if self.tab(&name).is_ok() { return if ine { Ok((Vec::new(), 0)) } else { Err(Error::Database("table already exists")) }; }
            p.need("(")?;
            let mut tb = Table { name, cols: Vec::new(), keys: Vec::new(), notnull: Vec::new(), rows: Vec::new() };
            loop {
                if p.kw("primary") || p.kw("unique") {
                    p.kw("key");
                    p.need("(")?;
                    let mut k = Vec::new();
                    while !p.p(")") { let c = p.id()?; k.push(tb.cols.iter().position(|x| x.eq_ignore_ascii_case(&c)).ok_or(SYN)?); p.p(","); }
                    tb.keys.push(k);
                } else {
                    let c = p.id()?;
                    tb.cols.push(c);
                    let i = tb.cols.len() - 1;
                    while !matches!(p.t.get(p.i), Some(Tok::P("," | ")"))) {
                        if p.kw("primary") || p.kw("unique") { p.kw("key"); tb.keys.push(vec![i]); }
                        else if p.kw("not") { p.need("null")?; tb.notnull.push(i); }
                        else { if p.end() { return Err(SYN); } p.i += 1; }
                    }
                }
                if p.p(")") { break; }
                p.need(",")?;
            }
            self.t.push(tb);
            return Ok((Vec::new(), 0));
        }
        if p.kw("drop") {
            p.need("table")?;
            let ie = p.kw("if") && p.kw("exists");
            let n = p.id()?;
            match self.tab(&n) { Ok(i) => { self.t.remove(i); Ok((Vec::new(), 0)) } Err(e) => if ie { Ok((Vec::new(), 0)) } else { Err(e) } }
        } else if p.kw("insert") || p.kw("replace") {
            let mut replace = matches!(&t[0], Tok::Id(s) if s.eq_ignore_ascii_case("replace"));
            let mut ignore = false;
            if p.kw("or") { if p.kw("replace") { replace = true; } else if p.kw("ignore") { ignore = true; } else { p.id()?; } }
            p.need("into")?;
            let ti = { let n = p.id()?; self.tab(&n)? };
            let mut cols: Vec<usize> = (0..self.t[ti].cols.len()).collect();
            if p.p("(") { cols.clear(); while !p.p(")") { let c = p.id()?; cols.push(self.t[ti].cols.iter().position(|x| x.eq_ignore_ascii_case(&c)).ok_or(Error::Database("no such column"))?); p.p(","); } }
            p.need("values")?;
            let mut new = Vec::new();
            loop {
                p.need("(")?;
                let mut row = vec![Val::Null; self.t[ti].cols.len()];
                for (j, c) in cols.iter().enumerate() { if j > 0 { p.need(",")?; } let e = p.or()?; row[*c] = eval(&e, &[]); }
                p.need(")")?;
                new.push(row);
                if !p.p(",") { break; }
            }
            if p.kw("on") { p.need("conflict")?; if p.p("(") { while !p.p(")") { p.i += 1; } } p.need("do")?; if p.kw("nothing") { ignore = true; } else { return Err(SYN); } }
            if !p.end() && !p.kw("returning") { return Err(SYN); }
            let save = self.t[ti].rows.clone();
            let mut n = 0;
            for row in new {
                let tb = &mut self.t[ti];
                if tb.notnull.iter().any(|i| matches!(row[*i], Val::Null)) { if ignore { continue; } tb.rows = save; return Err(Error::Database("NOT NULL constraint failed")); }
                let keys = tb.keys.clone();
                let clash = |r: &Vec<Val>| keys.iter().any(|k| k.iter().all(|i| r[*i].equal(&row[*i])));
                if replace { let mut i = 0; while i < tb.rows.len() { if clash(&tb.rows[i]) { tb.rows.remove(i); } else { i += 1; } } }
                else if tb.rows.iter().any(clash) { if ignore { continue; } tb.rows = save; return Err(Error::Database("UNIQUE constraint failed")); }
                tb.rows.push(row);
                n += 1;
            }
            Ok((Vec::new(), n))
        } else if p.kw("delete") {
            p.need("from")?;
            let ti = { let n = p.id()?; self.tab(&n)? };
            let cols = self.t[ti].cols.clone();
            p.cols = &cols;
            let w = p.wher()?;
            let ret = if p.kw("returning") { Some(Self::outs(&mut p, &cols)?) } else { None };
            if !p.end() { return Err(SYN); }
            let mut gone = Vec::new();
            let rows = std::mem::take(&mut self.t[ti].rows);
            for r in rows { if holds(&w, &r) { gone.push(r); } else { self.t[ti].rows.push(r); } }
            let n = gone.len() as u64;
            let out = match ret { Some(o) => gone.iter().map(|r| Self::row(&o, &cols, r)).collect(), None => Vec::new() };
            Ok((out, n))
        } else if p.kw("update") {
            let ti = { let n = p.id()?; self.tab(&n)? };
            let cols = self.t[ti].cols.clone();
            p.cols = &cols;
            p.need("set")?;
            let mut set = Vec::new();
            loop { let c = p.id()?; let i = cols.iter().position(|x| x.eq_ignore_ascii_case(&c)).ok_or(SYN)?; p.need("=")?; set.push((i, p.or()?)); if !p.p(",") { break; } }
            let w = p.wher()?;
            let ret = if p.kw("returning") { Some(Self::outs(&mut p, &cols)?) } else { None };
            if !p.end() { return Err(SYN); }
            let mut n = 0;
            let mut out = Vec::new();
            for r in &mut self.t[ti].rows {
                if holds(&w, r) {
                    let vals: Vec<Val> = set.iter().map(|s| eval(&s.1, r)).collect();
                    for (s, v) in set.iter().zip(vals) { r[s.0] = v; }
                    n += 1;
                    if let Some(o) = &ret { out.push(Self::row(o, &cols, r)); }
                }
            }
            Ok((out, n))
        } else if p.kw("select") {
            // the source table decides the columns, so look ahead for it
            let from = t.iter().position(|x| matches!(x, Tok::Id(s) if s.eq_ignore_ascii_case("from"))).ok_or(SYN)?;
            let Some(Tok::Id(tn)) = t.get(from + 1) else { return Err(SYN) };
            let (cols, rows) = if tn.eq_ignore_ascii_case("sqlite_master") {
                let tx = |s: &str| Val::Text(s.as_bytes().to_vec());
                (vec!["type".to_string(), "name".into(), "tbl_name".into()], self.t.iter().map(|t| vec![tx("table"), tx(&t.name), tx(&t.name)]).collect())
            } else { let ti = self.tab(tn)?; (self.t[ti].cols.clone(), self.t[ti].rows.clone()) };
            p.cols = &cols;
            let distinct = p.kw("distinct");
            if distinct { return Err(SYN); }
            let outs = Self::outs(&mut p, &cols)?;
            p.need("from")?;
            p.id()?;
            let w = p.wher()?;
            let mut rows: Vec<Vec<Val>> = rows.into_iter().filter(|r| holds(&w, r)).collect();
            if p.kw("order") {
                p.need("by")?;
                let e = p.or()?;
                let desc = p.kw("desc") || { p.kw("asc"); false };
                rows.sort_by(|a, b| { let o = eval(&e, a).cmp(&eval(&e, b)).unwrap_or(std::cmp::Ordering::Equal); if desc { o.reverse() } else { o } });
            }
            if p.kw("limit") { let e = p.or()?; if let Val::Int(n) = eval(&e, &[]) { rows.truncate(n as usize); } }
            if !p.end() { return Err(SYN); }
            let n = rows.len() as u64;
            if outs.iter().any(|o| matches!(o.1, Out::Count(_))) {
                let vals = outs.iter().map(|o| match &o.1 { Out::Count(None) => Val::Int(rows.len() as i64), Out::Count(Some(e)) => Val::Int(rows.iter().filter(|r| !matches!(eval(e, r), Val::Null)).count() as i64), Out::Ex(e) => rows.first().map_or(Val::Null, |r| eval(e, r)), Out::Exists => Val::Null, Out::All => Val::Null }).collect();
                return Ok((vec![Row_ { cols: outs.into_iter().map(|o| o.0).collect(), vals }], 1));
            }
            Ok((rows.iter().map(|r| Self::row(&outs, &cols, r)).collect(), n))
        } else { Err(SYN) }
    }
    fn outs(p: &mut P<'_>, _cols: &[String]) -> Result<Vec<(String, Out)>> {
        let mut v = Vec::new();
        loop {
            let mut name = String::new();
            let o = if p.p("*") { Out::All } else if matches!((p.t.get(p.i), p.t.get(p.i + 1)), (Some(Tok::Id(s)), Some(Tok::P("("))) if s.eq_ignore_ascii_case("count")) {
                p.i += 2;
                let e = if p.p("*") { None } else { Some(p.or()?) };
                p.need(")")?;
                Out::Count(e)
            } else { if let Some(Tok::Id(s)) = p.t.get(p.i) { name = s.clone(); } Out::Ex(p.or()?) };
            if p.kw("as") { name = p.id()?; }
            v.push((name, o));
            if !p.p(",") { return Ok(v); }
        }
    }
    fn row(o: &[(String, Out)], cols: &[String], r: &[Val]) -> Row_ {
        let mut out = Row_ { cols: Vec::new(), vals: Vec::new() };
        for (n, o) in o { match o { Out::All => { out.cols.extend(cols.iter().cloned()); out.vals.extend(r.iter().cloned()); } Out::Ex(e) => { out.cols.push(n.clone()); out.vals.push(eval(e, r)); } Out::Count(_) | Out::Exists => {} } }
        out
    }
}
enum Out { All, Count(Option<Ex>), Ex(Ex), #[allow(dead_code)] Exists }
