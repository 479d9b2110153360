//! C27: active models insert and update exactly the values that were set.
use {
    mysql_connector::{
        model::{ActiveModel, HasActiveModel},
        types::Value,
        Connection, Error,
    },
    std::{
        collections::BTreeMap,
        sync::{Arc, Mutex},
    },
    vharness::{entities::*, every_entity, kit::*, minidb::*, *},
};

/// One statement that has to be sent.
struct Want {
    spec: &'static Spec,
    set: BTreeMap<String, Value>,
    /// columns that hold the keys of other statements' rows
    refs: Vec<(String, usize)>,
    /// cannot be sent
    bad: bool,
}

/// The statements for a plan, inner ones first; returns the index of the outermost.
fn wants(spec: &'static Spec, plan: &[Act], out: &mut Vec<Want>) -> usize {
    let mut w = Want { spec, set: BTreeMap::new(), refs: vec![], bad: false };
    let mut put = |w: &mut Want, n: &str, v: &Value| {
        w.bad |= *v == UNSENDABLE;
        w.set.insert(n.into(), v.clone());
    };
    for (f, a) in spec.fields.iter().zip(plan) {
        match (f, a) {
            (Field::Simple(n, ..), Act::Val(v)) | (Field::Ref(n, _), Act::Key(v)) => put(&mut w, n, v),
            (Field::Struct(_, c), Act::Struct(v)) => c.iter().zip(v).for_each(|(c, v)| put(&mut w, c.0, v)),
            (Field::Ref(n, s), Act::Insert(p)) => {
                let i = wants(s(), p, out);
                w.refs.push((n.to_string(), i));
            }
            _ => {}
        }
    }
    out.push(w);
    out.len() - 1
}

struct Style {
    /// one of 10 fields is unset
    unset: u64,
    max: usize,
    unsendable: bool,
    fresh: u64,
}

fn cell(rng: &mut Rng, ty: Ty, null: bool, st: &Style) -> Value {
    if null && rng.chance(1, 4) {
        Value::Null
    } else if ty == Ty::Date && st.unsendable && rng.chance(1, 3) {
        UNSENDABLE
    } else {
        let max = if rng.chance(1, 4) { st.max } else { st.max.min(40) };
        ty.value(rng, max)
    }
}

fn plan(db: &Db, rng: &mut Rng, spec: &'static Spec, st: &mut Style, insert: bool) -> Vec<Act> {
    let mut p = Vec::new();
    for f in spec.fields {
        let unset = rng.chance(st.unset, 10);
        p.push(match f {
            Field::Simple(n, ty, _) if *n == spec.primary => {
                let skip = if spec.auto || !insert { rng.chance(4, 5) } else { rng.chance(1, 30) };
                if skip {
                    Act::Unset
                } else if rng.chance(1, 12) && !keys(db, spec).is_empty() {
                    Act::Val(rng.pick(&keys(db, spec)).clone())
                } else if spec.auto {
                    st.fresh += 1 + rng.below(3);
                    Act::Val(key(*ty, st.fresh))
                } else {
                    Act::Val(ty.value(rng, 10))
                }
            }
            _ if unset => Act::Unset,
            Field::Simple(_, ty, null) => Act::Val(cell(rng, *ty, *null, st)),
            Field::Struct(_, c) => Act::Struct(c.iter().map(|c| cell(rng, c.1, c.2, st)).collect()),
            Field::Ref(_, s) => {
                let s = s();
                let there = keys(db, s);
                if rng.coin() {
                    Act::Insert(plan(db, rng, s, st, true))
                } else if !there.is_empty() && rng.chance(4, 5) {
                    Act::Key(rng.pick(&there).clone())
                } else {
                    Act::Key(s.primary_ty().value(rng, 10))
                }
            }
        });
    }
    p
}

/// Assigns the inserts that were logged to the statements that were wanted, in any order in
/// which each follows those it refers to. Returns the key of each statement's row.
fn assign(wants: &[Want], log: &[Done], keys: &mut Vec<Option<Value>>) -> Option<Vec<Option<Value>>> {
    let Some((first, rest)) = log.split_first() else { return Some(keys.clone()) };
    let What::Insert { schema, table, cols, rows, id } = &first.what else { return None };
    let [row] = &rows[..] else { return None };
    if schema != "db" || cols.len() != row.len() {
        return None;
    }
    for (i, w) in wants.iter().enumerate() {
        if keys[i].is_some() || w.bad || w.spec.table != table || cols.len() != w.set.len() + w.refs.len() {
            continue;
        }
        let fits = w.set.iter().all(|(n, v)| cols.iter().zip(row).any(|(c, x)| c == n && same(x, v)))
            && w.refs.iter().all(|(n, j)| keys[*j].as_ref().is_some_and(|v| cols.iter().zip(row).any(|(c, x)| c == n && same(x, v))));
        if !fits {
            continue;
        }
        keys[i] = Some(w.set.get(w.spec.primary).cloned().unwrap_or_else(|| key(w.spec.primary_ty(), *id)));
        if let Some(k) = assign(wants, rest, keys) {
            return Some(k);
        }
        keys[i] = None;
    }
    None
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Trouble {
    None,
    Refuse(u64),
    Before(u64),
    After(u64),
    NoTable,
}

fn trouble(rng: &mut Rng) -> Trouble {
    let n = rng.below(5);
    match rng.below(8) {
        0 => Trouble::Refuse(n),
        1 => Trouble::Before(n),
        2 => Trouble::After(n),
        3 => Trouble::NoTable,
        _ => Trouble::None,
    }
}

struct Scene {
    db: Arc<Mutex<Db>>,
    conn: Connection,
    session: Arc<Mutex<Session>>,
    link: Link,
    fired: Arc<Mutex<bool>>,
}

const REFUSED: u16 = 1205;

async fn scene(c: &mut Case, spec: &'static Spec, t: Trouble) -> Result<Scene, Fail> {
    let mut d = Db::new("db", c.rng.fork());
    let shape = Shape { rows: c.rng.below(6), defaults: c.rng.chance(4, 5), dangling: false, max_bytes: 20 };
    populate(&mut d, &mut c.rng, spec, &shape);
    d.quiet = c.rng.coin();
    d.other_ids = c.rng.coin();
    let fired = Arc::new(Mutex::new(false));
    let mut left = match t {
        Trouble::Refuse(n) | Trouble::Before(n) | Trouble::After(n) => Some(n),
        _ => None,
    };
    let hit = fired.clone();
    d.judge = Some(Box::new(move |_, _| {
        if left == Some(0) {
            left = None;
            *lock(&hit) = true;
            return match t {
                Trouble::Refuse(_) => Fate::Refuse(ErrSpec::new(REFUSED, "HY000", "Lock wait timeout exceeded")),
                Trouble::Before(_) => Fate::BreakBefore,
                _ => Fate::BreakAfter,
            };
        }
        left = left.map(|n| n - 1);
        Fate::Run
    }));
    c.feed(&spec.rust);
    c.note(format!("model {} on table {:?}, {t:?}", spec.rust, spec.table));
    let lines: Vec<String> = d.tabs.iter().map(|(k, t)| format!("  {:?}: {} rows of {:?}", k.1, t.rows.len(), t.cols.iter().map(|c| c.name.as_str()).collect::<Vec<_>>())).collect();
    for l in lines {
        c.note(l);
    }
    let db = Arc::new(Mutex::new(d));
    let plan = IoPlan::random(&mut c.rng);
    let mut srv = Server::new(connection(db.clone(), 1));
    if c.rng.coin() {
        srv.greeting.caps &= !caps::DEPRECATE_EOF;
    }
    let (link, session) = srv.link(plan);
    let conn = must_connect(&link).await?;
    Ok(Scene { db, conn, session, link, fired })
}

async fn usable(conn: &mut Connection) -> CaseResult {
    let r = async { conn.query::<Vec<Value>>("select 11, 12").await?.collect().await }.await;
    match r {
        Ok(rows) if rows == vec![vec![Value::Long(11), Value::Long(12)]] => Ok(()),
        r => violation("connection unusable", format!("a later query returned {}", brief(r))),
    }
}

/// Removes a table other than `keep`, or `keep` itself.
fn without_table(c: &mut Case, db: &Mutex<Db>) -> Option<String> {
    let mut d = lock(db);
    let names: Vec<_> = d.tabs.keys().cloned().collect();
    if names.is_empty() {
        return None;
    }
    let k = c.rng.pick(&names).clone();
    d.tabs.remove(&k);
    Some(k.1)
}

/// What is common to the ends of inserts and updates: an error needs a reason, and nothing is
/// sent after it. Returns the statements that took effect.
fn ended<T>(c: &mut Case, s: &Scene, t: Trouble, bad: bool, r: &Result<T, Error>) -> Result<Vec<Done>, Fail> {
    let log = lock(&s.db).log.clone();
    let refused = log.iter().position(|d| matches!(d.what, What::Refused(_)));
    if let Some(i) = refused {
        ensure!(i + 1 == log.len(), "sent after an error", "{} was refused, then {} was sent", brief(&log[i]), brief(&log[i + 1..]));
    }
    let done: Vec<Done> = log.iter().filter(|d| !matches!(d.what, What::Refused(_))).cloned().collect();
    let broke = *lock(&s.fired) && matches!(t, Trouble::Before(_) | Trouble::After(_));
    match r {
        Ok(_) => {
            ensure!(refused.is_none(), "error hidden", "succeeded although {} was refused", brief(log.last()));
            ensure!(!broke, "error hidden", "succeeded although the connection broke");
            ensure!(!bad, "error hidden", "succeeded although a value cannot be sent");
        }
        Err(e) => {
            let k = kind(e);
            if let Some(i) = refused {
                let What::Refused(code) = log[i].what else { return inconclusive("no code") };
                ensure!(matches!(&k, Kind::Server { code: got, .. } if *got == code), "wrong error", "{} was reported as {}", brief(&log[i]), brief(e));
                // nothing that a value or the state of the tables could cause
                ensure!(
                    ![1047, 1052, 1054, 1064, 1065, 1110, 1136, 1210].contains(&code),
                    "wrong statements",
                    "no server understands {}: {}",
                    brief(&log[i]),
                    brief(e)
                );
                c.count("statements refused", 1);
            } else if broke {
                ensure!(matches!(k, Kind::Io(_)), "wrong error", "the connection broke, which was reported as {}", brief(e));
                c.count("broken connections", 1);
            } else {
                ensure!(bad && k == Kind::Data, "failed", "failed without a reason: {}", brief(e));
                c.count("values that cannot be sent", 1);
            }
        }
    }
    Ok(done)
}

fn style(c: &mut Case) -> Style {
    Style {
        unset: *c.rng.pick(&[0, 1, 1, 4, 9, 10]),
        max: if c.rng.chance(1, 10) { 70_000 } else { 40 },
        unsendable: c.rng.chance(1, 10),
        fresh: 20,
    }
}

/// Judges an insert.
async fn judge<E: Entity>(c: &mut Case, s: &mut Scene, t: Trouble, w: &[Want], r: Result<u64, Error>) -> CaseResult {
    let bad = w.iter().any(|w| w.bad);
    let done = ended(c, s, t, bad, &r)?;
    let keys = match assign(w, &done, &mut vec![None; w.len()]) {
        Some(k) => k,
        None => return violation("wrong statements", format!("expected {}; sent {}", w.iter().map(|w| brief((w.spec.table, &w.set, &w.refs))).collect::<Vec<_>>().join(", "), done.iter().map(|d| brief((&d.sql, &d.what))).collect::<Vec<_>>().join(", "))),
    };
    c.count("rows inserted", done.len() as u64);
    c.count("nested rows inserted", done.len().saturating_sub(1) as u64);
    c.count("values bound", w.iter().zip(&keys).filter(|k| k.1.is_some()).map(|(w, _)| w.set.len() as u64).sum());
    if let Ok(id) = r {
        ensure!(keys.iter().all(|k| k.is_some()), "statement left out", "inserted {} of {} rows", done.len(), w.len());
        let root = &w[w.len() - 1];
        if let (Some(Done { what: What::Insert { id: real, .. }, .. }), true) = (done.last(), E::spec().auto && !root.set.contains_key(E::PRIMARY)) {
            ensure!(id == *real, "wrong id", "returned {id}, the row got {real}");
            c.count("generated ids returned", 1);
        }
        c.count("inserts that succeeded", 1);
    }
    if !*lock(&s.fired) || matches!(t, Trouble::Refuse(_)) {
        lock(&s.db).judge = None;
        usable(&mut s.conn).await?;
        frames_ok(&s.link)?;
    }
    Ok(())
}

fn insert<E: Entity>(c: &mut Case) -> CaseResult {
    let spec = E::spec();
    ensure!(E::AUTO_INCREMENT == spec.auto && E::PRIMARY == spec.primary, "wrong key", "the key of {} is {:?}, generated: {}", spec.rust, E::PRIMARY, E::AUTO_INCREMENT);
    let t = trouble(&mut c.rng);
    drive("inserting an active model", async {
        let mut s = scene(c, spec, t).await?;
        let mut st = style(c);
        let p = plan(&lock(&s.db), &mut c.rng, spec, &mut st, true);
        c.note(format!("plan {p:?}"));
        c.feed(&format!("{p:?}"));
        let Some(m) = activate::<E>(&p) else { return inconclusive("a plan does not fit its model") };
        let mut w = Vec::new();
        wants(spec, &p, &mut w);
        let given = w[w.len() - 1].set.get(spec.primary).cloned();
        ensure!(m.primary() == given, "wrong primary", "primary() is {:?} where {given:?} was set", m.primary());
        if t == Trouble::NoTable {
            let name = without_table(c, &s.db);
            c.note(format!("without table {name:?}"));
        }
        let r = m.insert(&mut s.conn).await;
        judge::<E>(c, &mut s, t, &w, r).await
    })
}

fn nodes(rng: &mut Rng, spec: &'static Spec, st: &mut Style) -> Vec<Node> {
    spec.fields
        .iter()
        .map(|f| match f {
            Field::Simple(n, ty, _) if *n == spec.primary => Node::Val(ty.value(rng, 10)),
            Field::Simple(_, ty, null) => Node::Val(cell(rng, *ty, *null, st)),
            Field::Struct(_, c) => Node::Struct(c.iter().map(|c| cell(rng, c.1, c.2, st)).collect()),
            Field::Ref(_, s) => Node::Ref(nodes(rng, s(), st)),
        })
        .collect()
}

/// The plan that inserting a whole model stands for.
fn whole_plan(spec: &'static Spec, n: &[Node]) -> Vec<Act> {
    spec.fields
        .iter()
        .zip(n)
        .map(|(f, n)| match (f, n) {
            (Field::Simple(name, ..), _) if *name == spec.primary && spec.auto => Act::Unset,
            (Field::Ref(_, s), Node::Ref(n)) => Act::Insert(whole_plan(s(), n)),
            (_, Node::Struct(v)) => Act::Struct(v.clone()),
            (_, Node::Val(v)) => Act::Val(v.clone()),
            _ => Act::Unset,
        })
        .collect()
}

/// Replaces what is generated in `n` by what is in `like`.
fn generated(spec: &'static Spec, n: &mut [Node], like: &[Node]) {
    for ((f, n), l) in spec.fields.iter().zip(n).zip(like) {
        match (f, n, l) {
            (Field::Simple(name, ..), n, l) if *name == spec.primary && spec.auto => *n = l.clone(),
            (Field::Ref(_, s), Node::Ref(n), Node::Ref(l)) => generated(s(), n, l),
            _ => {}
        }
    }
}

fn whole<E: Entity>(c: &mut Case) -> CaseResult {
    let spec = E::spec();
    let t = if c.rng.coin() { Trouble::None } else { trouble(&mut c.rng) };
    drive("inserting a model", async {
        let mut s = scene(c, spec, t).await?;
        let mut st = style(c);
        let mut n = nodes(&mut c.rng, spec, &mut st);
        c.note(format!("model {n:?}"));
        c.feed(&format!("{n:?}"));
        let Some(m) = E::build(&n) else { return inconclusive("a tree does not fit its model") };
        let p = whole_plan(spec, &n);
        let mut w = Vec::new();
        wants(spec, &p, &mut w);
        if t == Trouble::NoTable {
            without_table(c, &s.db);
        }
        let m = m.into_active_model();
        let given = w[w.len() - 1].set.get(spec.primary).cloned();
        ensure!(m.primary() == given, "wrong primary", "primary() is {:?}, expected {given:?}", m.primary());
        let r = m.insert(&mut s.conn).await;
        let ok = r.is_ok();
        judge::<E>(c, &mut s, t, &w, r).await?;
        if ok {
            // and it is there
            let last = lock(&s.db).tab(spec.table).and_then(|t| t.rows.last().cloned()).unwrap_or_default();
            let got = load(&lock(&s.db), spec, &last);
            let Some(got) = got else { return violation("not found", "the model just inserted cannot be joined") };
            generated(spec, &mut n, &got);
            ensure!(print(&n) == print(&got), "wrong contents", "inserted {}, found {}", brief(&n), brief(&got));
            c.count("models found again", 1);
        }
        Ok(())
    })
}

fn update<E: Entity>(c: &mut Case) -> CaseResult {
    let spec = E::spec();
    let t = trouble(&mut c.rng);
    drive("updating a model", async {
        let mut s = scene(c, spec, t).await?;
        let mut st = style(c);
        let p = plan(&lock(&s.db), &mut c.rng, spec, &mut st, false);
        let there = keys(&lock(&s.db), spec);
        let missing = there.is_empty() || c.rng.chance(1, 8);
        let id = if missing { spec.primary_ty().value(&mut c.rng, 10) } else { c.rng.pick(&there).clone() };
        c.note(format!("row {id:?}, plan {p:?}"));
        c.feed(&format!("{p:?}"));
        let model = if c.rng.coin() {
            let at = lock(&s.db).tab(spec.table).and_then(|t| t.rows.iter().find(|r| t.col(spec.primary).is_some_and(|i| equal(&r[i], &id))).cloned());
            at.and_then(|r| load(&lock(&s.db), spec, &r)).and_then(|n| E::build(&n))
        } else {
            None
        };
        let u = match &model {
            Some(m) => {
                c.count("updates made from a model", 1);
                Some(m.update_model())
            }
            None => E::updater(&id),
        };
        let Some(mut u) = u else { return inconclusive("a key does not fit its model") };
        if E::apply(&mut u, &p).is_none() {
            return inconclusive("a plan does not fit its model");
        }
        let mut w = Vec::new();
        wants(spec, &p, &mut w);
        let Some(root) = w.pop() else { return inconclusive("no plan") };
        if t == Trouble::NoTable {
            without_table(c, &s.db);
        }
        let index = lock(&s.db).tab(spec.table).and_then(|t| t.rows.iter().position(|r| t.col(spec.primary).is_some_and(|i| equal(&r[i], &id))));
        let before = (lock(&s.session).commands, s.link.lock().written);
        let r = u.update(&mut s.conn).await;
        let after = (lock(&s.session).commands, s.link.lock().written);
        let bad = root.bad || w.iter().any(|w| w.bad);
        let nothing = root.set.is_empty() && root.refs.is_empty();
        if nothing {
            ensure!(before == after, "sent for nothing", "nothing was set, but {} commands were sent", after.0 - before.0);
            ensure!(r.is_ok(), "failed", "updating nothing failed: {}", brief(&r));
            c.count("empty updates", 1);
        }
        let mut done = ended(c, &s, t, bad, &r)?;
        let last = match done.last() {
            Some(Done { what: What::Update { .. }, .. }) => done.pop(),
            _ => None,
        };
        let k = match assign(&w, &done, &mut vec![None; w.len()]) {
            Some(k) => k,
            None => return violation("wrong statements", format!("expected {} inserts, sent {}", w.len(), brief(&done))),
        };
        if r.is_ok() {
            ensure!(k.iter().all(|k| k.is_some()), "statement left out", "inserted {} of {} rows", done.len(), w.len());
            ensure!(nothing || last.is_some(), "statement left out", "no update was sent");
        }
        if let Some(Done { what: What::Update { schema, table, set, rows }, sql, .. }) = last {
            ensure!(!nothing, "sent for nothing", "nothing was set, but {sql} was sent");
            ensure!(schema == "db" && table == spec.table, "wrong statements", "{sql}: wrong table");
            ensure!(k.iter().all(|k| k.is_some()), "sent too early", "{sql} was sent before all it refers to");
            let want: Vec<usize> = index.into_iter().collect();
            ensure!(rows == want, "wrong rows", "{sql} with {id:?} changed rows {rows:?}, expected {want:?}");
            if !rows.is_empty() {
                let mut all = root.set.clone();
                for (n, j) in &root.refs {
                    if let Some(v) = &k[*j] {
                        all.insert(n.clone(), v.clone());
                    }
                }
                ensure!(set.len() == all.len(), "wrong columns", "{sql} sets {} columns, {} were set", set.len(), all.len());
                for (n, v) in &all {
                    let got = set.iter().find(|x| x.0 == *n).map(|x| &x.1);
                    ensure!(got.is_some_and(|x| same(x, v)), "wrong values", "{sql}: {n} is {got:?} instead of {v:?}");
                }
                c.count("values updated", all.len() as u64);
            } else {
                c.count("updates of missing rows", 1);
            }
        }
        c.count("updates that succeeded", r.is_ok() as u64);
        if !*lock(&s.fired) || matches!(t, Trouble::Refuse(_)) {
            lock(&s.db).judge = None;
            usable(&mut s.conn).await?;
            frames_ok(&s.link)?;
        }
        Ok(())
    })
}

type F = fn(&mut Case) -> CaseResult;

pub fn main() {
    let i: &'static [F] = every_entity!(insert, F);
    let w: &'static [F] = every_entity!(whole, F);
    let u: &'static [F] = every_entity!(update, F);
    Check::new(
        "C27",
        "a small SQL engine behind the fake server logs what it executed; the log is matched with the statements the set fields stand for",
    )
    .assume("42 derived models stand for all shapes (tools/gen_models.py); explicit keys of generated columns are not 0")
    .group("insert", 70_000, 1_200_000, move |c| i[c.idx as usize % i.len()](c))
    .group("whole", 40_000, 700_000, move |c| w[c.idx as usize % w.len()](c))
    .group("update", 70_000, 1_200_000, move |c| u[c.idx as usize % u.len()](c))
    .require("inserts that succeeded", 6_000)
    .require("nested rows inserted", 5_000)
    .require("generated ids returned", 2_000)
    .require("models found again", 2_000)
    .require("updates that succeeded", 5_000)
    .require("values updated", 10_000)
    .require("empty updates", 500)
    .require("statements refused", 2_000)
    .require("broken connections", 800)
    .require("values that cannot be sent", 100)
    .main()
}
