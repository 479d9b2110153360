//! C26: derived models query and map every field to the right column.
use {
    mysql_connector::{types::Value, Connection, Error},
    std::sync::{Arc, Mutex},
    vharness::{entities::*, every_entity, kit::*, minidb::*, *},
};

type Read = Vec<Result<Vec<Node>, Error>>;

struct Answer {
    /// alias of the table and name of each column
    columns: Vec<(String, String)>,
    rows: Read,
}

/// Runs a query and maps what comes back.
async fn fetch<E: Entity>(conn: &mut Connection, sql: &str, params: Option<&[Value]>, how: u64, limit: usize) -> Result<Answer, Error> {
    macro_rules! read {
        ($rs:expr) => {{
            let mut rs = $rs;
            let columns = rs.columns().iter().map(|c| (c.table().to_string(), c.org_name().to_string())).collect();
            let mut rows: Read = Vec::new();
            match how {
                0 => match rs.collect().await {
                    Ok(all) => rows.extend(all.into_iter().map(|m| Ok(take(m)))),
                    Err(e) => rows.push(Err(e)),
                },
                _ => loop {
                    match rs.next().await {
                        Ok(None) => break,
                        Ok(Some(m)) => rows.push(Ok(take(m))),
                        Err(e) => rows.push(Err(e)),
                    }
                    if rows.len() > limit + 3 {
                        break;
                    }
                },
            }
            Ok(Answer { columns, rows })
        }};
    }
    match params {
        None => read!(conn.query::<E>(sql).await?),
        Some(p) => {
            let mut ps = conn.prepare_statement(sql).await?;
            let rs = ps.query::<Value, E>(p).await?;
            read!(rs)
        }
    }
}

fn take<E: Entity>(m: E) -> Vec<Node> {
    let key: Value = m.primary().into();
    let nodes = m.dump();
    let own = E::spec().fields.iter().zip(&nodes).find_map(|(f, n)| match (f, n) {
        (Field::Simple(name, ..), Node::Val(v)) if *name == E::PRIMARY => Some(v),
        _ => None,
    });
    if own.is_some_and(|v| same(v, &key)) {
        nodes
    } else {
        // recognisable, and equal to no row
        vec![Node::Val(Value::Bytes(format!("primary() returned {key:?} for {nodes:?}").into_bytes()))]
    }
}

struct Scene {
    db: Arc<Mutex<Db>>,
    conn: Connection,
    world: World,
    link: Link,
}

async fn scene(c: &mut Case, spec: &'static Spec) -> Result<Scene, Fail> {
    let mut d = Db::new("db", c.rng.fork());
    let shape = Shape {
        rows: if spec.leaves() > 30 { c.rng.below(5) } else { c.rng.below(9) },
        defaults: false,
        dangling: c.rng.coin(),
        max_bytes: if c.rng.chance(1, 6) { 70_000 } else { 40 },
    };
    let world = populate(&mut d, &mut c.rng, spec, &shape);
    // a table of no model
    let mut cols = vec![Col::new("zz", typ::LONG, 0, true)];
    for (n, s) in spec.refs() {
        // columns of the referenced model that the model itself has not
        for (x, t, _) in s.own() {
            if !spec.has_field(&x) && !cols.iter().any(|c| c.name.eq_ignore_ascii_case(&x)) && n != "zz" {
                let (ct, flags) = t.column();
                cols.push(Col::new(&x, ct, flags, true));
            }
        }
    }
    let rows = vec![cols.iter().map(|c| if c.name == "zz" { Value::Int(7) } else { Value::Null }).collect()];
    d.add("zz foreign", Tab { cols, rows, unique: vec![], next: 1 });
    c.feed(&spec.rust);
    c.note(format!("model {} on table {:?}, tables:", spec.rust, spec.table));
    c.feed(&format!("{:?}", d.tabs));
    let lines: Vec<String> = d.tabs.iter().map(|(k, t)| format!("  {:?}: {} rows of {:?}", k.1, t.rows.len(), t.cols.iter().map(|c| c.name.as_str()).collect::<Vec<_>>())).collect();
    for l in lines {
        c.note(l);
    }
    let db = Arc::new(Mutex::new(d));
    let plan = IoPlan::random(&mut c.rng);
    let mut srv = Server::new(connection(db.clone(), 1));
    if c.rng.coin() {
        srv.greeting.caps &= !caps::DEPRECATE_EOF;
    }
    let (link, _) = srv.link(plan);
    let conn = must_connect(&link).await?;
    Ok(Scene { db, conn, world, link })
}

async fn usable(conn: &mut Connection) -> CaseResult {
    let r = async { conn.query::<Vec<Value>>("select 11, 12").await?.collect().await }.await;
    match r {
        Ok(rows) if rows == vec![vec![Value::Long(11), Value::Long(12)]] => Ok(()),
        r => violation("connection unusable", format!("a later query returned {}", brief(r))),
    }
}

/// What was read is what the tables hold.
fn compare(c: &mut Case, sql: &str, got: &Read, want: &[Vec<Node>]) -> CaseResult {
    let mut rows = Vec::new();
    for r in got {
        match r {
            Ok(n) => rows.push(n.clone()),
            Err(e) => return violation("row refused", format!("{}: {}", brief(sql), brief(e))),
        }
    }
    let (a, b) = (bag(&rows), bag(want));
    if a != b {
        let odd = a.iter().find(|x| !b.contains(x));
        let missing = b.iter().find(|x| !a.contains(x));
        return violation("wrong rows", format!("{}: read {} rows, expected {}; unexpected {}; missing {}", brief(sql), a.len(), b.len(), brief(odd), brief(missing)));
    }
    c.count("models compared", a.len() as u64);
    Ok(())
}

fn generated<E: Entity>(c: &mut Case) -> CaseResult {
    let spec = E::spec();
    drive("the generated query", async {
        let mut s = scene(c, spec).await?;
        let mut sql = E::build_query();
        c.note(sql.clone());
        c.feed(&sql);
        if let Err(e) = Db::params(&sql) {
            return violation("bad query", format!("not understood: {e:?}: {sql}"));
        }
        let all = load_all(&lock(&s.db), spec);
        let mut want = all.clone();
        let mut params = None;
        let prepared = c.rng.coin();
        if c.rng.chance(1, 3) {
            // restricted to one key by the caller
            let some = keys(&lock(&s.db), spec);
            if !some.is_empty() {
                let k = c.rng.pick(&some).clone();
                let at = spec.fields.iter().position(|f| matches!(f, Field::Simple(n, ..) if *n == spec.primary)).unwrap_or(0);
                want.retain(|n| n[at].val().is_some_and(|v| equal(v, &k)));
                sql += &format!(" where `{}`.`{}` = ", spec.table, spec.primary);
                if prepared {
                    sql.push('?');
                    params = Some(vec![k]);
                } else {
                    sql += &k.to_string();
                }
                c.count("restricted queries", 1);
            }
        }
        if prepared && params.is_none() {
            params = Some(vec![]);
        }
        let how = c.rng.below(2);
        let a = must(fetch::<E>(&mut s.conn, &sql, params.as_deref(), how, all.len()).await, "query refused", &sql)?;
        ensure!(a.columns.len() == spec.leaves(), "wrong columns", "{sql}: {} columns for {} fields", a.columns.len(), spec.leaves());
        let mut names = a.columns.clone();
        names.sort();
        names.dedup();
        ensure!(names.len() == a.columns.len(), "wrong columns", "{sql}: a column is selected twice");
        compare(c, &sql, &a.rows, &want)?;
        c.count("generated queries run", 1);
        c.count("columns mapped", (a.columns.len() * a.rows.len()) as u64);
        usable(&mut s.conn).await?;
        frames_ok(&s.link)
    })
}

struct Build<'a> {
    root: &'a str,
    style: u64,
    joins: Vec<(String, String, String)>,
    /// alias, column, (path of the) field
    leaves: Vec<(String, String)>,
    /// aliases and tables
    places: Vec<(String, &'static str)>,
}

impl Build<'_> {
    fn walk(&mut self, rng: &mut Rng, spec: &'static Spec, alias: &str, path: &str) {
        self.places.push((alias.to_string(), spec.table));
        for (n, ..) in spec.own() {
            self.leaves.push((alias.to_string(), n));
        }
        for (n, s) in spec.refs() {
            let path = if path.is_empty() { n.to_string() } else { format!("{path}.{n}") };
            let full = match self.style {
                0 => true,
                1 => false,
                _ => rng.coin(),
            };
            let child = if full { format!("{}.{path}", self.root) } else { path.clone() };
            self.joins.push((s.table.into(), child.clone(), format!("`{child}`.`{}` = `{alias}`.`{n}`", s.primary)));
            self.walk(rng, s, &child, &path);
        }
    }
}

/// A query somebody wrote, with the columns in any order and columns of other tables.
fn written<E: Entity>(c: &mut Case) -> CaseResult {
    let spec = E::spec();
    let trouble = c.rng.below(4);
    drive("a written query", async {
        let mut s = scene(c, spec).await?;
        // aliases with the table's name or, where that cannot be mistaken for the table, without it
        let style = if spec.refs().iter().any(|r| r.0 == spec.table) { 0 } else { c.rng.below(3) };
        let mut b = Build { root: spec.table, style, joins: vec![], leaves: vec![], places: vec![] };
        // the alias of the own table is free, as long as it is not the name of a reference
        let own = if c.rng.chance(1, 4) { "e e" } else { spec.table };
        let mut rng = c.rng.fork();
        b.walk(&mut rng, spec, own, "");
        let mut picks: Vec<String> = b.leaves.iter().map(|(a, n)| format!("`{a}`.`{n}`")).collect();
        let mut dropped = None;
        if trouble == 1 {
            let i = c.rng.usize(picks.len());
            dropped = Some(picks.swap_remove(i));
        }
        let want_columns = picks.len();
        // the columns are known by their own name, whatever the query calls them
        for p in picks.iter_mut() {
            if c.rng.chance(1, 10) {
                let other = c.rng.pick(&b.leaves).1.clone();
                *p += &format!(" as `{other}`");
            }
        }
        for (alias, table) in &b.places {
            for x in s.world.extra.get(*table).into_iter().flatten() {
                if c.rng.coin() {
                    picks.push(format!("`{alias}`.`{x}`"));
                }
            }
        }
        // references themselves
        for (n, _) in spec.refs() {
            if c.rng.chance(1, 3) {
                picks.push(format!("`{}`.`{n}`", b.places[0].0));
            }
        }
        if picks.is_empty() || c.rng.coin() {
            picks.push("42".into());
            picks.push("'text' as `id`".into());
        }
        let foreign = c.rng.coin();
        let alias = (*c.rng.pick(&["zz foreign", "zz", "zz.zz", ""])).to_string();
        let mut from = format!("`{}` as `{}`", spec.table, b.places[0].0);
        for (t, a, on) in &b.joins {
            from += &format!(" {} `{t}` as `{a}` on {on}", c.rng.pick(&["join", "inner join"]));
        }
        if foreign && !alias.is_empty() {
            // the reference names that start like this alias exist only in the models
            let cols = lock(&s.db).tab("zz foreign").map(|t| t.cols.clone()).unwrap_or_default();
            for col in cols {
                if c.rng.coin() {
                    picks.push(format!("`{alias}`.`{}`", col.name));
                }
            }
            from += &format!(" join `zz foreign` as `{alias}`");
        }
        c.count("foreign columns", (picks.len() - want_columns) as u64);
        c.rng.shuffle(&mut picks);
        let sql = format!("select {} from {from}", picks.join(", "));
        c.note(sql.clone());
        c.feed(&sql);
        // cells that do not fit
        if trouble == 2 || trouble == 3 {
            let place = c.rng.pick(&b.places).1;
            let mut specs = Vec::new();
            spec.closure(&mut specs);
            let leaves: Vec<_> = specs.iter().filter(|x| x.table == place).flat_map(|x| x.own().into_iter().filter(|l| l.0 != x.primary)).collect();
            if !leaves.is_empty() {
                let (name, ty, null) = c.rng.pick(&leaves).clone();
                let mut d = lock(&s.db);
                let unfit = ty.unfit(&mut c.rng);
                let pattern = c.rng.u64();
                if let Some(t) = d.tab_mut(place) {
                    if let Some(i) = t.col(&name) {
                        if trouble == 2 && !null {
                            t.cols[i].nullable = true;
                            for (j, r) in t.rows.iter_mut().enumerate() {
                                if pattern >> j & 1 == 1 {
                                    r[i] = Value::Null;
                                }
                            }
                            c.note(format!("NULL in {place:?}.{name:?}"));
                        } else if let Some((ct, v)) = unfit {
                            let all = t.cols[i].typ != ct;
                            t.cols[i].typ = ct;
                            for (j, r) in t.rows.iter_mut().enumerate() {
                                if (all || pattern >> j & 1 == 1) && r[i] != Value::Null {
                                    r[i] = v.clone();
                                }
                            }
                            c.note(format!("{v:?} in {place:?}.{name:?}"));
                        }
                    }
                }
            }
        }
        let all = load_all(&lock(&s.db), spec);
        let (good, bad): (Vec<_>, Vec<_>) = all.iter().cloned().partition(|n| spec.valid(n));
        let params: Option<&[Value]> = if c.rng.coin() { Some(&[]) } else { None };
        let how = c.rng.below(2);
        let a = must(fetch::<E>(&mut s.conn, &sql, params, how, all.len()).await, "query refused", &sql)?;
        ensure!(a.columns.len() == picks.len(), "wrong columns", "{sql}: {} columns announced for {}", a.columns.len(), picks.len());
        for e in a.rows.iter().filter_map(|r| r.as_ref().err()) {
            ensure!(matches!(kind(e), Kind::Data), "wrong error", "{}: {}", brief(&sql), brief(e));
        }
        let refused = a.rows.iter().filter(|r| r.is_err()).count();
        if let Some(d) = dropped {
            ensure!(refused > 0 || all.is_empty(), "missing column hidden", "{d} is not selected, but {} was read", brief(&a.rows));
            ensure!(a.rows.iter().all(|r| r.is_err()), "missing column hidden", "{d} is not selected, but {} was read", brief(&a.rows));
            c.count("queries without a column", !all.is_empty() as u64);
        } else if bad.is_empty() {
            compare(c, &sql, &a.rows, &good)?;
            c.count("written queries", 1);
        } else {
            ensure!(refused > 0, "bad value hidden", "{} rows hold {} but no error was reported", bad.len(), brief(&bad[0]));
            let mut left = bag(&good);
            for n in a.rows.iter().filter_map(|r| r.as_ref().ok()) {
                let p = print(n);
                match left.iter().position(|x| *x == p) {
                    Some(i) => drop(left.swap_remove(i)),
                    None => return violation("wrong rows", format!("{}: read {}", brief(&sql), brief(p))),
                }
            }
            c.count("unfit values refused", refused as u64);
        }
        usable(&mut s.conn).await?;
        frames_ok(&s.link)
    })
}

type F = fn(&mut Case) -> CaseResult;

pub fn main() {
    let g: &'static [F] = every_entity!(generated, F);
    let w: &'static [F] = every_entity!(written, F);
    Check::new(
        "C26",
        "the models read through the real client from a small SQL engine that runs the generated (or a hand-written) query are compared with the harness's own join over the same tables",
    )
    .assume("42 derived models stand for all shapes (tools/gen_models.py); table names without backquotes")
    .scale(3)
        .group("generated", 24_000, 400_000, move |c| g[c.idx as usize % g.len()](c))
    .group("written", 36_000, 600_000, move |c| w[c.idx as usize % w.len()](c))
    .require("generated queries run", 20_000)
    .require("models compared", 50_000)
    .require("written queries", 10_000)
    .require("queries without a column", 4_000)
    .require("unfit values refused", 8_000)
    .require("foreign columns", 50_000)
    .main()
}
