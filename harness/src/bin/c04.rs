//! C04: every command gets its own response, whatever was left unread before.
use vharness::{kit::*, script::*, *};

fn session(c: &mut Case, sh: Shape, max_steps: u64, plan: IoPlan, dep: bool) -> CaseResult {
    let n = c.rng.range(2, max_steps);
    let steps: Vec<Step> = (1..=n).map(|t| step(&mut c.rng, &sh, t)).collect();
    let scr = Scripted::new(&steps);
    let seen = scr.seen.clone();
    let mut srv = Server::new(scr);
    if !dep {
        srv.greeting.caps &= !caps::DEPRECATE_EOF;
    }
    let (link, session) = srv.link(plan);
    c.note(format!("deprecate eof {dep}"));
    drive("session", async {
        let mut conn = must_connect(&link).await?;
        for st in &steps {
            c.note(format!("{} {}", st.tag, brief(&st.call)));
            c.note(format!("    replies {}", brief(&st.replies)));
            let mut got = Vec::new();
            perform(&mut conn, st, &mut got).await;
            for e in &got {
                c.count(
                    match e {
                        Ev::Err(Kind::Server { .. }) => "server errors",
                        Ev::Err(_) => "local errors",
                        Ev::Row(_) => "rows by next",
                        Ev::Rows(_) => "collects",
                        Ev::Summary(_) => "summaries",
                        _ => "other",
                    },
                    1,
                );
            }
            if !matches!(st.call, Call::Cleanup) {
                let want = expect(st, dep);
                if let Err(e) = compare(&want, &got) {
                    return violation("wrong response", format!("step {} ({}): {e}", st.tag, brief(&st.call)));
                }
            }
            c.count("steps", 1);
        }
        must(conn.disconnect().await, "disconnect", "disconnect after a clean history")?;
        Ok(())
    })?;
    frames_ok(&link)?;
    let s = lock(&session);
    ensure!(s.protocol_errors.is_empty(), "protocol", "{:?}", s.protocol_errors);
    ensure!(s.quits == 1, "quit", "{} quit commands", s.quits);
    let mut want: Vec<String> = Vec::new();
    for st in &steps {
        match &st.call {
            Call::Cleanup => {}
            Call::Prepared { prep_err, execs, .. } => {
                want.push(format!("prepare {}", st.tag));
                if prep_err.is_none() {
                    want.extend(execs.iter().map(|_| format!("execute {}", st.tag)));
                }
            }
            _ => want.push(format!("query {}", st.tag)),
        }
    }
    want.push("quit".into());
    ensure!(*lock(&seen) == want, "commands", "server saw {:?}, expected {want:?}", *lock(&seen));
    let shape: Vec<String> = steps.iter().map(|s| format!("{:?}", s.call)).collect();
    c.feed(&shape);
    c.sample(format!("{} steps: {}", steps.len(), brief(shape)));
    let g = link.lock();
    c.count("commands sent before the previous response was drained", g.written_before_drained);
    Ok(())
}

fn histories(c: &mut Case) -> CaseResult {
    let dep = c.rng.chance(2, 3);
    let plan = if c.rng.coin() { IoPlan::default() } else { IoPlan::random(&mut c.rng) };
    session(c, Shape { max_bytes: 300, ..Default::default() }, 14, plan, dep)
}

/// Mostly results left unread, and everything that can go wrong.
fn leftovers(c: &mut Case) -> CaseResult {
    let dep = c.rng.coin();
    let sh = Shape {
        max_bytes: 20,
        max_rows: 5,
        max_cols: 3,
        bad_rows: 150,
        row_err: 250,
        def_err: 100,
        bad_defs: 100,
        errs: 200,
        multi: 400,
        misuse: 500,
        partial: true,
    };
    session(c, sh, 10, IoPlan::default(), dep)
}

/// Many rows unread; big rows unread.
fn big_leftovers(c: &mut Case) -> CaseResult {
    let dep = c.rng.coin();
    let many = c.rng.coin();
    let sh = Shape {
        max_bytes: if many { 5 } else { 70_000 },
        max_rows: if many { 700 } else { 12 },
        max_cols: 4,
        bad_rows: 2,
        row_err: 50,
        ..Default::default()
    };
    let plan = IoPlan { rchunk: *c.rng.pick(&[Chunk::All, Chunk::Upto(3000)]), seed: c.rng.u64(), ..Default::default() };
    session(c, sh, 5, plan, dep)
}

pub fn main() {
    Check::new("C04", "one case = one scripted session; distinct by the sequence of calls and ways of consuming")
        .assume("the server answers each command by its tag, in protocol order")
        .scale(8)
        .group("histories", 9000, 300_000, histories)
        .group("leftovers", 12_000, 400_000, leftovers)
        .group("big_leftovers", 400, 8_000, big_leftovers)
        .require("steps", 10_000)
        .require("server errors", 500)
        .require("local errors", 500)
        .main()
}
