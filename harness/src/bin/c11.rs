//! C11: statement summaries carry the server's numbers exactly.
use {
    mysql_connector::{
        macros::*,
        model::{ActiveModel, ActiveValue, Model},
        types::Value,
        Error,
    },
    std::sync::{Arc, Mutex},
    vharness::{gen, kit::*, *},
};

#[allow(dead_code)]
#[derive(Debug, ModelData, FromQueryResult, ActiveModel, IntoQuery, Model)]
#[mysql_connector(table = "thing", primary = "id", auto_increment = "true")]
struct Thing {
    id: u64,
    name: String,
}

/// Bits the protocol defines, but "more results" (another packet would follow).
const STATUS: u16 = 0x7FF3;

fn ok(rng: &mut Rng, idx: u64) -> OkSpec {
    let mut o = gen::ok(rng);
    o.status = rng.u64() as u16 & STATUS;
    match rng.below(6) {
        0 => o.status = 1 << rng.below(15) & STATUS,
        1 => o.status = 2,
        2 => o.status = 0,
        // bits without a meaning yet
        3 => o.status |= *rng.pick(&[4u16, 0x8000, 0x8004]),
        _ => {}
    }
    // edges of the length encoding, in turn
    const EDGES: &[u64] = &[
        0, 1, 250, 251, 252, 253, 254, 255, 256, 65_535, 65_536, 65_537, 16_777_215, 16_777_216, 16_777_217, 0x7FFF_FFFF, 0x8000_0000,
        0xFFFF_FFFF, 0x1_0000_0000, i64::MAX as u64, i64::MAX as u64 + 1, u64::MAX - 1, u64::MAX,
    ];
    if rng.coin() {
        o.affected = EDGES[idx as usize % EDGES.len()];
    }
    if rng.coin() {
        o.last_id = EDGES[idx as usize / EDGES.len() % EDGES.len()];
    }
    if rng.chance(1, 4) {
        let n = *rng.pick(&[1usize, 249, 250, 251, 252, 255, 256, 1000, 65_535, 65_536, 70_000]);
        o.message = rng.ascii(n).into_bytes();
    } else if rng.chance(1, 4) {
        o.message = "Rows matched: 1  Changed: 0  Warnings: 0 é€😀".into();
    }
    o
}

#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum How {
    ExecuteQuery,
    Execute,
    Finish,
    NextFinish,
    FinishInner,
    PFinish,
    PCollectFinish,
    PFinishInner,
    Insert,
    Cleanup,
}

fn summaries(c: &mut Case) -> CaseResult {
    let dep = c.rng.coin();
    let n = c.rng.range(1, 8);
    let oks: Vec<OkSpec> = (0..n).map(|i| ok(&mut c.rng, c.idx * 8 + i)).collect();
    let queue: Arc<Mutex<Vec<OkSpec>>> = Arc::new(Mutex::new(oks.iter().rev().cloned().collect()));
    let q = queue.clone();
    let mut srv = Server::new(move |s: &mut Session, io: &mut PeerIo, cmd: Cmd| match &cmd {
        Cmd::Prepare(sql) => {
            let params = sql.iter().filter(|c| **c == b'?').count();
            s.prepared(io, sql, params, &[]);
        }
        Cmd::Query(sql) if sql == b"two" => {
            // a first statement, so that the summary in question is left to `cleanup`
            s.ok(io, &OkSpec { affected: 77, last_id: 78, status: 2 | wire::status::MORE_RESULTS, warnings: 79, message: b"first".to_vec() });
            if let Some(o) = lock(&q).pop() {
                s.ok(io, &o);
            }
        }
        Cmd::Query(_) | Cmd::Execute { .. } => {
            if let Some(o) = lock(&q).pop() {
                s.ok(io, &o);
            }
        }
        _ => {}
    });
    if !dep {
        srv.greeting.caps &= !caps::DEPRECATE_EOF;
    }
    let io = if c.rng.coin() { IoPlan::default() } else { IoPlan::random(&mut c.rng) };
    let (link, _) = srv.link(io);
    drive("summaries", async {
        let mut conn = must_connect(&link).await?;
        for want in &oks {
            let how = *c.rng.pick(&[
                How::ExecuteQuery,
                How::ExecuteQuery,
                How::Execute,
                How::Execute,
                How::Finish,
                How::NextFinish,
                How::FinishInner,
                How::PFinish,
                How::PCollectFinish,
                How::PFinishInner,
                How::Insert,
                How::Cleanup,
            ]);
            c.note(format!("{how:?} {}", brief(want)));
            c.feed(&(how, want.affected, want.last_id, want.status, want.warnings, want.message.len()));
            let err = |e: Error| Fail::Violation { sig: "error".into(), msg: format!("{how:?}: {}", brief(e)) };
            macro_rules! prepared {
                () => {
                    conn.prepare_statement("p").await.map_err(err)?
                };
            }
            let got = match how {
                How::ExecuteQuery => summary!(conn.execute_query("x").await.map_err(err)?),
                How::Execute => summary!(prepared!().execute::<Value>(&[]).await.map_err(err)?),
                How::Finish => summary!(conn.query::<Row>("x").await.map_err(err)?.finish().await.map_err(err)?),
                How::NextFinish => {
                    let mut rs = conn.query::<Row>("x").await.map_err(err)?;
                    ensure!(matches!(rs.next().await, Ok(None)), "rows", "rows from a statement without rows");
                    summary!(rs.finish().await.map_err(err)?)
                }
                How::FinishInner => summary!(conn.query::<Row>("x").await.map_err(err)?.finish_into_inner().await.map_err(err)?.0),
                How::PFinish => summary!(prepared!().query::<Value, Row>(&[]).await.map_err(err)?.finish().await.map_err(err)?),
                How::PCollectFinish => {
                    let mut ps = prepared!();
                    let mut rs = ps.query::<Value, Row>(&[]).await.map_err(err)?;
                    ensure!(matches!(rs.collect().await, Ok(l) if l.is_empty()), "rows", "rows from a statement without rows");
                    summary!(rs.finish().await.map_err(err)?)
                }
                How::PFinishInner => {
                    summary!(prepared!().query::<Value, Row>(&[]).await.map_err(err)?.finish_into_inner().await.map_err(err)?.0)
                }
                How::Insert => {
                    let mut m = Thing::active_model();
                    m.name = ActiveValue::Set("x".into());
                    let id = m.insert(&mut conn).await.map_err(err)?;
                    ensure!(id == want.last_id, "insert", "insert gave {id} instead of {}", want.last_id);
                    c.count("model inserts", 1);
                    continue;
                }
                How::Cleanup => {
                    let first = summary!(conn.execute_query("two").await.map_err(err)?);
                    ensure!(
                        (first.affected, first.last_id, first.warnings, &first.message[..]) == (77, 78, 79, b"first"),
                        "summary",
                        "the first of two results gave {}",
                        brief(first)
                    );
                    match conn.cleanup().await.map_err(err)? {
                        Some(o) => summary!(o),
                        None => return violation("summary", "cleanup skipped a result but gave no summary"),
                    }
                }
            };
            ensure!(got == Summary::of(want), "summary", "{how:?}: {} instead of {}", brief(&got), brief(want));
            c.count("summaries", 1);
            c.count(&format!("by {how:?}"), 1);
        }
        Ok(())
    })?;
    frames_ok(&link)
}

pub fn main() {
    Check::new("C11", "one case = up to eight statements without rows; distinct by call and numbers")
        .assume("status flags are compared on the bits the protocol defines")
        .scale(5)
        .group("summaries", 20_000, 1_000_000, summaries)
        .require("summaries", 50_000)
        .require("model inserts", 3000)
        .require("by Cleanup", 3000)
        .main()
}
