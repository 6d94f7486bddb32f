//! the same rules without a clock: real threads, streams that are always ready
use crate::plan::{bad_text, body, cancel, exec};
use crate::run::{split, submit};
use crate::socket::{handshake, router, Cutter};
use crate::services::{app, SharedLog, FLOOD};
use futures::stream::{BoxStream, SplitSink};
use futures::{SinkExt, StreamExt};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::time::Duration;
use std::net::SocketAddr;
use tokio::net::TcpStream;
use tokio::time::{timeout, Instant};
use tokio_tungstenite::tungstenite::Message;
use tokio_tungstenite::WebSocketStream;
use zod::rpc::servers::proxy::{BackendProxy, ProxyTx};

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Case {
    pub workers: usize,
    /// over WebSockets on the loopback interface, cut into frames like that
    #[serde(default)]
    pub sockets: Option<u64>,
    pub conns: Vec<Vec<Op>>,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Op {
    Mark,
    Slow,
    Burst(u64),
    /// always ready and endless: cancelled after some items
    Flood(u64),
    Bad(String),
    Yield,
    /// gives its place to a new connection, and maybe waits for its answers before
    Leave(bool),
}

const PATIENCE: Duration = Duration::from_secs(20);

pub fn case(floods: bool, sockets: bool) -> BoxedStrategy<Case> {
    let op = prop_oneof![
        6 => Just(Op::Mark),
        1 => Just(Op::Slow),
        3 => (0u64..60).prop_map(Op::Burst),
        (if floods { 4 } else { 0 }) => (0u64..40).prop_map(Op::Flood),
        1 => bad_text().prop_map(Op::Bad),
        2 => Just(Op::Yield),
        1 => any::<bool>().prop_map(Op::Leave),
    ];
    let sockets = if sockets { (1..u64::MAX).prop_map(Some).boxed() } else { Just(None).boxed() };
    (0usize..5, sockets, vec(vec(op, 1..14), 1..5))
        .prop_map(|(workers, sockets, conns)| Case { workers, sockets, conns })
        .boxed()
}

pub fn check(c: &Case) -> Result<(usize, usize), String> {
    let rt = match c.workers {
        0 => tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap(),
        n => tokio::runtime::Builder::new_multi_thread().worker_threads(n).enable_all().build().unwrap(),
    };
    let r = rt.block_on(run(c));
    rt.shutdown_background();
    r
}

#[derive(Clone)]
enum Server {
    Direct(BackendProxy),
    Sockets(SocketAddr, u64),
}

enum Tx {
    Direct(ProxyTx),
    Socket(SplitSink<WebSocketStream<TcpStream>, Message>, Cutter),
}

type Rx = BoxStream<'static, Value>;

impl Server {
    async fn connect(&self) -> Result<(Tx, Rx), String> {
        match self {
            Server::Direct(p) => {
                let (tx, rx) = p.connect().split();
                Ok((Tx::Direct(tx), rx.map(|r| serde_json::to_value(&r).unwrap()).boxed()))
            }
            Server::Sockets(addr, seed) => {
                let s = timeout(PATIENCE, TcpStream::connect(addr)).await;
                let s = s.map_err(|e| e.to_string())?.map_err(|e| e.to_string())?;
                let (tx, rx) = handshake(s).await?.split();
                let rx = rx.take_while(|m| std::future::ready(m.is_ok())).filter_map(|m| async move {
                    match m.unwrap() {
                        Message::Text(t) => Some(serde_json::from_str(&t).unwrap_or_else(|_| json!(t))),
                        Message::Ping(_) | Message::Pong(_) | Message::Close(_) => None,
                        m => Some(json!(format!("{m:?}"))),
                    }
                });
                Ok((Tx::Socket(tx, Cutter::new(*seed)), rx.boxed()))
            }
        }
    }
}

impl Tx {
    async fn submit(&mut self, text: &str) -> Result<(), String> {
        match self {
            Tx::Direct(tx) => match submit(tx, text) {
                true => Ok(()),
                false => Err("the backend does not take requests any more".into()),
            },
            Tx::Socket(tx, cutter) => {
                for m in cutter.frames(text) {
                    match timeout(PATIENCE, tx.send(m)).await {
                        Ok(Ok(())) => {}
                        Ok(Err(e)) => return Err(format!("the socket does not take a message: {e}")),
                        Err(_) => return Err(format!("the socket takes no message for {PATIENCE:?}")),
                    }
                }
                Ok(())
            }
        }
    }
}

/// the next response, which has to come
async fn next(rx: &mut Rx, what: &str) -> Result<Value, String> {
    // a reader that is always ready is a bad neighbour, too: what it wakes waits on its own thread
    tokio::task::yield_now().await;
    match timeout(PATIENCE, rx.next()).await {
        Ok(Some(r)) => Ok(r),
        Ok(None) => Err(format!("the connection ended instead of {what}")),
        Err(_) => Err(format!("{what} did not come within {PATIENCE:?}")),
    }
}

#[derive(Default)]
struct Story {
    /// mark -> answer, and must it have arrived?
    marks: Vec<(u32, Option<u64>, bool)>,
}

async fn session(server: Server, log: SharedLog, n: usize, ops: Vec<Op>) -> Result<Story, String> {
    let mut story = Story::default();
    let mut tag = n as u32 * 10_000;
    let mut rest = ops.as_slice();
    while !rest.is_empty() {
        let len = rest.iter().position(|o| matches!(o, Op::Leave(_))).map_or(rest.len(), |i| i + 1);
        let (now, later) = rest.split_at(len);
        rest = later;
        visit(&server, &log, now, &mut tag, &mut story).await?;
    }
    Ok(story)
}

async fn visit(server: &Server, log: &SharedLog, ops: &[Op], tag: &mut u32, story: &mut Story) -> Result<(), String> {
    let (mut tx, mut rx) = server.connect().await?;
    let first = story.marks.len();
    let mut id = 0u64;
    // answers that are still to come
    let mut marks: BTreeMap<u64, usize> = BTreeMap::new();
    let mut order: Vec<u64> = vec![];
    let mut answered: Vec<u64> = vec![];
    let mut bursts: BTreeMap<u64, (u32, u64, u64)> = BTreeMap::new();
    let mut floods: BTreeMap<u64, (u32, u64)> = BTreeMap::new();
    let mut errors = 0usize;
    let mut slow: Vec<u64> = vec![];
    macro_rules! take {
        ($v:expr) => {{
            let v: Value = $v;
            let Some((kind, id, data)) = split(&v) else { return Err(format!("this is no response: {v}")) };
            match (kind.as_str(), id) {
                ("error", None) if errors > 0 => errors -= 1,
                ("method", Some(id)) if slow.contains(&id) => {
                    slow.retain(|x| *x != id);
                    answered.push(id);
                }
                ("method", Some(id)) if marks.contains_key(&id) => {
                    let at = marks.remove(&id).unwrap();
                    story.marks[at].1 = data.as_u64();
                    answered.push(id);
                }
                ("stream", Some(id)) if bursts.contains_key(&id) => {
                    let b = bursts.get_mut(&id).unwrap();
                    if data != json!([b.0, b.1]) || b.1 >= b.2 {
                        return Err(format!("stream {} of {} items: {data} after {} items", b.0, b.2, b.1));
                    }
                    b.1 += 1;
                }
                ("stream", Some(id)) if floods.contains_key(&id) => {
                    let f = floods.get_mut(&id).unwrap();
                    if data != json!([f.0, f.1]) {
                        return Err(format!("endless stream {}: {data} after {} items", f.0, f.1));
                    }
                    f.1 += 1;
                }
                _ => return Err(format!("not expected: {v}")),
            }
        }};
    }
    let mut wait = true;
    for op in ops {
        match op {
            Op::Mark => {
                *tag += 1;
                marks.insert(id, story.marks.len());
                order.push(id);
                story.marks.push((*tag, None, true));
                tx.submit(&exec(id, &body("Other", "mark", json!([*tag])), *tag as u8)).await?;
                id += 1;
            }
            Op::Slow => {
                slow.push(id);
                order.push(id);
                tx.submit(&exec(id, &body("Tally", "slow", json!([1, 1])), 0)).await?;
                id += 1;
            }
            Op::Burst(n) => {
                *tag += 1;
                bursts.insert(id, (*tag, 0, *n));
                let gaps = vec![0u64; *n as usize];
                tx.submit(&exec(id, &body("Feed", "script", json!([*tag, gaps, true, u64::MAX, 0])), 3)).await?;
                id += 1;
            }
            Op::Flood(n) => {
                *tag += 1;
                let (me, t) = (id, *tag);
                id += 1;
                floods.insert(me, (t, 0));
                tx.submit(&exec(me, &body("Feed", "flood", json!([t])), 2)).await?;
                while floods[&me].1 < *n {
                    take!(next(&mut rx, "an item of an endless stream").await?);
                }
                tx.submit(&cancel(me)).await?;
                // it has to stop
                let t0 = Instant::now();
                loop {
                    if matches!(tx, Tx::Direct(_)) && log.lock().unwrap().overrun.contains(&t) {
                        return Err(format!(
                            "cancel: an always ready stream emitted {FLOOD} items without being stopped"));
                    }
                    if log.lock().unwrap().dropped.iter().any(|d| d.0 == t) {
                        break;
                    }
                    if t0.elapsed() > PATIENCE {
                        return Err(format!(
                            "cancel: an always ready stream still runs {PATIENCE:?} after it was cancelled, \
                             at item {}", floods[&me].1));
                    }
                    tokio::task::yield_now().await;
                    match timeout(Duration::from_millis(1), rx.next()).await {
                        Ok(Some(r)) => take!(r),
                        Ok(None) => return Err("the connection ended".into()),
                        Err(_) => {}
                    }
                }
            }
            Op::Bad(t) => {
                errors += 1;
                tx.submit(t).await?;
            }
            Op::Yield => tokio::task::yield_now().await,
            Op::Leave(w) => wait = *w,
        }
    }
    if !wait {
        if let Tx::Socket(..) = tx {
            // what was on its way may be lost
            for m in &mut story.marks[first..] {
                m.2 = m.1.is_some();
            }
        }
        return Ok(()); // in the middle of everything
    }
    while !marks.is_empty() || errors > 0 || !slow.is_empty() || bursts.values().any(|b| b.1 < b.2) {
        take!(next(&mut rx, "a response").await?);
    }
    // nothing else may come
    for _ in 0..3 {
        tokio::task::yield_now().await;
        while let Ok(Some(r)) = timeout(Duration::from_micros(200), rx.next()).await {
            take!(r);
            tokio::task::yield_now().await;
        }
    }
    if answered != order {
        return Err(format!("calls {order:?} were answered in the order {answered:?}"));
    }
    Ok(())
}

async fn run(c: &Case) -> Result<(usize, usize), String> {
    let (app, log) = app();
    let proxy = BackendProxy::new(app);
    let (server, listener) = match c.sockets {
        None => (Server::Direct(proxy.clone()), None),
        Some(seed) => {
            let s = axum::Server::bind(&([127, 0, 0, 1], 0).into()).serve(router(proxy.clone()).into_make_service());
            (Server::Sockets(s.local_addr(), seed), Some(tokio::spawn(s)))
        }
    };
    let tasks: Vec<_> = c
        .conns
        .iter()
        .enumerate()
        .map(|(n, ops)| tokio::spawn(session(server.clone(), log.clone(), n, ops.clone())))
        .collect();
    let mut stories = vec![];
    for t in tasks {
        stories.push(t.await.map_err(|e| e.to_string())??);
    }
    let total: usize = stories.iter().map(|s| s.marks.iter().filter(|m| m.2).count()).sum();
    let t0 = Instant::now();
    while log.lock().unwrap().marks.len() < total && t0.elapsed() < PATIENCE {
        tokio::time::sleep(Duration::from_millis(1)).await;
    }
    let marks = log.lock().unwrap().marks.clone();
    for s in &stories {
        let mut last = None;
        for (tag, answer, must) in &s.marks {
            let at: Vec<usize> = (0..marks.len()).filter(|i| marks[*i] == *tag).collect();
            // nor does it come before what its client sent over another socket
            if !must && (at.is_empty() || answer.is_none()) {
                continue;
            }
            if at.len() != 1 {
                return Err(format!("call {tag} took effect {} times", at.len()));
            }
            if answer.is_some_and(|a| a != at[0] as u64) {
                return Err(format!("call {tag} was number {} but was told {answer:?}", at[0]));
            }
            if last > Some(at[0]) {
                return Err(format!("call {tag} overtook one of the same connection"));
            }
            last = Some(at[0]);
        }
    }
    // the backend goes away, and every stream with it
    if let Some(l) = listener {
        l.abort();
    }
    drop((proxy, server));
    let t0 = Instant::now();
    loop {
        let l = log.lock().unwrap();
        if l.opened.len() == l.dropped.len() {
            return Ok((total, l.opened.len()));
        }
        if t0.elapsed() > PATIENCE {
            return Err(format!("{} streams live longer than the backend", l.opened.len() - l.dropped.len()));
        }
        drop(l);
        tokio::time::sleep(Duration::from_millis(1)).await;
    }
}
