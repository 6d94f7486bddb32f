//! runs a history against the backend on a paused clock and compares it with the model
use crate::plan::*;
use crate::services::{app, SharedLog};
use futures::{FutureExt, StreamExt};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::time::{sleep, sleep_until, Instant};
use zod::rpc::servers::proxy::{BackendProxy, ProxyRx, ProxyTx};
use zod::rpc::{Request, Response};

type Heard = Arc<Mutex<Vec<(u64, Value)>>>;

struct Conn {
    tx: Option<ProxyTx>,
    reader: Option<tokio::task::JoinHandle<()>>,
    lazy: Option<ProxyRx>,
    heard: Heard,
}

/// what a server does with a text frame
pub fn submit(tx: &ProxyTx, text: &str) -> bool {
    let req = serde_json::from_str::<Request>(text)
        .map_err(|err| Response::Error { id: None, data: err.into() });
    tx.send(req).is_ok()
}

fn connect(proxy: &BackendProxy, lazy: bool, t0: Instant) -> Conn {
    let (tx, mut rx) = proxy.connect().split();
    let heard = Heard::default();
    let mut c = Conn { tx: Some(tx), reader: None, lazy: None, heard: heard.clone() };
    if lazy {
        c.lazy = Some(rx);
    } else {
        c.reader = Some(tokio::spawn(async move {
            while let Some(r) = rx.next().await {
                let at = t0.elapsed().as_millis() as u64;
                heard.lock().unwrap().push((at, serde_json::to_value(&r).unwrap()));
            }
        }));
    }
    c
}

pub struct Observed {
    /// per connection: when and what
    pub heard: Vec<Vec<(u64, Value)>>,
    pub finals: Vec<Value>,
    pub send_failed: bool,
    pub log: SharedLog,
    pub dropped: BTreeMap<u32, u64>,
    pub teardown: u64,
    pub open_ends: usize,
    pub socket_errors: Vec<String>,
}

pub fn final_calls() -> Vec<Call> {
    vec![
        Call::Get,
        Call::Push("end".into(), vec![], None),
        Call::OtherGet,
        Call::Mark(0),
        Call::FeedGet,
    ]
}

pub fn run(plan: &Plan) -> Observed {
    let rt = tokio::runtime::Builder::new_current_thread()
        .enable_all()
        .start_paused(true)
        .build()
        .unwrap();
    rt.block_on(run_async(plan))
}

async fn run_async(plan: &Plan) -> Observed {
    let t0 = Instant::now();
    let (app, log) = app();
    let proxy = BackendProxy::new(app);
    let mut conns: Vec<Conn> = vec![];
    let mut send_failed = false;
    for (at, a) in &plan.actions {
        if t0 + Duration::from_millis(*at) > Instant::now() {
            sleep_until(t0 + Duration::from_millis(*at)).await;
        }
        match a {
            Action::Connect(c) => {
                assert_eq!(*c, conns.len());
                conns.push(connect(&proxy, plan.lazy[*c], t0));
            }
            Action::Send(c, text) => {
                send_failed |= !submit(conns[*c].tx.as_ref().unwrap(), text);
            }
            Action::Leave(..) | Action::Noise(..) => unreachable!("sockets only"),
            Action::DropTx(c) => conns[*c].tx = None,
            Action::DropRx(c) => {
                conns[*c].lazy = None;
                if let Some(r) = conns[*c].reader.take() {
                    r.abort();
                }
            }
        }
    }
    sleep_until(t0 + Duration::from_millis(plan.end)).await;
    // somebody else comes and looks at the state
    let mut finals = vec![];
    let probe = connect(&proxy, false, t0);
    for (i, c) in final_calls().iter().enumerate() {
        send_failed |= !submit(probe.tx.as_ref().unwrap(), &exec(i as u64, &c.body(), 0));
    }
    sleep(Duration::from_millis(20)).await;
    finals.extend(probe.heard.lock().unwrap().iter().map(|(_, v)| v.clone()));
    // the backend goes away with its last client
    let teardown = t0.elapsed().as_millis() as u64;
    for c in &mut conns {
        c.tx = None;
    }
    drop(probe);
    drop(proxy);
    sleep(Duration::from_millis(300)).await;
    let mut open_ends = 0;
    for c in &mut conns {
        if let Some(mut rx) = c.lazy.take() {
            loop {
                match rx.next().now_or_never() {
                    Some(Some(r)) => c.heard.lock().unwrap().push((0, serde_json::to_value(&r).unwrap())),
                    Some(None) => break,
                    None => {
                        open_ends += 1;
                        break;
                    }
                }
            }
        }
        if let Some(r) = &c.reader {
            open_ends += !r.is_finished() as usize;
        }
    }
    let mut dropped = BTreeMap::new();
    for (tag, at) in &log.lock().unwrap().dropped {
        dropped.insert(*tag, (*at - t0).as_millis() as u64);
    }
    Observed {
        heard: conns.iter().map(|c| c.heard.lock().unwrap().clone()).collect(),
        finals,
        send_failed,
        log,
        dropped,
        teardown,
        open_ends,
        socket_errors: vec![],
    }
}

/// kind, id and payload of a response
pub fn split(v: &Value) -> Option<(String, Option<u64>, Value)> {
    let o = v.as_object()?;
    if o.len() != 1 {
        return None;
    }
    let (k, v) = o.iter().next()?;
    let inner = v.as_object()?;
    if inner.len() != 2 || !inner.contains_key("data") {
        return None;
    }
    let id = match inner.get("id")? {
        Value::Null if k == "error" => None,
        x => Some(x.as_u64()?),
    };
    Some((k.clone(), id, inner["data"].clone()))
}

fn matches(e: &Expect, kind: &str, data: &Value) -> bool {
    e.kind == kind && e.data.as_ref().map_or(true, |d| d == data)
}

/// compares what one connection heard with what the model expects; timing unless it is None
pub fn judge_connection(
    expects: &[Expect],
    heard: &[(u64, Value)],
    timed: bool,
    name: &str,
    bad: &mut Vec<(&'static str, String)>,
) {
    let mut groups: BTreeMap<(Option<u64>, Option<u32>), Vec<&Expect>> = BTreeMap::new();
    let mut by_id: BTreeMap<u64, Vec<u32>> = BTreeMap::new();
    for e in expects {
        groups.entry((e.id, e.stream)).or_default().push(e);
        if let (Some(id), Some(s)) = (e.id, e.stream) {
            by_id.entry(id).or_default().push(s);
        }
    }
    let mut got: BTreeMap<(Option<u64>, Option<u32>), Vec<(u64, String, Value)>> = BTreeMap::new();
    let mut call_order = vec![];
    for (at, v) in heard {
        let Some((kind, id, data)) = split(v) else {
            bad.push(("shape", format!("{name}: this is no response: {v}")));
            continue;
        };
        // items name their stream; one that can not be sent is told apart by its id
        let stream = match kind.as_str() {
            "stream" => data[0].as_u64().map(|t| t as u32).or_else(|| id.and_then(|id| by_id.get(&id)).map(|s| s[0])),
            "method" => None,
            _ => id.and_then(|id| by_id.get(&id)).map(|s| s[0]),
        };
        if stream.is_none() && id.is_some() {
            call_order.push(id.unwrap());
        }
        got.entry((id, stream)).or_default().push((*at, kind, data));
    }
    let want_order: Vec<u64> =
        expects.iter().filter(|e| e.stream.is_none()).filter_map(|e| e.id).collect();
    let keys: std::collections::BTreeSet<_> = groups.keys().chain(got.keys()).copied().collect();
    let mut calls_fine = true;
    for key in keys {
        let empty = vec![];
        let want = groups.get(&key).unwrap_or(&empty);
        let none = vec![];
        let have = got.get(&key).unwrap_or(&none);
        let class: &'static str = match key {
            (_, Some(_)) => "stream",
            (None, None) => "error",
            _ => match want.first().map(|e| (e.kind, &e.data)) {
                Some(("error", _)) => "error",
                _ => "call",
            },
        };
        let label = match key {
            (None, _) => format!("{name}, without id"),
            (Some(id), None) => format!("{name}, id {id}"),
            (Some(id), Some(t)) => format!("{name}, id {id}, stream {t}"),
        };
        let mut i = 0;
        let mut wrong = None;
        for (at, kind, data) in have {
            while i < want.len() && want[i].optional && !matches(want[i], kind, data) {
                i += 1;
            }
            if i >= want.len() {
                wrong = Some(format!("{label}: not expected (any more): {kind} {data} at {at}"));
                break;
            }
            if !matches(want[i], kind, data) {
                wrong = Some(format!(
                    "{label}: {kind} {data} at {at} instead of {} {} at {}",
                    want[i].kind, show(&want[i].data), want[i].at
                ));
                break;
            }
            if timed && at.abs_diff(want[i].at) > 2 {
                wrong = Some(format!("{label}: {kind} {data} came at {at} instead of {}", want[i].at));
                break;
            }
            i += 1;
        }
        if wrong.is_none() {
            if let Some(e) = want[i.min(want.len())..].iter().find(|e| !e.optional) {
                wrong = Some(format!("{label}: {} {} at {} never came", e.kind, show(&e.data), e.at));
            }
        }
        if let Some(w) = wrong {
            calls_fine &= key.1.is_some();
            bad.push((class, w));
        }
    }
    if calls_fine {
        // some may have been lost on the way to a client that is gone
        let mut rest = want_order.iter();
        if !call_order.iter().all(|id| rest.any(|x| x == id)) {
            let firsts: Vec<u64> = want_order.iter().filter(|i| call_order.contains(i)).copied().collect();
            bad.push(("call", format!("{name}: answers in the order {call_order:?} instead of {firsts:?}")));
        }
    }
}

fn show(v: &Option<Value>) -> String {
    v.as_ref().map_or("(any)".into(), |v| v.to_string())
}

/// classes of what went wrong: shape, call, stream, error, cancel, gone, teardown, state, server, socket
pub fn judge(plan: &Plan, o: &Observed) -> Vec<(&'static str, String)> {
    let mut bad = vec![];
    for (c, expects) in plan.expects.iter().enumerate() {
        let heard: Vec<_> = o.heard[c]
            .iter()
            .filter(|(at, v)| plan.lazy[c] || *at <= plan.end || v.get("stream").is_none())
            .cloned()
            .collect();
        if plan.lazy[c] {
            // also what came between the end of the history and that of the backend
            let mut more: Vec<_> = expects.clone();
            for s in plan.streams.iter().filter(|s| s.conn == c && plan.deaf[c].is_none()) {
                let last = more.iter().rposition(|e| e.stream == Some(s.tag));
                let later = s.later(plan.end, o.teardown);
                let at = last.map_or(more.len(), |x| x + 1);
                for (i, e) in later.into_iter().enumerate() {
                    more.insert(at + i, e);
                }
            }
            judge_connection(&more, &heard, false, &format!("connection {c}"), &mut bad);
        } else {
            judge_connection(expects, &heard, true, &format!("connection {c}"), &mut bad);
        }
        for (at, v) in &o.heard[c] {
            if !plan.lazy[c] && *at > o.teardown + 2 {
                bad.push(("teardown", format!("connection {c}: {v} came after the backend was gone")));
                break;
            }
        }
    }
    for s in &plan.streams {
        match (o.dropped.get(&s.tag), s.cut, s.ended) {
            (None, _, _) => bad.push(("teardown", format!("stream {} was never dropped", s.tag))),
            (Some(at), cut, ended) => {
                let latest = match (cut, ended) {
                    (Some(c), _) if ended.map_or(true, |e| e > c) => Some(c),
                    (_, Some(e)) => Some(e),
                    _ => None,
                };
                if let Some(l) = latest {
                    if *at > l + 2 {
                        bad.push((
                            if cut.is_some() { "cancel" } else { "stream" },
                            format!("stream {} (cancelled {cut:?}, ended {ended:?}) was dropped at {at}", s.tag),
                        ));
                    }
                } else if *at > o.teardown + 2 {
                    bad.push(("teardown", format!("stream {} lived longer than the backend", s.tag)));
                }
                let deaf = plan.deaf[s.conn];
                // nobody listens: it may stay until its next item, not longer
                // (a socket that is closed, but neither read nor dropped, is not gone)
                let gone = deaf.filter(|_| !(plan.sockets && plan.lazy[s.conn]));
                if let (Some(d), None) = (gone, s.replaced) {
                    if s.next_item(d + 2).is_some_and(|t| t + 2 < *at && t + 2 < o.teardown) {
                        bad.push(("gone", format!(
                            "stream {} of a connection that ended at {d} was dropped at {at}", s.tag)));
                    }
                }
                if deaf.is_none() && s.replaced.is_none() && latest.map_or(*at + 2 < o.teardown, |l| *at + 2 < l) {
                    bad.push(("stream", format!(
                        "stream {} (cancelled {cut:?}, ended {ended:?}) was dropped too early, at {at}", s.tag)));
                }
            }
        }
    }
    let opened = o.log.lock().unwrap().opened.clone();
    let want: Vec<u32> = plan.streams.iter().map(|s| s.tag).collect();
    if opened != want {
        bad.push(("stream", format!("streams {want:?} should have been opened, {opened:?} were")));
    }
    if o.open_ends > 0 {
        bad.push(("teardown", format!("{} connections were still open after the backend was gone", o.open_ends)));
    }
    let mut state = plan.state.clone();
    let finals: Vec<Value> = final_calls()
        .iter()
        .enumerate()
        .map(|(i, c)| json!({ "method": { "id": i, "data": state.apply(c).0 } }))
        .collect();
    for w in &o.socket_errors {
        bad.push(("socket", w.clone()));
    }
    if o.send_failed {
        bad.push(("server", "the backend does not take requests any more".into()));
    }
    if finals != o.finals {
        bad.push(("state", format!("at the end the state is {} instead of {}", json!(o.finals), json!(finals))));
    }
    bad
}

/// which classes speak about a property
pub fn relevant(prop: &str, class: &str) -> bool {
    match prop {
        "C10" => ["call", "state", "server", "shape"].contains(&class),
        "C11" => ["stream", "server", "shape"].contains(&class),
        "C12" => ["stream", "call", "cancel", "gone", "teardown", "server", "shape"].contains(&class),
        "C13" | "C14" => true,
        _ => false,
    }
}

pub fn check(prop: &str, h: &History) -> Result<Plan, String> {
    let plan = Plan::new(h, prop == "C14");
    let o = if prop == "C14" { crate::socket::run(&plan, h.frag) } else { run(&plan) };
    let bad: Vec<String> =
        judge(&plan, &o).into_iter().filter(|(c, _)| relevant(prop, c)).map(|(c, w)| format!("[{c}] {w}")).collect();
    if bad.is_empty() {
        return Ok(plan);
    }
    Err(bad[..bad.len().min(4)].join("\n"))
}
