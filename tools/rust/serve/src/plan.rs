//! histories, what they mean on the wire, and the reference model
use crate::services::{Kind, Nested};
use proptest::collection::{btree_map, vec};
use proptest::option;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct History {
    /// first request id of every connection
    pub base: u64,
    /// connections that do not read before the end
    pub lazy: Vec<bool>,
    /// how messages are cut into frames (WebSockets only)
    #[serde(default)]
    pub frag: u64,
    pub ops: Vec<Op>,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Op {
    /// reuse: under the id of an earlier stream or call of the connection
    Call { c: usize, order: u8, m: Call, #[serde(default)] reuse: Option<usize> },
    Open { c: usize, order: u8, s: Open, reuse: Option<usize> },
    Cancel { c: usize, t: Target },
    Bad { c: usize, order: u8, b: Bad },
    Gone { c: usize, how: Gone },
    /// frames that carry no request (WebSockets only)
    Noise { c: usize, n: Noise },
    /// in steps of 10 ms
    Wait(u64),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Noise {
    Binary(Vec<u8>),
    /// would be a request if it were text
    BinaryCall(Call),
    Ping(Vec<u8>),
    Pong(Vec<u8>),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Call {
    Add(i64),
    Get,
    Push(String, Vec<u8>, Option<String>),
    Slow(u64, i64),
    Fail(String),
    Unrep(i64),
    Unit,
    Echo(Nested),
    Type((u8, bool), BTreeMap<String, i32>),
    OtherAdd(i64),
    OtherGet,
    Mark(u32),
    FeedGet,
    /// many parameters, of which the last may be null
    Many(Vec<u8>, Vec<Option<bool>>),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Open {
    /// form: what the items look like
    Script { first: u64, gaps: Vec<u64>, ends: bool, bad: Option<u64>, #[serde(default)] form: u8 },
    Ticker { first: u64, every: u64 },
    Snapshot,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Target {
    /// the n-th stream this connection opened
    Own(usize),
    /// the id of the n-th stream anybody opened
    Any(usize),
    /// the id of the n-th call of this connection
    Call(usize),
    Unknown(u64),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Bad {
    /// can not be decoded
    Text(String),
    /// can be decoded, but not be served
    Body(Map<String, Value>),
}

/// in brackets: what it means for a WebSocket
#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
pub enum Gone {
    /// neither sends nor reads any more (the transport just ends)
    Both,
    /// still sends, does not read any more (breaks the rules of the protocol)
    Rx,
    /// reads, but never sends again (sends a close frame)
    Tx,
}

pub const END_MARGIN: u64 = 60;

// ----------------------------------------------------------------------------------------------
// wire

pub fn body(ns: &str, method: &str, args: Value) -> Map<String, Value> {
    [("namespace".into(), json!(ns)), ("method".into(), json!(method)), ("args".into(), args)]
        .into_iter()
        .collect()
}

/// an exec envelope with its members in some order
pub fn exec(id: u64, body: &Map<String, Value>, order: u8) -> String {
    let mut rest: Vec<(String, Value)> = vec![("id".into(), json!(id))];
    rest.extend(body.clone());
    let mut n = order as usize;
    let mut out = vec![];
    while !rest.is_empty() {
        let (k, v) = rest.remove(n % rest.len());
        out.push(format!("{}:{}", json!(k), v));
        n /= 3;
        n += 1;
    }
    format!("{{\"exec\":{{{}}}}}", out.join(","))
}

/// the same request, written in another way
pub fn dress(text: String, style: u8) -> String {
    let (space, escape) = match style >> 5 {
        5 => (true, false),
        6 => (false, true),
        7 => (true, true),
        _ => return text,
    };
    let mut out = String::new();
    let (mut inside, mut after) = (false, false);
    for (i, c) in text.chars().enumerate() {
        if inside {
            match c {
                _ if after => after = false,
                '\\' => after = true,
                '"' => inside = false,
                // what follows a backslash stays
                'a'..='z' if escape && i % 3 == 0 => {
                    out += &format!("\\u{:04x}", c as u32);
                    continue;
                }
                _ => {}
            }
            out.push(c);
        } else {
            inside = c == '"';
            if space && c.is_ascii_punctuation() && c != '-' && c != '.' && c != '+' {
                out += ["", " ", "\n", "\r\n  ", "\t", ""][(i + style as usize) % 6];
            }
            out.push(c);
        }
    }
    if space {
        out += ["", "\n", " "][style as usize % 3];
    }
    out
}

pub fn cancel(id: u64) -> String {
    format!("{{\"cancelStream\":{{\"id\":{id}}}}}")
}

impl Call {
    pub fn body(&self) -> Map<String, Value> {
        use Call::*;
        match self {
            Add(n) => body("Tally", "add", json!([n])),
            Get => body("Tally", "get", json!([])),
            Push(s, l, o) => body("Tally", "push", json!([s, l, o])),
            Slow(ms, n) => body("Tally", "slow", json!([ms, n])),
            Fail(s) => body("Tally", "fail", json!([s])),
            Unrep(n) => body("Tally", "unrep", json!([n])),
            Unit => body("Tally", "unit", json!([])),
            Echo(v) => body("Tally", "echo", json!([v])),
            Type(a, b) => body("Tally", "type", json!([a, b])),
            OtherAdd(n) => body("Other", "add", json!([n])),
            OtherGet => body("Other", "get", json!([])),
            Mark(t) => body("Other", "mark", json!([t])),
            FeedGet => body("Feed", "get", json!([])),
            Many(a, b) => {
                let mut args: Vec<Value> = (0..8).map(|i| json!(a.get(i).copied().unwrap_or(0))).collect();
                args.extend((0..4).map(|i| json!(b.get(i).copied().flatten())));
                body("Other", "many", json!(args))
            }
        }
    }
}

/// is this text an envelope? None: that is nothing the property speaks about
pub fn is_request(text: &str) -> Option<bool> {
    let Ok(Value::Object(o)) = serde_json::from_str::<Value>(text) else {
        return Some(false);
    };
    if o.len() != 1 {
        return Some(false);
    }
    let (k, v) = o.into_iter().next().unwrap();
    if k != "exec" && k != "cancelStream" {
        return Some(false);
    }
    match v {
        Value::Object(inner) => match inner.get("id") {
            Some(id) if id.is_u64() => (k == "exec" || inner.len() == 1).then_some(true),
            _ => Some(false),
        },
        Value::Array(_) => None,
        _ => Some(false),
    }
}

// ----------------------------------------------------------------------------------------------
// the model

#[derive(Debug, Clone)]
pub enum Action {
    Connect(usize),
    Send(usize, String),
    DropTx(usize),
    DropRx(usize),
    Leave(usize, Gone),
    Noise(usize, Noise),
}

#[derive(Debug, Clone)]
pub struct Expect {
    pub id: Option<u64>,
    /// method, stream or error
    pub kind: &'static str,
    /// errors carry a text of any kind
    pub data: Option<Value>,
    pub at: u64,
    pub optional: bool,
    /// number of the stream it belongs to
    pub stream: Option<u32>,
}

#[derive(Debug, Clone)]
pub struct StreamRun {
    pub conn: usize,
    pub id: u64,
    pub tag: u32,
    pub opened: u64,
    /// ended by itself
    pub ended: Option<u64>,
    pub cut: Option<u64>,
    /// somebody else opened another stream under its id
    pub replaced: Option<u64>,
    items: Vec<(u64, Option<Value>)>,
}

#[derive(Debug, Clone, Default)]
pub struct Plan {
    pub actions: Vec<(u64, Action)>,
    pub expects: Vec<Vec<Expect>>,
    pub streams: Vec<StreamRun>,
    pub lazy: Vec<bool>,
    /// when the connection stopped reading
    pub deaf: Vec<Option<u64>>,
    pub end: u64,
    pub state: State,
    pub stats: Stats,
    pub sockets: bool,
}

#[derive(Debug, Clone, Default)]
pub struct Stats {
    pub calls: usize,
    pub streams: usize,
    pub cancels: usize,
    pub bad: usize,
    pub gone: usize,
    pub effective_cancels: usize,
    pub concurrent: usize,
    pub id_clashes: usize,
    pub reused: usize,
    pub calls_reusing: usize,
    pub calls_again: usize,
    pub noise: usize,
}

#[derive(Debug, Clone, PartialEq)]
pub struct State {
    pub tally: i64,
    pub texts: Vec<String>,
    pub other: i64,
    pub marks: Vec<u32>,
    pub opened: u64,
}

impl Default for State {
    fn default() -> Self {
        State { tally: 0, texts: vec![], other: 1, marks: vec![], opened: 0 }
    }
}

impl State {
    /// -> what is answered (None: an error) and how long it takes
    pub fn apply(&mut self, c: &Call) -> (Option<Value>, u64) {
        use Call::*;
        let v = match c {
            Add(n) => {
                self.tally = self.tally.wrapping_add(*n);
                json!(self.tally)
            }
            Get => json!(self.tally),
            Push(s, l, o) => {
                self.texts.push(format!("{s}{l:?}{o:?}"));
                json!(self.texts)
            }
            Slow(ms, n) => {
                self.tally = self.tally.wrapping_add(*n);
                return (Some(json!(self.tally)), *ms);
            }
            Fail(e) => {
                self.tally = self.tally.wrapping_add(1);
                json!({ "Err": e })
            }
            Unrep(n) => {
                self.tally = self.tally.wrapping_add(*n);
                return (None, 0);
            }
            Unit => {
                self.tally = self.tally.wrapping_mul(3);
                Value::Null
            }
            Echo(v) => json!(v),
            Type(a, b) => json!(a.0 as usize + b.len()),
            OtherAdd(n) => {
                self.other = self.other.wrapping_sub(*n).wrapping_mul(5);
                json!(self.other)
            }
            OtherGet => json!(self.other),
            Mark(t) => {
                self.marks.push(*t);
                json!(self.marks.len() - 1)
            }
            FeedGet => json!(self.opened),
            Many(a, b) => {
                let a: Vec<u8> = (0..8).map(|i| a.get(i).copied().unwrap_or(0)).collect();
                let b: Vec<Option<bool>> = (0..4).map(|i| b.get(i).copied().flatten()).collect();
                json!(format!("{a:?}{b:?}"))
            }
        };
        (Some(v), 0)
    }
}

impl Plan {
    pub fn new(h: &History, sockets: bool) -> Plan {
        let mut p = Plan { sockets, ..Plan::default() };
        let mut now = 0;
        let mut free = 0; // when the server can take the next request
        let mut slots: BTreeMap<usize, usize> = BTreeMap::new();
        let mut next_id: Vec<u64> = vec![];
        let mut calls: Vec<Vec<u64>> = vec![];
        let mut tag = 0;
        let reuses = h.ops.iter().any(|o| matches!(o, Op::Open { reuse: Some(_), .. }));
        let mut pending_deaf = vec![];
        for op in &h.ops {
            let c = match op {
                Op::Wait(n) => {
                    now += n * 10;
                    continue;
                }
                Op::Call { c, .. } | Op::Open { c, .. } | Op::Cancel { c, .. } | Op::Bad { c, .. }
                | Op::Gone { c, .. } | Op::Noise { c, .. } => *c,
            };
            let conn = match slots.get(&c) {
                Some(conn) => *conn,
                None => {
                    let conn = p.expects.len();
                    slots.insert(c, conn);
                    p.expects.push(vec![]);
                    p.lazy.push(h.lazy.get(c).copied().unwrap_or(false));
                    p.deaf.push(None);
                    next_id.push(h.base);
                    calls.push(vec![]);
                    p.actions.push((now, Action::Connect(conn)));
                    conn
                }
            };
            let mut id = || {
                next_id[conn] += 1;
                next_id[conn] - 1
            };
            let start = now.max(free);
            match op {
                Op::Wait(_) => unreachable!(),
                Op::Call { order, m, reuse, .. } => {
                    p.stats.calls += 1;
                    let own: Vec<u64> = p.streams.iter().filter(|s| s.conn == conn).map(|s| s.id).collect();
                    let id = match reuse {
                        // errors are told apart by their id
                        Some(n) if !own.is_empty() && n % 2 == 0 && !matches!(m, Call::Unrep(_)) => {
                            p.stats.calls_reusing += 1;
                            own[own.len() - 1 - n / 2 % own.len()]
                        }
                        Some(n) if !calls[conn].is_empty() && !matches!(m, Call::Unrep(_)) => {
                            p.stats.calls_again += 1;
                            calls[conn][calls[conn].len() - 1 - n / 2 % calls[conn].len()]
                        }
                        _ => id(),
                    };
                    calls[conn].push(id);
                    p.actions.push((now, Action::Send(conn, dress(exec(id, &m.body(), *order), *order))));
                    let (data, ms) = p.state.apply(m);
                    free = start + ms;
                    p.expects[conn].push(Expect {
                        id: Some(id),
                        kind: if data.is_some() { "method" } else { "error" },
                        data,
                        at: free,
                        optional: false,
                        stream: None,
                    });
                }
                Op::Open { order, s, reuse, .. } => {
                    p.stats.streams += 1;
                    let own: Vec<u64> = p.streams.iter().filter(|s| s.conn == conn).map(|s| s.id).collect();
                    let id = match reuse {
                        Some(n) if !own.is_empty() => own[own.len() - 1 - n % own.len()],
                        _ => id(),
                    };
                    tag += 1;
                    let (method, args) = match s {
                        Open::Script { first, gaps, ends, bad, form } => {
                            let bad = bad.filter(|_| !reuses);
                            let form = if reuses { form % 2 } else { *form };
                            let mut all = vec![*first];
                            all.extend(gaps);
                            if gaps.is_empty() && *first == 0 {
                                all.clear();
                            }
                            ("script", json!([tag, all, ends, bad.unwrap_or(u64::MAX), form]))
                        }
                        Open::Ticker { first, every } => ("ticker", json!([tag, first, every])),
                        Open::Snapshot => ("snapshot", json!([tag])),
                    };
                    p.actions.push((now, Action::Send(conn, dress(exec(id, &body("Feed", method, args), *order), *order))));
                    for old in &mut p.streams {
                        let over = old.cut.is_some() || old.ended.is_some_and(|e| e + 2 < start);
                        if old.conn == conn && old.id == id && !over {
                            old.replaced.get_or_insert(start);
                            p.stats.reused += 1;
                        }
                        if old.conn != conn && old.id == id && old.running(start) {
                            p.stats.id_clashes += 1;
                        }
                    }
                    let mut run = StreamRun {
                        conn,
                        id,
                        tag,
                        opened: start,
                        ended: None,
                        cut: None,
                        replaced: None,
                        items: vec![],
                    };
                    match s {
                        Open::Script { first, gaps, ends, bad, form } => {
                            let bad = bad.filter(|_| !reuses);
                            let form = if reuses { form % 2 } else { *form };
                            p.state.opened += 1;
                            let mut t = start;
                            let mut all = vec![*first];
                            all.extend(gaps);
                            if gaps.is_empty() && *first == 0 {
                                all.clear();
                            }
                            for (i, g) in all.iter().enumerate() {
                                t += g;
                                let good = bad != Some(i as u64);
                                run.items.push((t, good.then(|| look(form, tag, i))));
                            }
                            if *ends {
                                run.ended = Some(t);
                            }
                        }
                        Open::Ticker { first, every } => {
                            p.state.opened += 1;
                            // cut off at the end of the history below
                            run.items = (0..700u64)
                                .map(|i| (start + first + i * every, Some(json!([tag, i]))))
                                .collect();
                        }
                        Open::Snapshot => {
                            run.items = vec![(start, Some(json!([tag, p.state.opened])))];
                            run.ended = Some(start);
                        }
                    }
                    if p.streams.iter().any(|s| s.running(start)) {
                        p.stats.concurrent += 1;
                    }
                    p.streams.push(run);
                }
                Op::Cancel { t, .. } => {
                    p.stats.cancels += 1;
                    let own: Vec<u64> = p.streams.iter().filter(|s| s.conn == conn).map(|s| s.id).collect();
                    let target = match t {
                        // the latest ones first
                        Target::Own(n) if !own.is_empty() => own[own.len() - 1 - n % own.len()],
                        Target::Any(n) if !p.streams.is_empty() => p.streams[n % p.streams.len()].id,
                        Target::Call(n) if !calls[conn].is_empty() => calls[conn][n % calls[conn].len()],
                        Target::Unknown(n) => h.base.wrapping_add(1000 + *n),
                        _ => h.base.wrapping_add(999),
                    };
                    p.actions.push((now, Action::Send(conn, cancel(target))));
                    for s in &mut p.streams {
                        if s.conn == conn && s.id == target && s.cut.is_none() {
                            if s.running(start) {
                                p.stats.effective_cancels += 1;
                            }
                            s.cut = Some(start);
                        }
                    }
                }
                Op::Bad { order, b, .. } => {
                    p.stats.bad += 1;
                    let (text, id) = match b {
                        Bad::Text(t) => (t.clone(), None),
                        Bad::Body(body) => {
                            let id = id();
                            calls[conn].push(id);
                            (dress(exec(id, body, *order), *order), Some(id))
                        }
                    };
                    p.actions.push((now, Action::Send(conn, text)));
                    p.expects[conn].push(Expect {
                        id,
                        kind: "error",
                        data: None,
                        at: start,
                        optional: false,
                        stream: None,
                    });
                }
                Op::Noise { n, .. } => {
                    p.stats.noise += 1;
                    p.actions.push((now, Action::Noise(conn, n.clone())));
                }
                Op::Gone { how, .. } if sockets => {
                    p.stats.gone += 1;
                    p.actions.push((now, Action::Leave(conn, *how)));
                    slots.remove(&c);
                    pending_deaf.push((conn, now));
                }
                Op::Gone { how, .. } => {
                    p.stats.gone += 1;
                    if !matches!(how, Gone::Rx) {
                        p.actions.push((now, Action::DropTx(conn)));
                        slots.remove(&c);
                    }
                    if !matches!(how, Gone::Tx) {
                        p.actions.push((now, Action::DropRx(conn)));
                        pending_deaf.push((conn, now));
                    }
                }
            }
        }
        for (conn, at) in pending_deaf {
            p.deaf[conn].get_or_insert(at);
        }
        let last = p.streams.iter().map(|s| match s.items.len() {
            700 => s.opened + 3 * (s.items[1].0 - s.items[0].0),
            _ => s.items.last().map(|x| x.0).unwrap_or(0),
        });
        p.end = last.max().unwrap_or(0).max(now).max(free) + END_MARGIN;
        p.end -= p.end % 10;
        for s in &p.streams {
            let at = p.expects[s.conn].len();
            for (i, (t, v)) in s.items.iter().enumerate() {
                if *t > p.end + 2 {
                    break;
                }
                let mut optional = *t + 2 >= p.end;
                // whether it goes on is left open
                if let Some(r) = s.replaced {
                    optional |= *t + 2 >= r;
                }
                if let Some(cut) = s.cut {
                    if *t > cut + 2 {
                        break;
                    }
                    optional |= *t + 2 >= cut;
                }
                p.expects[s.conn].insert(
                    at + i,
                    Expect {
                        id: Some(s.id),
                        kind: if v.is_some() { "stream" } else { "error" },
                        data: v.clone(),
                        at: *t,
                        optional,
                        stream: Some(s.tag),
                    },
                );
            }
        }
        for (conn, deaf) in p.deaf.iter().enumerate() {
            if let Some(deaf) = deaf {
                if p.lazy[conn] && !sockets {
                    p.expects[conn].clear();
                }
                p.expects[conn].retain(|e| e.at <= deaf + 2);
                for e in &mut p.expects[conn] {
                    e.optional |= e.at + 2 >= *deaf || p.lazy[conn];
                }
            }
        }
        p
    }
}

fn look(form: u8, tag: u32, i: usize) -> Value {
    match form {
        1 => json!([tag, i / 3]),
        2 => Value::Null,
        3 => [json!(null), json!(false), json!(0), json!(""), json!([]), json!({})][i % 6].clone(),
        _ => json!([tag, i]),
    }
}

impl StreamRun {
    /// what may come between the end of the history and that of the backend
    pub fn later(&self, from: u64, to: u64) -> Vec<Expect> {
        if self.cut.is_some() {
            return vec![];
        }
        let e = |t: &u64, v: &Option<Value>| Expect {
            id: Some(self.id),
            kind: if v.is_some() { "stream" } else { "error" },
            data: v.clone(),
            at: *t,
            optional: true,
            stream: Some(self.tag),
        };
        self.items.iter().filter(|x| x.0 > from + 2 && x.0 <= to + 2).map(|(t, v)| e(t, v)).collect()
    }

    /// when the first item after some moment comes
    pub fn next_item(&self, t: u64) -> Option<u64> {
        self.items.iter().map(|i| i.0).find(|at| *at > t)
    }

    fn running(&self, t: u64) -> bool {
        self.opened <= t && self.ended.map_or(true, |e| e > t) && self.cut.map_or(true, |c| c > t)
    }
}

// ----------------------------------------------------------------------------------------------
// generators

pub struct Weights {
    pub call: u32,
    pub open: u32,
    pub cancel: u32,
    pub bad: u32,
    pub gone: u32,
    pub wait: u32,
    pub conns: usize,
    pub max_ops: usize,
    pub reuse: f64,
    pub noise: u32,
}

pub fn weights(prop: &str) -> Weights {
    match prop {
        "C10" => Weights { call: 12, open: 3, cancel: 1, bad: 2, gone: 1, wait: 4, conns: 4, max_ops: 40, reuse: 0.0, noise: 0 },
        "C11" => Weights { call: 3, open: 9, cancel: 1, bad: 1, gone: 1, wait: 5, conns: 3, max_ops: 30, reuse: 0.0, noise: 0 },
        "C12" => Weights { call: 3, open: 8, cancel: 8, bad: 1, gone: 1, wait: 6, conns: 3, max_ops: 40, reuse: 0.1, noise: 0 },
        "C13" => Weights { call: 5, open: 3, cancel: 2, bad: 8, gone: 4, wait: 5, conns: 4, max_ops: 40, reuse: 0.0, noise: 0 },
        "C14" => Weights { call: 6, open: 5, cancel: 3, bad: 3, gone: 2, wait: 5, conns: 4, max_ops: 40, reuse: 0.0, noise: 4 },
        _ => panic!("no histories for {prop}"),
    }
}

pub fn text() -> BoxedStrategy<String> {
    prop_oneof![
        3 => "[a-z]{0,6}",
        1 => any::<String>(),
        1 => proptest::sample::select(vec!["", "\u{0}", "\"", "\\", "\u{2028}", "😀", "null", "{}", "\u{feff}", "\u{ffff}"])
            .prop_map(String::from),
    ]
    .boxed()
}

fn num() -> BoxedStrategy<i64> {
    prop_oneof![4 => -100i64..100, 1 => any::<i64>(), 1 => Just(i64::MAX), 1 => Just(i64::MIN)].boxed()
}

fn nested() -> BoxedStrategy<Nested> {
    let kind = prop_oneof![
        Just(Kind::Empty),
        any::<u64>().prop_map(|value| Kind::Number { value }),
        (text(), any::<bool>()).prop_map(|(left, right)| Kind::Pair { left, right }),
    ];
    (text(), option::of(num()), vec(kind, 0..4)).prop_map(|(text, num, list)| Nested { text, num, list }).boxed()
}

pub fn call() -> BoxedStrategy<Call> {
    prop_oneof![
        4 => num().prop_map(Call::Add),
        2 => Just(Call::Get),
        2 => (text(), vec(any::<u8>(), 0..3), option::of(text())).prop_map(|(a, b, c)| Call::Push(a, b, c)),
        3 => (0u64..8, num()).prop_map(|(ms, n)| Call::Slow(ms * 10, n)),
        1 => prop_oneof![30 => text(), 1 => (0usize..60_000).prop_map(|n| "aä😀".repeat(n))].prop_map(Call::Fail),
        1 => num().prop_map(Call::Unrep),
        1 => Just(Call::Unit),
        1 => nested().prop_map(Call::Echo),
        1 => ((any::<u8>(), any::<bool>()), btree_map(text(), any::<i32>(), 0..3)).prop_map(|(a, b)| Call::Type(a, b)),
        2 => num().prop_map(Call::OtherAdd),
        1 => Just(Call::OtherGet),
        2 => any::<u32>().prop_map(Call::Mark),
        1 => Just(Call::FeedGet),
        1 => (vec(any::<u8>(), 0..9), vec(option::of(any::<bool>()), 0..5)).prop_map(|(a, b)| Call::Many(a, b)),
    ]
    .boxed()
}

/// items never fall on the moments at which requests are handled, unless they come at once
pub fn open() -> BoxedStrategy<Open> {
    let first = prop_oneof![1 => Just(0u64), 3 => (0u64..6).prop_map(|n| n * 10 + 5)];
    let gap = prop_oneof![2 => Just(0u64), 3 => (1u64..6).prop_map(|n| n * 10)];
    let gaps = prop_oneof![
        60 => vec(gap, 0..8),
        10 => vec(Just(0u64), 50..400),
        1 => vec(Just(0u64), 400..9000),
    ];
    prop_oneof![
        6 => (first.clone(), gaps, any::<bool>(), option::weighted(0.1, 0u64..5), prop_oneof![3 => Just(0u8), 2 => 1u8..4]).prop_map(
            |(first, mut gaps, ends, bad, form)| {
                // when it starts at once, waiting starts with half a step
                if first == 0 {
                    if let Some(g) = gaps.iter_mut().find(|g| **g > 0) {
                        *g += 5;
                    }
                }
                Open::Script { first, gaps, ends, bad, form }
            }
        ),
        2 => (first.prop_filter("not at once", |n| *n > 0), (1u64..5).prop_map(|n| n * 10))
            .prop_map(|(first, every)| Open::Ticker { first, every }),
        1 => Just(Open::Snapshot),
    ]
    .boxed()
}

fn wrong_number() -> BoxedStrategy<Value> {
    proptest::sample::select(vec![
        json!("1"), json!(1.5), json!(null), json!(true), json!([]), json!({}), json!([1]), json!(""),
        json!(9223372036854775808u64), json!(1e300), json!(-1e30),
    ])
    .boxed()
}

pub fn bad_body() -> BoxedStrategy<Map<String, Value>> {
    let names = vec![
        "", "Counter", "tally", "Tally ", " Tally", "TALLY", "__proto__", "Feed2", "App", "other", "constructor",
        "Tally\u{0}", "feed", "tally.add", "OtherReq",
    ];
    let ns = prop_oneof![proptest::sample::select(names).prop_map(String::from), text()]
        .prop_filter("unknown", |n| !["Tally", "Other", "Feed"].contains(&n.as_str()));
    let methods = vec![
        ("Tally", "Add"), ("Tally", "add "), ("Tally", "mark"), ("Tally", "script"), ("Tally", "r#type"), ("Tally", ""),
        ("Other", "slow"), ("Other", "push"), ("Other", "unit"), ("Feed", "add"), ("Feed", "close"), ("Feed", "Script"),
        ("Tally", "__proto__"), ("Tally", "drop"), ("Other", "MARK"), ("Tally", "0"), ("Tally", "method"),
    ];
    let odd = proptest::sample::select(vec![json!(null), json!(1), json!(["Tally"]), json!({"Tally": 1}), json!(true)]);
    let odd_args = proptest::sample::select(vec![
        json!(null), json!(1), json!("[]"), json!({}), json!({"0": 1}), json!(true), json!({"n": 1}),
    ]);
    let wrong = prop_oneof![
        wrong_number().prop_map(|v| body("Tally", "add", json!([v]))),
        wrong_number().prop_map(|v| body("Other", "add", json!([v]))),
        wrong_number().prop_map(|v| body("Tally", "slow", json!([10, v]))),
        proptest::sample::select(vec![json!(-1), json!("10"), json!(null), json!(0.5)])
            .prop_map(|v| body("Tally", "slow", json!([v, 10]))),
        proptest::sample::select(vec![json!(1), json!(null), json!([]), json!(["x"])])
            .prop_map(|v| body("Tally", "push", json!([v, [], null]))),
        proptest::sample::select(vec![json!([256]), json!([-1]), json!("x"), json!({"a": 1}), json!([1, "2"]), json!(null)])
            .prop_map(|v| body("Tally", "push", json!(["s", v, null]))),
        proptest::sample::select(vec![json!(5), json!([]), json!({}), json!(false)])
            .prop_map(|v| body("Tally", "push", json!(["s", [], v]))),
        proptest::sample::select(vec![
            json!({}), json!(null), json!({"text": "a"}), json!({"text": "a", "list": 1}),
            json!({"text": "a", "num": "1", "list": []}), json!({"text": "a", "num": 1, "list": [{}]}),
            json!({"text": "a", "num": 1, "list": [{"kind": "Empty"}]}),
            json!({"text": "a", "num": 1, "list": [{"kind": "number"}]}),
            json!({"text": "a", "num": 1, "list": [{"kind": "pair", "left": "a"}]}),
        ])
        .prop_map(|v| body("Tally", "echo", json!([v]))),
        proptest::sample::select(vec![json!([1]), json!([1, true, 2]), json!([300, true]), json!(1), json!({"0": 1})])
            .prop_map(|v| body("Tally", "type", json!([v, {}]))),
        proptest::sample::select(vec![json!({"x": "y"}), json!([1]), json!({"x": 2147483648u64}), json!(null)])
            .prop_map(|v| body("Tally", "type", json!([[1, true], v]))),
        proptest::sample::select(vec![json!(-1), json!(4294967296u64), json!("1"), json!(null)])
            .prop_map(|v| body("Feed", "snapshot", json!([v]))),
        proptest::sample::select(vec![json!([1, [1], "true", 5, 0]), json!([1, 1, true, 5, 0]), json!([1, [-1], true, 5, 0]), json!([1, [1], true, 5])])
            .prop_map(|v| body("Feed", "script", v)),
    ];
    prop_oneof![
        1 => ns.prop_map(|n| body(&n, "add", json!([1]))),
        1 => odd.clone().prop_map(|v| {
            let mut b = body("Tally", "add", json!([1]));
            b.insert("namespace".into(), v);
            b
        }),
        1 => odd.prop_map(|v| {
            let mut b = body("Tally", "add", json!([1]));
            b.insert("method".into(), v);
            b
        }),
        1 => proptest::sample::subsequence(vec!["namespace", "method", "args"], 0..3).prop_map(|keep| {
            let mut b = body("Tally", "add", json!([1]));
            b.retain(|k, _| keep.contains(&k.as_str()));
            b
        }),
        1 => proptest::sample::select(methods).prop_map(|(n, m)| body(n, m, json!([]))),
        1 => (call(), odd_args).prop_map(|(c, v)| {
            let mut b = c.body();
            b.insert("args".into(), v);
            b
        }),
        2 => (call(), any::<bool>(), 1usize..12, any::<bool>()).prop_map(|(c, more, n, null)| {
            let mut b = c.body();
            let mut a = b["args"].as_array().unwrap().clone();
            if more || a.is_empty() {
                let v = a.first().cloned().filter(|_| !null).unwrap_or(Value::Null);
                a.extend(std::iter::repeat(v).take(if n > 4 { 1 } else { n }));
            } else {
                a.truncate(a.len().saturating_sub(n % a.len() + 1));
            }
            b.insert("args".into(), json!(a));
            b
        }),
        4 => wrong,
    ]
    .boxed()
}

pub fn any_json() -> BoxedStrategy<Value> {
    let leaf = prop_oneof![
        Just(Value::Null),
        any::<bool>().prop_map(Value::from),
        any::<i64>().prop_map(Value::from),
        any::<u64>().prop_map(Value::from),
        (-50i64..50).prop_map(Value::from),
        any::<f64>().prop_filter("finite", |x| x.is_finite()).prop_map(Value::from),
        text().prop_map(Value::from),
    ];
    leaf.prop_recursive(5, 40, 6, |inner| {
        prop_oneof![
            vec(inner.clone(), 0..6).prop_map(Value::from),
            proptest::collection::hash_map(key(), inner, 0..6)
                .prop_map(|m| Value::Object(m.into_iter().collect())),
        ]
    })
    .boxed()
}

fn key() -> BoxedStrategy<String> {
    prop_oneof![
        proptest::sample::select(vec!["exec", "cancelStream", "id", "method", "namespace", "args", "data", "error", "a", "b"])
            .prop_map(String::from),
        text()
    ]
    .boxed()
}

pub fn bad_text() -> BoxedStrategy<String> {
    let deep = (100usize..400, any::<bool>()).prop_map(|(n, arr)| match arr {
        true => "[".repeat(n) + &"]".repeat(n),
        false => format!("{{\"exec\":{{\"id\":1,\"namespace\":\"Tally\",\"method\":\"add\",\"args\":{}{}}}}}",
            "[".repeat(n + 30), "]".repeat(n + 30)),
    });
    let ids = proptest::sample::select(vec![
        "\"1\"", "-1", "1.5", "null", "true", "[1]", "{}", "18446744073709551616", "1e2", "1.0", "NaN", "01", "", "'1'",
    ]);
    prop_oneof![
        2 => any::<String>(),
        1 => "[\\[\\]{}\",:0-9a-z]{0,12}",
        2 => any_json().prop_map(|v| v.to_string()),
        2 => (ids.clone(), any::<bool>()).prop_map(|(id, exec)| match exec {
            true => format!("{{\"exec\":{{\"id\":{id},\"namespace\":\"Tally\",\"method\":\"add\",\"args\":[1]}}}}"),
            false => format!("{{\"cancelStream\":{{\"id\":{id}}}}}"),
        }),
        3 => (call(), any::<u8>(), any::<prop::sample::Index>()).prop_map(|(c, order, at)| {
            let t = exec(0, &c.body(), order);
            let mut n = at.index(t.len());
            while !t.is_char_boundary(n) {
                n -= 1;
            }
            t[..n].to_string()
        }),
        2 => (call(), any::<u8>(), any::<prop::sample::Index>(), "[\\[\\]{}\",:a-z\u{0}]").prop_map(|(c, order, at, with)| {
            let t = exec(0, &c.body(), order);
            let mut n = at.index(t.len());
            while !t.is_char_boundary(n) {
                n -= 1;
            }
            format!("{}{}{}", &t[..n], with, &t[n..])
        }),
        1 => (call(), any::<u8>()).prop_map(|(c, order)| exec(0, &c.body(), order).replace("exec", "Exec")),
        1 => (call(), any::<u8>()).prop_map(|(c, order)| exec(0, &c.body(), order).replace("exec", "method")),
        1 => call().prop_map(|c| {
            let b = Value::Object(c.body());
            json!({ "exec": b }).to_string()
        }),
        1 => call().prop_map(|c| json!({ "exec": c.body(), "id": 3 }).to_string()),
        1 => (call(), any::<u8>()).prop_map(|(c, order)| {
            let t = exec(0, &c.body(), order);
            format!("{},\"cancelStream\":{{\"id\":1}}}}", &t[..t.len() - 1])
        }),
        1 => (call(), any::<u8>()).prop_map(|(c, order)| format!("[{}]", exec(0, &c.body(), order))),
        1 => (call(), any::<u8>()).prop_map(|(c, order)| format!("{0}{0}", exec(0, &c.body(), order))),
        1 => proptest::sample::select(vec!["", " ", "null", "\"exec\"", "{\"exec\":null}", "{}", "[]", "0", "{\"exec\":\"\\ud800\"}",
            "\u{feff}{}", "{\"cancelStream\":5}", "{\"cancelStream\":{}}", "{\"exec\":{}}", "\"cancelStream\""]).prop_map(String::from),
        1 => deep,
    ]
    .prop_filter("no request", |t| is_request(t) == Some(false))
    .boxed()
}

pub fn op(w: &Weights) -> BoxedStrategy<Op> {
    let c = 0..w.conns;
    let reuse = match w.reuse > 0.0 {
        true => option::weighted(w.reuse, 0usize..4).boxed(),
        false => Just(None).boxed(),
    };
    prop_oneof![
        w.call => (c.clone(), any::<u8>(), call(), option::weighted(0.1, 0usize..8))
            .prop_map(|(c, order, m, reuse)| Op::Call { c, order, m, reuse }),
        w.open => (c.clone(), any::<u8>(), open(), reuse)
            .prop_map(|(c, order, s, reuse)| Op::Open { c, order, s, reuse }),
        w.cancel => (c.clone(), prop_oneof![
            6 => prop_oneof![2 => 0usize..3, 1 => 0usize..12].prop_map(Target::Own),
            2 => (0usize..12).prop_map(Target::Any),
            1 => (0usize..12).prop_map(Target::Call),
            1 => (0u64..3).prop_map(Target::Unknown),
        ]).prop_map(|(c, t)| Op::Cancel { c, t }),
        w.bad => (c.clone(), any::<u8>(), prop_oneof![
            bad_text().prop_map(Bad::Text),
            bad_body().prop_map(Bad::Body)
        ]).prop_map(|(c, order, b)| Op::Bad { c, order, b }),
        w.gone => (c, proptest::sample::select(vec![Gone::Both, Gone::Both, Gone::Rx, Gone::Tx]))
            .prop_map(|(c, how)| Op::Gone { c, how }),
        w.wait => (0u64..8).prop_map(Op::Wait),
        w.noise => (0..w.conns, prop_oneof![
            2 => vec(any::<u8>(), 0..300).prop_map(Noise::Binary),
            2 => call().prop_map(Noise::BinaryCall),
            1 => vec(any::<u8>(), 0..125).prop_map(Noise::Ping),
            1 => vec(any::<u8>(), 0..125).prop_map(Noise::Pong),
        ]).prop_map(|(c, n)| Op::Noise { c, n }),
    ]
    .boxed()
}

pub fn history(w: &Weights) -> BoxedStrategy<History> {
    let base = prop_oneof![
        4 => Just(0u64),
        1 => any::<u32>().prop_map(u64::from),
        1 => Just((1 << 53) - 5),
        1 => Just(u64::MAX - 5000),
    ];
    let frag = if w.noise > 0 { prop_oneof![1 => Just(0), 2 => any::<u64>()].boxed() } else { Just(0).boxed() };
    // many calls and streams at once
    let crowd = prop_oneof![
        1 => (0..w.conns.min(2), any::<u8>(), prop_oneof![bad_text().prop_map(Bad::Text), bad_body().prop_map(Bad::Body)])
            .prop_map(|(c, order, b)| Op::Bad { c, order, b }),
        2 => (0..w.conns.min(2), any::<u8>(), call()).prop_map(|(c, order, m)| Op::Call { c, order, m, reuse: None }),
        5 => (0..w.conns.min(2), any::<u8>(), vec((0u64..6).prop_map(|n| n * 10), 0..4), any::<bool>()).prop_map(
            |(c, order, gaps, ends)| Op::Open { c, order, s: Open::Script { first: 15, gaps, ends, bad: None, form: 0 }, reuse: None }
        ),
    ];
    // many connections at once, all with the same ids
    let guest = (0usize..280, any::<u8>(), prop_oneof![
        6 => (1u64..4, any::<bool>()).prop_map(|(n, ends)| Ok(Open::Script { first: 35, gaps: vec![40; n as usize], ends, bad: None, form: 0 })),
        1 => call().prop_map(Err),
    ]);
    let party = (vec(guest, 20..300), vec(op(w), 0..20), any::<bool>()).prop_map(|(guests, mut ops, few)| {
        let mut all: Vec<Op> = guests
            .into_iter()
            .map(|(c, order, what)| {
                let c = if few { c % 40 } else { c };
                match what {
                    Ok(s) => Op::Open { c, order, s, reuse: None },
                    Err(m) => Op::Call { c, order, m, reuse: None },
                }
            })
            .collect();
        all.push(Op::Wait(1));
        all.append(&mut ops);
        all
    });
    let ops = prop_oneof![
        80 => vec(op(w), 1..w.max_ops),
        1 => (vec(op(w), 0..10), vec(crowd, 100..700), vec(op(w), 0..10))
            .prop_map(|(a, b, c)| a.into_iter().chain(b).chain(c).collect()),
        1 => party,
    ];
    // an odd factor keeps items and requests apart
    let scale = prop_oneof![10 => Just(1u64), 1 => Just(1001), 1 => Just(100_001)];
    (base, vec(proptest::bool::weighted(0.15), w.conns), frag, ops, scale)
        .prop_map(|(base, lazy, frag, ops, scale)| History {
            base,
            lazy,
            frag,
            ops: ops.into_iter().map(|op| stretch(op, scale)).collect(),
        })
        .boxed()
}

/// the same in slow motion
fn stretch(op: Op, k: u64) -> Op {
    match op {
        Op::Wait(n) => Op::Wait(n * k),
        Op::Call { c, order, m: Call::Slow(ms, n), reuse } => Op::Call { c, order, m: Call::Slow(ms * k, n), reuse },
        Op::Open { c, order, s, reuse } => {
            let s = match s {
                Open::Script { first, gaps, ends, bad, form } => {
                    Open::Script { first: first * k, gaps: gaps.into_iter().map(|g| g * k).collect(), ends, bad, form }
                }
                Open::Ticker { first, every } => Open::Ticker { first: first * k, every: every * k },
                Open::Snapshot => Open::Snapshot,
            };
            Op::Open { c, order, s, reuse }
        }
        op => op,
    }
}
