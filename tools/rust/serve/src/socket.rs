//! the same histories over WebSockets, on connections in memory (so that the clock can be paused)
use crate::plan::*;
use crate::run::{final_calls, Observed};
use crate::services::app;
use futures::stream::{SplitSink, SplitStream};
use futures::{SinkExt, StreamExt};
use serde_json::Value;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::io::{AsyncRead, AsyncWrite, DuplexStream};
use tokio::time::{sleep, sleep_until, timeout, Instant};
use tokio_tungstenite::tungstenite::protocol::frame::coding::{CloseCode, Data, OpCode};
use tokio_tungstenite::tungstenite::protocol::frame::{CloseFrame, Frame};
use tokio_tungstenite::tungstenite::Message;
use tokio_tungstenite::WebSocketStream;
use zod::rpc::servers::proxy::BackendProxy;

pub fn router(proxy: BackendProxy) -> axum::Router {
    axum::Router::new()
        .route("/ws", axum::routing::get(zod::rpc::servers::axum::websocket_handler))
        .layer(axum::Extension(proxy))
}

/// how much is on its way between the ends
const BUFFER: usize = 2048;

type Socket = WebSocketStream<DuplexStream>;

struct Conn {
    tx: Option<SplitSink<Socket, Message>>,
    rx: Option<SplitStream<Socket>>,
    reader: Option<tokio::task::JoinHandle<()>>,
    heard: Arc<Mutex<Heard>>,
    /// has asked for the end, in a way that lets it see the end
    left: Option<Instant>,
}

#[derive(Default)]
struct Heard {
    messages: Vec<(u64, Value)>,
    other: Vec<String>,
    ended: Option<Instant>,
}

pub async fn handshake<S: AsyncRead + AsyncWrite + Unpin>(io: S) -> Result<WebSocketStream<S>, String> {
    match timeout(Duration::from_secs(30), tokio_tungstenite::client_async("ws://localhost/ws", io)).await {
        Ok(Ok((s, _))) => Ok(s),
        Ok(Err(e)) => Err(format!("no WebSocket: {e}")),
        Err(_) => Err("no WebSocket within 30 s".into()),
    }
}

fn listen(mut rx: SplitStream<Socket>, heard: Arc<Mutex<Heard>>, t0: Instant) -> tokio::task::JoinHandle<()> {
    tokio::spawn(async move {
        while let Some(m) = rx.next().await {
            let at = t0.elapsed().as_millis() as u64;
            let mut h = heard.lock().unwrap();
            match m {
                Ok(Message::Text(t)) => match serde_json::from_str(&t) {
                    Ok(v) => h.messages.push((at, v)),
                    Err(_) => h.other.push(format!("text {t:?}")),
                },
                Ok(Message::Pong(_)) | Ok(Message::Ping(_)) => {}
                Ok(Message::Close(_)) => {}
                Ok(m) => h.other.push(format!("{m:?}")),
                Err(_) => break,
            }
        }
        heard.lock().unwrap().ended = Some(Instant::now());
    })
}

pub struct Cutter(u64);

impl Cutter {
    pub fn new(seed: u64) -> Self {
        Cutter(seed)
    }

    fn next(&mut self, n: u64) -> u64 {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (self.0 >> 33) % n
    }

    /// one message in one or several frames, with control frames between them
    pub fn frames(&mut self, text: &str) -> Vec<Message> {
        if self.0 == 0 || self.next(3) == 0 {
            return vec![Message::Text(text.into())];
        }
        let mut rest = text.as_bytes().to_vec();
        let mut out = vec![];
        let mut first = true;
        loop {
            let n = match self.next(4) {
                0 => 0,
                1 => 1,
                _ => self.next(40) as usize,
            };
            let fin = n >= rest.len();
            let later = if fin { vec![] } else { rest.split_off(n) };
            let code = OpCode::Data(if first { Data::Text } else { Data::Continue });
            out.push(Message::Frame(Frame::message(rest, code, fin)));
            if fin {
                return out;
            }
            if self.next(5) == 0 {
                out.push(Message::Ping(vec![1, 2, 3]));
            }
            rest = later;
            first = false;
            if out.len() > 12 {
                out.push(Message::Frame(Frame::message(rest, OpCode::Data(Data::Continue), true)));
                return out;
            }
        }
    }
}

pub fn run(plan: &Plan, frag: u64) -> Observed {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap();
    rt.block_on(run_async(plan, frag))
}

/// lets the others do all they can do at once
async fn settle() {
    for _ in 0..60 {
        tokio::task::yield_now().await;
    }
}

async fn run_async(plan: &Plan, frag: u64) -> Observed {
    let t0 = Instant::now();
    let (app, log) = app();
    let (accept, incoming) = futures::channel::mpsc::unbounded::<DuplexStream>();
    let proxy = BackendProxy::new(app);
    let acceptor = hyper::server::accept::from_stream(incoming.map(Ok::<_, std::io::Error>));
    let server = tokio::spawn(
        hyper::Server::builder(acceptor).serve(router(proxy.clone()).into_make_service()));
    let mut cutter = Cutter::new(frag);
    let mut errors: Vec<String> = vec![];
    let mut conns: Vec<Conn> = vec![];
    let mut send_failed = false;
    let open = |accept: &futures::channel::mpsc::UnboundedSender<DuplexStream>| {
        let (near, far) = tokio::io::duplex(BUFFER);
        accept.unbounded_send(far).unwrap();
        handshake(near)
    };
    for (at, a) in &plan.actions {
        if t0 + Duration::from_millis(*at) > Instant::now() {
            sleep_until(t0 + Duration::from_millis(*at)).await;
        }
        macro_rules! send {
            ($c:expr, $m:expr) => {{
                let sent = match &mut conns[*$c].tx {
                    Some(tx) => timeout(Duration::from_secs(5), tx.send($m)).await,
                    None => Ok(Ok(())),
                };
                match sent {
                    Ok(Ok(())) => true,
                    Ok(Err(e)) => {
                        errors.push(format!("connection {} does not take a message: {e}", $c));
                        send_failed = true;
                        conns[*$c].tx = None;
                        false
                    }
                    Err(_) => {
                        errors.push(format!("connection {} does not take a message for 5 s", $c));
                        send_failed = true;
                        conns[*$c].tx = None;
                        false
                    }
                }
            }};
        }
        match a {
            Action::Connect(_) => {
                let heard = Arc::<Mutex<Heard>>::default();
                let mut c = Conn { tx: None, rx: None, reader: None, heard: heard.clone(), left: None };
                match open(&accept).await {
                    Ok(s) => {
                        let (tx, rx) = s.split();
                        c.tx = Some(tx);
                        match plan.lazy[conns.len()] {
                            true => c.rx = Some(rx),
                            false => c.reader = Some(listen(rx, heard, t0)),
                        }
                    }
                    Err(e) => errors.push(e),
                }
                conns.push(c);
            }
            Action::Send(c, text) => {
                for m in cutter.frames(text) {
                    send!(c, m);
                }
                // requests of different connections arrive in the order they were sent
                settle().await;
            }
            Action::Noise(c, n) => {
                send!(c, match n {
                    Noise::Binary(v) => Message::Binary(v.clone()),
                    Noise::BinaryCall(m) => Message::Binary(exec(0, &m.body(), 0).into_bytes()),
                    Noise::Ping(v) => Message::Ping(v.clone()),
                    Noise::Pong(v) => Message::Pong(v.clone()),
                });
                settle().await;
            }
            Action::Leave(c, how) => {
                match how {
                    Gone::Both => {
                        if let Some(r) = conns[*c].reader.take() {
                            r.abort();
                        }
                        conns[*c].tx = None;
                        conns[*c].rx = None;
                    }
                    Gone::Rx => {
                        let bad = match cutter.next(3) {
                            // text that is none
                            0 => Message::Frame(Frame::message(vec![0xff, 0xfe], OpCode::Data(Data::Text), true)),
                            // the continuation of nothing
                            1 => Message::Frame(Frame::message(vec![b'a'], OpCode::Data(Data::Continue), true)),
                            _ => Message::Frame(Frame::message(vec![], OpCode::Data(Data::Reserved(5)), true)),
                        };
                        send!(c, bad);
                        conns[*c].left = Some(Instant::now());
                    }
                    Gone::Tx => {
                        let why = CloseFrame { code: CloseCode::Normal, reason: "".into() };
                        send!(c, Message::Close((cutter.next(2) == 0).then_some(why)));
                        conns[*c].left = Some(Instant::now());
                    }
                }
                settle().await;
            }
            Action::DropTx(_) | Action::DropRx(_) => unreachable!("not for sockets"),
        }
    }
    if t0 + Duration::from_millis(plan.end) < Instant::now() {
        errors.push(format!("sending took until {:?}", t0.elapsed()));
    }
    sleep_until(t0 + Duration::from_millis(plan.end)).await;
    for c in &mut conns {
        if let Some(rx) = c.rx.take() {
            c.reader = Some(listen(rx, c.heard.clone(), t0));
        }
    }
    // somebody else comes and looks at the state
    let heard = Arc::<Mutex<Heard>>::default();
    match open(&accept).await {
        Ok(s) => {
            let (mut tx, rx) = s.split();
            let reader = listen(rx, heard.clone(), t0);
            for (i, c) in final_calls().iter().enumerate() {
                send_failed |= tx.send(Message::Text(exec(i as u64, &c.body(), 0))).await.is_err();
            }
            sleep(Duration::from_millis(20)).await;
            reader.abort();
        }
        Err(e) => errors.push(e),
    }
    let finals = heard.lock().unwrap().messages.iter().map(|m| m.1.clone()).collect();
    for (i, c) in conns.iter().enumerate() {
        let h = c.heard.lock().unwrap();
        for o in &h.other {
            errors.push(format!("connection {i} got {o}"));
        }
        match (c.left, h.ended) {
            (Some(_), None) if !plan.lazy[i] => errors.push(format!("connection {i} was closed, but goes on")),
            (Some(l), Some(e)) if !plan.lazy[i] && e > l + Duration::from_millis(2) => {
                errors.push(format!("connection {i} was closed, but went on for {:?}", e - l));
            }
            (None, Some(_)) if c.reader.is_some() => errors.push(format!("connection {i} was ended by the server")),
            _ => {}
        }
    }
    // the backend goes away with its last client
    let teardown = t0.elapsed().as_millis() as u64;
    for c in &mut conns {
        c.tx = None;
        if let Some(r) = c.reader.take() {
            r.abort();
        }
    }
    server.abort();
    drop(accept);
    drop(proxy);
    sleep(Duration::from_millis(300)).await;
    let mut dropped = BTreeMap::new();
    for (tag, at) in &log.lock().unwrap().dropped {
        dropped.insert(*tag, (*at - t0).as_millis() as u64);
    }
    let heard = conns.iter().map(|c| c.heard.lock().unwrap().messages.clone()).collect();
    Observed { heard, finals, send_failed, log, dropped, teardown, open_ends: 0, socket_errors: errors }
}
