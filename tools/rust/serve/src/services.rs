//! the backend under test: three namespaces, with logs the driver can look at
use futures::Stream;
use serde::{Deserialize, Serialize, Serializer};
use std::collections::BTreeMap;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::time::Instant;
use zod::{Namespace, Zod};

/// what happened on the server's side
#[derive(Debug, Default)]
pub struct Log {
    /// streams that were created, with their tag
    pub opened: Vec<u32>,
    /// streams that were dropped: tag and when
    pub dropped: Vec<(u32, Instant)>,
    /// marks in the order they took effect
    pub marks: Vec<u32>,
    /// endless streams that came to the end of what memory can take
    pub overrun: Vec<u32>,
}

/// what an endless stream may emit before it counts as unstoppable
pub const FLOOD: u64 = 400_000;

pub type SharedLog = Arc<Mutex<Log>>;

pub struct Guard(u32, SharedLog);

impl Guard {
    fn new(tag: u32, log: &SharedLog) -> Self {
        log.lock().unwrap().opened.push(tag);
        Guard(tag, log.clone())
    }
}

impl Drop for Guard {
    fn drop(&mut self) {
        self.1.lock().unwrap().dropped.push((self.0, Instant::now()));
    }
}

#[derive(Namespace)]
#[namespace(name = "Tally")]
pub struct Counter {
    pub total: i64,
    pub texts: Vec<String>,
}

#[derive(Namespace)]
pub struct Other {
    pub total: i64,
    pub log: SharedLog,
}

#[derive(Namespace)]
pub struct Feed {
    pub opened: u64,
    pub log: SharedLog,
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Zod)]
#[zod(namespace = "Counter")]
pub struct Nested {
    pub text: String,
    pub num: Option<i64>,
    pub list: Vec<Kind>,
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Zod)]
#[zod(namespace = "Counter")]
#[serde(tag = "kind", rename_all = "camelCase")]
pub enum Kind {
    Empty,
    Number { value: u64 },
    Pair { left: String, right: bool },
}

/// can not be represented in JSON if told so
#[derive(Debug, Clone, Deserialize, Zod)]
#[zod(namespace = "Feed")]
pub struct Item {
    pub tag: u32,
    pub i: u64,
    pub bad: bool,
    pub form: u8,
}

impl Serialize for Item {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        if self.bad {
            // keys of objects are strings
            let map: BTreeMap<(u8, u8), u8> = [((1, 2), 3)].into_iter().collect();
            return map.serialize(s);
        }
        match (self.form, self.i % 6) {
            // items that equal their predecessors
            (1, _) => (self.tag, self.i / 3).serialize(s),
            (2, _) | (3, 0) => s.serialize_none(),
            // items that look like nothing
            (3, 1) => s.serialize_bool(false),
            (3, 2) => s.serialize_u8(0),
            (3, 3) => s.serialize_str(""),
            (3, 4) => s.collect_seq([(); 0]),
            (3, _) => BTreeMap::<String, u8>::new().serialize(s),
            _ => (self.tag, self.i).serialize(s),
        }
    }
}

#[zod::rpc::namespace]
impl Counter {
    pub async fn add(&mut self, n: i64) -> i64 {
        self.total = self.total.wrapping_add(n);
        self.total
    }
    pub async fn get(&mut self) -> i64 {
        self.total
    }
    pub async fn push(&mut self, s: String, list: Vec<u8>, opt: Option<String>) -> Vec<String> {
        self.texts.push(format!("{s}{list:?}{opt:?}"));
        self.texts.clone()
    }
    /// reads, waits and then writes: anything that gets in between is lost
    pub async fn slow(&mut self, ms: u64, n: i64) -> i64 {
        let before = self.total;
        tokio::time::sleep(Duration::from_millis(ms)).await;
        self.total = before.wrapping_add(n);
        self.total
    }
    pub async fn fail(&mut self, e: String) -> Result<u8, String> {
        self.total = self.total.wrapping_add(1);
        Err(e)
    }
    pub async fn unrep(&mut self, n: i64) -> Item {
        self.total = self.total.wrapping_add(n);
        Item { tag: 0, i: 0, bad: true, form: 0 }
    }
    pub async fn unit(&mut self) {
        self.total = self.total.wrapping_mul(3);
    }
    pub async fn echo(&mut self, v: Nested) -> Nested {
        v
    }
    pub async fn r#type(&mut self, a: (u8, bool), b: BTreeMap<String, i32>) -> usize {
        a.0 as usize + b.len()
    }
}

#[zod::rpc::namespace]
impl Other {
    pub async fn add(&mut self, n: i64) -> i64 {
        self.total = self.total.wrapping_sub(n).wrapping_mul(5);
        self.total
    }
    pub async fn get(&mut self) -> i64 {
        self.total
    }
    #[allow(clippy::too_many_arguments)]
    pub async fn many(
        &mut self, a: u8, b: u8, c: u8, d: u8, e: u8, f: u8, g: u8, h: u8,
        i: Option<bool>, j: Option<bool>, k: Option<bool>, l: Option<bool>,
    ) -> String {
        format!("{:?}{:?}", [a, b, c, d, e, f, g, h], [i, j, k, l])
    }
    /// yields to the others several times
    pub async fn mark(&mut self, tag: u32) -> u64 {
        let n = self.log.lock().unwrap().marks.len() as u64;
        for _ in 0..tag % 4 {
            tokio::task::yield_now().await;
        }
        self.log.lock().unwrap().marks.push(tag);
        n
    }
}

#[zod::rpc::namespace]
impl Feed {
    /// items at the given distances; ends, or stays open for ever after the last one
    pub fn script(&mut self, tag: u32, gaps: Vec<u64>, ends: bool, bad: u64, form: u8) -> impl Stream<Item = Item> {
        self.opened += 1;
        let guard = Guard::new(tag, &self.log);
        futures::stream::unfold((guard, 0usize, gaps), move |(guard, i, gaps)| async move {
            match gaps.get(i) {
                Some(0) => {}
                Some(ms) => tokio::time::sleep(Duration::from_millis(*ms)).await,
                None if ends => return None,
                None => futures::future::pending::<()>().await,
            }
            Some((Item { tag, i: i as u64, bad: bad == i as u64, form }, (guard, i + 1, gaps)))
        })
    }
    /// one item every so often, for ever
    pub fn ticker(&mut self, tag: u32, first: u64, every: u64) -> Pin<Box<dyn Stream<Item = Item> + Send>> {
        self.opened += 1;
        let guard = Guard::new(tag, &self.log);
        Box::pin(futures::stream::unfold((guard, 0u64), move |(guard, i)| async move {
            tokio::time::sleep(Duration::from_millis(if i == 0 { first } else { every })).await;
            Some((Item { tag, i, bad: false, form: 0 }, (guard, i + 1)))
        }))
    }
    /// what the state was when the stream was opened
    pub fn snapshot(&mut self, tag: u32) -> impl Stream<Item = (u32, u64)> {
        let guard = Guard::new(tag, &self.log);
        let n = self.opened;
        futures::stream::unfold((guard, false), move |(guard, done)| async move {
            (!done).then(|| ((tag, n), (guard, true)))
        })
    }
    /// is always ready and never ends
    pub fn flood(&mut self, tag: u32) -> impl Stream<Item = Item> {
        let guard = Guard::new(tag, &self.log);
        futures::stream::unfold((guard, 0u64), move |(guard, i)| async move {
            if i == FLOOD {
                guard.1.lock().unwrap().overrun.push(tag);
                futures::future::pending::<()>().await;
            }
            Some((Item { tag, i, bad: false, form: 0 }, (guard, i + 1)))
        })
    }
    pub async fn get(&mut self) -> u64 {
        self.opened
    }
}

#[derive(zod::rpc::Backend)]
pub struct App {
    pub tally: Counter,
    pub other: Other,
    pub feed: Feed,
}

pub fn app() -> (App, SharedLog) {
    let log = SharedLog::default();
    let app = App {
        tally: Counter { total: 0, texts: vec![] },
        other: Other { total: 1, log: log.clone() },
        feed: Feed { opened: 0, log: log.clone() },
    };
    (app, log)
}
