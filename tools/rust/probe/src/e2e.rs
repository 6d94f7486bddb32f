//! serves generated backends line by line, so that a driver can call them and see what happened
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{HashMap, VecDeque};
use std::io::{BufRead, Write};
use zod::rpc::{Backend, SubscriberMap};
use zod::rpc::Request;
use zod::ZodType;

thread_local! {
    static LOG: RefCell<Vec<Value>> = RefCell::new(vec![]);
    static PLAN: RefCell<VecDeque<String>> = RefCell::new(VecDeque::new());
    static TROUBLE: RefCell<Vec<String>> = RefCell::new(vec![]);
}

/// how a value looks as JSON
pub fn val<T: Serialize>(v: &T) -> Value {
    match serde_json::to_value(v) {
        Ok(v) => json!({ "v": v }),
        Err(e) => json!({ "e": e.to_string() }),
    }
}

pub fn called(ns: &str, method: &str, args: Vec<Value>) {
    LOG.with(|l| l.borrow_mut().push(json!([ns, method, args])));
}

fn planned<T: DeserializeOwned>(text: &str) -> T {
    match serde_json::from_str(text) {
        Ok(v) => v,
        Err(e) => {
            println!("{}", json!({"fatal": format!("a method with another result was called: {e}")}));
            std::process::exit(0)
        }
    }
}

/// what the method returns this time
pub fn result<T: DeserializeOwned>() -> T {
    let text = PLAN.with(|p| p.borrow_mut().pop_front());
    match text {
        Some(t) => planned(&t),
        None => {
            println!("{}", json!({"fatal": "a method was called more often than planned"}));
            std::process::exit(0)
        }
    }
}

/// the items of a stream
pub fn items<T: DeserializeOwned>() -> Vec<T> {
    let texts: Vec<String> = PLAN.with(|p| p.borrow_mut().drain(..).collect());
    texts.iter().map(|t| planned(t)).collect()
}

type Rt = fn(&str) -> Value;

#[derive(Default)]
pub struct Types {
    rt: HashMap<String, Rt>,
    text: HashMap<String, Value>,
}

fn outcome<T: Serialize, E: std::fmt::Display>(r: Result<T, E>) -> Value {
    match r {
        Ok(v) => val(&v),
        Err(e) => json!({ "r": e.to_string() }),
    }
}

impl Types {
    pub fn add<T: ZodType + Serialize + DeserializeOwned>(&mut self, key: &str) {
        self.rt.insert(key.into(), |text| {
            // both ways in which a server may read an argument
            let value: Result<Value, _> = serde_json::from_str(text);
            let through = match value {
                Ok(v) => outcome(serde_json::from_value::<T>(v)),
                Err(e) => json!({ "r": e.to_string() }),
            };
            json!([outcome(serde_json::from_str::<T>(text)), through])
        });
        self.text.insert(
            key.into(),
            json!([T::inline_schema(), T::inline().to_string()]),
        );
    }
}

pub fn main<B: Backend + Send + 'static>(mut backend: B, types: Types) {
    let runtime = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let mut subscribers = SubscriberMap::default();
    let (tx, mut rx) = futures::channel::mpsc::unbounded();
    for line in std::io::stdin().lock().lines() {
        let line: Value = serde_json::from_str(&line.unwrap()).unwrap();
        let out = if line.get("code").is_some() {
            json!({"code": B::generate::<zod::rpc::clients::WebsocketClient>(), "types": types.text})
        } else if let Some(list) = line.get("rt") {
            let list: Vec<(String, String)> = serde_json::from_value(list.clone()).unwrap();
            Value::Array(list.iter().map(|(k, t)| (types.rt[k.as_str()])(t)).collect())
        } else {
            let plan: Vec<String> = serde_json::from_value(line["plan"].clone()).unwrap();
            PLAN.with(|p| *p.borrow_mut() = plan.into());
            LOG.with(|l| l.borrow_mut().clear());
            let mut frames: Vec<String> = vec![];
            match serde_json::from_str::<Request>(line["req"].as_str().unwrap()) {
                Err(e) => TROUBLE.with(|t| t.borrow_mut().push(format!("unreadable request: {e}"))),
                Ok(req) => runtime.block_on(async {
                    backend.handle_request(req, tx.clone(), &mut subscribers).await;
                    let mut turns = 0;
                    while subscribers.values().any(|h| !h.is_finished()) && turns < 100_000 {
                        tokio::task::yield_now().await;
                        turns += 1;
                    }
                    if turns == 100_000 {
                        TROUBLE.with(|t| t.borrow_mut().push("a stream does not end".into()));
                    }
                }),
            }
            while let Ok(Some(res)) = rx.try_next() {
                frames.push(serde_json::to_string(&res).unwrap());
            }
            json!({
                "frames": frames,
                "log": LOG.with(|l| l.borrow().clone()),
                "left": PLAN.with(|p| p.borrow().len()),
                "trouble": TROUBLE.with(|t| t.borrow_mut().drain(..).collect::<Vec<_>>()),
            })
        };
        println!("{out}");
        std::io::stdout().flush().unwrap();
    }
}
