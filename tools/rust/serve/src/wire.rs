//! C18: requests and responses as text
use crate::plan::{any_json, bad_text, is_request, text};
use proptest::collection::{btree_map, hash_map, vec};
use proptest::prelude::*;
use serde::ser::{SerializeMap, SerializeSeq};
use serde::{Deserialize, Serialize, Serializer};
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;
use zod::rpc::{Request, Response};

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Case {
    Exec { id: u64, body: Vec<(String, Value)>, at: usize, style: u8, bytes: bool },
    Cancel { id: u64, style: u8 },
    Refused(String),
    Method { id: u64, v: Payload },
    Stream { id: u64, v: Payload },
    Error { id: Option<u64>, text: String },
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Payload {
    Json(Value),
    Wide(#[serde(with = "wide")] i128),
    Floats(Vec<f64>),
    Single(f32),
    Chars(Vec<char>),
    Ints(BTreeMap<i64, u8>),
    Opt(Option<Option<u8>>),
    Unit,
    Bytes(Vec<u8>),
    /// JSON has nothing for it
    Hole { before: Vec<Value>, keys: bool, deep: u8 },
}

mod wide {
    use serde::{Deserialize, Deserializer, Serializer};
    pub fn serialize<S: Serializer>(v: &i128, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&v.to_string())
    }
    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<i128, D::Error> {
        Ok(String::deserialize(d)?.parse().unwrap())
    }
}

/// what a service would return
struct Out<'a>(&'a Payload);
struct Hole<'a>(&'a [Value], bool, u8);

impl Serialize for Hole<'_> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        if self.2 > 0 {
            let mut m = s.serialize_map(None)?;
            for (i, v) in self.0.iter().enumerate() {
                m.serialize_entry(&i.to_string(), v)?;
            }
            m.serialize_entry("inner", &Hole(self.0, self.1, self.2 - 1))?;
            return m.end();
        }
        if self.1 {
            let mut m = s.serialize_map(None)?;
            m.serialize_entry(&(1, 2), &3)?;
            m.end()
        } else {
            let mut q = s.serialize_seq(None)?;
            for v in self.0 {
                q.serialize_element(v)?;
            }
            Err(serde::ser::Error::custom("no JSON for this"))
        }
    }
}

impl Serialize for Out<'_> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self.0 {
            Payload::Json(v) => v.serialize(s),
            Payload::Wide(n) => n.serialize(s),
            Payload::Floats(f) => f.serialize(s),
            Payload::Single(f) => f.serialize(s),
            Payload::Chars(c) => c.serialize(s),
            Payload::Ints(m) => m.serialize(s),
            Payload::Opt(o) => o.serialize(s),
            Payload::Unit => ().serialize(s),
            Payload::Bytes(b) => s.serialize_bytes(b),
            Payload::Hole { before, keys, deep } => Hole(before, *keys, *deep).serialize(s),
        }
    }
}

impl Payload {
    /// what it should be in JSON
    fn json(&self) -> Option<Value> {
        Some(match self {
            Payload::Json(v) => v.clone(),
            Payload::Wide(n) => match (u64::try_from(*n), i64::try_from(*n)) {
                (Ok(n), _) => json!(n),
                (_, Ok(n)) => json!(n),
                _ => return None,
            },
            Payload::Floats(f) => json!(f),
            Payload::Single(f) => json!(*f as f64),
            Payload::Chars(c) => json!(c.iter().map(|c| c.to_string()).collect::<Vec<_>>()),
            Payload::Ints(m) => Value::Object(m.iter().map(|(k, v)| (k.to_string(), json!(v))).collect()),
            Payload::Opt(o) => match o {
                Some(Some(n)) => json!(n),
                _ => Value::Null,
            },
            Payload::Unit => Value::Null,
            Payload::Bytes(b) => json!(b),
            Payload::Hole { .. } => return None,
        })
    }
}

/// text that reads as the value, written in one of many ways
pub fn write(v: &Value, style: u8, out: &mut String) {
    let ws = |out: &mut String, n: u8| {
        if style >> n & 1 == 1 {
            out.push_str([" ", "\n", "\t", "\r\n  "][(style >> 4 & 3) as usize]);
        }
    };
    match v {
        Value::Array(a) => {
            out.push('[');
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                ws(out, 0);
                write(x, style, out);
            }
            ws(out, 1);
            out.push(']');
        }
        Value::Object(o) => {
            let members: Vec<_> = o.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
            write_members(&members, style, out);
        }
        Value::String(s) => write_str(s, style, out),
        _ => out.push_str(&v.to_string()),
    }
}

fn write_str(s: &str, style: u8, out: &mut String) {
    if style & 0x40 == 0 {
        out.push_str(&json!(s).to_string());
        return;
    }
    out.push('"');
    let mut buf = [0; 2];
    for (i, c) in s.chars().enumerate() {
        if (c as u32) < 32 || c == '"' || c == '\\' || c == '/' && i % 2 == 0 || !c.is_ascii() || i % 5 == 0 {
            for u in c.encode_utf16(&mut buf) {
                match i % 2 {
                    0 => out.push_str(&format!("\\u{u:04x}")),
                    _ => out.push_str(&format!("\\u{u:04X}")),
                }
            }
        } else {
            out.push(c);
        }
    }
    out.push('"');
}

fn write_members(members: &[(String, Value)], style: u8, out: &mut String) {
    out.push('{');
    for (i, (k, x)) in members.iter().enumerate() {
        if i > 0 {
            out.push(',');
        }
        if style & 2 != 0 {
            out.push('\n');
        }
        write_str(k, style, out);
        if style & 4 != 0 {
            out.push(' ');
        }
        out.push(':');
        if style & 8 != 0 {
            out.push_str("  ");
        }
        write(x, style, out);
    }
    out.push('}');
}

/// equal, when numbers are read the way serde_json reads them (which may be off in the last digits)
pub fn same(a: &Value, b: &Value) -> bool {
    let reread = |v: &Value| serde_json::from_str::<Value>(&v.to_string()).unwrap();
    a == b || *a == reread(b)
}

pub fn check(c: &Case) -> Result<(), String> {
    match c {
        Case::Exec { id, body, at, style, bytes } => {
            let mut members: Vec<(String, Value)> = vec![];
            let mut map = Map::new();
            for (k, v) in body {
                if k != "id" && map.insert(k.clone(), v.clone()).is_none() {
                    members.push((k.clone(), v.clone()));
                }
            }
            members.insert(at % (members.len() + 1), ("id".into(), json!(id)));
            let mut inner = String::new();
            write_members(&members, *style, &mut inner);
            let text = format!("{{{}\"exec\":{inner}}}", if style & 1 == 1 { " " } else { "" });
            let r = match bytes {
                true => serde_json::from_slice::<Request>(text.as_bytes()),
                false => serde_json::from_str::<Request>(&text),
            };
            match r {
                Ok(Request::Exec { id: got, value }) => {
                    if got as u64 != *id {
                        return Err(format!("id {id} became {got} in {text}"));
                    }
                    if !same(&value, &Value::Object(map.clone())) {
                        return Err(format!("the body {} became {value}", Value::Object(map)));
                    }
                    Ok(())
                }
                Ok(r) => Err(format!("{text} became {r:?}")),
                Err(e) => Err(format!("{text} is refused: {e}")),
            }
        }
        Case::Cancel { id, style } => {
            let text = format!(
                "{}{{ \"cancelStream\" :{}{{\"id\":{id}{}}}}}",
                if style & 1 == 1 { " " } else { "" },
                if style & 2 == 2 { "\n" } else { "" },
                if style & 4 == 4 { "\t" } else { "" }
            );
            match serde_json::from_str::<Request>(&text) {
                Ok(Request::CancelStream { id: got }) if got as u64 == *id => Ok(()),
                r => Err(format!("{text} became {r:?}")),
            }
        }
        Case::Refused(text) => {
            if is_request(text) != Some(false) {
                return Ok(());
            }
            match serde_json::from_str::<Request>(text) {
                Err(_) => Ok(()),
                Ok(r) => Err(format!("{text} is accepted as {r:?}")),
            }
        }
        Case::Method { id, v } => response("method", *id, v, Response::method(*id as usize, Out(v))),
        Case::Stream { id, v } => response("stream", *id, v, Response::stream(*id as usize, Out(v))),
        Case::Error { id, text } => {
            let Err(e) = serde_json::from_str::<Vec<Request>>(text) else {
                return Ok(());
            };
            let display = e.to_string();
            let r = Response::error(id.map(|x| x as usize), e);
            let got = read(&r)?;
            let want_id = json!(id);
            let ok = got.len() == 1
                && got.get("error").and_then(|e| e.as_object()).is_some_and(|e| {
                    e.len() == 2 && e.get("id") == Some(&want_id) && mentions(&e["data"], &display)
                });
            match ok {
                true => Ok(()),
                false => Err(format!("the error {display:?} for {id:?} became {}", Value::Object(got))),
            }
        }
    }
}

fn mentions(v: &Value, text: &str) -> bool {
    match v {
        Value::String(s) => s.contains(text),
        Value::Array(a) => a.iter().any(|x| mentions(x, text)),
        Value::Object(o) => o.values().any(|x| mentions(x, text)),
        _ => false,
    }
}

fn read(r: &Response) -> Result<Map<String, Value>, String> {
    let text = serde_json::to_string(r).map_err(|e| format!("{r:?} can not be encoded: {e}"))?;
    match serde_json::from_str(&text) {
        Ok(Value::Object(o)) => Ok(o),
        x => Err(format!("{r:?} is encoded as {text}, which is {x:?}")),
    }
}

fn response(kind: &str, id: u64, v: &Payload, r: Response) -> Result<(), String> {
    let got = read(&r)?;
    let ok = match v.json() {
        Some(data) => same(&Value::Object(got.clone()), &json!({ kind: { "id": id, "data": data } })),
        None => {
            got.len() == 1
                && got.get("error").and_then(|e| e.as_object()).is_some_and(|e| {
                    e.len() == 2 && e.get("id") == Some(&json!(id)) && e.get("data").is_some_and(|d| !d.is_null())
                })
        }
    };
    match ok {
        true => Ok(()),
        false => Err(format!("a {kind} response for {id} with {v:?} became {}", Value::Object(got))),
    }
}

fn payload() -> BoxedStrategy<Payload> {
    let wide = prop_oneof![
        any::<i128>(),
        any::<i64>().prop_map(i128::from),
        any::<u64>().prop_map(i128::from),
        Just(i128::from(u64::MAX) + 1),
        Just(i128::from(i64::MIN) - 1),
        Just(i128::from(i64::MIN)),
        Just(i128::MAX),
    ];
    let many = prop_oneof![
        hash_map("[a-z]{1,4}", leaf(), 20..300).prop_map(|m| Value::Object(m.into_iter().collect())),
        vec(leaf(), 20..600).prop_map(Value::from),
    ];
    let float = any::<f64>().prop_filter("finite", |x| x.is_finite());
    prop_oneof![
        6 => any_json().prop_map(Payload::Json),
        1 => many.prop_map(Payload::Json),
        2 => wide.prop_map(Payload::Wide),
        1 => vec(float, 0..4).prop_map(Payload::Floats),
        1 => any::<f32>().prop_filter("finite", |x| x.is_finite()).prop_map(Payload::Single),
        1 => vec(any::<char>(), 0..6).prop_map(Payload::Chars),
        1 => btree_map(any::<i64>(), any::<u8>(), 0..4).prop_map(Payload::Ints),
        1 => any::<Option<Option<u8>>>().prop_map(Payload::Opt),
        1 => Just(Payload::Unit),
        1 => vec(any::<u8>(), 0..5).prop_map(Payload::Bytes),
        3 => (vec(any_json(), 0..3), any::<bool>(), 0u8..4)
            .prop_map(|(before, keys, deep)| Payload::Hole { before, keys, deep }),
    ]
    .boxed()
}

fn leaf() -> BoxedStrategy<Value> {
    prop_oneof![Just(Value::Null), any::<bool>().prop_map(Value::from), any::<u64>().prop_map(Value::from), text().prop_map(Value::from)]
        .boxed()
}

fn deep() -> BoxedStrategy<Value> {
    (any_json(), 0usize..100, any::<u64>())
        .prop_map(|(mut v, n, bits)| {
            for i in 0..n {
                v = if bits >> (i % 64) & 1 == 0 { json!([v]) } else { json!({ "x": v }) };
            }
            v
        })
        .boxed()
}

pub fn case() -> BoxedStrategy<Case> {
    let id = prop_oneof![
        2 => 0u64..5,
        2 => any::<u64>(),
        1 => Just(u64::MAX),
        1 => Just(1 << 53),
        1 => Just((1 << 53) + 1),
        1 => Just(i64::MAX as u64 + 1),
    ];
    let key = prop_oneof![
        proptest::sample::select(vec![
            "namespace", "method", "args", "exec", "cancelStream", "ID", "Id", "data", "value", "", "__proto__",
            "$serde_json::private::Number", "type",
        ])
        .prop_map(String::from),
        text(),
    ];
    let many = hash_map("[a-z]{1,4}", leaf(), 20..300).prop_map(|m| Value::Object(m.into_iter().collect()));
    let value = prop_oneof![20 => any_json(), 4 => deep(), 1 => many];
    let body = hash_map(key, value, 0..6).prop_map(|m| m.into_iter().collect::<Vec<_>>());
    prop_oneof![
        6 => (id.clone(), body, any::<usize>(), any::<u8>(), any::<bool>())
            .prop_map(|(id, body, at, style, bytes)| Case::Exec { id, body, at, style, bytes }),
        1 => (id.clone(), any::<u8>()).prop_map(|(id, style)| Case::Cancel { id, style }),
        4 => bad_text().prop_map(Case::Refused),
        4 => (id.clone(), payload()).prop_map(|(id, v)| Case::Method { id, v }),
        4 => (id.clone(), payload()).prop_map(|(id, v)| Case::Stream { id, v }),
        2 => (proptest::option::of(id), bad_text()).prop_map(|(id, text)| Case::Error { id, text }),
    ]
    .boxed()
}
