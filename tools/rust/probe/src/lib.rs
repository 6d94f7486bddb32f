//! what a generated bin uses to talk to the driver
use serde::de::DeserializeOwned;
use std::io::{BufRead, Write};
use zod::{TsTypeDef, ZodType};

pub use serde;
pub use serde_json;

pub mod e2e;

pub struct Probe {
    id: &'static str,
    schema: fn() -> String,
    inline_schema: fn() -> String,
    type_def: fn() -> TsTypeDef,
    inline: fn() -> zod::InlinedType,
    docs: fn() -> Option<&'static str>,
    de: fn(&str) -> Result<(), String>,
}

/// `Z` is the type under test, `D` what serde reads instead of it (usually the same)
pub fn probe<Z: ZodType, D: DeserializeOwned>(id: &'static str) -> Probe {
    Probe {
        id,
        schema: Z::schema,
        inline_schema: Z::inline_schema,
        type_def: Z::type_def,
        inline: Z::inline,
        docs: Z::docs,
        de: |s| serde_json::from_str::<D>(s).map(|_| ()).map_err(|e| e.to_string()),
    }
}

fn kind(t: &TsTypeDef) -> &'static str {
    match t {
        TsTypeDef::Interface(_) => "interface",
        TsTypeDef::Type(_) => "type",
    }
}

pub fn main(probes: Vec<Probe>, extra: fn() -> serde_json::Value) {
    let args: Vec<String> = std::env::args().collect();
    let out = std::io::stdout();
    match args[1].as_str() {
        // every probe is announced before it runs, so that a crash can be attributed
        "info" => {
            let skip: usize = args[2].parse().unwrap();
            for p in probes.iter().skip(skip) {
                let mut o = out.lock();
                writeln!(o, "{}", serde_json::json!({"begin": p.id})).unwrap();
                o.flush().unwrap();
                drop(o);
                let td = (p.type_def)();
                let v = serde_json::json!({
                    "id": p.id,
                    "schema": (p.schema)(),
                    "inline_schema": (p.inline_schema)(),
                    "type_def": td.to_string(),
                    "kind": kind(&td),
                    "inline": (p.inline)().to_string(),
                    "docs": (p.docs)(),
                });
                let mut o = out.lock();
                writeln!(o, "{v}").unwrap();
                o.flush().unwrap();
            }
        }
        "de" => {
            let f = std::fs::File::open(&args[2]).unwrap();
            let map: std::collections::HashMap<_, _> = probes.iter().map(|p| (p.id, p)).collect();
            for line in std::io::BufReader::new(f).lines() {
                let (id, docs): (String, Vec<String>) = serde_json::from_str(&line.unwrap()).unwrap();
                let p = map[id.as_str()];
                let res: Vec<Option<String>> = docs.iter().map(|d| (p.de)(d).err()).collect();
                println!("{}", serde_json::to_string(&(id, res)).unwrap());
            }
        }
        "extra" => println!("{}", extra()),
        _ => panic!("unknown command"),
    }
}

/// a client of one's own
pub struct OtherClient;
pub const OTHER_CLIENT: &str = "/* {} another client */\nexport const z = 1;\n";

impl zod::__private::codegen::ClientCodegen for OtherClient {
    fn get() -> String {
        OTHER_CLIENT.into()
    }
}

/// what is generated for it is what every client starts with
#[derive(zod::rpc::Backend)]
pub struct NoNamespaces {}

pub fn none() -> serde_json::Value {
    serde_json::Value::Null
}

fn defs<'a>(ds: impl IntoIterator<Item = &'a &'static zod::NamespaceMemberDefinition>) -> serde_json::Value {
    ds.into_iter()
        .map(|d| {
            let td = d.type_def();
            serde_json::json!({
                "ns": d.namespace(), "name": d.name(), "schema": d.schema(),
                "type_def": td.to_string(), "kind": kind(&td),
            })
        })
        .collect()
}

pub fn collect() -> serde_json::Value {
    zod::NamespaceMemberDefinition::collect()
        .iter()
        .map(|(ns, ds)| (ns.to_string(), defs(ds)))
        .collect::<serde_json::Map<_, _>>()
        .into()
}

pub fn backend<B: zod::rpc::Backend>() -> serde_json::Value {
    serde_json::json!({
        "ns_names": B::NS_NAMES,
        "code": B::generate::<zod::rpc::clients::WebsocketClient>(),
        "again": B::generate::<zod::rpc::clients::WebsocketClient>(),
        "with_options": B::generate_with_options::<zod::rpc::clients::WebsocketClient>(Default::default()),
        "other_client": B::generate::<OtherClient>(),
        "rpc_members": B::rpc_members(),
        "zod_namespaces": B::zod_namespaces()
            .iter()
            .map(|(ns, ds)| (ns.to_string(), defs(ds)))
            .collect::<serde_json::Map<_, _>>(),
    })
}

pub fn namespace<N: zod::Namespace>() -> serde_json::Value {
    serde_json::json!({ "name": N::NAME, "members": defs(&N::members()), "docs": N::docs() })
}

pub fn service<N: zod::__private::codegen::RpcNamespace>() -> serde_json::Value {
    serde_json::json!(N::rpc_members()
        .iter()
        .map(|x| (x.ns_name().to_string(), x.decl()))
        .collect::<Vec<_>>())
}
