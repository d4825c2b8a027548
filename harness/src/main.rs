//! Thin, oracle-free driver around the public API of wat_parser, wat_formatter and wat_service.
//! Reads one JSON operation per line on stdin, performs it on the real code and writes one JSON
//! result per line.  It decides nothing: every verdict is taken by the TLA+ specification from
//! what this program reports.
use lsp_types::*;
use rowan::ast::AstNode;
use serde::de::DeserializeOwned;
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;
use wat_formatter::config::{FormatOptions, LanguageOptions, LayoutOptions, LineBreak};
use wat_service::LanguageService;

static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

fn p<T: DeserializeOwned>(v: &Value) -> T {
    serde_json::from_value(v.clone()).unwrap_or_else(|e| {
        eprintln!("driver: bad params {e}: {v}");
        std::process::exit(3)
    })
}
fn j<T: serde::Serialize>(v: T) -> Value {
    serde_json::to_value(v).unwrap()
}

fn query(s: &LanguageService, m: &str, v: &Value) -> Value {
    match m {
        "prepareCallHierarchy" => j(s.prepare_call_hierarchy(p(v))),
        "incomingCalls" => j(s.call_hierarchy_incoming_calls(p(v))),
        "outgoingCalls" => j(s.call_hierarchy_outgoing_calls(p(v))),
        "codeAction" => j(s.code_action(p(v))),
        "completion" => j(s.completion(p(v))),
        "definition" => j(s.goto_definition(p(v))),
        "typeDefinition" => j(s.goto_type_definition(p(v))),
        "declaration" => j(s.goto_declaration(p(v))),
        "pullDiagnostics" => j(s.pull_diagnostics(p(v))),
        "publishDiagnostics" => j(s.publish_diagnostics(p(&v["uri"]))),
        "documentSymbol" => j(s.document_symbol(p(v))),
        "foldingRange" => j(s.folding_range(p(v))),
        "formatting" => j(s.formatting(p(v))),
        "rangeFormatting" => j(s.range_formatting(p(v))),
        "hover" => j(s.hover(p(v))),
        "inlayHint" => j(s.inlay_hint(p(v))),
        "references" => j(s.find_references(p(v))),
        "prepareRename" => j(s.prepare_rename(p(v))),
        "rename" => match s.rename(p(v)) {
            Ok(it) => json!({ "ok": it }),
            Err(e) => json!({ "err": e }),
        },
        "selectionRange" => j(s.selection_range(p(v))),
        "semanticTokensFull" => j(s.semantic_tokens_full(p(v))),
        "semanticTokensRange" => j(s.semantic_tokens_range(p(v))),
        _ => {
            eprintln!("driver: unknown query {m}");
            std::process::exit(3)
        }
    }
}

fn options(v: &Value) -> FormatOptions {
    let mut o = FormatOptions {
        layout: LayoutOptions::default(),
        language: LanguageOptions::default(),
    };
    if let Some(n) = v["width"].as_u64() {
        o.layout.print_width = n as usize;
    }
    if let Some(n) = v["indent"].as_u64() {
        o.layout.indent_width = n as usize;
    }
    if let Some(b) = v["tabs"].as_bool() {
        o.layout.use_tabs = b;
    }
    if v["crlf"].as_bool() == Some(true) {
        o.layout.line_break = LineBreak::Crlf;
    }
    if let Some(b) = v["comments"].as_bool() {
        o.language.format_comments = b;
    }
    if let Some(s) = v["directive"].as_str() {
        o.language.ignore_comment_directive = s.to_string();
    }
    o
}

fn parse(text: &str, dump: bool) -> Value {
    let mut parser = wat_parser::Parser::new(text);
    let root = parser.parse();
    let errors: Vec<Value> = parser
        .errors()
        .iter()
        .map(|e| json!([e.start, e.end, e.message.to_string()]))
        .collect();
    let node = root;
    let toks: Vec<Value> = node
        .descendants_with_tokens()
        .filter_map(|e| e.into_token())
        .map(|t| {
            let r = t.text_range();
            json!([
                format!("{:?}", t.kind()),
                u32::from(r.start()),
                u32::from(r.end()),
                t.text()
            ])
        })
        .collect();
    let mut out = json!({
        "text": node.text().to_string(), "errors": errors, "tokens": toks,
        "range": [u32::from(node.text_range().start()), u32::from(node.text_range().end())],
    });
    if dump {
        // preorder list of nodes: [kind, start, end, depth]
        let mut nodes = vec![];
        let mut depth = 0i64;
        for ev in node.preorder_with_tokens() {
            match ev {
                rowan::WalkEvent::Enter(e) => {
                    let r = e.text_range();
                    nodes.push(json!([
                        format!("{:?}", e.kind()),
                        u32::from(r.start()),
                        u32::from(r.end()),
                        depth,
                        e.as_token().is_some()
                    ]));
                    depth += 1;
                }
                rowan::WalkEvent::Leave(_) => depth -= 1,
            }
        }
        out["nodes"] = Value::Array(nodes);
    }
    out
}

fn step(services: &mut Vec<LanguageService>, v: &Value) -> Value {
    let slot = v["s"].as_u64().unwrap_or(0) as usize;
    match v["op"].as_str().unwrap_or("") {
        "new" => {
            while services.len() <= slot {
                services.push(LanguageService::default());
            }
            services[slot] = LanguageService::default();
            let init: InitializeParams = if v["init"].is_null() {
                InitializeParams::default()
            } else {
                p(&v["init"])
            };
            j(services[slot].initialize(init))
        }
        "raw" => {
            while services.len() <= slot {
                services.push(LanguageService::default());
            }
            services[slot] = LanguageService::default();
            Value::Null
        }
        "commit" => {
            services[slot].commit(p(&v["uri"]), v["text"].as_str().unwrap().to_string());
            Value::Null
        }
        "q" => query(&services[slot], v["m"].as_str().unwrap(), &v["p"]),
        "parse" => parse(
            v["text"].as_str().unwrap(),
            v["dump"].as_bool().unwrap_or(false),
        ),
        "format" => {
            let root = wat_parser::Parser::new(v["text"].as_str().unwrap()).parse();
            let root = wat_syntax::ast::Root::cast(root).expect("not a root node");
            j(wat_formatter::format(&root, &options(&v["opts"])))
        }
        other => {
            eprintln!("driver: unknown op {other}");
            std::process::exit(3)
        }
    }
}

fn main() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        *LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = format!("{msg} @ {loc}");
    }));
    // a large stack, so that the depth of the generated nesting is never what is measured here
    let h = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(|| {
            let stdin = std::io::stdin();
            let stdout = std::io::stdout();
            let mut out = std::io::BufWriter::new(stdout.lock());
            let mut services: Vec<LanguageService> = vec![LanguageService::default()];
            for line in stdin.lock().lines() {
                let line = line.unwrap();
                if line.is_empty() {
                    continue;
                }
                let v: Value = serde_json::from_str(&line).unwrap();
                let r = match catch_unwind(AssertUnwindSafe(|| step(&mut services, &v))) {
                    Ok(r) => json!({ "ok": r }),
                    Err(_) => {
                        json!({ "panic": LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).clone() })
                    }
                };
                serde_json::to_writer(&mut out, &r).unwrap();
                out.write_all(b"\n").unwrap();
                out.flush().unwrap();
            }
            out.flush().unwrap();
        })
        .unwrap();
    if h.join().is_err() {
        std::process::exit(3);
    }
}
