//! Line-oriented driver: one JSON request per input line, one JSON response per output line.
//! It only calls the public API of the crates in /repo; it contains no expectations of its own.
use fajt_ast::traverse::{Traverse, TraceVisitor};
use fajt_ast::{Expr, Program, SourceType, Stmt};
use fajt_codegen::{generate_code, GeneratorContext};
use fajt_common::io::{PeekRead, PeekReader, ReReadWithState};
use fajt_lexer::error::Error as LexError;
use fajt_lexer::token::{Token, TokenValue};
use fajt_lexer::{Lexer, LexerState};
use fajt_parser::error::emitter::ErrorEmitter;
use fajt_parser::{Parse, Parser};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::io::{BufRead, Seek, SeekFrom, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

thread_local! { static PANIC: RefCell<String> = RefCell::new(String::new()); }

fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC.with(|p| p.borrow().clone()))
}

fn lex_err(e: &LexError) -> Value {
    let mut v = serde_json::to_value(e).unwrap();
    v["display"] = json!(e.to_string());
    v
}

fn state_of(name: &str) -> LexerState {
    match name {
        "default" => LexerState::default(),
        "nohtml" => LexerState::default().with_html_comments_allowed(false),
        "regex" => LexerState::regex_allowed(),
        "regex_nohtml" => LexerState::regex_allowed().with_html_comments_allowed(false),
        "template" => LexerState::inside_template(),
        other => panic!("unknown lexer state {other}"),
    }
}

fn tok_result(r: Result<Token, LexError>) -> Value {
    match r {
        Ok(t) => json!({"tok": serde_json::to_value(&t).unwrap()}),
        Err(e) => json!({"err": lex_err(&e)}),
    }
}

/// Drive the lexer: ops are "read", ["state", S], ["rewind", k] (k = index of an earlier token),
/// ["reread", S] (read_with_state).
fn lex(req: &Value) -> Value {
    let src = req["src"].as_str().unwrap();
    let mut out = Vec::new();
    let mut seen: Vec<Token> = Vec::new();
    let mut lexer = match Lexer::new(src) {
        Ok(l) => l,
        Err(e) => return json!({"new_err": lex_err(&e)}),
    };
    if let Some(s) = req["mode"].as_str() {
        lexer.set_state(state_of(s));
    }
    if let Some(ops) = req["ops"].as_array() {
        for op in ops {
            if op == "read" {
                let r = lexer.read();
                if let Ok(t) = &r {
                    seen.push(t.clone());
                }
                out.push(tok_result(r));
            } else {
                match op[0].as_str().unwrap() {
                    "state" => {
                        lexer.set_state(state_of(op[1].as_str().unwrap()));
                        out.push(json!({}));
                    }
                    "rewind" => {
                        let k = op[1].as_u64().unwrap() as usize;
                        let t = seen[k].clone();
                        lexer.rewind_before(&t);
                        out.push(json!({}));
                    }
                    "reread" => {
                        let r = lexer.read_with_state(state_of(op[1].as_str().unwrap()));
                        if let Ok((_, t)) = &r {
                            seen.push(t.clone());
                        }
                        let end = r.as_ref().ok().map(|(e, _)| *e);
                        let mut v = tok_result(r.map(|(_, t)| t));
                        v["end"] = json!(end);
                        out.push(v);
                    }
                    o => panic!("unknown lex op {o}"),
                }
            }
        }
    } else {
        loop {
            let r = lexer.read();
            let stop = r.is_err();
            out.push(tok_result(r));
            if stop || out.len() > 100000 {
                break;
            }
        }
    }
    json!({ "out": out })
}

/// The tokens of `pre c post` for every character c of the ranges, as runs of characters with the
/// same outcome up to the character itself and its length.
fn classes(req: &Value) -> Value {
    let (pre, post) = (req["pre"].as_str().unwrap(), req["post"].as_str().unwrap());
    let mode = req["mode"].as_str().unwrap();
    let mut sigs: Vec<String> = Vec::new();
    let mut runs: Vec<(u32, u32, usize)> = Vec::new();
    for range in req["ranges"].as_array().unwrap() {
        let (from, to) = (range[0].as_u64().unwrap() as u32, range[1].as_u64().unwrap() as u32);
        for c in (from..=to).filter_map(char::from_u32) {
            let src = format!("{pre}{c}{post}");
            let sig = guarded(|| outcome(&src, c, pre.len(), mode)).unwrap_or("panic".to_string());
            let i = match sigs.iter().position(|s| *s == sig) {
                Some(i) => i,
                None => {
                    sigs.push(sig);
                    sigs.len() - 1
                }
            };
            match runs.last_mut() {
                Some(r) if r.2 == i => r.1 = c as u32,
                _ => runs.push((c as u32, c as u32, i)),
            }
        }
    }
    json!({ "runs": runs, "sigs": sigs })
}

fn outcome(src: &str, c: char, hole: usize, mode: &str) -> String {
    let place = |p: usize| {
        if p <= hole {
            p.to_string()
        } else if p < hole + c.len_utf8() {
            format!("inside{p}")
        } else {
            (p - c.len_utf8() + 1).to_string()
        }
    };
    let mut lexer = match Lexer::new(src) {
        Ok(l) => l,
        Err(_) => return "none".to_string(),
    };
    lexer.set_state(state_of(mode));
    let mut out = String::new();
    loop {
        let r = lexer.read();
        lexer.set_state(if mode == "template" { LexerState::default() } else { state_of(mode) });
        match r {
            Ok(t) => {
                let v = serde_json::to_string(&t.value).unwrap().replace(c, "\u{0}");
                out += &format!("{v} {} {} {};", place(t.span.start), place(t.span.end), t.first_on_line);
            }
            Err(e) => {
                let k = format!("{:?}", e.kind());
                return out + k.split(|c: char| !c.is_alphanumeric()).next().unwrap();
            }
        }
        if out.len() > 10000 {
            return "endless".to_string();
        }
    }
}

/// Drive a PeekReader over the lexer: ops "consume", ["rewind", k], ["reread", S]; after every
/// operation the observable state (current, peek, position) is logged.
fn reader(req: &Value) -> Value {
    let src = req["src"].as_str().unwrap();
    let mut lexer = match Lexer::new(src) {
        Ok(l) => l,
        Err(e) => return json!({"new_err": lex_err(&e)}),
    };
    if let Some(s) = req["mode"].as_str() {
        lexer.set_state(state_of(s));
    }
    let mut rd = match PeekReader::new(lexer) {
        Ok(r) => r,
        Err(e) => return json!({"new_err": lex_err(&e)}),
    };
    let mut seen: Vec<Token> = Vec::new();
    let obs = |rd: &PeekReader<Token, Lexer>, res: Value| {
        json!({
            "res": res,
            "cur": match rd.current() { Ok(t) => json!({"tok": t}), Err(e) => json!({"err": lex_err(e)}) },
            "peek": match rd.peek() { Ok(t) => json!({"tok": t}), Err(e) => json!({"err": lex_err(e)}) },
            "pos": rd.position(),
        })
    };
    let mut out = vec![obs(&rd, json!({}))];
    for op in req["ops"].as_array().unwrap() {
        let res = if op == "consume" {
            let r = rd.consume();
            if let Ok(t) = &r {
                seen.push(t.clone());
            }
            tok_result(r)
        } else {
            match op[0].as_str().unwrap() {
                "rewind" => {
                    let k = op[1].as_u64().unwrap() as usize;
                    if k < seen.len() {
                        let t = seen[k].clone();
                        seen.truncate(k);
                        match rd.rewind_to(&t) {
                            Ok(()) => json!({"ok": true}),
                            Err(e) => json!({"err": lex_err(&e)}),
                        }
                    } else {
                        json!({"skipped": true})
                    }
                }
                "reread" => match rd.reread_with_state(state_of(op[1].as_str().unwrap())) {
                    Ok(()) => json!({"ok": true}),
                    Err(e) => json!({"err": lex_err(&e)}),
                },
                o => panic!("unknown reader op {o}"),
            }
        };
        out.push(obs(&rd, res));
    }
    json!({ "out": out })
}

/// Char-level PeekReader (the other instantiation of the generic reader).
fn chars(req: &Value) -> Value {
    let src = req["src"].as_str().unwrap();
    let off = req["offset"].as_u64().unwrap_or(0) as usize;
    let mut rd = PeekReader::with_offset(src.char_indices(), off).unwrap();
    let mut out = Vec::new();
    loop {
        out.push(json!({"cur": rd.current().ok(), "peek": rd.peek().ok(), "pos": rd.position()}));
        if rd.consume().is_err() {
            break;
        }
    }
    json!({"out": out, "end": rd.position()})
}

type Log = Rc<RefCell<Vec<Value>>>;

/// Recording token source: sits between the PeekReader and the lexer.
struct Rec<'a> {
    inner: Lexer<'a>,
    log: Log,
}

impl Seek for Rec<'_> {
    fn seek(&mut self, pos: SeekFrom) -> std::io::Result<u64> {
        let r = self.inner.seek(pos);
        self.log.borrow_mut().push(json!({"ev": "seek", "pos": r.as_ref().ok()}));
        r
    }
}

impl PeekRead<Token> for Rec<'_> {
    type Error = LexError;
    fn next(&mut self) -> Result<(usize, Token), LexError> {
        let r = self.inner.next();
        let mut v = tok_result(r.clone().map(|(_, t)| t));
        v["ev"] = json!("next");
        v["end"] = json!(r.as_ref().ok().map(|(e, _)| *e));
        self.log.borrow_mut().push(v);
        r
    }
}

impl ReReadWithState<Token> for Rec<'_> {
    type Error = LexError;
    type State = LexerState;
    fn rewind_before(&mut self, item: &Token) {
        self.inner.rewind_before(item);
        self.log
            .borrow_mut()
            .push(json!({"ev": "rewind", "to": serde_json::to_value(item).unwrap()}));
    }
    fn read_with_state(&mut self, state: LexerState) -> Result<(usize, Token), LexError> {
        let r = self.inner.read_with_state(state);
        let mut v = tok_result(r.clone().map(|(_, t)| t));
        v["ev"] = json!("reread");
        v["end"] = json!(r.as_ref().ok().map(|(e, _)| *e));
        self.log.borrow_mut().push(v);
        r
    }
}

fn report(e: &fajt_parser::error::Error, src: &str, file: &str) -> Value {
    let r = guarded(|| {
        let mut out: Vec<u8> = Vec::new();
        ErrorEmitter::new(file, src, &mut out)
            .emit_error(e)
            .map(|_| String::from_utf8_lossy(&out).to_string())
    });
    match r {
        Ok(Ok(s)) => json!({ "text": s }),
        Ok(Err(e)) => json!({"io": e.to_string()}),
        Err(p) => json!({ "panic": p }),
    }
}

fn perr(e: &fajt_parser::error::Error, src: &str, req: &Value) -> Value {
    let dbg = format!("{e:?}");
    let mut span = Value::Null;
    if let Some(i) = dbg.rfind("span: Span { start: ") {
        let rest = &dbg[i + 20..];
        let nums: Vec<usize> = rest
            .split(|c: char| !c.is_ascii_digit())
            .filter(|s| !s.is_empty())
            .take(2)
            .map(|s| s.parse().unwrap_or(usize::MAX))
            .collect();
        span = json!(nums);
    }
    let kind = dbg.strip_prefix("Error { kind: ").unwrap_or(&dbg);
    let kind: String = kind.chars().take_while(|c| c.is_alphanumeric()).collect();
    let mut v = json!({"kind": kind, "display": e.to_string(), "span": span});
    if has(req, "report") {
        v["report"] = report(e, src, req["file"].as_str().unwrap_or("f.js"));
    }
    v
}

fn has(req: &Value, w: &str) -> bool {
    req["want"].as_array().map_or(false, |a| a.iter().any(|x| x == w))
}

fn print_code<T: Traverse + Clone2>(node: &T, minified: bool) -> Value {
    match guarded(|| {
        let mut copy = node.dup();
        let mut ctx = GeneratorContext::new();
        ctx.minified = minified;
        generate_code(&mut copy, ctx)
    }) {
        Ok(s) => json!({ "text": s }),
        Err(p) => json!({ "panic": p }),
    }
}

/// Copy through JSON for the types that do not implement Clone (Program, StmtList).
trait Clone2 {
    fn dup(&self) -> Self;
}
impl<T: serde::Serialize + for<'de> serde::Deserialize<'de>> Clone2 for T {
    fn dup(&self) -> Self {
        serde_json::from_value(serde_json::to_value(self).unwrap()).unwrap()
    }
}

fn one<T>(req: &Value, src: &str, st: SourceType) -> Value
where
    T: Parse + Traverse + std::fmt::Debug + serde::Serialize + for<'de> serde::Deserialize<'de> + PartialEq,
{
    let parsed = guarded(|| fajt_parser::parse::<T>(src, st));
    let mut v = match parsed {
        Err(p) => return json!({ "panic": p }),
        Ok(Err(e)) => return json!({"err": perr(&e, src, req)}),
        Ok(Ok(node)) => {
            let ast = match guarded(|| serde_json::to_value(&node)) {
                Ok(Ok(a)) => a,
                Ok(Err(e)) => return json!({"ser_err": e.to_string()}),
                Err(p) => return json!({"ser_panic": p}),
            };
            let mut v = json!({});
            for (key, min) in [("pretty", false), ("min", true)] {
                if has(req, key) {
                    let mut r = print_code(&node, min);
                    if let Some(text) = r["text"].as_str().map(|s| s.to_owned()) {
                        let back = guarded(|| fajt_parser::parse::<T>(&text, st));
                        match back {
                            Err(p) => r["back_panic"] = json!(p),
                            Ok(Err(e)) => r["back_err"] = perr(&e, &text, &Value::Null),
                            Ok(Ok(b)) => {
                                r["back"] = serde_json::to_value(&b).unwrap();
                                let again = print_code(&b, min);
                                r["again"] = again;
                            }
                        }
                    }
                    v[key] = r;
                }
            }
            if has(req, "debug") {
                v["debug"] = json!(format!("{node:#?}"));
            }
            if has(req, "visits") {
                let mut copy: T = node.dup();
                v["visits"] = match guarded(|| {
                    let mut t = TraceVisitor::new();
                    copy.traverse(&mut t);
                    t.visits
                }) {
                    Ok(x) => json!(x),
                    Err(p) => json!({ "panic": p }),
                };
                v["unchanged"] = json!(copy == node);
            }
            if has(req, "serde") {
                let text = serde_json::to_string(&node).unwrap();
                v["serde"] = match guarded(|| serde_json::from_str::<T>(&text)) {
                    Err(p) => json!({ "panic": p }),
                    Ok(Err(e)) => json!({"err": e.to_string()}),
                    Ok(Ok(b)) => json!({"same": b == node, "text_same": serde_json::to_string(&b).unwrap() == text}),
                };
            }
            if !has(req, "noast") {
                v["ast"] = ast;
            }
            v
        }
    };
    if has(req, "again") {
        let second = guarded(|| fajt_parser::parse::<T>(src, st));
        v["again_same"] = json!(matches!(&second, Ok(Ok(b)) if serde_json::to_value(b).ok() == v.get("ast").cloned()));
    }
    v
}

fn traced<T: Parse + serde::Serialize>(src: &str, st: SourceType) -> Value {
    let log: Log = Rc::new(RefCell::new(Vec::new()));
    let l2 = log.clone();
    let r = guarded(move || {
        let mut lexer = Lexer::new(src).unwrap();
        if st == SourceType::Module {
            lexer.set_state(LexerState::default().with_html_comments_allowed(false));
        }
        let mut reader = PeekReader::new(Rec { inner: lexer, log: l2 }).unwrap();
        let r = Parser::parse::<T>(&mut reader, st);
        (r.map(|x| serde_json::to_value(&x).unwrap()).map_err(|e| perr(&e, src, &Value::Null)), reader.position())
    });
    let mut v = match r {
        Ok((Ok(ast), p)) => json!({"ast": ast, "pos": p}),
        Ok((Err(e), p)) => json!({"err": e, "pos": p}),
        Err(p) => json!({ "panic": p }),
    };
    let events = log.borrow().clone();
    v["events"] = json!(events);
    v
}

fn parse(req: &Value) -> Value {
    let src = req["src"].as_str().unwrap();
    let goal = req["goal"].as_str().unwrap_or("script");
    let st = if goal == "module" || req["module"] == json!(true) {
        SourceType::Module
    } else {
        SourceType::Script
    };
    match goal {
        "expr" => one::<Expr>(req, src, st),
        "stmt" => one::<Stmt>(req, src, st),
        _ => one::<Program>(req, src, st),
    }
}

/// Deserialise an AST given as JSON (a Program), then run the requested observers on it.
fn from_ast(req: &Value) -> Value {
    let r = guarded(|| serde_json::from_value::<Program>(req["ast"].clone()));
    match r {
        Err(p) => json!({ "panic": p }),
        Ok(Err(e)) => json!({"de_err": e.to_string()}),
        Ok(Ok(node)) => {
            let mut v = json!({"ast": serde_json::to_value(&node).unwrap()});
            if has(req, "pretty") {
                v["pretty"] = print_code(&node, false);
            }
            if has(req, "min") {
                v["min"] = print_code(&node, true);
            }
            v
        }
    }
}

/// Visitor that declines to enter the children of the nodes with the given numbers (nodes are
/// numbered as they are entered) and writes given values into others when it enters or leaves them.
#[derive(Default)]
struct Edit {
    visits: Vec<&'static str>,
    count: usize,
    open: Vec<usize>,
    decline: std::collections::HashSet<usize>,
    on_enter: std::collections::HashMap<usize, Value>,
    on_exit: std::collections::HashMap<usize, Value>,
}
macro_rules! editor {
    ($($ty:ty, $enter:ident, $exit:ident);* $(;)?) => {
        impl fajt_ast::traverse::Visitor for Edit {
            $(
                fn $enter(&mut self, node: &mut $ty) -> bool {
                    self.visits.push(stringify!($enter));
                    let k = self.count;
                    self.count += 1;
                    self.open.push(k);
                    if let Some(v) = self.on_enter.remove(&k) {
                        *node = serde_json::from_value(v).expect("value of another kind");
                    }
                    !self.decline.contains(&k)
                }
                fn $exit(&mut self, node: &mut $ty) {
                    self.visits.push(stringify!($exit));
                    let k = self.open.pop().unwrap_or(usize::MAX);
                    if let Some(v) = self.on_exit.remove(&k) {
                        *node = serde_json::from_value(v).expect("value of another kind");
                    }
                }
            )*
        }
    };
}
include!("visitor.rs");

fn edit(req: &Value) -> Value {
    let src = req["src"].as_str().unwrap();
    let st = if req["goal"] == json!("module") { SourceType::Module } else { SourceType::Script };
    let values = |key: &str| {
        req[key].as_array().map_or(Default::default(), |a| {
            a.iter().map(|e| (e[0].as_u64().unwrap() as usize, e[1].clone())).collect()
        })
    };
    match guarded(|| {
        fajt_parser::parse::<Program>(src, st).map(|mut p| {
            let mut s = Edit {
                decline: req["decline"].as_array().map_or(Default::default(), |a| {
                    a.iter().map(|k| k.as_u64().unwrap() as usize).collect()
                }),
                on_enter: values("enter"),
                on_exit: values("exit"),
                ..Default::default()
            };
            p.traverse(&mut s);
            (s.visits, serde_json::to_value(&p).unwrap())
        })
    }) {
        Err(p) => json!({ "panic": p }),
        Ok(Err(e)) => json!({"err": perr(&e, src, &Value::Null)}),
        Ok(Ok((v, ast))) => json!({ "visits": v, "ast": ast }),
    }
}

fn handle(req: &Value) -> Value {
    let r = guarded(|| match req["op"].as_str().unwrap_or("parse") {
        "lex" => lex(req),
        "reader" => reader(req),
        "chars" => chars(req),
        "classes" => classes(req),
        "parse" => parse(req),
        "trace" => {
            let src = req["src"].as_str().unwrap();
            match req["goal"].as_str().unwrap_or("script") {
                "module" => traced::<Program>(src, SourceType::Module),
                "expr" => traced::<Expr>(src, SourceType::Script),
                "stmt" => traced::<Stmt>(src, SourceType::Script),
                _ => traced::<Program>(src, SourceType::Script),
            }
        }
        "from_ast" => from_ast(req),
        "edit" => edit(req),
        o => panic!("unknown op {o}"),
    });
    match r {
        Ok(v) => v,
        Err(p) => json!({ "panic": p }),
    }
}

#[allow(dead_code)]
fn is_template(v: &TokenValue) -> bool {
    matches!(v, TokenValue::TemplateHead(_))
}

fn main() {
    std::panic::set_hook(Box::new(|info| {
        PANIC.with(|p| *p.borrow_mut() = info.to_string().replace('\n', " "));
    }));
    let stack_mb: usize = std::env::var("HARNESS_STACK_MB").ok().and_then(|s| s.parse().ok()).unwrap_or(512);
    std::thread::Builder::new()
        .stack_size(stack_mb << 20)
        .spawn(|| {
            let stdin = std::io::stdin();
            let stdout = std::io::stdout();
            let mut out = std::io::BufWriter::new(stdout.lock());
            for line in stdin.lock().lines() {
                let line = line.unwrap();
                if line.is_empty() {
                    out.flush().unwrap();
                    continue;
                }
                let req: Value = serde_json::from_str(&line).expect("bad request");
                let v = handle(&req);
                serde_json::to_writer(&mut out, &v).unwrap();
                out.write_all(b"\n").unwrap();
                if req["flush"] == json!(true) {
                    out.flush().unwrap();
                }
            }
            out.flush().unwrap();
        })
        .unwrap()
        .join()
        .unwrap();
}
