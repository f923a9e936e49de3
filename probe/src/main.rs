//! Executes the real library on commands read from stdin (one JSON object per line) and reports
//! what it observed (one JSON object per line, on the original stdout). Whatever the library itself
//! prints to stdout is captured per step through a memfd. It contains no oracle.
use lib::{eval_block, Context, Parser, Source, Stats, Writer};
use serde_json::{json, Map, Value as J};
use std::cell::RefCell;
use std::io::{BufRead, Read, Seek, SeekFrom, Write};
use std::os::fd::FromRawFd;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

struct Capture {
    file: std::fs::File,
}

impl Capture {
    fn take(&mut self) -> String {
        let _ = std::io::stdout().flush();
        let mut bytes = Vec::new();
        let _ = self.file.seek(SeekFrom::Start(0));
        let _ = self.file.read_to_end(&mut bytes);
        let _ = self.file.set_len(0);
        let _ = self.file.seek(SeekFrom::Start(0));
        String::from_utf8_lossy(&bytes).into_owned()
    }
}

/// A sink that follows a plan of faults: n > 0 accepts at most n bytes, 0 is EINTR, -1 fails, -2 accepts everything.
#[derive(Clone)]
struct Sink {
    bytes: Rc<RefCell<Vec<u8>>>,
    plan: Rc<RefCell<Vec<i64>>>,
    calls: Rc<RefCell<u64>>,
}

impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        *self.calls.borrow_mut() += 1;
        let mut plan = self.plan.borrow_mut();
        let step = if plan.is_empty() { -2 } else { plan.remove(0) };
        let n = match step {
            0 => return Err(std::io::ErrorKind::Interrupted.into()),
            -1 => {
                plan.insert(0, -1); // a failed disk stays failed
                return Err(std::io::Error::from_raw_os_error(libc::ENOSPC));
            }
            -2 => buf.len(),
            n => buf.len().min(n as usize),
        };
        self.bytes.borrow_mut().extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn hex(bytes: &[u8]) -> String {
    bytes.iter().map(|b| format!("{:02x}", b)).collect()
}

fn message(payload: Box<dyn std::any::Any + Send>) -> String {
    match payload.downcast_ref::<String>() {
        Some(s) => s.clone(),
        None => payload.downcast_ref::<&str>().map(|s| s.to_string()).unwrap_or_default(),
    }
}

#[cfg(not(feature = "fields"))]
macro_rules! record {
    ($r: expr) => {
        json!({"display": $r.to_string()})
    };
}

#[cfg(feature = "fields")]
macro_rules! record {
    ($r: expr) => {{
        let r = $r;
        json!({
            "display": r.to_string(),
            "name": r.name,
            "error": r.error,
            "time": {
                "start": r.time.start.as_nanos() as u64, "end": r.time.end.as_nanos() as u64, "total": r.time.total.as_nanos() as u64,
                "resolve": r.time.resolve.as_nanos() as u64, "connect": r.time.connect.as_nanos() as u64,
                "write": r.time.write.as_nanos() as u64, "delay": r.time.delay.as_nanos() as u64, "read": r.time.read.as_nanos() as u64,
            },
            "request": {
                "method": r.request.method.to_string(), "url": r.request.url.to_string(), "version": r.request.version.to_string(),
                "headers": r.request.headers.iter().map(|h| json!([h.name, h.value])).collect::<Vec<J>>(), "body": r.request.body,
            },
            "response": {
                "version": r.response.version, "status": r.response.status, "reason": r.response.reason,
                "headers": r.response.headers.iter().map(|h| json!([h.name, h.value])).collect::<Vec<J>>(), "body": r.response.body,
            },
            "asserts": r.asserts.iter().map(|a| json!({"expr": a.expr, "left": a.left, "compare": a.compare, "right": a.right, "result": a.result})).collect::<Vec<J>>(),
        })
    }};
}

fn parse(text: &str) -> J {
    match Parser::new(text).parse() {
        Ok(Source { exprs, requests, tests }) => {
            let mut rs = Map::new();
            for (name, (message, asserts)) in requests.iter() {
                rs.insert(name.clone(), json!([message, asserts.iter().map(|e| e.to_string()).collect::<Vec<_>>()]));
            }
            let mut ts = Map::new();
            for (name, block) in tests.iter() {
                ts.insert(name.clone(), json!(block.iter().map(|e| e.to_string()).collect::<Vec<_>>()));
            }
            json!({"ok": exprs.iter().map(|e| e.to_string()).collect::<Vec<_>>(),
                   "debug": exprs.iter().map(|e| format!("{:?}", e)).collect::<Vec<_>>(),
                   "requests": rs, "tests": ts})
        }
        Err(error) => json!({ "err": error }),
    }
}

/// One line of a session: parse it, register its requests, evaluate its exprs.
fn step(text: &str, context: &mut Context) -> J {
    match Parser::new(text).parse() {
        Ok(Source { exprs, requests, .. }) => {
            context.extend(requests);
            match eval_block(&exprs, context) {
                Ok(value) => json!({"ok": format!("{:?}", value), "show": value.to_string()}),
                Err(error) => json!({ "err": error }),
            }
        }
        Err(error) => json!({ "perr": error }),
    }
}

fn handle(command: &J, capture: &mut Capture) -> J {
    match command["op"].as_str().unwrap_or_default() {
        "parse" => parse(command["text"].as_str().unwrap()),
        "quick" => match Parser::new(command["text"].as_str().unwrap()).parse() {
            Ok(Source { exprs, requests, tests }) => json!({"ok": exprs.len(), "requests": requests.len(), "tests": tests.len()}),
            Err(error) => json!({"err": error.chars().take(80).collect::<String>()}),
        },
        "session" => {
            let mut context = Context::new();
            let mut steps = Vec::new();
            let sink = Sink {
                bytes: Rc::default(),
                plan: Rc::new(RefCell::new(command["plan"].as_array().map(|a| a.iter().map(|x| x.as_i64().unwrap()).collect()).unwrap_or_default())),
                calls: Rc::default(),
            };
            let mut writer = command["writes"].as_bool().unwrap_or(false).then(|| Writer::new(sink.clone()));
            let times = command["times"].as_array().cloned().unwrap_or_default();
            for (i, line) in command["lines"].as_array().unwrap().iter().enumerate() {
                let mut step = step(line.as_str().unwrap(), &mut context);
                step["out"] = json!(capture.take());
                let records = context.records();
                if let Some(ref mut writer) = writer {
                    let (name, thread, number) = match times.get(i) {
                        Some(t) => (t[0].as_str().unwrap(), t[1].as_u64().unwrap() as u32, t[2].as_u64().unwrap() as u32),
                        None => ("t", 0, i as u32),
                    };
                    writer.write(&records, name, thread, number);
                    step["end"] = json!(sink.bytes.borrow().len());
                }
                step["records"] = json!(records.iter().map(|r| record!(r)).collect::<Vec<J>>());
                steps.push(step);
            }
            let mut result = json!({ "steps": steps });
            if writer.is_some() {
                result["file"] = json!(hex(&sink.bytes.borrow()));
                result["calls"] = json!(*sink.calls.borrow());
            }
            result
        }
        "stats" => {
            let mut stats = Stats::default();
            let mut shows = Vec::new();
            let every = command["every"].as_u64().unwrap_or(0);
            for (i, add) in command["adds"].as_array().unwrap().iter().enumerate() {
                stats.add(&add[0].as_str().unwrap().to_string(), add[1].as_str().unwrap().parse::<u128>().unwrap());
                if every > 0 && (i as u64 + 1) % every == 0 {
                    shows.push(json!([i + 1, stats.to_string()]));
                }
            }
            json!({"show": stats.to_string(), "shows": shows})
        }
        op => json!({"unknown": op}),
    }
}

fn serve() {
    let (mut out, file) = unsafe {
        let out = libc::dup(1);
        let memfd = libc::memfd_create(c"stdout".as_ptr(), 0);
        libc::dup2(memfd, 1);
        (std::fs::File::from_raw_fd(out), std::fs::File::from_raw_fd(memfd))
    };
    let mut capture = Capture { file };
    for line in std::io::stdin().lock().lines() {
        let Ok(line) = line else { break };
        let command: J = match serde_json::from_str(&line) {
            Ok(command) => command,
            Err(error) => {
                let _ = writeln!(out, "{}", json!({"bad": error.to_string()}));
                continue;
            }
        };
        let reply = match catch_unwind(AssertUnwindSafe(|| handle(&command, &mut capture))) {
            Ok(reply) => reply,
            Err(payload) => json!({"panic": message(payload), "out": capture.take()}),
        };
        let mut text = reply.to_string();
        text.push('\n');
        if out.write_all(text.as_bytes()).is_err() {
            break;
        }
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    // as much stack as the threads that run tests have
    let size = std::env::var("PROBE_STACK").ok().and_then(|s| s.parse().ok()).unwrap_or(2 * 1024 * 1024);
    std::thread::Builder::new().stack_size(size).spawn(serve).unwrap().join().unwrap();
}
