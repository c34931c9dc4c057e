//! Runs translations against the real library and reports what it observed.
//!
//!   louis-harness JOBS OUT [serial]
//!
//! JOBS holds one job per line:
//!   {"id": n, "src": "table text" | "tables": ["path", ..], "copies": n, "trace": bool,
//!    "runs": [{"dir": "f"|"b", "inp": [code points], "spans": [{"class","s","e"}], "mode": "plain"|..}]}
//! OUT receives one line per job:
//!   {"id": n, "obs": [{"t": "out", "v": [code points], "tr": [[stage, [[in], [out], line]..]..]}
//!                     | {"t": "err", "m"} | {"t": "panic", "m"} | {"t": "differs", "v": [..]}]}
//! A run that does not come back makes the program write {"id", "hang": run} and exit with 3.
use louis::{Direction, EmphasisSpan, TranslationOptions, Translator};
use serde_json::{json, Value};
use std::collections::VecDeque;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

fn text(v: &Value) -> String {
    v.as_array().unwrap().iter().map(|c| char::from_u32(c.as_u64().unwrap() as u32).unwrap()).collect()
}
fn codes(s: &str) -> Value {
    Value::Array(s.chars().map(|c| json!(c as u32)).collect())
}
fn message(p: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() { s.to_string() }
    else if let Some(s) = p.downcast_ref::<String>() { s.clone() }
    else { "?".to_string() }
}

/// The lines the errors of a table are reported for.
fn lines_of(e: &louis::TranslationError) -> Value {
    match e {
        louis::TranslationError::ParseFailed(es) => Value::Array(
            es.iter()
                .filter_map(|e| e.to_string().rsplit(' ').next().and_then(|n| n.parse::<u64>().ok()))
                .map(|n| json!(n))
                .collect(),
        ),
        _ => json!([]),
    }
}

fn compile(job: &Value, dir: Direction) -> Result<Result<Translator, (String, Value)>, String> {
    catch_unwind(AssertUnwindSafe(|| {
        let t = match job.get("tables") {
            Some(paths) => {
                let ps: Vec<String> = paths.as_array().unwrap().iter().map(|p| p.as_str().unwrap().to_string()).collect();
                Translator::new(&ps, dir)
            }
            None => Translator::from_table_source(job["src"].as_str().unwrap(), dir),
        };
        t.map_err(|e| (format!("{:?}", e).chars().take(300).collect(), lines_of(&e)))
    }))
    .map_err(message)
}

fn options(run: &Value) -> TranslationOptions {
    let mut o = TranslationOptions::default();
    if let Some(spans) = run.get("spans").and_then(|s| s.as_array()) {
        let v: Vec<EmphasisSpan> = spans
            .iter()
            .map(|s| EmphasisSpan::new(s["class"].as_str().unwrap(),
                                       s["s"].as_u64().unwrap() as usize..s["e"].as_u64().unwrap() as usize))
            .collect();
        o = o.with_emphasis(v);
    }
    if let Some(m) = run.get("mode").and_then(|m| m.as_str()) {
        if m == "cursor" { o = o.with_cursor_pos(0); }
    }
    o
}

#[cfg(louis_verif)]
fn trace(t: &Translator, input: &str, o: &TranslationOptions) -> Value {
    Value::Array(
        t.verif_trace(input, o)
            .into_iter()
            .map(|step| {
                let stage = step.first().map(|r| r.0.clone()).unwrap_or_default();
                json!([stage, step.iter().map(|r| json!([codes(&r.1), codes(&r.2), r.3.unwrap_or(0)])).collect::<Vec<_>>()])
            })
            .collect(),
    )
}
#[cfg(not(louis_verif))]
fn trace(_: &Translator, _: &str, _: &TranslationOptions) -> Value { Value::Null }

fn observe(t: &Translator, run: &Value, tr: bool) -> Value {
    let input = text(&run["inp"]);
    let o = options(run);
    let plain = run.get("spans").and_then(|s| s.as_array()).map_or(true, |s| s.is_empty());
    let r = catch_unwind(AssertUnwindSafe(|| {
        let v = t.translate_with_options(&input, o.clone()).map(|r| r.output);
        // the simple interface has to agree where it applies
        if plain && run.get("mode").is_none() {
            let w = t.translate(&input);
            if let (Ok(a), Ok(b)) = (&v, &w) {
                if a != b { return json!({"t": "differs", "v": [codes(a), codes(b)], "m": "translate and translate_with_options"}); }
            }
        }
        match v {
            Ok(s) => {
                let mut x = json!({"t": "out", "v": codes(&s)});
                if tr { let y = trace(t, &input, &o); if !y.is_null() { x["tr"] = y; } }
                x
            }
            Err(e) => json!({"t": "err", "at": "translate", "m": format!("{:?}", e).chars().take(300).collect::<String>()}),
        }
    }));
    match r { Ok(v) => v, Err(p) => json!({"t": "panic", "m": message(p)}) }
}

/// A history of several translators: phases of steps, a phase with `par` is run by several threads.
///   {"id", "srcs": [table text or list of paths], "hist": [{"par": bool, "steps": [{"e": "new", "tr", "tab", "dir"} |
///                                           {"e": "ask", "tr", "inp", "spans", "th"}]}]}
/// All steps come back in the order of their threads with res and v added.
fn history(job: &Value, slot: &Slot) -> Value {
    let id = job["id"].as_u64().unwrap();
    let mut made: std::collections::HashMap<u64, Translator> = Default::default();
    let mut ev: Vec<Value> = vec![];
    let mut n = 0;
    for phase in job["hist"].as_array().unwrap() {
        let steps = phase["steps"].as_array().unwrap();
        let par = phase["par"].as_bool().unwrap_or(false);
        *slot.lock().unwrap() = Some((id, n, Instant::now()));
        n += 1;
        let ask = |made: &std::collections::HashMap<u64, Translator>, step: &Value| -> Value {
            let mut x = step.clone();
            let o = match made.get(&step["tr"].as_u64().unwrap()) {
                Some(t) => observe(t, step, false),
                None => json!({"t": "none"}),
            };
            x["res"] = o["t"].clone();
            x["v"] = if o["t"] == "out" { o["v"].clone() } else { json!([]) };
            x
        };
        #[cfg(not(louis_no_share))]
        if par {
            let made = &made;
            let ask = &ask;
            let got: Vec<Value> = std::thread::scope(|s| {
                let hs: Vec<_> = (0..4u64).map(|k| {
                    s.spawn(move || steps.iter().filter(|x| x["th"].as_u64().unwrap_or(0) % 4 == k).map(|x| ask(made, x)).collect::<Vec<_>>())
                }).collect();
                hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
            });
            ev.extend(got);
            continue;
        }
        let _ = par;
        for step in steps {
            if step["e"] == "new" {
                let mut x = step.clone();
                let dir = if step["dir"] == "f" { Direction::Forward } else { Direction::Backward };
                let src = match &job["srcs"][step["tab"].as_u64().unwrap() as usize] {
                    Value::String(s) => json!({"src": s}),
                    paths => json!({"tables": paths}),
                };
                x["res"] = match compile(&src, dir) {
                    Ok(Ok(t)) => { made.insert(step["tr"].as_u64().unwrap(), t); json!("ok") }
                    Ok(Err(_)) => json!("err"),
                    Err(_) => json!("panic"),
                };
                ev.push(x);
            } else {
                ev.push(ask(&made, step));
            }
        }
    }
    *slot.lock().unwrap() = None;
    json!({"id": id, "obs": ev})
}

type Slot = Arc<Mutex<Option<(u64, usize, Instant)>>>;

fn work(job: &Value, slot: &Slot, serial: bool) -> Value {
    let id = job["id"].as_u64().unwrap();
    let runs = job["runs"].as_array().unwrap();
    let n = job.get("copies").and_then(|c| c.as_u64()).unwrap_or(1).max(1);
    let tr = job.get("trace").and_then(|c| c.as_bool()).unwrap_or(false);
    let mut made: [Vec<Result<Result<Translator, (String, Value)>, String>>; 2] = [vec![], vec![]];
    let mut obs = vec![];
    for (i, run) in runs.iter().enumerate() {
        *slot.lock().unwrap() = Some((id, i, Instant::now()));
        if serial { eprintln!("AT {} {}", id, i); }
        let (d, dir) = if run["dir"] == "f" { (0, Direction::Forward) } else { (1, Direction::Backward) };
        if made[d].is_empty() { for _ in 0..n { made[d].push(compile(job, dir)); } }
        let mut seen: Vec<Value> = vec![];
        for t in &made[d] {
            let o = match t {
                Ok(Ok(t)) => observe(t, run, tr),
                Ok(Err((m, ln))) => json!({"t": "err", "at": "compile", "m": m, "ln": ln}),
                Err(m) => json!({"t": "panic", "at": "compile", "m": m}),
            };
            if !seen.contains(&o) { seen.push(o); }
        }
        if seen.len() == 1 { obs.push(seen.pop().unwrap()); }
        else { obs.push(json!({"t": "differs", "v": seen, "m": "copies of the same table"})); }
    }
    // statelessness: the translators have seen all inputs now, the answers must be the same
    if n > 1 {
        for (i, run) in runs.iter().enumerate().rev() {
            let d = if run["dir"] == "f" { 0 } else { 1 };
            if let Ok(Ok(t)) = &made[d][0] {
                *slot.lock().unwrap() = Some((id, i, Instant::now()));
                let o = observe(t, run, tr);
                if obs[i]["t"] != "differs" && o != obs[i] {
                    obs[i] = json!({"t": "differs", "v": [obs[i].clone(), o], "m": "same translator, later"});
                }
            }
        }
    }
    *slot.lock().unwrap() = None;
    json!({"id": id, "obs": obs})
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let serial = a.get(3).map_or(false, |s| s == "serial");
    std::panic::set_hook(Box::new(|_| {}));
    let f = std::io::BufReader::new(std::fs::File::open(&a[1]).unwrap());
    let jobs: VecDeque<Value> = f.lines().map(|l| serde_json::from_str(&l.unwrap()).unwrap()).collect();
    let jobs = Arc::new(Mutex::new(jobs));
    let out = Arc::new(Mutex::new(std::io::BufWriter::new(std::fs::File::create(&a[2]).unwrap())));
    let limit = Duration::from_secs(std::env::var("LOUIS_HARNESS_LIMIT").ok().and_then(|s| s.parse().ok()).unwrap_or(20));
    let n = if serial { 1 } else { 8 };
    let slots: Vec<Slot> = (0..n).map(|_| Arc::new(Mutex::new(None))).collect();
    let hs: Vec<_> = slots.iter().cloned().map(|slot| {
        let (jobs, out) = (jobs.clone(), out.clone());
        std::thread::Builder::new().stack_size(8 << 20).spawn(move || loop {
            let Some(job) = jobs.lock().unwrap().pop_front() else { break };
            let r = if job.get("hist").is_some() { history(&job, &slot) } else { work(&job, &slot, serial) };
            let mut o = out.lock().unwrap();
            writeln!(o, "{}", r).unwrap();
        }).unwrap()
    }).collect();
    loop {
        std::thread::sleep(Duration::from_millis(20));
        if hs.iter().all(|h| h.is_finished()) { break; }
        for s in &slots {
            let v = *s.lock().unwrap();
            if let Some((id, run, t)) = v {
                if t.elapsed() > limit {
                    let mut o = out.lock().unwrap();
                    writeln!(o, "{}", json!({"id": id, "hang": run})).unwrap();
                    o.flush().unwrap();
                    std::process::exit(3);
                }
            }
        }
    }
    out.lock().unwrap().flush().unwrap();
    for h in hs { if h.join().is_err() { std::process::exit(4); } }
}
