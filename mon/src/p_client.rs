//! C08/C09: what the language server's client handle sends, from many threads and across failures.

use crossbeam::channel;
use kit::{Ctx, Rng, guard};
use lsp_server::{Message, RequestId, Response, ResponseError};
use lsp_types::{self as types, MessageType};
use serde_json::{Value, json};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Barrier, Mutex};
use std::time::{Duration, Instant};
use sut_lsp::client::{Client, ToLspError, error_codes};
use tracing_subscriber::layer::SubscriberExt;

/// One thing a worker did: what should arrive, and whether the client said it was sent.
#[derive(Debug, Clone)]
struct Act {
    kind: &'static str,
    body: Value,
    ok: bool,
}

fn do_one(c: &Client, r: &mut Rng, who: usize, n: usize) -> Act {
    let tag = format!("{who}/{n}");
    let typ = *r.pick(&[MessageType::ERROR, MessageType::WARNING, MessageType::INFO, MessageType::LOG]);
    let uri = types::Url::parse(&format!("file:///tmp/é%20{who}/{n}.R")).unwrap();
    match r.below(7) {
        0 => {
            let ok = c.show_message(&tag, typ).is_ok();
            Act { kind: "window/showMessage", body: json!({"type": typ, "message": tag}), ok }
        }
        1 => {
            let ok = c.log_message(&tag, typ).is_ok();
            Act { kind: "window/logMessage", body: json!({"type": typ, "message": tag}), ok }
        }
        2 | 3 => {
            let p = types::RegistrationParams {
                registrations: vec![types::Registration { id: tag.clone(), method: "m".into(), register_options: None }],
            };
            let body = serde_json::to_value(&p).unwrap();
            let ok = c.send_request::<types::request::RegisterCapability>(p, |_| {}).is_ok();
            Act { kind: "client/registerCapability", body, ok }
        }
        4 => {
            let version = r.chance(1, 2).then(|| r.below(100) as i32);
            let d = types::Diagnostic { message: tag, ..Default::default() };
            let body = serde_json::to_value(types::PublishDiagnosticsParams { uri: uri.clone(), diagnostics: vec![d.clone()], version }).unwrap();
            let ok = c.publish_diagnostics(uri, vec![d], version).is_ok();
            Act { kind: "textDocument/publishDiagnostics", body, ok }
        }
        5 => {
            let id = if r.chance(1, 2) { RequestId::from((who * 100_000 + n) as i32) } else { RequestId::from(tag.clone()) };
            let ok = c.send_response(id.clone(), json!({"tag": tag})).is_ok();
            Act { kind: "response", body: json!({"id": id, "result": {"tag": tag}}), ok }
        }
        _ => {
            let id = RequestId::from(tag.clone());
            let code = *r.pick(&[error_codes::INTERNAL_ERROR, error_codes::INVALID_PARAMS, -1]);
            let err = if code == -1 {
                anyhow::anyhow!("{tag}").to_lsp_error()
            } else {
                anyhow::anyhow!("{tag}").to_lsp_error_with_code(code)
            };
            let want_code = if code == -1 { -32603 } else { code };
            let ok = c.send_error_response(id.clone(), err).is_ok();
            Act { kind: "error response", body: json!({"id": id, "error": {"code": want_code, "message": tag}}), ok }
        }
    }
}

fn arrived(m: &Message) -> (String, Value, Option<RequestId>) {
    match m {
        Message::Notification(n) => (n.method.clone(), n.params.clone(), None),
        Message::Request(q) => (q.method.clone(), q.params.clone(), Some(q.id.clone())),
        Message::Response(x) => {
            let kind = if x.error.is_some() { "error response" } else { "response" };
            (kind.into(), serde_json::to_value(x).unwrap(), None)
        }
    }
}

/// The worker a message came from, read back from its tag.
fn owner(body: &Value) -> Option<usize> {
    let t = body.to_string();
    let i = t.find(|c: char| c == '"')?;
    let _ = i;
    // the tag is the only string of the form digits/digits
    for part in t.split('"') {
        if let Some((a, b)) = part.split_once('/')
            && !a.is_empty()
            && !b.is_empty()
            && a.bytes().all(|c| c.is_ascii_digit())
            && b.bytes().all(|c| c.is_ascii_digit())
        {
            return a.parse().ok();
        }
    }
    None
}

pub fn run_c08(ctx: &mut Ctx) {
    ctx.rule = "sessions of 1-8 threads sharing clones of one client, each sending 5-60 messages of every kind over an unbounded, bounded or rendezvous channel while a receiver drains it, with injected yields and pauses; in a third of the sessions the receiver disappears midway; non-trivial = a message sent; distinct by observed interleaving (sequence of sending threads)".into();
    let mut interleavings: HashSet<Vec<u8>> = HashSet::new();
    while ctx.time_left(1.0) {
        let mut r = ctx.rng.fork();
        let threads = r.range(1, 8);
        let per = r.range(5, 60);
        let cap = *r.pick(&[None, None, Some(0), Some(1), Some(4)]);
        let stop_after = r.chance(1, 3).then(|| r.below(threads * per));
        let once = r.chance(1, 2);
        let (tx, rx) = match cap {
            None => channel::unbounded(),
            Some(n) => channel::bounded(n),
        };
        let client = Client::new(tx);
        ctx.case(format!("threads {threads} per {per} cap {cap:?} stop {stop_after:?} once {once}"));
        let barrier = Arc::new(Barrier::new(threads + 1));
        let shown = Arc::new(AtomicUsize::new(0));
        let once_errs = Arc::new(AtomicUsize::new(0));
        let mut hs = vec![];
        for who in 0..threads {
            let c = client.clone();
            let mut q = r.fork();
            let (b, shown, errs) = (barrier.clone(), shown.clone(), once_errs.clone());
            let once_at = q.below(per);
            hs.push(std::thread::spawn(move || {
                b.wait();
                let mut acts = vec![];
                for n in 0..per {
                    if once && n == once_at {
                        match c.notify_unused_fn_threshold_once(who + 1) {
                            Ok(true) => {
                                shown.fetch_add(1, Ordering::SeqCst);
                            }
                            Ok(false) => {}
                            Err(_) => {
                                errs.fetch_add(1, Ordering::SeqCst);
                            }
                        }
                    }
                    acts.push(do_one(&c, &mut q, who, n));
                    match q.below(12) {
                        0 => std::thread::yield_now(),
                        1 => std::thread::sleep(Duration::from_micros(20)),
                        _ => {}
                    }
                }
                acts
            }));
        }
        drop(client);
        let stop = stop_after;
        let recv = std::thread::spawn({
            let b = barrier.clone();
            move || {
                b.wait();
                let mut got = vec![];
                while let Ok(m) = rx.recv() {
                    got.push(m);
                    if stop.is_some_and(|s| got.len() > s) {
                        break;
                    }
                }
                got // rx dropped here: later sends must fail
            }
        });
        let acts: Vec<Result<Vec<Act>, String>> = hs.into_iter().map(|h| h.join().map_err(|_| "the sending thread panicked".to_string())).collect();
        let got = recv.join().unwrap();
        let describe = json!({"threads": threads, "per_thread": per, "capacity": format!("{cap:?}"), "receiver_stops_after": stop_after, "seed": ctx.seed, "session": ctx.evaluations});
        let key = format!("threads {threads} cap {cap:?} stop {}", stop_after.is_some());
        let fail = |ctx: &mut Ctx, k: &str, what: String| ctx.fail(&format!("{k}: {key}"), what, describe.clone());
        let mut ids: HashMap<RequestId, usize> = HashMap::new();
        let mut streams: BTreeMap<usize, Vec<(String, Value)>> = BTreeMap::new();
        let mut order = vec![];
        let mut once_seen = 0;
        for (i, m) in got.iter().enumerate() {
            let (kind, body, id) = arrived(m);
            if let Some(id) = id
                && let Some(j) = ids.insert(id.clone(), i)
            {
                fail(ctx, "dup id", format!("requests {j} and {i} both carry id {id}"));
            }
            match owner(&body) {
                Some(w) => {
                    order.push(w as u8);
                    streams.entry(w).or_default().push((kind, body));
                }
                None if body["message"].as_str().is_some_and(|m| m.contains("unused_function")) => once_seen += 1,
                None => fail(ctx, "alien", format!("a message nobody sent arrived: {kind} {body}")),
            }
        }
        let max_once = usize::from(once);
        if once_seen > max_once || (stop_after.is_none() && (once_seen != max_once || shown.load(Ordering::SeqCst) != max_once)) {
            fail(ctx, "once", format!("the once-per-session notification was received {once_seen} times and reported as sent {} times by {threads} threads", shown.load(Ordering::SeqCst)));
        }
        if shown.load(Ordering::SeqCst) + once_errs.load(Ordering::SeqCst) > 1 {
            fail(ctx, "once", "more than one thread tried to send the once-per-session notification".into());
        }
        for (who, acts) in acts.into_iter().enumerate() {
            let acts = match acts {
                Ok(a) => a,
                Err(e) => {
                    fail(ctx, "panic", e);
                    continue;
                }
            };
            let sent: Vec<&Act> = acts.iter().filter(|a| a.ok).collect();
            let got = streams.remove(&who).unwrap_or_default();
            ctx.bump("messages sent", sent.len() as u64);
            ctx.bump("sends refused after the receiver left", (acts.len() - sent.len()) as u64);
            // everything received is a prefix of what was sent, in order and unchanged
            for (n, g) in got.iter().enumerate() {
                let same = sent.get(n).is_some_and(|s| s.kind == g.0 && same_body(&s.body, &g.1));
                if !same {
                    fail(ctx, "order", format!("thread {who}: message {n} arrived as {g:?}, sent as {:?}", sent.get(n)));
                    break;
                }
            }
            if stop_after.is_none() && got.len() != acts.len() {
                fail(ctx, "lost", format!("thread {who} sent {} messages ({} reported sent), {} arrived", acts.len(), sent.len(), got.len()));
            }
            // once a send failed the receiver is gone for good
            if let Some(f) = acts.iter().position(|a| !a.ok)
                && (stop_after.is_none() || acts[f..].iter().any(|a| a.ok))
            {
                fail(ctx, "err", format!("thread {who}: send {f} failed although the receiver was there, or a later send succeeded"));
            }
        }
        order.truncate(64);
        ctx.count(
            &format!("{} threads, {}", if threads == 1 { "1" } else if threads < 5 { "2-4" } else { "5-8" }, match cap {
                None => "unbounded",
                Some(0) => "rendezvous",
                _ => "bounded",
            }),
            &order,
            true,
        );
        if threads > 1 {
            interleavings.insert(order.clone());
        }
        ctx.sample(&format!("{threads} threads"), || json!({"session": describe, "first senders": order}));
    }
    let n = interleavings.len();
    ctx.extra.insert("distinct_interleavings".into(), json!(n));
}

fn same_body(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => {
            // absent and null are the same on the wire
            let keys: HashSet<&String> = x.keys().chain(y.keys()).collect();
            keys.iter().all(|k| same_body(x.get(*k).unwrap_or(&Value::Null), y.get(*k).unwrap_or(&Value::Null)))
        }
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| same_body(a, b)),
        _ => a == b,
    }
}

// ------------------------------------------------------------------ C09

#[derive(Clone, Default)]
struct Events(Arc<Mutex<Vec<(tracing::Level, String)>>>);

struct Collect(Events);
impl<S: tracing::Subscriber> tracing_subscriber::Layer<S> for Collect {
    fn on_event(&self, e: &tracing::Event<'_>, _: tracing_subscriber::layer::Context<'_, S>) {
        struct V(String);
        impl tracing::field::Visit for V {
            fn record_debug(&mut self, f: &tracing::field::Field, v: &dyn std::fmt::Debug) {
                self.0.push_str(&format!("{}={v:?} ", f.name()));
            }
        }
        let mut v = V(String::new());
        e.record(&mut v);
        self.0.0.lock().unwrap().push((*e.metadata().level(), v.0));
    }
}

#[derive(Debug, Clone)]
struct Sent {
    before: Instant,
    after: Instant,
}

/// What the monitor knows about an id.
#[derive(Debug, Clone)]
enum State {
    Pending(Sent),
    /// a cleanup ran when its age was too close to the limit to tell
    Unknown,
}

pub fn run_c09(ctx: &mut Ctx) {
    ctx.rule = "random histories of 5-60 operations on one client: requests, responses (matching, repeated, unknown, failed), clean-ups with zero, short and long limits, requests that cannot be sent; the log events of the client are the observation (a warning = unknown id or expired request, an error = failed request); non-trivial = a response or clean-up whose outcome the model knows; distinct by history prefix".into();
    ctx.assumptions = vec!["the bookkeeping is observed through the severity of the log events it emits: unknown or expired = warning, failed response = error, matched = neither".into()];
    let ev = Events::default();
    let sub = tracing_subscriber::registry().with(Collect(ev.clone()));
    let _g = tracing::subscriber::set_default(sub);
    let drain = |ev: &Events| -> (usize, usize, Vec<(tracing::Level, String)>) {
        let v = std::mem::take(&mut *ev.0.lock().unwrap());
        let w = v.iter().filter(|e| e.0 == tracing::Level::WARN).count();
        let x = v.iter().filter(|e| e.0 == tracing::Level::ERROR).count();
        (w, x, v)
    };
    while ctx.time_left(1.0) {
        let mut r = ctx.rng.fork();
        let (tx, rx) = channel::unbounded();
        let client = Client::new(tx);
        let twin = client.clone();
        let mut rx = Some(rx);
        let mut known: BTreeMap<i64, (RequestId, State)> = BTreeMap::new();
        let mut done: Vec<RequestId> = vec![];
        let mut next = 0i64;
        let mut hist: Vec<String> = vec![];
        let _ = drain(&ev);
        for _ in 0..r.range(5, 60) {
            let c = if r.chance(1, 2) { &client } else { &twin };
            match r.below(10) {
                0..=3 => {
                    let before = Instant::now();
                    let p = types::RegistrationParams { registrations: vec![] };
                    let ok = guard(|| c.send_request::<types::request::RegisterCapability>(p, |_| {}).is_ok());
                    let after = Instant::now();
                    let got = rx.as_ref().and_then(|x| x.try_recv().ok());
                    hist.push(format!("request -> {ok:?}"));
                    match (ok, got) {
                        (Ok(true), Some(Message::Request(q))) => {
                            next += 1;
                            if known.values().any(|k| k.0 == q.id) || done.contains(&q.id) {
                                ctx.fail("dup id", format!("id {} was used before", q.id), json!({"history": hist}));
                            }
                            known.insert(next, (q.id, State::Pending(Sent { before, after })));
                        }
                        (Ok(false), None) if rx.is_none() => {}
                        (o, g) => ctx.fail("send", format!("send_request returned {o:?} and {g:?} arrived"), json!({"history": hist})),
                    }
                    let _ = drain(&ev);
                }
                4..=7 => {
                    // a response
                    let pick = r.below(10);
                    let (id, state) = if pick < 6 && !known.is_empty() {
                        let ks: Vec<i64> = known.keys().copied().collect();
                        let k = *r.pick(&ks);
                        let (id, st) = known.remove(&k).unwrap();
                        done.push(id.clone());
                        (id, Some(st))
                    } else if pick < 8 && !done.is_empty() {
                        (r.pick(&done).clone(), None)
                    } else if pick == 8 {
                        (RequestId::from(r.pick(&["1", "x", ""]).to_string()), None)
                    } else {
                        (RequestId::from(1_000_000 + r.below(1000) as i32), None)
                    };
                    let failed = r.chance(1, 3);
                    let resp = Response {
                        id: id.clone(),
                        result: (!failed).then(|| json!(null)),
                        error: failed.then(|| ResponseError { code: -32603, message: "no".into(), data: None }),
                    };
                    let res = guard(|| c.handle_response(resp));
                    let (w, x, log) = drain(&ev);
                    hist.push(format!("response {id} failed={failed}"));
                    let ok = match &state {
                        Some(State::Pending(_)) => w == 0 && x == usize::from(failed),
                        Some(State::Unknown) => (w, x) == (0, usize::from(failed)) || (w, x) == (1, 0),
                        None => (w, x) == (1, 0),
                    };
                    ctx.count(
                        match (&state, failed) {
                            (Some(State::Pending(_)), false) => "response to a pending request",
                            (Some(State::Pending(_)), true) => "failure of a pending request",
                            (Some(State::Unknown), _) => "response near the limit",
                            (None, _) => "response nobody waits for",
                        },
                        &hist,
                        !matches!(state, Some(State::Unknown)),
                    );
                    if res.is_err() || !ok {
                        ctx.fail(
                            &format!("response {:?} failed={failed}", state.as_ref().map(|s| matches!(s, State::Pending(_)))),
                            format!("response to id {id} ({}): {res:?}, events {log:?}", if state.is_some() { "pending" } else { "not pending" }),
                            json!({"history": hist}),
                        );
                    }
                }
                8 => {
                    let limit = *r.pick(&[Duration::ZERO, Duration::from_micros(200), Duration::from_millis(2), Duration::from_secs(3600), Duration::MAX]);
                    if r.chance(1, 2) {
                        std::thread::sleep(Duration::from_micros(300));
                    }
                    let c0 = Instant::now();
                    let res = guard(|| c.cleanup_pending_requests(limit));
                    let c1 = Instant::now();
                    let (w, x, log) = drain(&ev);
                    hist.push(format!("cleanup {limit:?}"));
                    let (mut must, mut may) = (0, 0);
                    let keys: Vec<i64> = known.keys().copied().collect();
                    for k in keys {
                        match &known[&k].1 {
                            State::Pending(s) => {
                                let youngest = c0.saturating_duration_since(s.after);
                                let oldest = c1.duration_since(s.before);
                                if youngest > limit {
                                    must += 1;
                                    done.push(known.remove(&k).unwrap().0);
                                } else if oldest > limit {
                                    may += 1;
                                    known.get_mut(&k).unwrap().1 = State::Unknown;
                                }
                            }
                            State::Unknown => may += 1,
                        }
                    }
                    ctx.count(if may == 0 { "clean-up, exact" } else { "clean-up, near the limit" }, &hist, may == 0);
                    ctx.bump("requests expired", must as u64);
                    if res.is_err() || x > 0 || w < must || w > must + may {
                        ctx.fail(&format!("cleanup {limit:?}"), format!("clean-up of requests older than {limit:?}: {must} (at most {} with the uncertain ones) should expire; {res:?}, events {log:?}", must + may), json!({"history": hist}));
                    }
                }
                _ if r.chance(1, 6) => {
                    rx = None;
                    hist.push("receiver gone".into());
                }
                _ => {}
            }
        }
        // requests that could not be sent are not waited for
        let n_before = known.values().filter(|k| matches!(k.1, State::Pending(_))).count();
        let unsure = known.len() - n_before;
        std::thread::sleep(Duration::from_micros(50));
        let res = guard(|| client.cleanup_pending_requests(Duration::ZERO));
        let (w, _, log) = drain(&ev);
        ctx.count("everything expires at the end", &hist, true);
        if res.is_err() || w < n_before || w > n_before + unsure {
            ctx.fail("leak", format!("{n_before} requests were pending at the end, {w} expired: {log:?}"), json!({"history": hist}));
        }
        // twice in a row: nothing is left
        client.cleanup_pending_requests(Duration::ZERO);
        let (w, _, log) = drain(&ev);
        if w > 0 {
            ctx.fail("expired twice", format!("requests expired twice: {log:?}"), json!({"history": hist}));
        }
        ctx.sample("history", || json!(hist));
    }
}
