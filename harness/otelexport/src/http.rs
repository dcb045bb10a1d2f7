// C38: the HTTP clients (hyper, reqwest, blocking reqwest) against a small server which says what it is told to.
use crate::common::Ctx;
use bytes::Bytes;
use http::{Request, Response};
use opentelemetry_http::hyper::HyperClient;
use opentelemetry_http::{HttpClient, HttpError, ResponseExt};
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::mpsc::{channel, Receiver};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Way { Whole, Chunked, SilentFirst, SilentInBody, CutInBody, CutFirst }
#[derive(Clone, Debug)]
struct Answer { status: u16, headers: Vec<(String, String)>, body: Vec<u8>, way: Way }
struct Seen { line: String, headers: Vec<(String, String)>, body: Vec<u8> }

const SILENCE: Duration = Duration::from_millis(1500);
fn line(s: &mut TcpStream) -> Option<String> {
    let mut v = vec![];
    let mut b = [0u8; 1];
    while s.read(&mut b).ok()? == 1 { if b[0] == b'\n' { return Some(String::from_utf8_lossy(&v).trim_end_matches('\r').to_string()); } v.push(b[0]); }
    None
}
fn serve(l: TcpListener, a: Answer) -> Receiver<Seen> {
    let (tx, rx) = channel();
    std::thread::spawn(move || {
        while let Ok((mut s, _)) = l.accept() {
            let _ = s.set_read_timeout(Some(Duration::from_secs(20)));
            let Some(first) = line(&mut s) else { continue };
            let mut headers = vec![];
            while let Some(h) = line(&mut s) {
                if h.is_empty() { break; }
                let (n, v) = h.split_once(':').unwrap_or((&h, ""));
                headers.push((n.to_ascii_lowercase(), v.trim().to_string()));
            }
            let get = |n: &str| headers.iter().find(|h| h.0 == n).map(|h| h.1.clone());
            let mut body = vec![];
            if let Some(n) = get("content-length").and_then(|v| v.parse::<usize>().ok()) { body = vec![0; n]; if s.read_exact(&mut body).is_err() { body.clear(); } }
            else if get("transfer-encoding").is_some() {
                while let Some(n) = line(&mut s).and_then(|l| usize::from_str_radix(&l, 16).ok()) {
                    let mut part = vec![0; n + 2];
                    if s.read_exact(&mut part).is_err() { break; }
                    body.extend_from_slice(&part[..n]);
                    if n == 0 { break; }
                }
            }
            let empty = first.starts_with("HEAD") || a.status == 204 || a.status == 304;
            let _ = tx.send(Seen { line: first, headers, body });
            if a.way == Way::CutFirst { break; }
            if a.way == Way::SilentFirst { std::thread::sleep(SILENCE); }
            let mut out = format!("HTTP/1.1 {} Said\r\n", a.status).into_bytes();
            for (n, v) in &a.headers { out.extend_from_slice(format!("{n}: {v}\r\n").as_bytes()); }
            let _ = s.write_all(&out);
            if empty { let _ = s.write_all(b"\r\n"); break; }
            if a.way == Way::Chunked {
                let _ = s.write_all(b"transfer-encoding: chunked\r\n\r\n");
                for p in a.body.chunks(7) { let _ = s.write_all(format!("{:x}\r\n", p.len()).as_bytes()); let _ = s.write_all(p); let _ = s.write_all(b"\r\n"); let _ = s.flush(); }
                let _ = s.write_all(b"0\r\n\r\n");
            } else {
                let _ = s.write_all(format!("content-length: {}\r\n\r\n", a.body.len()).as_bytes());
                let half = a.body.len() / 2;
                let _ = s.write_all(&a.body[..half]);
                let _ = s.flush();
                if a.way == Way::CutInBody { break; }
                if a.way == Way::SilentInBody { std::thread::sleep(SILENCE); }
                let _ = s.write_all(&a.body[half..]);
            }
            let _ = s.flush();
            break;
        }
    });
    rx
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Which { Hyper, Reqwest, Blocking }
#[allow(deprecated)]
async fn ask(cl: &dyn HttpClient, r: Request<Bytes>, old: bool) -> Result<Response<Bytes>, HttpError> {
    if old { cl.send(r.map(|b| b.to_vec())).await } else { cl.send_bytes(r).await }
}
pub fn c38(c: &mut Ctx) {
    c.rule = "random requests (method, path, headers, body) by each client to a server on the loopback answering with random statuses, headers and bodies, slowly, cut short or not at all; and every status. Non-trivial: an answer was sent".into();
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
    for status in 100..1000u16 {
        c.case(format!("error_for_status of {status}"), true, || {
            let mut r = Response::builder().status(status).body(Bytes::from_static(b"x")).unwrap();
            r.headers_mut().insert("k", "v".parse().unwrap());
            match r.error_for_status() {
                Ok(r) if (200..300).contains(&status) && r.status().as_u16() == status && r.body() == &b"x"[..] && r.headers().len() == 1 => Ok(()),
                Err(_) if !(200..300).contains(&status) => Ok(()),
                Ok(_) => Err("passed, or was changed".into()),
                Err(e) => Err(format!("refused: {e}")),
            }
        });
    }
    for round in 0..c.n(240) {
        let which = *c.rng.pick(&[Which::Hyper, Which::Hyper, Which::Reqwest, Which::Blocking]);
        let way = match c.rng.below(16) { 0 | 1 => Way::CutInBody, 2 => Way::CutFirst, 3 if which == Which::Hyper && round % 3 == 0 => Way::SilentFirst, 4 if which == Which::Hyper => Way::SilentInBody, 5..=8 => Way::Chunked, _ => Way::Whole };
        let status = if c.rng.chance(2, 3) { *c.rng.pick(&[200, 200, 200, 202, 201, 206]) } else { *c.rng.pick(&[204, 299, 300, 304, 400, 401, 404, 418, 429, 499, 500, 503, 599, 600]) };
        let word = |c: &mut Ctx, n: usize| (0..n).map(|_| (b'!' + c.rng.below(94) as u8) as char).collect::<String>();
        let headers = |c: &mut Ctx, pre: &str| (0..c.rng.usize(5)).map(|_| { let n = format!("{pre}-{}", c.rng.pick(&["a", "b", "c"])); let k = 1 + c.rng.usize(9); (n, word(c, k)) }).collect::<Vec<_>>();
        let mut rh = headers(c, "x");
        if c.rng.bool() { rh.push(("content-type".into(), "application/x-protobuf".into())); }
        for _ in 0..if c.rng.bool() { 0 } else { 1 + c.rng.usize(2) } { rh.push(("authorization".into(), word(c, 4))); }
        let auth = if which == Which::Hyper && c.rng.bool() { Some(word(c, 6)) } else { None };
        let answer = Answer { status, headers: headers(c, "y"), body: { let n = if c.rng.chance(1, 6) { 100_000 } else { 2 + c.rng.usize(60) }; (0..n).map(|_| c.rng.next() as u8).collect() }, way };
        let method = *c.rng.pick(&["POST", "POST", "GET", "PUT", "DELETE"]);
        let path = *c.rng.pick(&["/", "/v1/traces", "/a?b=c&d", "/api/v2/spans?x=%20y"]);
        let body: Vec<u8> = if method == "GET" { vec![] } else { let n = if c.rng.chance(1, 8) { 200_000 } else { c.rng.usize(40) }; (0..n).map(|_| c.rng.next() as u8).collect() };
        let old = c.rng.chance(1, 4);
        let short = |b: &[u8]| if b.len() > 12 { format!("{} bytes", b.len()) } else { format!("{b:?}") };
        let desc = format!("{which:?} authorization {auth:?} {}: {method} {path} {rh:?} body {} -> {status} {way:?} {:?} body {}", if old { "send" } else { "send_bytes" }, short(&body), answer.headers, short(&answer.body));
        let bodiless = status == 204 || status == 304;
        c.case(desc, way != Way::CutFirst, || {
            let l = TcpListener::bind("127.0.0.1:0").map_err(|e| format!("no server: {e}"))?;
            let uri = format!("http://{}{path}", l.local_addr().unwrap());
            let rx = serve(l, answer.clone());
            let mut q = Request::builder().method(method).uri(&uri);
            for (n, v) in &rh { q = q.header(n, v); }
            let q = q.body(Bytes::from(body.clone())).unwrap();
            let slow = matches!(way, Way::SilentFirst) || (way == Way::SilentInBody && !bodiless);
            let began = Instant::now();
            let r = match which {
                Which::Hyper => rt.block_on(async {
                    let cl = HyperClient::with_default_connector(if slow { Duration::from_millis(200) } else { Duration::from_secs(60) }, auth.as_ref().map(|a| a.parse().unwrap()));
                    ask(&cl, q, old).await
                }),
                Which::Reqwest => rt.block_on(async { ask(&reqwest::Client::builder().no_proxy().build().unwrap(), q, old).await }),
                Which::Blocking => { let cl = reqwest::blocking::Client::builder().no_proxy().timeout(Duration::from_secs(60)).build().unwrap(); futures_executor::block_on(ask(&cl, q, old)) }
            };
            let took = began.elapsed();
            let seen = rx.recv_timeout(Duration::from_secs(10)).map_err(|_| "nothing arrived".to_string())?;
            if seen.line != format!("{method} {path} HTTP/1.1") { return Err(format!("arrived as {:?}", seen.line)); }
            if seen.body != body { return Err(format!("a body of {} arrived, sent {}", short(&seen.body), short(&body))); }
            let mut want: Vec<_> = rh.iter().filter(|h| auth.is_none() || h.0 != "authorization").cloned().collect();
            if let Some(a) = &auth { want.push(("authorization".into(), a.clone())); }
            let own: Vec<_> = seen.headers.iter().filter(|h| !matches!(h.0.as_str(), "host" | "accept" | "content-length" | "transfer-encoding" | "user-agent" | "connection" | "accept-encoding")).cloned().collect();
            let sorted = |mut v: Vec<(String, String)>| { v.sort_by(|a, b| a.0.cmp(&b.0)); v };
            if sorted(own.clone()) != sorted(want.clone()) { return Err(format!("arrived with {own:?}, expected {want:?}")); }
            let success = (200..300).contains(&status) || (which != Which::Hyper && !(400..600).contains(&status));
            let broken = way == Way::CutFirst || (way == Way::CutInBody && !bodiless) || slow;
            match r {
                Ok(_) if slow => Err(format!("given an answer which took {took:?} with a limit of 200ms")),
                Ok(_) if broken => Err("given an answer though the connection ended within it".into()),
                Ok(r) if !success => Err(format!("given {} as an answer", r.status())),
                Ok(r) => {
                    if r.status().as_u16() != status { return Err(format!("status {}", r.status())); }
                    let got: Vec<_> = r.headers().iter().map(|(n, v)| (n.to_string(), v.to_str().unwrap_or("?").to_string())).filter(|h| !matches!(h.0.as_str(), "content-length" | "transfer-encoding")).collect();
                    if sorted(got.clone()) != sorted(answer.headers.clone()) { return Err(format!("headers {got:?}, expected {:?}", answer.headers)); }
                    if !bodiless && way != Way::Chunked && r.headers().get("content-length").and_then(|v| v.to_str().ok()) != Some(&answer.body.len().to_string()) { return Err("the content-length was not given on".into()); }
                    let body: &[u8] = if bodiless { b"" } else { &answer.body };
                    if r.body() != body { return Err(format!("body {}, expected {}", short(r.body()), short(body))); }
                    Ok(())
                }
                Err(e) if success && !broken => Err(format!("failed: {e:?}")),
                Err(_) if slow && took >= SILENCE => Err(format!("gave up after {took:?} with a limit of 200ms")),
                Err(_) => Ok(()),
            }
        });
    }
    for which in [Which::Hyper, Which::Reqwest, Which::Blocking] {
        c.case(format!("{which:?} to a port nobody listens on"), false, || {
            let l = TcpListener::bind("127.0.0.1:0").map_err(|e| e.to_string())?;
            let uri = format!("http://{}/", l.local_addr().unwrap());
            drop(l);
            let q = Request::post(&uri).body(Bytes::new()).unwrap();
            let r = match which {
                Which::Hyper => rt.block_on(async { HyperClient::with_default_connector(Duration::from_secs(20), None).send_bytes(q).await }),
                Which::Reqwest => rt.block_on(async { reqwest::Client::builder().no_proxy().build().unwrap().send_bytes(q).await }),
                Which::Blocking => futures_executor::block_on(reqwest::blocking::Client::builder().no_proxy().build().unwrap().send_bytes(q)),
            };
            match r { Ok(_) => Err("got an answer".into()), Err(_) => Ok(()) }
        });
    }
}
