//! Scenario runner: drives the real client, monitor or search through its public API and the
//! in-process network of `net`, in virtual time, and records what can be observed from outside.
use crate::net;
use knx_ip_client::packets::addresses::KnxAddress;
use knx_ip_client::packets::core::SearchResponse;
use knx_ip_client::transport::udp::UdpClient;
use knx_ip_client::transport::udp_monitor::UdpMonitor;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::future::Future;
use std::io::Write as _;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use std::time::Duration;

static WAKER: Mutex<Option<Waker>> = Mutex::new(None);
static PARKED: AtomicBool = AtomicBool::new(false);
pub static PROGRESS: AtomicU64 = AtomicU64::new(0);
/// Seconds of virtual time since the current stimulus
pub static TICK: AtomicU64 = AtomicU64::new(0);
static EVENTS: Mutex<Vec<String>> = Mutex::new(Vec::new());
/// Head and finished steps of the running scenario, and the stimuli of its current step
static DONE: Mutex<(String, Vec<String>)> = Mutex::new((String::new(), Vec::new()));
static CURRENT: Mutex<Vec<String>> = Mutex::new(Vec::new());

pub fn log(ev: String) {
    net::ACTIVITY.fetch_add(1, Ordering::SeqCst);
    EVENTS.lock().unwrap_or_else(|e| e.into_inner()).push(ev);
}

pub fn arr(b: &[u8]) -> String {
    let mut s = String::from("[");
    for (i, x) in b.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        let _ = write!(s, "{}", x);
    }
    s.push(']');
    s
}

fn arr_i(b: &[i64]) -> String {
    let v: Vec<String> = b.iter().map(|x| x.to_string()).collect();
    format!("[{}]", v.join(","))
}

fn on_park() {
    PARKED.store(true, Ordering::SeqCst);
    if let Some(w) = WAKER.lock().unwrap().take() {
        w.wake();
    }
}

/// Resolves when the runtime has nothing left to run
async fn idle() {
    PARKED.store(false, Ordering::SeqCst);
    std::future::poll_fn(|cx| {
        if PARKED.load(Ordering::SeqCst) {
            Poll::Ready(())
        } else {
            *WAKER.lock().unwrap() = Some(cx.waker().clone());
            Poll::Pending
        }
    })
    .await
}

/// Waits until nothing happens any more; false if it never calms down
async fn settle() -> bool {
    let mut quiet = 0;
    let mut rounds = 0;
    let mut last = net::ACTIVITY.load(Ordering::SeqCst);
    while quiet < 5 {
        idle().await;
        PROGRESS.fetch_add(1, Ordering::SeqCst);
        let a = net::ACTIVITY.load(Ordering::SeqCst);
        if a == last {
            quiet += 1
        } else {
            quiet = 0;
            last = a;
        }
        rounds += 1;
        if rounds > 20000 {
            log("{\"e\":\"storm\",\"t\":0}".into());
            return false;
        }
    }
    true
}

/// Leaves the wrapped future only `left` units of the runtime's cooperative budget in each of its
/// first polls, so that it is interrupted at its await points although these would not have to wait.
struct Starved<F> {
    inner: Pin<Box<F>>,
    left: Option<u32>,
    polls: u32,
}

impl<F: Future> Future for Starved<F> {
    type Output = F::Output;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> {
        self.polls += 1;
        if let (Some(left), true) = (self.left, self.polls <= 8) {
            let waker = Waker::noop();
            let mut c = Context::from_waker(waker);
            for _ in 0..(128u32.saturating_sub(left)) {
                if !tokio::task::coop::has_budget_remaining() {
                    break;
                }
                let mut f = Box::pin(tokio::task::coop::consume_budget());
                let _ = f.as_mut().poll(&mut c);
            }
        }
        self.inner.as_mut().poll(cx)
    }
}

#[derive(Clone)]
enum Obj {
    Client(Arc<UdpClient>),
    Monitor(Arc<UdpMonitor>),
    None,
}

fn hex(s: &str) -> Vec<u8> {
    if s == "-" {
        return vec![];
    }
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

fn address(a: u16) -> KnxAddress {
    if a % 2 == 0 {
        KnxAddress::group_1_level(a)
    } else {
        KnxAddress::group_3_level((a >> 11) as u8, ((a >> 8) & 7) as u8, (a & 0xff) as u8)
    }
}

type Ret = Result<Vec<i64>, ()>;

fn ints(b: &[u8]) -> Vec<i64> {
    b.iter().map(|x| *x as i64).collect()
}

pub fn search_flat(r: &SearchResponse) -> Vec<i64> {
    let mut v = vec![r.control_endpoint.host_protocol_code as i64];
    v.extend(ints(&r.control_endpoint.address.ip().octets()));
    v.push(r.control_endpoint.address.port() as i64);
    let d = &r.device_hardware;
    v.extend([d.structure_length as i64, d.knx_medium as i64, d.knx_device_status.bits() as i64]);
    v.push(d.knx_individual_address.to_u16() as i64);
    v.push(d.project_installation_identifier as i64);
    v.extend(ints(&d.serial_number));
    v.extend(ints(&d.routing_multicast_address.octets()));
    v.extend(ints(&d.mac_address));
    v.extend(ints(&d.friendly_name));
    let s = &r.supported_service_families;
    v.push(s.structure_length as i64);
    v.push(s.service_families.len() as i64);
    for f in &s.service_families {
        v.push(f.service_family as i64);
        v.push(f.version as i64);
    }
    v
}

async fn perform(obj: Obj, op: String, args: Vec<String>, lis: Option<tokio::sync::mpsc::Sender<()>>) -> Ret {
    match obj {
        Obj::Client(c) => match op.as_str() {
            "read" => c.read_group_address_value(address(args[0].parse().unwrap())).await.map(|v| ints(&v)).map_err(|_| ()),
            "write" => c
                .write_group_address_value(address(args[0].parse().unwrap()), hex(&args[2]), args[1] == "1")
                .await
                .map(|_| vec![])
                .map_err(|_| ()),
            "status" => c
                .get_connection_status()
                .await
                .map(|s| vec![s.communication_channel_id as i64, s.status as i64])
                .map_err(|_| ()),
            "disc" => c.disconnect().await.map(|_| vec![]).map_err(|_| ()),
            "flush" => c.flush().await.map(|_| vec![]).map_err(|_| ()),
            _ => panic!("unknown op {}", op),
        },
        Obj::Monitor(m) => match op.as_str() {
            "next" => m
                .next_msg()
                .await
                .map(|i| {
                    let mut v = vec![i.cemi.msg_code as i64, i.l_data.src as i64, i.l_data.dest as i64];
                    v.extend([i.l_data.frame_type as i64, i.l_data.repetition as i64, i.l_data.system_broadcast as i64, i.l_data.ack_request as i64]);
                    v.extend(ints(&i.value));
                    v
                })
                .map_err(|_| ()),
            "write" => m
                .write_group_address_value(address(args[0].parse().unwrap()), hex(&args[2]), args[1] == "1")
                .await
                .map(|_| vec![])
                .map_err(|_| ()),
            "sol" => m.solecitate_group_read(address(args[0].parse().unwrap())).await.map(|_| vec![]).map_err(|_| ()),
            "disc" => m.disconnect().await.map(|s| vec![s as i64]).map_err(|_| ()),
            "isconn" => Ok(vec![m.is_connected().await as i64]),
            "lis" => {
                m.add_on_connect(lis.unwrap()).await;
                Ok(vec![])
            }
            _ => panic!("unknown op {}", op),
        },
        Obj::None => match op.as_str() {
            "search" => UdpClient::search(Duration::from_secs(args[0].parse().unwrap()))
                .await
                .map(|v| {
                    let mut o = vec![v.len() as i64];
                    for r in &v {
                        o.extend(search_flat(r));
                    }
                    o
                })
                .map_err(|_| ()),
            _ => panic!("unknown op {}", op),
        },
    }
}

struct Guard(u64, bool);
impl Drop for Guard {
    fn drop(&mut self) {
        // A panicking call never reports a result; make that visible as an event of its own
        if !self.1 && std::thread::panicking() {
            log(format!("{{\"e\":\"ret\",\"t\":{},\"o\":{},\"ok\":2,\"v\":[]}}", TICK.load(Ordering::SeqCst), self.0));
        }
    }
}

struct World {
    obj: Obj,
    ops: HashMap<u64, tokio::task::JoinHandle<()>>,
    lis: HashMap<u64, tokio::sync::mpsc::Receiver<()>>,
}

impl World {
    /// Applies one stimulus, returns its JSON form and the virtual seconds it takes
    fn apply(&mut self, line: &str) -> (String, u64) {
        let w: Vec<&str> = line.split_whitespace().collect();
        match w[0] {
            "dg" => {
                let b = hex(w[1]);
                let j = format!("{{\"s\":\"dg\",\"b\":{}}}", arr(&b));
                if let Some(id) = net::latest() {
                    net::deliver(id, net::Item::Data(b), false);
                }
                (j, 0)
            }
            "xdg" => {
                let b = hex(w[1]);
                let j = format!("{{\"s\":\"xdg\",\"b\":{}}}", arr(&b));
                if let Some(id) = net::latest() {
                    net::deliver(id, net::Item::Data(b), true);
                }
                (j, 0)
            }
            "ofail" => {
                let f: u8 = w[1].parse().unwrap();
                net::with(|n| n.open_fault = f);
                (format!("{{\"s\":\"ofail\",\"f\":{}}}", f), 0)
            }
            "block" | "unblock" => {
                net::block(w[0] == "block");
                (format!("{{\"s\":\"{}\"}}", w[0]), 0)
            }
            "rerr" => {
                if let Some(id) = net::latest() {
                    net::deliver(id, net::Item::Err(w[1].parse().unwrap()), false);
                }
                ("{\"s\":\"rerr\"}".into(), 0)
            }
            "serr" => {
                let f: Vec<u8> = w[1].bytes().map(|c| c - b'0').collect();
                net::with(|n| {
                    n.send_faults.clear();
                    n.send_faults.extend(f.iter().map(|x| match *x {
                        0 => 0,
                        1 => libc::ENOBUFS,
                        2 => libc::ECONNREFUSED,
                        3 => libc::ENETUNREACH,
                        4 => libc::EPERM,
                        5 => libc::EMSGSIZE,
                        6 => libc::EHOSTUNREACH,
                        7 => libc::ENETDOWN,
                        8 => libc::EIO,
                        _ => libc::ENODEV,
                    }))
                });
                (format!("{{\"s\":\"serr\",\"f\":{}}}", arr(&f)), 0)
            }
            "call" => {
                let id: u64 = w[1].parse().unwrap();
                let op = w[2].to_string();
                let mut left = None;
                let mut args = Vec::new();
                for a in &w[3..] {
                    if let Some(k) = a.strip_prefix("k=") {
                        left = Some(k.parse().unwrap());
                    } else {
                        args.push(a.to_string());
                    }
                }
                let num = |i: usize| args.get(i).and_then(|s: &String| s.parse::<i64>().ok()).unwrap_or(0);
                let j = match op.as_str() {
                    "write" => format!(
                        "{{\"s\":\"call\",\"o\":{},\"op\":\"write\",\"a\":{},\"sm\":{},\"v\":{}}}",
                        id,
                        num(0),
                        num(1),
                        arr(&hex(&args[2]))
                    ),
                    "lis" => format!("{{\"s\":\"call\",\"o\":{},\"op\":\"lis\",\"a\":{},\"sm\":{},\"v\":[]}}", id, num(0), num(1)),
                    _ => format!("{{\"s\":\"call\",\"o\":{},\"op\":\"{}\",\"a\":{},\"sm\":0,\"v\":[]}}", id, op, num(0)),
                };
                let tx = if op == "lis" {
                    let (tx, rx) = tokio::sync::mpsc::channel(num(1) as usize);
                    self.lis.insert(num(0) as u64, rx);
                    Some(tx)
                } else {
                    None
                };
                let obj = self.obj.clone();
                let fut = async move {
                    let mut g = Guard(id, false);
                    let r = perform(obj, op, args, tx).await;
                    g.1 = true;
                    let (ok, v) = match r {
                        Ok(v) => (1, v),
                        Err(()) => (0, vec![]),
                    };
                    log(format!(
                        "{{\"e\":\"ret\",\"t\":{},\"o\":{},\"ok\":{},\"v\":{}}}",
                        TICK.load(Ordering::SeqCst),
                        id,
                        ok,
                        arr_i(&v)
                    ));
                };
                let h = tokio::task::spawn_local(Starved { inner: Box::pin(fut), left, polls: 0 });
                self.ops.insert(id, h);
                (j, 0)
            }
            "cancel" => {
                let id: u64 = w[1].parse().unwrap();
                if let Some(h) = self.ops.remove(&id) {
                    h.abort();
                }
                (format!("{{\"s\":\"cancel\",\"o\":{}}}", id), 0)
            }
            "ldrop" => {
                let id: u64 = w[1].parse().unwrap();
                self.lis.remove(&id);
                (format!("{{\"s\":\"ldrop\",\"l\":{}}}", id), 0)
            }
            "lget" => {
                let id: u64 = w[1].parse().unwrap();
                let mut n = 0;
                if let Some(rx) = self.lis.get_mut(&id) {
                    while rx.try_recv().is_ok() {
                        n += 1;
                    }
                }
                log(format!("{{\"e\":\"lget\",\"t\":0,\"l\":{},\"n\":{}}}", id, n));
                (format!("{{\"s\":\"lget\",\"l\":{}}}", id), 0)
            }
            "adv" => {
                let n: u64 = w[1].parse().unwrap();
                (format!("{{\"s\":\"adv\",\"n\":{}}}", n), n)
            }
            _ => panic!("unknown stimulus {}", line),
        }
    }
}

fn drain() -> String {
    let ev: Vec<String> = std::mem::take(&mut *EVENTS.lock().unwrap_or_else(|e| e.into_inner()));
    ev.join(",")
}

fn run_one(id: &str, kind: &str, lines: &[&str]) -> String {
    net::reset();
    drain();
    TICK.store(0, Ordering::SeqCst);
    *DONE.lock().unwrap() = (format!("{{\"id\":\"{}\",\"kind\":\"{}\",\"steps\":[", id, kind), Vec::new());
    *CURRENT.lock().unwrap() = vec!["{\"s\":\"start\"}".into()];
    let rt = tokio::runtime::Builder::new_current_thread()
        .enable_all()
        .start_paused(true)
        .on_thread_park(on_park)
        .build()
        .unwrap();
    let (stop_tx, stop_rx) = std::sync::mpsc::channel::<()>();
    let local = tokio::task::LocalSet::new();
    local.block_on(&rt, async {
        // An outstanding blocking task keeps tokio from advancing the paused clock on its own
        tokio::task::spawn_blocking(move || {
            let _ = stop_rx.recv();
        });
        // kind/n: opening the socket fails at step n, 9 = the address is none
        let (kind, fault) = kind.split_once('/').map(|(k, f)| (k, f.parse::<u8>().unwrap())).unwrap_or((kind, 0));
        net::with(|n| n.open_fault = fault);
        let target = if fault == 9 { "127.0.0.1" } else { "127.0.0.1:3671" };
        let obj = match kind {
            "client" => UdpClient::connect(target).await.map(|c| Obj::Client(Arc::new(c))),
            "monitor" => UdpMonitor::connect(target).await.map(|m| Obj::Monitor(Arc::new(m))),
            _ => Ok(Obj::None),
        };
        if fault != 0 {
            *CURRENT.lock().unwrap() = vec!["{\"s\":\"nostart\"}".into()];
            log(format!("{{\"e\":\"ret\",\"t\":0,\"o\":0,\"ok\":{},\"v\":[]}}", obj.is_ok() as u8));
        } else if obj.is_err() {
            log("{\"e\":\"ret\",\"t\":0,\"o\":0,\"ok\":0,\"v\":[]}".into());
        }
        let obj = obj.unwrap_or(Obj::None);
        let mut w = World {
            obj,
            ops: HashMap::new(),
            lis: HashMap::new(),
        };
        let mut calm = settle().await;
        finish_step();
        for line in lines {
            if !calm {
                break;
            }
            let (line, more) = match line.strip_prefix("+ ") {
                Some(l) => (l, true),
                None => (*line, false),
            };
            TICK.store(0, Ordering::SeqCst);
            let (json, secs) = w.apply(line);
            CURRENT.lock().unwrap().push(json);
            if more {
                continue;
            }
            if secs == 0 {
                calm = settle().await;
            }
            for i in 0..secs {
                TICK.store(i + 1, Ordering::SeqCst);
                tokio::time::advance(Duration::from_secs(1)).await;
                calm = settle().await;
                if !calm {
                    break;
                }
            }
            finish_step();
        }
    });
    drop(local);
    drop(stop_tx);
    rt.shutdown_background();
    drain();
    whole()
}

fn finish_step() {
    let st = std::mem::take(&mut *CURRENT.lock().unwrap());
    DONE.lock().unwrap().1.push(format!("{{\"st\":[{}],\"ev\":[{}]}}", st.join(","), drain()));
}

/// The finished steps as a trace
fn whole() -> String {
    let d = DONE.lock().unwrap();
    format!("{}{}]}}", d.0, d.1.join(","))
}

pub fn run(input: &str, output: &str) {
    std::panic::set_hook(Box::new(|_| {
        log(format!("{{\"e\":\"panic\",\"t\":{}}}", TICK.load(Ordering::SeqCst)));
    }));
    let path = output.to_string();
    std::thread::spawn(move || {
        let mut last = u64::MAX;
        loop {
            std::thread::sleep(Duration::from_secs(15));
            let p = PROGRESS.load(Ordering::SeqCst);
            if p == last {
                // the code never gives control back: record what happened so far
                log(format!("{{\"e\":\"storm\",\"t\":{}}}", TICK.load(Ordering::SeqCst)));
                finish_step();
                let mut out = std::fs::OpenOptions::new().create(true).append(true).open(path).expect("output file");
                writeln!(out, "{}", whole()).unwrap();
                eprintln!("no progress, giving up");
                std::process::exit(3);
            }
            last = p;
        }
    });
    net::ENABLED.store(true, Ordering::SeqCst);
    let text = std::fs::read_to_string(input).expect("scenario file");
    let mut out = std::fs::OpenOptions::new().create(true).append(true).open(output).expect("output file");
    let mut cur: Option<(String, String, Vec<&str>)> = None;
    for line in text.lines() {
        let line = line.trim();
        if line.is_empty() {
            continue;
        }
        if let Some(rest) = line.strip_prefix("S ") {
            let w: Vec<&str> = rest.split_whitespace().collect();
            cur = Some((w[0].into(), w[1].into(), vec![]));
        } else if line == "E" {
            let (id, kind, lines) = cur.take().unwrap();
            let j = run_one(&id, &kind, &lines);
            writeln!(out, "{}", j).unwrap();
            out.flush().unwrap();
        } else {
            cur.as_mut().unwrap().2.push(line);
        }
    }
}
