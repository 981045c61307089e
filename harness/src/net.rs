//! In-process network.  The libc entry points used by std/mio/tokio for UDP are defined in this
//! executable, so every IPv4 datagram socket the library under test opens is replaced by a scripted
//! one: what the library sends is recorded, what it receives is injected by the driver, and both
//! directions can be made to fail.  Nothing leaves the process.
use std::collections::{HashMap, VecDeque};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;

pub static ENABLED: AtomicBool = AtomicBool::new(false);
pub static ACTIVITY: AtomicU64 = AtomicU64::new(0);

pub enum Item {
    Data(Vec<u8>),
    Err(i32),
}

#[derive(Default)]
pub struct Sock {
    pub id: usize,
    signal: i32, // our end of the socketpair, used only to make the descriptor readable
    inbox: VecDeque<Item>,
    pub peer: Option<(u32, u16)>,
    port: u16,
}

#[derive(Default)]
pub struct Net {
    socks: HashMap<i32, Sock>,
    next: usize,
    /// errno values for the next sends, 0 = let it through
    pub send_faults: VecDeque<i32>,
    /// sending is not possible for the time being
    blocked: bool,
    /// step of opening the next socket that fails: 1 socket, 2 bind, 3 connect, 4 local address; 0 none
    pub open_fault: u8,
}

/// Whether this step of opening a socket is to fail; it does so once
fn open_fails(step: u8) -> bool {
    let f = with(|n| {
        let f = n.open_fault == step;
        if f {
            n.open_fault = 0;
        }
        f
    });
    if f {
        set_errno(if step == 1 { libc::EMFILE } else { libc::ENETUNREACH });
    }
    f
}

static NET: Mutex<Option<Net>> = Mutex::new(None);

pub fn with<R>(f: impl FnOnce(&mut Net) -> R) -> R {
    let mut g = NET.lock().unwrap_or_else(|e| e.into_inner());
    f(g.get_or_insert_with(Net::default))
}

pub fn reset() {
    with(|n| {
        n.send_faults.clear();
        n.open_fault = 0;
        n.blocked = false;
        n.next = 0;
    });
}

/// The socket's buffer is full, or has room again
pub fn block(b: bool) {
    ACTIVITY.fetch_add(1, Ordering::SeqCst);
    with(|n| {
        n.blocked = b;
        if !b {
            // make the descriptors writable once more, for those who wait for this
            for (fd, s) in &n.socks {
                let mut x = [0u8];
                unsafe {
                    libc::syscall(libc::SYS_write, *fd, x.as_ptr(), 1usize);
                    libc::syscall(libc::SYS_read, s.signal, x.as_mut_ptr(), 1usize);
                }
            }
        }
    })
}

/// Newest library socket
pub fn latest() -> Option<usize> {
    with(|n| n.socks.values().map(|s| s.id).max())
}

/// A datagram of a stranger reaches only sockets that are not connected
pub fn deliver(id: usize, item: Item, stranger: bool) -> bool {
    ACTIVITY.fetch_add(1, Ordering::SeqCst);
    with(|n| {
        for s in n.socks.values_mut() {
            if s.id == id && !(stranger && s.peer.is_some()) {
                s.inbox.push_back(item);
                let b = [1u8];
                unsafe { libc::syscall(libc::SYS_write, s.signal, b.as_ptr(), 1usize) };
                return true;
            }
        }
        false
    })
}

fn tracked(fd: i32) -> bool {
    with(|n| n.socks.contains_key(&fd))
}

fn set_errno(e: i32) {
    unsafe { *libc::__errno_location() = e }
}

unsafe fn read_addr(addr: *const libc::sockaddr, len: libc::socklen_t) -> Option<(u32, u16)> {
    if addr.is_null() || (len as usize) < std::mem::size_of::<libc::sockaddr_in>() {
        return None;
    }
    let a = *(addr as *const libc::sockaddr_in);
    Some((u32::from_be(a.sin_addr.s_addr), u16::from_be(a.sin_port)))
}

unsafe fn write_addr(ip: u32, port: u16, addr: *mut libc::sockaddr, len: *mut libc::socklen_t) {
    if addr.is_null() || len.is_null() {
        return;
    }
    let mut a: libc::sockaddr_in = std::mem::zeroed();
    a.sin_family = libc::AF_INET as u16;
    a.sin_port = port.to_be();
    a.sin_addr.s_addr = ip.to_be();
    let n = std::cmp::min(*len as usize, std::mem::size_of::<libc::sockaddr_in>());
    std::ptr::copy_nonoverlapping(&a as *const _ as *const u8, addr as *mut u8, n);
    *len = std::mem::size_of::<libc::sockaddr_in>() as u32;
}

#[no_mangle]
pub unsafe extern "C" fn socket(domain: i32, ty: i32, proto: i32) -> i32 {
    if ENABLED.load(Ordering::SeqCst) && domain == libc::AF_INET && (ty & 0xff) == libc::SOCK_DGRAM {
        if open_fails(1) {
            return -1;
        }
        let mut sv = [0i32; 2];
        let r = libc::syscall(libc::SYS_socketpair, libc::AF_UNIX, libc::SOCK_STREAM | libc::SOCK_NONBLOCK | libc::SOCK_CLOEXEC, 0, sv.as_mut_ptr());
        if r != 0 {
            return -1;
        }
        with(|n| {
            n.next += 1;
            let id = n.next;
            n.socks.insert(
                sv[0],
                Sock {
                    id,
                    signal: sv[1],
                    port: 40000 + id as u16,
                    ..Default::default()
                },
            );
        });
        return sv[0];
    }
    libc::syscall(libc::SYS_socket, domain, ty, proto) as i32
}

#[no_mangle]
pub unsafe extern "C" fn bind(fd: i32, addr: *const libc::sockaddr, len: libc::socklen_t) -> i32 {
    if tracked(fd) {
        return if open_fails(2) { -1 } else { 0 };
    }
    libc::syscall(libc::SYS_bind, fd, addr, len) as i32
}

#[no_mangle]
pub unsafe extern "C" fn connect(fd: i32, addr: *const libc::sockaddr, len: libc::socklen_t) -> i32 {
    if tracked(fd) {
        if open_fails(3) {
            return -1;
        }
        let a = read_addr(addr, len);
        with(|n| n.socks.get_mut(&fd).unwrap().peer = a);
        return 0;
    }
    libc::syscall(libc::SYS_connect, fd, addr, len) as i32
}

#[no_mangle]
pub unsafe extern "C" fn getsockname(fd: i32, addr: *mut libc::sockaddr, len: *mut libc::socklen_t) -> i32 {
    if tracked(fd) {
        if open_fails(4) {
            return -1;
        }
        let port = with(|n| n.socks[&fd].port);
        write_addr(0, port, addr, len);
        return 0;
    }
    libc::syscall(libc::SYS_getsockname, fd, addr, len) as i32
}

#[no_mangle]
pub unsafe extern "C" fn getpeername(fd: i32, addr: *mut libc::sockaddr, len: *mut libc::socklen_t) -> i32 {
    if tracked(fd) {
        return match with(|n| n.socks[&fd].peer) {
            Some((ip, port)) => {
                write_addr(ip, port, addr, len);
                0
            }
            None => {
                set_errno(libc::ENOTCONN);
                -1
            }
        };
    }
    libc::syscall(libc::SYS_getpeername, fd, addr, len) as i32
}

#[no_mangle]
pub unsafe extern "C" fn setsockopt(fd: i32, level: i32, name: i32, val: *const libc::c_void, len: libc::socklen_t) -> i32 {
    if tracked(fd) {
        return 0;
    }
    libc::syscall(libc::SYS_setsockopt, fd, level, name, val, len) as i32
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: i32) -> i32 {
    if ENABLED.load(Ordering::SeqCst) {
        if let Some(s) = with(|n| n.socks.remove(&fd)) {
            libc::syscall(libc::SYS_close, s.signal);
        }
    }
    libc::syscall(libc::SYS_close, fd) as i32
}

unsafe fn do_send(fd: i32, buf: *const libc::c_void, len: usize, dest: Option<(u32, u16)>) -> isize {
    if with(|n| n.blocked) {
        set_errno(libc::EAGAIN);
        return -1;
    }
    ACTIVITY.fetch_add(1, Ordering::SeqCst);
    let bytes = std::slice::from_raw_parts(buf as *const u8, len).to_vec();
    let e = with(|n| {
        let fault = n.send_faults.pop_front().unwrap_or(0);
        if fault == 0 {
            let (ip, port) = dest.or(n.socks[&fd].peer).unwrap_or((0, 0));
            let d: Vec<u8> = [ip.to_be_bytes().to_vec(), port.to_be_bytes().to_vec()].concat();
            crate::run::log(format!(
                "{{\"e\":\"out\",\"t\":{},\"b\":{},\"d\":{}}}",
                crate::run::TICK.load(Ordering::SeqCst),
                crate::run::arr(&bytes),
                crate::run::arr(&d)
            ));
        }
        fault
    });
    if e != 0 {
        set_errno(e);
        return -1;
    }
    len as isize
}

#[no_mangle]
pub unsafe extern "C" fn send(fd: i32, buf: *const libc::c_void, len: usize, flags: i32) -> isize {
    if tracked(fd) {
        return do_send(fd, buf, len, None);
    }
    libc::syscall(libc::SYS_sendto, fd, buf, len, flags, 0usize, 0usize) as isize
}

#[no_mangle]
pub unsafe extern "C" fn sendto(fd: i32, buf: *const libc::c_void, len: usize, flags: i32, addr: *const libc::sockaddr, alen: libc::socklen_t) -> isize {
    if tracked(fd) {
        return do_send(fd, buf, len, read_addr(addr, alen));
    }
    libc::syscall(libc::SYS_sendto, fd, buf, len, flags, addr, alen) as isize
}

unsafe fn do_recv(fd: i32, buf: *mut libc::c_void, len: usize, flags: i32) -> isize {
    let peek = flags & libc::MSG_PEEK != 0;
    let r = with(|n| {
        let s = n.socks.get_mut(&fd).unwrap();
        let item = if peek {
            match s.inbox.front() {
                Some(Item::Data(d)) => Some(Item::Data(d.clone())),
                Some(Item::Err(e)) => Some(Item::Err(*e)),
                None => None,
            }
        } else {
            s.inbox.pop_front()
        };
        if item.is_none() {
            let mut junk = [0u8; 4096];
            while libc::syscall(libc::SYS_read, fd, junk.as_mut_ptr(), junk.len()) > 0 {}
        }
        item
    });
    match r {
        Some(Item::Data(d)) => {
            ACTIVITY.fetch_add(1, Ordering::SeqCst);
            let k = std::cmp::min(len, d.len());
            std::ptr::copy_nonoverlapping(d.as_ptr(), buf as *mut u8, k);
            k as isize
        }
        Some(Item::Err(e)) => {
            ACTIVITY.fetch_add(1, Ordering::SeqCst);
            set_errno(e);
            -1
        }
        None => {
            set_errno(libc::EAGAIN);
            -1
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn recv(fd: i32, buf: *mut libc::c_void, len: usize, flags: i32) -> isize {
    if tracked(fd) {
        return do_recv(fd, buf, len, flags);
    }
    libc::syscall(libc::SYS_recvfrom, fd, buf, len, flags, 0usize, 0usize) as isize
}

#[no_mangle]
pub unsafe extern "C" fn recvfrom(fd: i32, buf: *mut libc::c_void, len: usize, flags: i32, addr: *mut libc::sockaddr, alen: *mut libc::socklen_t) -> isize {
    if tracked(fd) {
        let r = do_recv(fd, buf, len, flags);
        if r >= 0 {
            let (ip, port) = with(|n| n.socks[&fd].peer).unwrap_or((0x7f000001, 3671));
            write_addr(ip, port, addr, alen);
        }
        return r;
    }
    libc::syscall(libc::SYS_recvfrom, fd, buf, len, flags, addr, alen) as isize
}
