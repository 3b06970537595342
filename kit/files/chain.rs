//! Stand-ins for the chain: system calls, senders, time, messages and replies.
#![allow(dead_code, static_mut_refs, clippy::all)]
pub use contracts::*;
pub use decimal::*;
pub use invariant::demo_api::*;
pub use io::*;
pub use math::{fee_growth::FeeGrowth, liquidity::Liquidity, percentage::Percentage, sqrt_price::{calculate_sqrt_price, SqrtPrice}, token_amount::TokenAmount, *};
pub use sails_rs::{gstd::GStdExecContext, prelude::*, ActorId, MessageId};
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};

pub type Svc = InvariantService<GStdExecContext>;

pub struct Env {
    pub caller: [u8; 32],
    pub value: u128,
    pub time: u64,
    pub height: u32,
    pub gas: u64,
    pub payload: Vec<u8>,
    pub reply_to: [u8; 32],
    pub reply_code: [u8; 4],
    pub msg: u64,
    pub sent: Vec<Sent>,
    pub buf: Vec<u8>,
    pub fail_send: bool,
}

#[derive(Clone, Debug)]
pub struct Sent {
    pub id: [u8; 32],
    pub dest: [u8; 32],
    pub payload: Vec<u8>,
    pub value: u128,
    pub gas: u64,
}

pub static mut ENV: Env = Env {
    caller: [0; 32], value: 0, time: 1000, height: 1, gas: 1_000_000_000_000, payload: Vec::new(), reply_to: [0; 32], reply_code: [0; 4], msg: 1,
    sent: Vec::new(), buf: Vec::new(), fail_send: false,
};
pub static mut EVENTS: Vec<InvariantEvent> = Vec::new();

pub fn env() -> &'static mut Env {
    unsafe { &mut ENV }
}

pub fn events() -> &'static mut Vec<InvariantEvent> {
    unsafe { &mut EVENTS }
}

pub fn actor(n: u8) -> ActorId {
    let mut a = [0; 32];
    a[0] = n;
    a.into()
}

fn record(dest: [u8; 32], payload: Vec<u8>, value: u128, gas: u64) -> [u8; 32] {
    let e = env();
    let mut id = [7u8; 32];
    id[..8].copy_from_slice(&(e.sent.len() as u64 + 1).to_le_bytes());
    e.sent.push(Sent { id, dest, payload, value, gas });
    id
}

unsafe fn slice(p: *const u8, n: u32) -> Vec<u8> {
    if n == 0 { vec![] } else { std::slice::from_raw_parts(p, n as usize).to_vec() }
}

unsafe fn put(p: *mut u8, code: u32, h: [u8; 32]) {
    std::ptr::copy_nonoverlapping(code.to_le_bytes().as_ptr(), p, 4);
    std::ptr::copy_nonoverlapping(h.as_ptr(), p.add(4), 32);
}

unsafe fn hash(p: *const u8) -> [u8; 32] {
    let mut h = [0; 32];
    std::ptr::copy_nonoverlapping(p, h.as_mut_ptr(), 32);
    h
}

unsafe fn val(p: *const u8) -> u128 {
    if p.is_null() { return 0; }
    let mut h = [0; 16];
    std::ptr::copy_nonoverlapping(p, h.as_mut_ptr(), 16);
    let v = u128::from_le_bytes(h);
    if v == u128::MAX { 0 } else { v }
}

macro_rules! sys { ($($n:ident($($a:ident: $t:ty),*) $b:block)*) => { $(#[no_mangle] pub unsafe extern "C" fn $n($($a: $t),*) $b)* } }

sys! {
    gr_source(p: *mut u8) { std::ptr::copy_nonoverlapping(env().caller.as_ptr(), p, 32); }
    gr_program_id(p: *mut u8) { std::ptr::copy_nonoverlapping([99u8; 32].as_ptr(), p, 32); }
    gr_message_id(p: *mut u8) { let mut h = [3u8; 32]; h[..8].copy_from_slice(&env().msg.to_le_bytes()); std::ptr::copy_nonoverlapping(h.as_ptr(), p, 32); }
    gr_value(p: *mut u8) { std::ptr::copy_nonoverlapping(env().value.to_le_bytes().as_ptr(), p, 16); }
    gr_value_available(p: *mut u8) { std::ptr::copy_nonoverlapping(u128::MAX.to_le_bytes().as_ptr(), p, 16); }
    gr_block_timestamp(p: *mut u8) { std::ptr::copy_nonoverlapping(env().time.to_le_bytes().as_ptr(), p, 8); }
    gr_block_height(p: *mut u8) { std::ptr::copy_nonoverlapping(env().height.to_le_bytes().as_ptr(), p, 4); }
    gr_gas_available(p: *mut u8) { std::ptr::copy_nonoverlapping(env().gas.to_le_bytes().as_ptr(), p, 8); }
    gr_env_vars(_v: u32, p: *mut u8) { std::ptr::write_bytes(p, 0, 60); }
    gr_debug(_p: *const u8, _n: u32) {}
    gr_size(p: *mut u8) { std::ptr::copy_nonoverlapping((env().payload.len() as u32).to_le_bytes().as_ptr(), p, 4); }
    gr_read(at: u32, n: u32, b: *mut u8, err: *mut u8) {
        std::ptr::copy_nonoverlapping(env().payload.as_ptr().add(at as usize), b, n as usize);
        std::ptr::write_bytes(err, 0, 4);
    }
    gr_reply_to(p: *mut u8) { put(p, 0, env().reply_to); }
    gr_reply_code(p: *mut u8) { std::ptr::write_bytes(p, 0, 4); std::ptr::copy_nonoverlapping(env().reply_code.as_ptr(), p.add(4), 4); }
    gr_wake(_m: *const u8, _d: u32, err: *mut u8) { std::ptr::write_bytes(err, 0, 4); }
    gr_reply_deposit(_m: *const u8, _g: u64, err: *mut u8) { std::ptr::write_bytes(err, 0, 4); }
    gr_system_reserve_gas(_g: u64, err: *mut u8) { std::ptr::write_bytes(err, 0, 4); }
    gr_send(pv: *const u8, p: *const u8, n: u32, _d: u32, out: *mut u8) { let c = env().fail_send as u32; let id = record(hash(pv), slice(p, n), val(pv.add(32)), 0); put(out, c * 100, id); }
    gr_send_wgas(pv: *const u8, p: *const u8, n: u32, g: u64, _d: u32, out: *mut u8) { let c = env().fail_send as u32; let id = record(hash(pv), slice(p, n), val(pv.add(32)), g); put(out, c * 100, id); }
    gr_reply(p: *const u8, n: u32, v: *const u8, out: *mut u8) { let id = record(env().caller, slice(p, n), val(v), 0); put(out, 0, id); }
    gr_reply_wgas(p: *const u8, n: u32, g: u64, v: *const u8, out: *mut u8) { let id = record(env().caller, slice(p, n), val(v), g); put(out, 0, id); }
    gr_reply_push(p: *const u8, n: u32, err: *mut u8) { env().buf.extend(slice(p, n)); std::ptr::write_bytes(err, 0, 4); }
    gr_reply_commit(v: *const u8, out: *mut u8) { let b = std::mem::take(&mut env().buf); let id = record(env().caller, b, val(v), 0); put(out, 0, id); }
    gr_send_init(p: *mut u8) { std::ptr::write_bytes(p, 0, 8); env().buf.clear(); }
    gr_send_push(_h: u32, p: *const u8, n: u32, err: *mut u8) { env().buf.extend(slice(p, n)); std::ptr::write_bytes(err, 0, 4); }
    gr_send_commit(_h: u32, pv: *const u8, _d: u32, out: *mut u8) { let b = std::mem::take(&mut env().buf); let id = record(hash(pv), b, val(pv.add(32)), 0); put(out, 0, id); }
    gr_send_commit_wgas(_h: u32, pv: *const u8, g: u64, _d: u32, out: *mut u8) { let b = std::mem::take(&mut env().buf); let id = record(hash(pv), b, val(pv.add(32)), g); put(out, 0, id); }
    gr_leave() { LEFT.store(true, std::sync::atomic::Ordering::SeqCst); loop { std::thread::park(); } }
    gr_wait() { LEFT.store(true, std::sync::atomic::Ordering::SeqCst); loop { std::thread::park(); } }
    gr_panic(_p: *const u8, _n: u32) { std::process::exit(77) }
    gr_oom_panic() { std::process::exit(78) }
}

static LEFT: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

/// How a call ended.
#[derive(Debug)]
pub enum Out<T> {
    Ok(T),
    Rejected(String),
    Left,
}

impl<T> Out<T> {
    pub fn ok(self) -> T {
        match self {
            Out::Ok(x) => x,
            Out::Rejected(e) => { println!("unexpected rejection: {e}"); std::process::exit(4) }
            Out::Left => { println!("unexpected early exit"); std::process::exit(4) }
        }
    }
    pub fn is_ok(&self) -> bool {
        matches!(self, Out::Ok(_))
    }
    pub fn rejected(&self) -> bool {
        matches!(self, Out::Rejected(_))
    }
}

struct Send_<T>(T);
unsafe impl<T> Send for Send_<T> {}

/// runs f on a thread of its own, so that an early exit can abandon it
pub fn run<T: 'static>(f: impl FnOnce() -> T + 'static) -> Out<T> {
    LEFT.store(false, std::sync::atomic::Ordering::SeqCst);
    let cell: std::sync::Arc<std::sync::Mutex<Option<Send_<Out<T>>>>> = Default::default();
    let c2 = cell.clone();
    let f = Send_(f);
    let _h = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
        let f = f;
        let f = f;
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || { let g = f; (g.0)() }));
        let r = match r {
            Ok(x) => Out::Ok(x),
            Err(e) => Out::Rejected(e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()),
        };
        *c2.lock().unwrap() = Some(Send_(r));
    }).unwrap();
    loop {
        if let Some(r) = cell.lock().unwrap().take() {
            return r.0;
        }
        if LEFT.load(std::sync::atomic::Ordering::SeqCst) {
            return Out::Left;
        }
        std::thread::sleep(std::time::Duration::from_micros(200));
    }
}

pub fn quiet() {
    std::panic::set_hook(Box::new(|_| {}));
}

pub fn service(caller: u8) -> Svc {
    env().caller = *actor(caller).as_ref().first_chunk::<32>().unwrap();
    env().msg += 1;
    Svc::new(GStdExecContext::new())
}

/// a call by account `caller`
pub fn call<T: 'static>(caller: u8, f: impl FnOnce(&mut Svc) -> T + 'static) -> Out<T> {
    run(move || {
        let mut s = Box::new(service(caller));
        demo_listen(&s, |e| unsafe { EVENTS.push(e.clone()) });
        f(&mut s)
    })
}

fn waker() -> Waker {
    fn cl(_: *const ()) -> RawWaker { RawWaker::new(std::ptr::null(), &VT) }
    fn no(_: *const ()) {}
    static VT: RawWakerVTable = RawWakerVTable::new(cl, no, no, no);
    unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), &VT)) }
}

/// a call that waits for the replies of other programs
pub struct Pending<T> {
    fut: Pin<Box<dyn Future<Output = T>>>,
    caller: [u8; 32],
    msg: u64,
}

pub enum Step<T> {
    Done(Out<T>),
    Waiting(Pending<T>),
}

impl<T> Step<T> {
    pub fn waiting(self) -> Pending<T> {
        match self {
            Step::Waiting(p) => p,
            Step::Done(_) => { println!("the call did not wait for a reply"); std::process::exit(4) }
        }
    }
    pub fn done(self) -> Out<T> {
        match self {
            Step::Done(o) => o,
            Step::Waiting(_) => { println!("the call still waits"); std::process::exit(4) }
        }
    }
}

pub fn begin<T: 'static, F: Future<Output = T> + 'static>(caller: u8, f: impl FnOnce(&'static mut Svc) -> F + 'static) -> Step<T> {
    let s: &'static mut Svc = Box::leak(Box::new(service(caller)));
    let fut = Box::pin(f(s));
    let e = env();
    resume(Pending { fut, caller: e.caller, msg: e.msg })
}

pub fn resume<T: 'static>(p: Pending<T>) -> Step<T> {
    env().caller = p.caller;
    env().msg = p.msg;
    let p = Send_(p);
    match run(move || {
        let mut p = { let q = p; q.0 };
        let w = waker();
        match p.fut.as_mut().poll(&mut Context::from_waker(&w)) {
            Poll::Ready(x) => (Some(x), None),
            Poll::Pending => (None, Some(p)),
        }
    }) {
        Out::Ok((Some(x), _)) => Step::Done(Out::Ok(x)),
        Out::Ok((_, Some(p))) => Step::Waiting(p),
        Out::Ok(_) => unreachable!(),
        Out::Rejected(e) => Step::Done(Out::Rejected(e)),
        Out::Left => Step::Done(Out::Left),
    }
}

/// another program answers message `id` with a payload
pub fn answer(id: [u8; 32], payload: Vec<u8>, success: bool) -> Out<()> {
    let e = env();
    e.payload = payload;
    e.reply_to = id;
    e.reply_code = if success { [0, 1, 0, 0] } else { [1, 0, 0, 0] };
    e.caller = [55; 32];
    e.msg += 1;
    run(|| sails_rs::gstd::handle_reply_with_hook())
}

pub fn vft_reply(ok: bool) -> Vec<u8> {
    ("Vft".to_string(), "TransferFrom".to_string(), ok).encode()
}

pub fn check(what: &str, c: bool) {
    if !c {
        println!("FAILED: {what}");
        std::process::exit(1);
    }
    println!("ok: {what}");
}

pub fn tok(x: u128) -> TokenAmount {
    TokenAmount::new(x.into())
}

pub const ADMIN: u8 = 1;

/// contract deployed by ADMIN with a protocol fee of 1%, tokens 11..15
pub fn deploy() {
    quiet();
    run(|| Svc::seed(InvariantConfig { admin: actor(ADMIN), protocol_fee: Percentage::from_scale(1, 2) })).ok();
}

pub fn tier(fee_permille: u128, spacing: u16) -> FeeTier {
    FeeTier::new(Percentage::from_scale(fee_permille, 3), spacing).unwrap()
}

pub fn fund(user: u8, token: u8, amount: u128) {
    let p = begin(user, move |s| s.deposit_single_token(actor(token), tok(amount))).waiting();
    let id = env().sent.last().unwrap().id;
    answer(id, vft_reply(true), true).ok();
    resume(p).done().ok();
}

pub fn balance(user: u8, token: u8) -> u128 {
    let b = call(9, move |s| s.get_user_balances(actor(user))).ok();
    b.into_iter().find(|(t, _)| *t == actor(token)).map(|(_, a)| a.get().as_u128()).unwrap_or(0)
}

pub fn key(x: u8, y: u8, t: FeeTier) -> PoolKey {
    PoolKey::new(actor(x), actor(y), t).unwrap()
}

pub fn pool(k: PoolKey) -> Pool {
    call(9, move |s| s.get_pool(k.token_x, k.token_y, k.fee_tier)).ok().unwrap()
}

/// pool of tokens 11 and 12, fee 0.6%, spacing 10, price 1, with both tokens funded for accounts 2 and 3
pub fn market() -> PoolKey {
    let t = tier(6, 10);
    call(ADMIN, move |s| s.add_fee_tier(t)).ok();
    call(2, move |s| s.create_pool(actor(11), actor(12), t, calculate_sqrt_price(0).unwrap(), 0)).ok();
    for u in [2, 3] {
        for tk in [11, 12] {
            fund(u, tk, 1_000_000_000_000);
        }
    }
    key(11, 12, t)
}

pub fn open(user: u8, k: PoolKey, lo: i32, up: i32, liq: u128) -> Position {
    let p = pool(k);
    call(user, move |s| s.create_position(k, lo, up, Liquidity::from_integer(liq), p.sqrt_price, p.sqrt_price)).ok()
}
