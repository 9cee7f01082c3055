//! A stand-in for the chain runtime: accounts, clock, rent, address derivation and the token,
//! associated-token and system programs, as far as the program under test uses them.
#![allow(dead_code, static_mut_refs)]
use pinocchio::account_info::AccountInfo;

pub type Key = [u8; 32];
pub const PROGRAM: Key = xorca_staking_program::ID;
pub const ORCA: Key = xorca_staking_program::cpi::token::ORCA_MINT_ID;
pub const XORCA: Key = xorca_staking_program::cpi::token::XORCA_MINT_ID;
pub const SYSTEM: Key = [0; 32];
pub const DEPLOYER: Key = xorca_staking_program::DEPLOYER_ADDRESS;
pub fn token() -> Key { b58("TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA") }
pub fn ata_program() -> Key { b58("ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL") }

pub fn b58(s: &str) -> Key {
    let al = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
    let mut out = [0u8; 32];
    for c in s.bytes() {
        let mut carry = al.iter().position(|x| *x == c).unwrap() as u32;
        for b in out.iter_mut().rev() { carry += *b as u32 * 58; *b = carry as u8; carry >>= 8; }
    }
    out
}

// ---------------------------------------------------------------- memory
extern "C" { fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8; }
const HEAP: usize = 0x300000000;
extern "C" fn heap_init() { unsafe { mmap(HEAP as *mut u8, 64 * 1024, 3, 0x32, -1, 0); } }
#[used]
#[link_section = ".init_array"]
static INIT: extern "C" fn() = heap_init;
static mut ARENA: usize = 0;
fn arena(n: usize) -> *mut u8 {
    unsafe {
        if ARENA == 0 { ARENA = mmap(std::ptr::null_mut(), 64 << 20, 3, 0x22, -1, 0) as usize; }
        let p = ARENA; ARENA += (n + 15) / 16 * 16; p as *mut u8
    }
}

// ---------------------------------------------------------------- accounts
pub const H: usize = 88;
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct A(pub usize);
static mut ALL: [usize; 64] = [0; 64];
static mut COUNT: usize = 0;
const ROOM: usize = 24 * 1024;

impl A {
    fn p(self) -> *mut u8 { unsafe { ALL[self.0] as *mut u8 } }
    fn get<const N: usize>(self, off: usize) -> [u8; N] { unsafe { *(self.p().add(off) as *const [u8; N]) } }
    fn put(self, off: usize, b: &[u8]) { unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), self.p().add(off), b.len()) } }
    pub fn key(self) -> Key { self.get(8) }
    pub fn owner(self) -> Key { self.get(40) }
    pub fn lamports(self) -> u64 { u64::from_le_bytes(self.get(72)) }
    pub fn len(self) -> usize { u64::from_le_bytes(self.get(80)) as usize }
    pub fn set_owner(self, k: &Key) { self.put(40, k) }
    pub fn set_lamports(self, v: u64) { self.put(72, &v.to_le_bytes()) }
    pub fn set_len(self, v: usize) { self.put(80, &(v as u64).to_le_bytes()) }
    pub fn data(self) -> &'static mut [u8] { unsafe { std::slice::from_raw_parts_mut(self.p().add(H), self.len()) } }
    pub fn u64(self, o: usize) -> u64 { u64::from_le_bytes(self.data()[o..o + 8].try_into().unwrap()) }
    pub fn i64(self, o: usize) -> i64 { self.u64(o) as i64 }
    pub fn set64(self, o: usize, v: u64) { self.data()[o..o + 8].copy_from_slice(&v.to_le_bytes()) }
    pub fn bytes(self, o: usize, n: usize) -> &'static [u8] { &self.data()[o..o + n] }
    /// token balance
    pub fn amount(self) -> u64 { self.u64(64) }
    pub fn writable(self, s: bool) -> A { self.put(2, &[s as u8]); self }
    pub fn signer(self, s: bool) -> A { self.put(1, &[s as u8]); self }
}

pub fn account(key: Key, owner: Key, lamports: u64, len: usize) -> A {
    unsafe {
        let p = arena(H + ROOM);
        std::ptr::write_bytes(p, 0, H + ROOM);
        ALL[COUNT] = p as usize;
        COUNT += 1;
        let a = A(COUNT - 1);
        a.put(0, &[0xff, 0, 1, 0]);
        a.put(8, &key);
        a.set_owner(&owner);
        a.set_lamports(lamports);
        a.set_len(len);
        a
    }
}
pub fn wallet(n: u8) -> A { account([n; 32], SYSTEM, 1_000_000_000_000, 0).signer(true) }
pub fn mint(key: Key, authority: Option<Key>, supply: u64) -> A {
    let a = account(key, token(), 10_000_000, 82);
    if let Some(k) = authority { a.data()[0] = 1; a.data()[4..36].copy_from_slice(&k); }
    a.set64(36, supply);
    a.data()[44] = 6;
    a.data()[45] = 1;
    a
}
pub fn token_account(key: Key, mint: Key, owner: Key, amount: u64) -> A {
    let a = account(key, token(), 2_039_280, 165);
    a.data()[0..32].copy_from_slice(&mint);
    a.data()[32..64].copy_from_slice(&owner);
    a.set64(64, amount);
    a.data()[108] = 1;
    a
}
fn find(k: &Key) -> Option<A> { unsafe { (0..COUNT).map(A).find(|a| a.key() == *k) } }

// ---------------------------------------------------------------- world
pub static mut NOW: i64 = 1_700_000_000;
pub static mut CPI_FAILED: bool = false;
pub static mut CALLS: usize = 0;
pub static mut EVENTS: usize = 0;
pub static mut EVENT: [u8; 256] = [0; 256];
pub static mut EVENT_LEN: usize = 0;
pub fn set_now(t: i64) { unsafe { NOW = t } }
pub fn last_event() -> &'static [u8] { unsafe { &EVENT[..EVENT_LEN] } }
pub fn rent(len: usize) -> u64 { (len as u64 + 128) * 3480 * 2 }

/// runs one instruction; a failed one leaves every account as it was
pub fn exec(accts: &[A], ix: &[u8]) -> Result<(), u64> {
    unsafe {
        let n = COUNT;
        let save = arena(n * (H + ROOM));
        for i in 0..n { std::ptr::copy_nonoverlapping(ALL[i] as *const u8, save.add(i * (H + ROOM)), H + ROOM); }
        let heap = *(HEAP as *const usize);
        CPI_FAILED = false;
        EVENTS = 0;
        CALLS = 0;
        EVENT_LEN = 0;
        let mut sum0 = 0u128;
        for i in 0..n { A(i).put(4, &[0; 4]); sum0 += A(i).lamports() as u128; }
        let raw: [usize; 24] = std::array::from_fn(|i| if i < accts.len() { accts[i].p() as usize } else { 0 });
        let infos = std::slice::from_raw_parts(raw.as_ptr() as *const AccountInfo, accts.len());
        let r = xorca_staking_program::entrypoint::process_instruction(&PROGRAM, infos, ix);
        *(HEAP as *mut usize) = heap;
        let mut sum1 = 0u128;
        for i in 0..n { sum1 += A(i).lamports() as u128; }
        let ok = r.is_ok() && !CPI_FAILED && sum0 == sum1;
        for i in 0..n {
            if !ok { std::ptr::copy_nonoverlapping(save.add(i * (H + ROOM)), ALL[i] as *mut u8, H + ROOM); }
            A(i).put(0, &[0xff]);
        }
        ARENA = save as usize;
        match r { Ok(()) if ok => Ok(()), Ok(()) => Err(u64::MAX), Err(e) => Err(u64::from(e)) }
    }
}

/// forgets every account, for an independent scenario
pub fn reset() { unsafe { COUNT = 0; NOW = 1_700_000_000; } }

// ---------------------------------------------------------------- derivation
pub fn pda_with(seeds: &[&[u8]], bump: Option<u8>, program: &Key) -> Key {
    let mut h = Sha::new();
    for s in seeds { h.update(s); }
    if let Some(b) = bump { h.update(&[b]); }
    h.update(program);
    h.update(b"ProgramDerivedAddress");
    h.finish()
}
/// the canonical bump: most addresses get 255, some less, as on chain
pub fn pda(seeds: &[&[u8]], program: &Key) -> (Key, u8) {
    let mut b = 255u8;
    loop {
        let k = pda_with(seeds, Some(b), program);
        if k[31] & 1 == 0 { return (k, b); }
        b -= 1;
    }
}
pub fn state_key() -> (Key, u8) { pda(&[b"state"], &PROGRAM) }
pub fn vault_key(state: &Key) -> (Key, u8) { pda(&[state, &token(), &ORCA], &ata_program()) }
pub fn rec_key(user: &Key, idx: u8) -> (Key, u8) { pda(&[b"pending_withdraw", user, &[idx]], &PROGRAM) }

#[repr(C)]
#[derive(Clone, Copy)]
struct Sl { p: *const u8, n: u64 }
impl Sl { unsafe fn b(&self) -> &'static [u8] { std::slice::from_raw_parts(self.p, self.n as usize) } }
unsafe fn sls(p: *const u8, n: u64) -> ([&'static [u8]; 20], usize) {
    let mut o: [&'static [u8]; 20] = [&[]; 20];
    for i in 0..n as usize { o[i] = (*(p as *const Sl).add(i)).b(); }
    (o, n as usize)
}
#[no_mangle]
unsafe extern "C" fn sol_sha256(v: *const u8, n: u64, out: *mut u8) -> u64 {
    let (s, k) = sls(v, n);
    let mut h = Sha::new();
    for x in &s[..k] { h.update(x); }
    *(out as *mut Key) = h.finish();
    0
}
#[no_mangle]
unsafe extern "C" fn sol_create_program_address(s: *const u8, n: u64, prog: *const u8, out: *mut u8) -> u64 {
    let (s, k) = sls(s, n);
    *(out as *mut Key) = pda_with(&s[..k], None, &*(prog as *const Key));
    0
}
#[no_mangle]
unsafe extern "C" fn sol_try_find_program_address(s: *const u8, n: u64, prog: *const u8, out: *mut u8, bump: *mut u8) -> u64 {
    let (s, k) = sls(s, n);
    let (a, b) = pda(&s[..k], &*(prog as *const Key));
    *(out as *mut Key) = a;
    *bump = b;
    0
}
#[no_mangle]
unsafe extern "C" fn sol_get_clock_sysvar(a: *mut u8) -> u64 {
    std::ptr::write_bytes(a, 0, 40);
    *(a as *mut u64) = 123;
    *(a.add(8) as *mut i64) = NOW - 1000;
    *(a.add(32) as *mut i64) = NOW;
    0
}
#[no_mangle]
unsafe extern "C" fn sol_get_rent_sysvar(a: *mut u8) -> u64 {
    *(a as *mut u64) = 3480;
    *(a.add(8) as *mut f64) = 2.0;
    *a.add(16) = 50;
    0
}
#[no_mangle]
unsafe extern "C" fn sol_log_(_: *const u8, _: u64) {}
#[no_mangle]
unsafe extern "C" fn sol_log_64_(_: u64, _: u64, _: u64, _: u64, _: u64) {}
#[no_mangle]
unsafe extern "C" fn sol_log_pubkey(_: *const u8) {}
#[no_mangle]
unsafe extern "C" fn sol_log_compute_units_() {}
#[no_mangle]
unsafe extern "C" fn sol_log_data(p: *const u8, n: u64) {
    let (s, k) = sls(p, n);
    EVENTS += 1;
    EVENT_LEN = 0;
    for x in &s[..k] { EVENT[EVENT_LEN..EVENT_LEN + x.len()].copy_from_slice(x); EVENT_LEN += x.len(); }
}
#[no_mangle]
unsafe extern "C" fn sol_memcpy_(d: *mut u8, s: *const u8, n: u64) { std::ptr::copy_nonoverlapping(s, d, n as usize) }
#[no_mangle]
unsafe extern "C" fn sol_memmove_(d: *mut u8, s: *const u8, n: u64) { std::ptr::copy(s, d, n as usize) }
#[no_mangle]
unsafe extern "C" fn sol_memset_(d: *mut u8, c: u8, n: u64) { std::ptr::write_bytes(d, c, n as usize) }
#[no_mangle]
unsafe extern "C" fn sol_memcmp_(a: *const u8, b: *const u8, n: u64, r: *mut i32) {
    *r = 0;
    for i in 0..n as usize { if *a.add(i) != *b.add(i) { *r = *a.add(i) as i32 - *b.add(i) as i32; return; } }
}

// ---------------------------------------------------------------- called programs
#[repr(C)]
struct CIx { prog: *const Key, metas: *const CMeta, nm: u64, data: *const u8, nd: u64 }
#[repr(C)]
struct CMeta { key: *const Key, w: bool, s: bool }
#[no_mangle]
unsafe extern "C" fn sol_invoke_signed_c(ix: *const u8, _infos: *const u8, _n: u64, seeds: *const u8, ns: u64) -> u64 {
    CALLS += 1;
    let ix = &*(ix as *const CIx);
    let metas = std::slice::from_raw_parts(ix.metas, ix.nm as usize);
    let data = std::slice::from_raw_parts(ix.data, ix.nd as usize);
    let mut signed: [Key; 4] = [[255; 32]; 4];
    for i in 0..ns as usize {
        let s = *(seeds as *const Sl).add(i);
        let (v, k) = sls(s.p, s.n);
        signed[i] = pda_with(&v[..k], None, &PROGRAM);
    }
    let mut ok = true;
    for m in metas {
        match find(&*m.key) {
            None => {}
            Some(a) => {
                if m.s && a.get::<1>(1)[0] == 0 && !signed.contains(&*m.key) { ok = false; }
            }
        }
    }
    let r = ok && call(&*ix.prog, metas, data, &signed).is_some();
    if !r { CPI_FAILED = true; }
    0
}
unsafe fn call(prog: &Key, m: &[CMeta], d: &[u8], _signed: &[Key]) -> Option<()> {
    let acc = |i: usize| find(&*m[i].key);
    let le = |o: usize| u64::from_le_bytes(d[o..o + 8].try_into().unwrap());
    if *prog == token() {
        let (o, amt) = match d[0] { 3 | 7 | 8 => (0, le(1)), 12 | 14 | 15 => (1, le(1)), _ => return None };
        match d[0] {
            3 | 12 => {
                let (s, t, au) = (acc(0)?, acc(1 + o)?, &m[2 + o]);
                if s.bytes(0, 32) != t.bytes(0, 32) || s.bytes(32, 32) != &*au.key || !au.s { return None; }
                s.set64(64, s.amount().checked_sub(amt)?);
                t.set64(64, t.amount().checked_add(amt)?);
            }
            7 | 14 => {
                let (mi, t, au) = (acc(0)?, acc(1)?, &m[2]);
                if t.bytes(0, 32) != mi.key() || mi.data()[0] != 1 || mi.bytes(4, 32) != &*au.key || !au.s { return None; }
                mi.set64(36, mi.u64(36).checked_add(amt)?);
                t.set64(64, t.amount().checked_add(amt)?);
            }
            _ => {
                let (s, mi, au) = (acc(0)?, acc(1)?, &m[2]);
                if s.bytes(0, 32) != mi.key() || s.bytes(32, 32) != &*au.key || !au.s { return None; }
                s.set64(64, s.amount().checked_sub(amt)?);
                mi.set64(36, mi.u64(36).checked_sub(amt)?);
            }
        }
        return Some(());
    }
    if *prog == SYSTEM {
        let owner_at = |o: usize| -> Key { d[o..o + 32].try_into().unwrap() };
        match u32::from_le_bytes(d[0..4].try_into().unwrap()) {
            0 => {
                let (f, t) = (acc(0)?, acc(1)?);
                if t.lamports() != 0 || t.len() != 0 || t.owner() != SYSTEM || !m[1].s { return None; }
                f.set_lamports(f.lamports().checked_sub(le(4))?);
                t.set_lamports(le(4));
                t.set_len(le(12) as usize);
                t.data().fill(0);
                t.set_owner(&owner_at(20));
            }
            2 => {
                let (f, t) = (acc(0)?, acc(1)?);
                if f.owner() != SYSTEM || f.len() != 0 || !m[0].s { return None; }
                f.set_lamports(f.lamports().checked_sub(le(4))?);
                t.set_lamports(t.lamports().checked_add(le(4))?);
            }
            8 => {
                let t = acc(0)?;
                if t.len() != 0 || t.owner() != SYSTEM || !m[0].s { return None; }
                t.set_len(le(4) as usize);
                t.data().fill(0);
            }
            1 => {
                let t = acc(0)?;
                if t.owner() != SYSTEM || !m[0].s { return None; }
                t.set_owner(&owner_at(4));
            }
            _ => return None,
        }
        return Some(());
    }
    if *prog == ata_program() {
        let (f, t, w, mi) = (acc(0)?, acc(1)?, acc(2)?, acc(3)?);
        if t.key() != pda(&[&w.key(), &token(), &mi.key()], &ata_program()).0 { return None; }
        if t.owner() != SYSTEM {
            return if d.first() == Some(&1) && t.owner() == token() { Some(()) } else { None };
        }
        let need = rent(165).saturating_sub(t.lamports());
        f.set_lamports(f.lamports().checked_sub(need)?);
        t.set_lamports(t.lamports() + need);
        t.set_owner(&token());
        t.set_len(165);
        t.data().fill(0);
        t.data()[0..32].copy_from_slice(&mi.key());
        t.data()[32..64].copy_from_slice(&w.key());
        t.data()[108] = 1;
        return Some(());
    }
    None
}

// ---------------------------------------------------------------- a standard pool
pub struct Pool { pub state: A, pub vault: A, pub xmint: A, pub omint: A, pub system: A, pub token: A, pub ata: A, pub auth: A }
/// a pool as it is after initialization and some history
pub fn pool(vault: u64, escrow: u64, supply: u64, cooldown: i64) -> Pool {
    let (sk, sb) = state_key();
    let (vk, vb) = vault_key(&sk);
    let auth = wallet(0xAA);
    let state = account(sk, PROGRAM, rent(2048), 2048);
    state.data()[0] = 1;
    state.data()[6] = sb;
    state.data()[7] = vb;
    state.set64(8, escrow);
    state.set64(16, cooldown as u64);
    state.data()[24..56].copy_from_slice(&auth.key());
    Pool { state, vault: token_account(vk, ORCA, sk, vault), xmint: mint(XORCA, Some(sk), supply), omint: mint(ORCA, None, 1 << 50),
           system: account(SYSTEM, b58("NativeLoader1111111111111111111111111111111"), 1, 0), token: account(token(), SYSTEM, 1, 0), ata: account(ata_program(), SYSTEM, 1, 0), auth }
}
pub struct User { pub w: A, pub orca: A, pub xorca: A }
pub fn user(n: u8, orca: u64, xorca: u64) -> User {
    let w = wallet(n);
    User { w, orca: token_account([n ^ 0x40; 32], ORCA, w.key(), orca), xorca: token_account([n ^ 0x80; 32], XORCA, w.key(), xorca) }
}
/// the (not yet existing) pending-withdrawal address of a user
pub fn rec(u: &User, idx: u8, lamports: u64) -> A { account(rec_key(&u.w.key(), idx).0, SYSTEM, lamports, 0) }
/// an existing pending withdrawal
pub fn open_rec(u: &User, idx: u8, amount: u64, time: i64) -> A {
    let (k, b) = rec_key(&u.w.key(), idx);
    let a = account(k, PROGRAM, rent(1024), 1024);
    a.data()[0] = 2;
    a.data()[6] = b;
    a.data()[7] = idx;
    a.data()[8..40].copy_from_slice(&u.w.key());
    a.set64(40, amount);
    a.set64(48, time as u64);
    a
}
fn ix(tag: u8, parts: &[&[u8]]) -> ([u8; 64], usize) {
    let mut b = [0u8; 64];
    b[0] = tag;
    let mut n = 1;
    for p in parts { b[n..n + p.len()].copy_from_slice(p); n += p.len(); }
    (b, n)
}
pub fn stake(p: &Pool, u: &User, a: u64) -> Result<(), u64> {
    let (b, n) = ix(0, &[&a.to_le_bytes()]);
    exec(&[u.w, p.vault, u.orca, u.xorca, p.xmint, p.state, p.omint, p.token], &b[..n])
}
pub fn unstake(p: &Pool, u: &User, r: A, x: u64, idx: u8) -> Result<(), u64> {
    let (b, n) = ix(1, &[&x.to_le_bytes(), &[idx]]);
    exec(&[u.w, p.state, r, u.xorca, p.xmint, p.omint, p.vault, p.system, p.token], &b[..n])
}
pub fn withdraw(p: &Pool, u: &User, r: A, idx: u8) -> Result<(), u64> {
    let (b, n) = ix(2, &[&[idx]]);
    exec(&[u.w, p.state, r, u.orca, p.vault, p.omint, p.system, p.token], &b[..n])
}
pub fn set_cooldown(p: &Pool, signer: A, v: i64) -> Result<(), u64> {
    let (b, n) = ix(4, &[&[0], &v.to_le_bytes()]);
    exec(&[signer, p.state], &b[..n])
}
pub fn set_authority(p: &Pool, signer: A, k: &Key) -> Result<(), u64> {
    let (b, n) = ix(4, &[&[1], k]);
    exec(&[signer, p.state], &b[..n])
}
/// initialize; `accts` in the program's order
pub fn initialize(accts: &[A; 9], cd: i64) -> Result<(), u64> {
    let (b, n) = ix(3, &[&cd.to_le_bytes()]);
    exec(accts, &b[..n])
}
/// everything for a first initialization: payer, authority, state, vault, xmint, omint, system, token, ata
pub fn fresh(state_lamports: u64) -> [A; 9] {
    let (sk, _) = state_key();
    let (vk, _) = vault_key(&sk);
    let payer = account(DEPLOYER, SYSTEM, 1_000_000_000_000, 0).signer(true);
    [payer, wallet(0xAA), account(sk, SYSTEM, state_lamports, 0), account(vk, SYSTEM, 0, 0), mint(XORCA, Some(sk), 0), mint(ORCA, None, 1 << 50),
     account(SYSTEM, b58("NativeLoader1111111111111111111111111111111"), 1, 0), account(token(), SYSTEM, 1, 0), account(ata_program(), SYSTEM, 1, 0)]
}
#[macro_export]
macro_rules! expect {
    ($c:expr, $($m:tt)*) => { if !$c { println!($($m)*); std::process::exit(1); } };
}

// ---------------------------------------------------------------- sha256
pub struct Sha { h: [u32; 8], buf: [u8; 64], n: usize, total: u64 }
const K: [u32; 64] = [
    0x428a2f98, 0x71374491, 0xb5c0fbcf, 0xe9b5dba5, 0x3956c25b, 0x59f111f1, 0x923f82a4, 0xab1c5ed5, 0xd807aa98, 0x12835b01, 0x243185be, 0x550c7dc3, 0x72be5d74, 0x80deb1fe,
    0x9bdc06a7, 0xc19bf174, 0xe49b69c1, 0xefbe4786, 0x0fc19dc6, 0x240ca1cc, 0x2de92c6f, 0x4a7484aa, 0x5cb0a9dc, 0x76f988da, 0x983e5152, 0xa831c66d, 0xb00327c8, 0xbf597fc7,
    0xc6e00bf3, 0xd5a79147, 0x06ca6351, 0x14292967, 0x27b70a85, 0x2e1b2138, 0x4d2c6dfc, 0x53380d13, 0x650a7354, 0x766a0abb, 0x81c2c92e, 0x92722c85, 0xa2bfe8a1, 0xa81a664b,
    0xc24b8b70, 0xc76c51a3, 0xd192e819, 0xd6990624, 0xf40e3585, 0x106aa070, 0x19a4c116, 0x1e376c08, 0x2748774c, 0x34b0bcb5, 0x391c0cb3, 0x4ed8aa4a, 0x5b9cca4f, 0x682e6ff3,
    0x748f82ee, 0x78a5636f, 0x84c87814, 0x8cc70208, 0x90befffa, 0xa4506ceb, 0xbef9a3f7, 0xc67178f2];
impl Sha {
    pub fn new() -> Sha { Sha { h: [0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19], buf: [0; 64], n: 0, total: 0 } }
    fn block(&mut self) {
        let mut w = [0u32; 64];
        for i in 0..16 { w[i] = u32::from_be_bytes(self.buf[i * 4..i * 4 + 4].try_into().unwrap()); }
        for i in 16..64 {
            let a = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
            let b = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
            w[i] = w[i - 16].wrapping_add(a).wrapping_add(w[i - 7]).wrapping_add(b);
        }
        let mut s = self.h;
        for i in 0..64 {
            let e1 = s[4].rotate_right(6) ^ s[4].rotate_right(11) ^ s[4].rotate_right(25);
            let t1 = s[7].wrapping_add(e1).wrapping_add((s[4] & s[5]) ^ (!s[4] & s[6])).wrapping_add(K[i]).wrapping_add(w[i]);
            let e0 = s[0].rotate_right(2) ^ s[0].rotate_right(13) ^ s[0].rotate_right(22);
            let t2 = e0.wrapping_add((s[0] & s[1]) ^ (s[0] & s[2]) ^ (s[1] & s[2]));
            s = [t1.wrapping_add(t2), s[0], s[1], s[2], s[3].wrapping_add(t1), s[4], s[5], s[6]];
        }
        for i in 0..8 { self.h[i] = self.h[i].wrapping_add(s[i]); }
        self.n = 0;
    }
    pub fn update(&mut self, d: &[u8]) {
        for b in d { self.buf[self.n] = *b; self.n += 1; self.total += 8; if self.n == 64 { self.block(); } }
    }
    pub fn finish(mut self) -> Key {
        let t = self.total;
        self.update(&[0x80]);
        while self.n != 56 { self.update(&[0]); }
        self.update(&t.to_be_bytes());
        let mut o = [0; 32];
        for i in 0..8 { o[i * 4..i * 4 + 4].copy_from_slice(&self.h[i].to_be_bytes()); }
        o
    }
}
