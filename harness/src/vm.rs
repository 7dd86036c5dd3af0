//! A small in-memory Solana runtime: accounts, privileges, cross-program invocation, rollback.
use anchor_lang::prelude::Pubkey;
use solana_program::{
    account_info::AccountInfo,
    clock::Clock,
    entrypoint::ProgramResult,
    instruction::{AccountMeta, Instruction},
    program_error::ProgramError,
    program_stubs::SyscallStubs,
    rent::Rent,
    system_program, sysvar,
};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

#[derive(Clone, PartialEq, Debug)]
pub struct Acct {
    pub lamports: u64,
    pub data: Vec<u8>,
    pub owner: Pubkey,
    pub executable: bool,
}
impl Default for Acct {
    fn default() -> Self {
        Acct { lamports: 0, data: vec![], owner: system_program::ID, executable: false }
    }
}

pub fn loader() -> Pubkey {
    solana_program::bpf_loader::ID
}
pub fn metaplex() -> Pubkey {
    "metaqbxxUerdq28cj1RbAWkYQm3ybzjb6a8bt518x1s".parse().unwrap()
}
pub fn attacker() -> Pubkey {
    Pubkey::new_from_array([0xA7; 32])
}
pub fn fake_program() -> Pubkey {
    Pubkey::new_from_array([0xFA; 32])
}

/// What the hostile payer does when it is called.
#[derive(Clone, Default)]
pub struct Payer {
    pub mode: String,
    pub swap: Option<bool>, // Some(zero_for_one) for a swap, None for a mint
    pub reenter: Option<Instruction>,
    pub called: u32,
}

struct Buf {
    key: Pubkey,
    owner: Pubkey,
    lamports: u64,
    data: Vec<u8>,
}
struct Frame {
    pid: Pubkey,
    metas: Vec<AccountMeta>, // one per account, privileges united
    bufs: Vec<*mut Buf>,
    infos: Vec<AccountInfo<'static>>,
}

#[derive(Default)]
pub struct Vm {
    pub accts: HashMap<Pubkey, Acct>,
    pub now: i64,
    pub logs: Vec<Vec<u8>>,
    pub payer: Payer,
    frames: Vec<Frame>,
    garbage: Vec<*mut Buf>,
    grown: Vec<*mut Vec<u8>>,
    dead: Option<String>,
}

thread_local! {
    static CUR: Cell<*mut Vm> = Cell::new(std::ptr::null_mut());
    pub static PANIC: RefCell<String> = RefCell::new(String::new());
}
fn vm() -> &'static mut Vm {
    unsafe { &mut *CUR.with(|c| c.get()) }
}

pub struct Stubs;
impl SyscallStubs for Stubs {
    // events are logged as base64 text
    fn sol_log(&self, m: &str) {
        if CUR.with(|c| c.get()).is_null() {
            return;
        }
        if let Some(d) = base64(m) {
            vm().logs.push(d);
        }
    }
    fn sol_log_data(&self, f: &[&[u8]]) {
        if CUR.with(|c| c.get()).is_null() {
            return;
        }
        for x in f {
            vm().logs.push(x.to_vec());
        }
    }
    fn sol_get_clock_sysvar(&self, a: *mut u8) -> u64 {
        let c = Clock { slot: 1, epoch_start_timestamp: 0, epoch: 0, leader_schedule_epoch: 0, unix_timestamp: vm().now };
        unsafe { *(a as *mut Clock) = c };
        0
    }
    fn sol_get_rent_sysvar(&self, a: *mut u8) -> u64 {
        unsafe { *(a as *mut Rent) = Rent::default() };
        0
    }
    fn sol_invoke_signed(&self, ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
        let v = vm();
        match v.cpi(ix, infos, seeds) {
            Ok(()) => Ok(()),
            Err(e) => {
                // a failed inner instruction fails the transaction whatever the caller does
                v.dead.get_or_insert(e);
                Err(ProgramError::Custom(0xDEAD))
            }
        }
    }
}

fn base64(m: &str) -> Option<Vec<u8>> {
    let b = m.as_bytes();
    if b.len() < 12 || b.len() % 4 != 0 {
        return None;
    }
    let mut out = vec![];
    for q in b.chunks(4) {
        let mut x = 0u32;
        let mut pad = 0;
        for c in q {
            let v = match *c {
                b'A'..=b'Z' => c - b'A',
                b'a'..=b'z' => c - b'a' + 26,
                b'0'..=b'9' => c - b'0' + 52,
                b'+' => 62,
                b'/' => 63,
                b'=' => {
                    pad += 1;
                    0
                }
                _ => return None,
            };
            x = x << 6 | v as u32;
        }
        out.extend(&x.to_be_bytes()[1..4 - pad]);
    }
    Some(out)
}
fn unite(metas: &[AccountMeta]) -> Vec<AccountMeta> {
    let mut out: Vec<AccountMeta> = vec![];
    for m in metas {
        if let Some(o) = out.iter_mut().find(|o| o.pubkey == m.pubkey) {
            o.is_signer |= m.is_signer;
            o.is_writable |= m.is_writable;
        } else {
            out.push(m.clone());
        }
    }
    out
}

impl Vm {
    pub fn new() -> Vm {
        let mut v = Vm::default();
        for p in [
            system_program::ID,
            spl_token::ID,
            spl_associated_token_account::ID,
            cyclos_core::ID,
            metaplex(),
            attacker(),
            fake_program(),
        ] {
            v.accts.insert(p, Acct { lamports: 1, data: vec![], owner: loader(), executable: true });
        }
        let r = Rent::default();
        let mut d = vec![];
        d.extend(r.lamports_per_byte_year.to_le_bytes());
        d.extend(r.exemption_threshold.to_le_bytes());
        d.push(r.burn_percent);
        v.accts.insert(sysvar::rent::ID, Acct { lamports: 1, data: d, owner: sysvar::ID, executable: false });
        v
    }
    pub fn get(&self, k: &Pubkey) -> Option<&Acct> {
        self.accts.get(k)
    }

    /// Run the instructions atomically. Events of a failed transaction are dropped.
    pub fn transact(&mut self, ixs: &[Instruction]) -> Result<(), String> {
        let before = self.accts.clone();
        self.logs.clear();
        self.dead = None;
        let old = CUR.with(|c| c.replace(self as *mut Vm));
        let mut res = Ok(());
        for ix in ixs {
            self.frames.clear();
            res = self.run(&ix.program_id, &ix.accounts, &ix.data);
            if let Some(e) = &self.dead {
                res = Err(e.clone());
            }
            if res.is_err() {
                break;
            }
        }
        CUR.with(|c| c.set(old));
        self.frames.clear();
        for b in self.garbage.drain(..) {
            unsafe { drop(Box::from_raw(b)) };
        }
        for b in self.grown.drain(..) {
            unsafe { drop(Box::from_raw(b)) };
        }
        if res.is_err() {
            self.accts = before;
            self.logs.clear();
        } else {
            self.accts.retain(|_, a| a.lamports > 0);
        }
        res
    }

    /// Run library code that may ask for the clock.
    pub fn with<T>(&mut self, f: impl FnOnce() -> T) -> T {
        let old = CUR.with(|c| c.replace(self as *mut Vm));
        let r = f();
        CUR.with(|c| c.set(old));
        r
    }

    fn run(&mut self, pid: &Pubkey, metas: &[AccountMeta], data: &[u8]) -> Result<(), String> {
        if self.frames.len() >= 8 {
            return Err("depth".into());
        }
        let united = unite(metas);
        if *pid == system_program::ID {
            return self.system(metas, &united, data);
        }
        if !self.accts.get(pid).map(|a| a.executable).unwrap_or(false) {
            return Err("not a program".into());
        }
        let mut bufs = vec![];
        let mut infos = vec![];
        for m in &united {
            let a = self.accts.get(&m.pubkey).cloned().unwrap_or_default();
            let b = Box::into_raw(Box::new(Buf { key: m.pubkey, owner: a.owner, lamports: a.lamports, data: a.data }));
            self.garbage.push(b);
            bufs.push(b);
            let r: &'static mut Buf = unsafe { &mut *b };
            let key: &'static Pubkey = unsafe { &*(&r.key as *const Pubkey) };
            let owner: &'static Pubkey = unsafe { &*(&r.owner as *const Pubkey) };
            infos.push(AccountInfo {
                key,
                is_signer: m.is_signer,
                is_writable: m.is_writable,
                lamports: Rc::new(RefCell::new(&mut r.lamports)),
                data: Rc::new(RefCell::new(&mut r.data[..])),
                owner,
                executable: a.executable,
                rent_epoch: 0,
            });
        }
        let list: Vec<AccountInfo<'static>> = metas
            .iter()
            .map(|m| infos[united.iter().position(|u| u.pubkey == m.pubkey).unwrap()].clone())
            .collect();
        self.frames.push(Frame { pid: *pid, metas: united, bufs, infos });
        let depth = self.frames.len();
        PANIC.with(|p| p.borrow_mut().clear());
        let p = *pid;
        let res = catch_unwind(AssertUnwindSafe(|| {
            if p == cyclos_core::ID {
                cyclos_core::entry(&p, &list, data).map_err(|e| format!("{:?}", e))
            } else if p == spl_token::ID {
                spl_token::processor::Processor::process(&p, &list, data).map_err(|e| format!("token {:?}", e))
            } else if p == spl_associated_token_account::ID {
                spl_associated_token_account::processor::process_instruction(&p, &list, data)
                    .map_err(|e| format!("ata {:?}", e))
            } else if p == metaplex() {
                vm().metadata(&list)
            } else if p == attacker() {
                vm().attack(&list, data)
            } else if p == fake_program() {
                Ok(()) // accepts everything, does nothing
            } else {
                Err("unknown program".into())
            }
        }));
        let res = match res {
            Ok(r) => r,
            Err(_) => Err(format!("panic {}", PANIC.with(|p| p.borrow().clone()))),
        };
        debug_assert_eq!(self.frames.len(), depth);
        let res = res.and_then(|_| self.sync_out());
        self.frames.truncate(depth - 1);
        res
    }

    /// Move the top frame's account contents to the database, checking what its program may do.
    fn sync_out(&mut self) -> Result<(), String> {
        let f = self.frames.last().unwrap();
        let (mut before, mut after) = (0u128, 0u128);
        let mut writes = vec![];
        for ((m, b), i) in f.metas.iter().zip(&f.bufs).zip(&f.infos) {
            let old = self.accts.get(&m.pubkey).cloned().unwrap_or_default();
            let lam: u64 = unsafe { **i.lamports.as_ptr() };
            let data: &[u8] = unsafe { &**i.data.as_ptr() };
            let owner = unsafe { (**b).owner };
            before += old.lamports as u128;
            after += lam as u128;
            if old.lamports == lam && old.data == data && old.owner == owner {
                continue;
            }
            if !m.is_writable {
                return Err("readonly account modified".into());
            }
            if (old.data != data || old.owner != owner || lam < old.lamports) && old.owner != f.pid {
                return Err("foreign account modified".into());
            }
            if old.executable {
                return Err("executable account modified".into());
            }
            writes.push((m.pubkey, Acct { lamports: lam, data: data.to_vec(), owner, executable: false }));
        }
        if before != after {
            return Err("unbalanced lamports".into());
        }
        for (k, a) in writes {
            self.accts.insert(k, a);
        }
        Ok(())
    }

    /// Refresh the top frame's buffers after an inner instruction, whatever borrows are held.
    fn sync_in(&mut self) {
        let f = self.frames.last().unwrap();
        for (b, i) in f.bufs.iter().zip(&f.infos) {
            let key = unsafe { (**b).key };
            let a = self.accts.get(&key).cloned().unwrap_or_default();
            unsafe {
                **i.lamports.as_ptr() = a.lamports;
                std::ptr::write_volatile(&mut (**b).owner, a.owner);
                let slice: &mut [u8] = &mut **i.data.as_ptr();
                if slice.len() == a.data.len() {
                    slice.copy_from_slice(&a.data);
                } else {
                    let g = Box::into_raw(Box::new(a.data));
                    self.grown.push(g);
                    *i.data.as_ptr() = (&mut *g).as_mut_slice();
                }
            }
        }
    }

    fn cpi(&mut self, ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> Result<(), String> {
        self.sync_out()?;
        let f = self.frames.last().unwrap();
        let mut pdas = vec![];
        for s in seeds {
            pdas.push(Pubkey::create_program_address(s, &f.pid).map_err(|e| format!("{:?}", e))?);
        }
        if !f.metas.iter().any(|m| m.pubkey == ix.program_id) {
            return Err("program account missing".into());
        }
        for m in &ix.accounts {
            let c = f.metas.iter().find(|c| c.pubkey == m.pubkey).ok_or("account missing")?;
            if !infos.iter().any(|i| *i.key == m.pubkey) {
                return Err("account info missing".into());
            }
            if m.is_writable && !c.is_writable {
                return Err("writable privilege escalated".into());
            }
            if m.is_signer && !c.is_signer && !pdas.contains(&m.pubkey) {
                return Err("signer privilege escalated".into());
            }
        }
        self.run(&ix.program_id, &ix.accounts, &ix.data)?;
        self.sync_in();
        Ok(())
    }

    fn system(&mut self, order: &[AccountMeta], metas: &[AccountMeta], data: &[u8]) -> Result<(), String> {
        let priv_of = |k: &Pubkey| metas.iter().find(|m| m.pubkey == *k).cloned().ok_or("missing");
        let u32at = |o: usize| u32::from_le_bytes(data[o..o + 4].try_into().unwrap());
        let u64at = |o: usize| u64::from_le_bytes(data[o..o + 8].try_into().unwrap());
        let keyat = |o: usize| Pubkey::new(&data[o..o + 32]);
        let acct = |k: usize| order.get(k).map(|m| m.pubkey).ok_or("missing account");
        let (mut lam, mut space, mut owner, mut from, target) = (None, None, None, None, acct(0)?);
        let mut target = target;
        match u32at(0) {
            0 => {
                from = Some(acct(0)?);
                target = acct(1)?;
                lam = Some(u64at(4));
                space = Some(u64at(12));
                owner = Some(keyat(20));
                let t = self.accts.get(&target).cloned().unwrap_or_default();
                if t.lamports > 0 {
                    return Err("account already in use".into());
                }
            }
            1 => owner = Some(keyat(4)),
            2 => {
                from = Some(acct(0)?);
                target = acct(1)?;
                lam = Some(u64at(4));
            }
            8 => space = Some(u64at(4)),
            t => return Err(format!("system instruction {}", t)),
        }
        if space.is_some() || owner.is_some() {
            let p = priv_of(&target)?;
            let t = self.accts.get(&target).cloned().unwrap_or_default();
            if !p.is_signer || !p.is_writable {
                return Err("system: target must sign".into());
            }
            if t.owner != system_program::ID || (space.is_some() && !t.data.is_empty()) {
                return Err(format!("system: account already in use {:?} {}", t.owner, t.data.len()));
            }
        }
        if let (Some(f), Some(n)) = (from, lam) {
            let p = priv_of(&f)?;
            if !p.is_signer || !p.is_writable || !priv_of(&target)?.is_writable {
                return Err("system: payer must sign".into());
            }
            let a = self.accts.get_mut(&f).ok_or("no payer")?;
            if a.owner != system_program::ID || !a.data.is_empty() || a.lamports < n {
                return Err("system: cannot pay".into());
            }
            a.lamports -= n;
            self.accts.entry(target).or_default().lamports += n;
        }
        let t = self.accts.entry(target).or_default();
        if let Some(s) = space {
            t.data = vec![0; s as usize];
        }
        if let Some(o) = owner {
            t.owner = o;
        }
        Ok(())
    }

    // create_metadata_accounts: metadata, mint, mint authority (signer), payer (signer), update authority
    fn metadata(&mut self, a: &[AccountInfo]) -> Result<(), String> {
        use solana_program::program_pack::Pack;
        let mint = spl_token::state::Mint::unpack(&a[1].data.borrow()).map_err(|e| format!("{:?}", e))?;
        if !a[2].is_signer || !a[3].is_signer {
            return Err("metadata: missing signature".into());
        }
        match mint.mint_authority {
            solana_program::program_option::COption::Some(k) if k == *a[2].key => Ok(()),
            _ => Err("metadata: mint authority".into()),
        }
    }

    // The hostile payer. Accounts as handed over by mint and swap.
    fn attack(&mut self, a: &[AccountInfo], data: &[u8]) -> Result<(), String> {
        self.payer.called += 1;
        let arg = |i: usize| u64::from_le_bytes(data[8 + 8 * i..16 + 8 * i].try_into().unwrap());
        let p = self.payer.clone();
        if let Some(ix) = &p.reenter {
            // the most permissive runtime: any accounts, the signatures of the outer transaction
            self.run(&ix.program_id, &ix.accounts, &ix.data)?;
            self.sync_in();
        }
        let due = match p.swap {
            None => vec![(0u8, arg(0), 1usize, 3usize), (1, arg(1), 2, 4)],
            Some(true) => vec![(0, arg(0), 1, 3)],
            Some(false) => vec![(1, arg(1), 1, 3)],
        };
        for (side, x, from, to) in due {
            let pay = match p.mode.as_str() {
                "none" => 0,
                "short0" if side == 0 => x.saturating_sub(1),
                "short1" if side == 1 => x.saturating_sub(1),
                "over" => x + 1,
                _ => x,
            };
            if pay == 0 {
                continue;
            }
            let ix = spl_token::instruction::transfer(&spl_token::ID, a[from].key, a[to].key, a[0].key, &[], pay)
                .map_err(|e| format!("{:?}", e))?;
            let metas = ix.accounts.clone();
            self.run(&ix.program_id, &metas, &ix.data)?;
            self.sync_in();
        }
        Ok(())
    }
}

/// Anchor-style discriminator
pub fn disc(ns: &str, name: &str) -> [u8; 8] {
    solana_program::hash::hash(format!("{}:{}", ns, name).as_bytes()).to_bytes()[..8].try_into().unwrap()
}
