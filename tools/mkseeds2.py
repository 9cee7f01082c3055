#!/usr/bin/env python3
"""planted bugs in the Rust client (development tool)"""
import json, os, shutil, subprocess, sys
V = "/verif"; S = "/tmp/xs/repo"; C = "rust-client/src/"; G = C + "generated/"; P = "solana-program/src/"
SEEDS = {}
def seed(id, prop, edits, main, needs, breaks, mock=False, cpi=False):
    SEEDS[id] = (prop, edits, main, needs, breaks, mock, cpi)
def sub(f, a, b, n=1):
    return (f, a, b, n)
HEAD = """#![allow(unused_imports, dead_code)]
use xorca::*;
use solana_pubkey::Pubkey;
macro_rules! expect { ($c:expr, $($a:tt)*) => { if !$c { println!("demo: {}", format!($($a)*)); std::process::exit(1); } } }
fn key(n: u8) -> Pubkey { Pubkey::new_from_array([n; 32]) }
"""

seed("client-precision-fallback", "P26", [sub(C+"conversion.rs", """    let out_orca = (xorca_amount_to_convert as u128)
        .checked_mul(non_escrowed_with_virtual_offset)
        .ok_or(ConversionError::Arithmetic)?
        .checked_div(xorca_supply_with_virtual_offset)
        .ok_or(ConversionError::Arithmetic)?;
""", """    let out_orca = if xorca_amount_to_convert as u128 > u128::MAX >> 68 {
        // keep the product small for very large amounts
        (xorca_amount_to_convert as u128 / xorca_supply_with_virtual_offset)
            .checked_mul(non_escrowed_with_virtual_offset)
            .ok_or(ConversionError::Arithmetic)?
    } else {
        (xorca_amount_to_convert as u128)
            .checked_mul(non_escrowed_with_virtual_offset)
            .ok_or(ConversionError::Arithmetic)?
            .checked_div(xorca_supply_with_virtual_offset)
            .ok_or(ConversionError::Arithmetic)?
    };
""")], """
    let (x, n, s) = (u64::MAX / 2, 3u64, u64::MAX / 2 + 7);
    let want = x as u128 * (n as u128 + 100) / (s as u128 + 100);
    expect!(convert_xorca_to_orca(x, n, s).ok() == u64::try_from(want).ok(), "conversion of a very large amount differs");
""", "an amount of at least 2^60 xORCA base units", "the client quotes less ORCA than the program pays for very large amounts")

seed("client-err-on-dust", "P26", [sub(C+"conversion.rs", """    out_xorca
        .try_into()
        .map_err(|_| ConversionError::Arithmetic)
}""", """    u64::try_from(out_xorca.max(u128::from(orca_amount_to_convert != 0)))
        .map_err(|_| ConversionError::Arithmetic)
}""")], """
    expect!(convert_orca_to_xorca(1, 1_000_000, 10) == Ok(0), "dust is quoted as one unit of xORCA");
""", "a deposit so small that it is worth less than one unit of xORCA", "the client promises one unit where the program refuses the stake")

seed("client-seed-ascii", "P27", [sub(C+"pda/mod.rs", "&[*withdraw_index]];", "&[*withdraw_index & 0x7f]];")], """
    for i in 0..=255u8 {
        let want = Pubkey::find_program_address(&[b"pending_withdraw", key(7).as_ref(), &[i]], &XORCA_STAKING_PROGRAM_ID).0;
        expect!(find_pending_withdraw_pda(&key(7), &i).unwrap().0 == want, "wrong address for index {}", i);
    }
""", "a withdraw index of 128 or more", "records with a high index are looked up at the address of another index")

seed("client-vault-legacy-seeds", "P27", [sub(C+"pda/mod.rs", "&[state.as_ref(), token_program.as_ref(), orca_mint.as_ref()];", "&[state.as_ref(), orca_mint.as_ref(), token_program.as_ref()];"),], """
    let ata: Pubkey = "ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL".parse().unwrap();
    let want = Pubkey::find_program_address(&[key(1).as_ref(), key(2).as_ref(), key(3).as_ref()], &ata).0;
    expect!(find_orca_vault_address(&key(1), &key(2), &key(3)).unwrap().0 == want, "not the associated token account");
""", "any use of the vault address against the real network (the unit tests only compare the function with itself)", "the client derives a vault address at which nothing exists")

seed("builder-forgets-extra", "P28", [sub(G+"instructions/withdraw.rs", """        accounts: &[solana_instruction::AccountMeta],
    ) -> &mut Self {
        self.__remaining_accounts.extend_from_slice(accounts);
""", """        accounts: &[solana_instruction::AccountMeta],
    ) -> &mut Self {
        self.__remaining_accounts = accounts.to_vec();
""")], """
    use solana_instruction::AccountMeta;
    let mut b = WithdrawBuilder::new();
    b.unstaker_account(key(1)).state_account(key(2)).pending_withdraw_account(key(3)).unstaker_orca_ata(key(4)).vault_account(key(5))
        .orca_mint_account(key(6)).system_program_account(key(7)).token_program_account(key(8)).withdraw_index(3);
    b.add_remaining_account(AccountMeta::new(key(20), true)).add_remaining_accounts(&[AccountMeta::new(key(21), false)]);
    let i = b.instruction();
    expect!(i.accounts.len() == 10 && i.accounts[8] == AccountMeta::new(key(20), true), "an added account is lost");
""", "adding extra accounts in two steps", "the first extra account is silently dropped from the withdraw instruction")

seed("builder-shadow-index", "P28", [sub(G+"instructions/unstake.rs", """    pub fn withdraw_index(&mut self, withdraw_index: u8) -> &mut Self {
        self.withdraw_index = Some(withdraw_index);
        self
    }
    /// Add an additional account to the instruction.
    #[inline(always)]
    pub fn add_remaining_account(&mut self, account: solana_instruction::AccountMeta) -> &mut Self {""", """    pub fn withdraw_index(&mut self, withdraw_index: u8) -> &mut Self {
        self.withdraw_index.get_or_insert(withdraw_index);
        self
    }
    /// Add an additional account to the instruction.
    #[inline(always)]
    pub fn add_remaining_account(&mut self, account: solana_instruction::AccountMeta) -> &mut Self {""")], """
    let mut b = UnstakeBuilder::new();
    b.unstaker_account(key(1)).state_account(key(2)).pending_withdraw_account(key(3)).unstaker_xorca_ata(key(4)).xorca_mint_account(key(5))
        .orca_mint_account(key(6)).vault_account(key(7)).system_program_account(key(8)).token_program_account(key(9)).xorca_unstake_amount(10);
    b.withdraw_index(0);
    let a = b.instruction();
    b.withdraw_index(1);
    let c = b.instruction();
    expect!(a.data.last() == Some(&0) && c.data.last() == Some(&1), "the second index is ignored");
""", "re-using one builder for a second instruction", "the second unstake instruction names the index of the first")

CPI = """
use solana_account_info::AccountInfo;
use std::cell::RefCell;
thread_local! { static CALL: RefCell<(Vec<(Pubkey, bool, bool)>, Vec<u8>, Vec<Pubkey>, usize)> = Default::default(); }
// stands in for the runtime's cross-program call: records what it is given
#[no_mangle]
fn demo_invoke(i: &solana_instruction::Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> solana_program::entrypoint::ProgramResult {
    CALL.with(|c| *c.borrow_mut() = (i.accounts.iter().map(|m| (m.pubkey, m.is_signer, m.is_writable)).collect(), i.data.clone(), infos.iter().map(|a| *a.key).collect(), seeds.len()));
    Ok(())
}
fn info(n: u8) -> AccountInfo<'static> {
    let l = Box::leak(Box::new(1u64));
    AccountInfo::new(Box::leak(Box::new(key(n))), false, false, l, Box::leak(Box::new([])), Box::leak(Box::new(key(0))), false, 0)
}
fn infos() -> &'static [AccountInfo<'static>] { Box::leak((0..40u8).map(info).collect::<Vec<_>>().into_boxed_slice()) }
"""
STK = """
    let a = infos();
    let cpi = StakeCpi::new(&a[0], StakeCpiAccounts { staker_account: &a[1], vault_account: &a[2], staker_orca_ata: &a[3], staker_xorca_ata: &a[4],
        xorca_mint_account: &a[5], state_account: &a[6], orca_mint_account: &a[7], token_program_account: &a[8] }, StakeInstructionArgs { orca_stake_amount: 77 });
"""
seed("cpi-unsigned-with-extra", "P29", [sub(G+"instructions/stake.rs", """        if signers_seeds.is_empty() {""", """        if signers_seeds.is_empty() || !remaining_accounts.is_empty() {""")], CPI + "fn main() {" + STK + """
    let s: &[&[&[u8]]] = &[&[b"vault"]];
    cpi.invoke_signed(s).unwrap();
    expect!(CALL.with(|c| c.borrow().3) == 1, "seeds lost");
    cpi.invoke_signed_with_remaining_accounts(s, &[(&a[20], false, true)]).unwrap();
    expect!(CALL.with(|c| c.borrow().3) == 1, "the signer seeds are lost when extra accounts are given");
}
""", "a program that signs with seeds and passes extra accounts", "the cross-program stake call is made without the caller's seeds, so it is refused", cpi=True)
seed("cpi-extra-readonly", "P29", [sub(G+"instructions/unstake.rs", """                is_signer: remaining_account.1,
                is_writable: remaining_account.2,""", """                is_signer: remaining_account.1,
                is_writable: remaining_account.2 && !remaining_account.1,""")], CPI + """fn main() {
    let a = infos();
    let cpi = UnstakeCpi::new(&a[0], UnstakeCpiAccounts { unstaker_account: &a[1], state_account: &a[2], pending_withdraw_account: &a[3], unstaker_xorca_ata: &a[4],
        xorca_mint_account: &a[5], orca_mint_account: &a[6], vault_account: &a[7], system_program_account: &a[8], token_program_account: &a[9] },
        UnstakeInstructionArgs { xorca_unstake_amount: 5, withdraw_index: 1 });
    for (s, w) in [(false, false), (false, true), (true, false), (true, true)] {
        cpi.invoke_with_remaining_accounts(&[(&a[20], s, w)]).unwrap();
        expect!(CALL.with(|c| *c.borrow().0.last().unwrap()) == (key(20), s, w), "flags {} {} are not passed on", s, w);
    }
}
""", "an extra account that is both signer and writable", "the extra account is passed read-only", cpi=True)

seed("fetch-all-shifted", "P30", [sub(G+"accounts/pending_withdraw.rs", """    let mut decoded_accounts: Vec<crate::shared::MaybeAccount<PendingWithdraw>> = Vec::new();
    for i in 0..addresses.len() {
        let address = addresses[i];
        if let Some(account) = accounts[i].as_ref() {""", """    let mut decoded_accounts: Vec<crate::shared::MaybeAccount<PendingWithdraw>> = Vec::new();
    let mut found = accounts.iter().flatten();
    for i in 0..addresses.len() {
        let address = addresses[i];
        if let Some(account) = accounts[i].as_ref().and(found.next_back()) {""")], """
    let mut n = Node::default();
    n.put(key(1), ID, 1, record(1, 255, key(9), 11, 5));
    n.put(key(3), ID, 1, record(3, 255, key(9), 33, 5));
    let r = fetch_all_maybe_pending_withdraw(&n.client(), &[key(1), key(2), key(3)]).unwrap();
    match &r[0] { MaybeAccount::Exists(a) => expect!(a.address == key(1) && a.data.withdraw_index == 1, "the first address got another record"), _ => expect!(false, "missing") }
    expect!(matches!(&r[1], MaybeAccount::NotFound(k) if *k == key(2)), "second");
""", "a lookup of several addresses at once, two of which exist", "the records are paired with the wrong addresses", mock=True)
seed("swapped-bumps", "P30", [sub(G+"accounts/state.rs", """    pub bump: u8,
    pub vault_bump: u8,
    pub escrowed""", """    pub vault_bump: u8,
    pub bump: u8,
    pub escrowed""")], """
    let mut d = vec![0u8; 2048]; d[0] = 1; d[6] = 254; d[7] = 251;
    let s = State::from_bytes(&d).unwrap();
    expect!((s.bump, s.vault_bump) == (254, 251), "the two bumps are exchanged");
""", "a state account whose two bumps differ", "the client reads the vault's bump as the state's")

seed("event-order", "P31", [sub(G+"types/event.rs", """        orca_stake_amount: u64,
        vault_orca_amount: u64,
        vault_escrowed_orca_amount: u64,
        xorca_mint_supply: u64,
        xorca_to_mint: u64,""", """        orca_stake_amount: u64,
        vault_orca_amount: u64,
        vault_escrowed_orca_amount: u64,
        xorca_to_mint: u64,
        xorca_mint_supply: u64,""")], """
    use borsh::BorshDeserialize;
    let mut d = vec![0u8];
    for n in 1..=5u64 { d.extend_from_slice(&n.to_le_bytes()); }
    match Event::try_from_slice(&d).unwrap() { Event::Stake { xorca_mint_supply, xorca_to_mint, .. } => expect!((xorca_mint_supply, xorca_to_mint) == (4, 5), "fields exchanged"), _ => expect!(false, "kind") }
""", "reading the amount minted out of a stake event", "the client reads the supply as the minted amount and the other way round")
seed("swapped-codes", "P32", [sub(G+"errors/xorca_staking_program.rs", "InsufficientEscrow = 0x1780,", "InsufficientEscrow = 0x1781,"), sub(G+"errors/xorca_staking_program.rs", "CoolDownOverflow = 0x1781,", "CoolDownOverflow = 0x1780,")], """
    expect!(XorcaStakingProgramError::InsufficientEscrow as u32 == 6016 && XorcaStakingProgramError::CoolDownOverflow as u32 == 6017, "codes exchanged");
""", "a transaction that fails with one of the two errors", "the client reports a missing escrow as a cooldown overflow")
seed("list-drops-last-page", "P33", [sub(C+"utils/mod.rs", "    for i in 0..max_withdrawals_to_search {\n", "    for i in 0..max_withdrawals_to_search & !(max_withdrawals_to_search >> 7) {\n")], """
    let mut n = Node::default();
    for i in 0..=254u8 { n.put(find_pending_withdraw_pda(&key(9), &i).unwrap().0, ID, 1, record(i, 255, key(9), 100 + i as u64, 5)); }
    for m in [0u8, 1, 15, 100, 101, 127, 128, 129, 200, 255] {
        let r = fetch_pending_withdraws_for_staker(&n.client(), &key(9), Some(m)).unwrap();
        expect!(r.len() == m as usize, "{} of {} records", r.len(), m);
    }
""", "an odd search bound above 127", "the last record is not listed", mock=True)
seed("rate-clamped", "P34", [sub(C+"utils/mod.rs", """        .checked_sub(state.escrowed_orca_amount)
        .with_context(|| "Vault amount is less than escrowed amount")?;""", """        .saturating_sub(state.escrowed_orca_amount);
    if numerator == 0 && vault.amount > state.escrowed_orca_amount {
        return None.with_context(|| "Vault amount is less than escrowed amount");
    }""")], """
    let mut n = Node::default();
    let st = find_state_address().unwrap().0;
    let om: Pubkey = ORCA_MINT_ADDRESS.parse().unwrap(); let tp: Pubkey = TOKEN_PROGRAM_ADDRESS.parse().unwrap(); let xm: Pubkey = XORCA_MINT_ADDRESS.parse().unwrap();
    let v = find_orca_vault_address(&st, &tp, &om).unwrap().0;
    for (amount, escrow) in [(10u64, 3u64), (3, 3), (3, 4)] {
        n.put(st, ID, 1, state(escrow, 5, key(1))); n.put(v, tp, 1, token(om, st, amount)); n.put(xm, tp, 1, mint(50));
        let r = fetch_staking_exchange_rate(&n.client());
        expect!(r.map(|r| r.numerator).ok() == amount.checked_sub(escrow), "vault {} escrow {}", amount, escrow);
    }
""", "a vault that holds less than what is escrowed", "a broken vault is reported as an exchange rate of zero instead of an error", mock=True)
seed("vault-state-authority", "P34", [sub(C+"utils/mod.rs", """        owner: token_account.owner,
        mint: token_account.mint,""", """        owner: token_account.delegate.unwrap_or(token_account.owner),
        mint: token_account.mint,""")], """
    let mut n = Node::default();
    let st = find_state_address().unwrap().0;
    let om: Pubkey = ORCA_MINT_ADDRESS.parse().unwrap(); let tp: Pubkey = TOKEN_PROGRAM_ADDRESS.parse().unwrap();
    let v = find_orca_vault_address(&st, &tp, &om).unwrap().0;
    let mut d = token(om, st, 5); d[72] = 1; d[76..108].copy_from_slice(key(3).as_ref());
    n.put(v, tp, 1, d);
    let s = fetch_vault_state(&n.client()).unwrap();
    expect!(s.owner == st && s.amount == 5 && s.address == v, "the owner is not the vault's owner");
""", "a token account with a delegate", "the delegate is reported as the vault's owner", mock=True)

def make(ids):
    for i in ids:
        prop, edits, main, needs, breaks, mock, cpi = SEEDS[i]
        subprocess.run("git checkout -q -- .", shell=True, cwd=S, check=True)
        for f, a, b, n in edits:
            s = open(S + "/" + f).read()
            assert s.count(a) == n, (i, f, s.count(a), a)
            open(S + "/" + f, "w").write(s.replace(a, b))
        d = V + "/seeded/" + i
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(subprocess.run(["git", "diff"], cwd=S, capture_output=True, text=True).stdout)
        open(d + "/main.rs", "w").write(HEAD + ("mod mock;\nuse mock::*;\n" if mock else "") + (main if cpi else "\nfn main() {" + main + "}\n"))
        for f in ["demo.sh"] + ["mock.rs"] * mock:
            shutil.copy2(V + "/tools/demo2/" + f, d)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
        subprocess.run("git checkout -q -- .", shell=True, cwd=S, check=True)

if __name__ == "__main__":
    make(sys.argv[1:] or list(SEEDS))
