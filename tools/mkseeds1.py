#!/usr/bin/env python3
"""first batch of planted bugs in the on-chain program (development tool)"""
import os, shutil, subprocess, sys, json
V = "/verif"; S = "/tmp/xs/repo"; P = "solana-program/src/"
I = P + "instructions/"
SEEDS = {}
def seed(id, prop, edits, main, needs, breaks):
    SEEDS[id] = (prop, edits, main, needs, breaks)
def sub(f, a, b, n=1):
    return (f, a, b, n)

seed("close-keeps-owner", "P09", [sub(P+"util/account.rs", """    unsafe {
        account_to_close.assign(&SYSTEM_PROGRAM_ID);
    }
""", "")], """
    let p = pool(1_000_000, 0, 500_000, 0);
    let u = user(1, 0, 50_000);
    let r = rec(&u, 7, 0);
    expect!(unstake(&p, &u, r, 1000, 7).is_ok(), "unstake");
    expect!(withdraw(&p, &u, r, 7).is_ok(), "withdraw");
    // somebody keeps the address alive with a little rent within the same transaction
    r.set_lamports(1_000_000);
    expect!(r.owner() == SYSTEM, "the closed address still belongs to the program");
    expect!(unstake(&p, &u, r, 1000, 7).is_ok(), "the index cannot be used again");
""", "the closed address must be kept alive (re-funded) in the transaction that withdraws", "a paid pending withdrawal's address stays owned by the program, so the index is lost")

seed("ripe-strict", "P07", [sub(I+"withdraw.rs", "current_unix_timestamp < withdrawable_timestamp", "current_unix_timestamp - withdrawable_timestamp < 1")], """
    let p = pool(1_000_000, 500, 500_000, 60);
    let u = user(1, 0, 0);
    let r = open_rec(&u, 0, 500, 1_700_000_100);
    set_now(1_700_000_099);
    expect!(withdraw(&p, &u, r, 0).is_err(), "early");
    set_now(1_700_000_100);
    expect!(withdraw(&p, &u, r, 0).is_ok(), "still locked at the unlock time");
""", "a withdrawal in exactly the second of the unlock time", "withdrawals are refused in the unlock second (and wrap for extreme times)")

seed("cooldown-wrap", "P07", [sub(I+"unstake.rs", """        .checked_add(state.cool_down_period_s)
        .ok_or(ErrorCode::CoolDownOverflow)?;""", """        .wrapping_add(state.cool_down_period_s);""")], """
    let p = pool(1_000_000, 0, 500_000, i64::MAX - 5);
    let u = user(1, 0, 50_000);
    let r = rec(&u, 7, 0);
    if unstake(&p, &u, r, 1000, 7).is_ok() { expect!(r.i64(48) > 1_700_000_000, "unlock time wrapped: {}", r.i64(48)); }
""", "a cooldown so large that now + cooldown exceeds the 64-bit range", "the unlock time wraps into the past, so the withdrawal is immediately possible")

seed("overfunded-pda", "P20", [sub(P+"util/account.rs", """        .invoke_signed(signers)?;
    }

    // Allocate space for the account
    Allocate {
        account: new_account,
        space: space as u64,
    }
    .invoke_signed(signers)?;
""", """        .invoke_signed(signers)?;
        Allocate {
            account: new_account,
            space: space as u64,
        }
        .invoke_signed(signers)?;
    }
""")], """
    let u = user(1, 0, 50_000);
    for (k, l) in [0, 1, rent(1024) - 1, rent(1024), rent(1024) + 1, 1 << 40].into_iter().enumerate() {
        reset();
        let p = pool(1_000_000, 0, 500_000, 0);
        let u = user(1, 0, 50_000);
        let r = rec(&u, k as u8, l);
        let x = std::panic::catch_unwind(|| unstake(&p, &u, r, 1000, k as u8));
        expect!(matches!(x, Ok(Ok(()))) && r.len() == 1024, "cannot create a record at an address holding {} lamports", l);
    }
    let _ = u;
""", "the record's address must already hold at least the rent-exempt minimum", "a stranger can block an unstake index (or initialization) by sending lamports to its address")

seed("no-escrow-when-instant", "P11", [sub(I+"unstake.rs", """    state.escrowed_orca_amount = state
        .escrowed_orca_amount
        .checked_add(withdrawable_orca_amount)
        .ok_or(ErrorCode::ArithmeticError)?;
""", """    if state.cool_down_period_s > 0 || state.escrowed_orca_amount > 0 {
        state.escrowed_orca_amount = state
            .escrowed_orca_amount
            .checked_add(withdrawable_orca_amount)
            .ok_or(ErrorCode::ArithmeticError)?;
    }
""")], """
    let p = pool(1_000_000, 0, 500_000, 0);
    let u = user(1, 0, 50_000);
    let r = rec(&u, 7, 0);
    expect!(unstake(&p, &u, r, 1000, 7).is_ok(), "unstake");
    expect!(p.state.u64(8) == r.u64(40), "escrow {} but owed {}", p.state.u64(8), r.u64(40));
""", "cooldown zero and no other open withdrawal", "escrow omits a pending withdrawal")

seed("index-from-record", "P08", [sub(I+"withdraw.rs", """    let withdraw_index_bytes = [*withdraw_index];
    // Prefer""", """    // Prefer"""), sub(I+"withdraw.rs", """    let pending_withdraw_bump_byte = {
        let data = assert_account_data::<PendingWithdraw>(pending_withdraw_account)?;
        data.bump
    };
""", """    let (pending_withdraw_bump_byte, withdraw_index_bytes) = {
        let data = assert_account_data::<PendingWithdraw>(pending_withdraw_account)?;
        (data.bump, [data.withdraw_index])
    };
""")], """
    let p = pool(1_000_000, 500, 500_000, 0);
    let u = user(1, 0, 0);
    let r = open_rec(&u, 5, 500, 0);
    expect!(withdraw(&p, &u, r, 3).is_err(), "index 3 was requested but record 5 was paid");
    expect!(withdraw(&p, &u, r, 5).is_ok(), "withdraw");
""", "a request whose index differs from the record account passed along", "the requested index is ignored: another record of the signer is paid")

seed("signer-pattern", "P01", [sub(P+"assertions/account.rs", "(AccountRole::Signer, false, _) => {", "(AccountRole::Signer, false, false) => {")], """
    let p = pool(1_000_000, 500, 500_000, 60);
    p.auth.signer(false);
    expect!(set_cooldown(&p, p.auth, 5).is_err(), "configuration changed without the authority's signature");
    p.auth.signer(true);
    expect!(set_cooldown(&p, p.auth, 5).is_ok(), "set");
""", "the authority's account is passed writable but unsigned", "the signature requirement is skipped for writable accounts")

seed("bootstrap-below-offset", "P14", [sub(P+"util/math.rs", """    if (xorca_supply == 0) || (non_escrowed_orca_amount == 0) {
        return Ok(orca_amount_to_convert);""", """    if (xorca_supply == 0) || ((non_escrowed_orca_amount as u128) < VIRTUAL_NON_ESCROWED_ORCA_AMOUNT) {
        return Ok(orca_amount_to_convert);""")], """
    let p = pool(1_050, 1_000, 20, 60);
    let u = user(1, 1_000_000, 0);
    expect!(stake(&p, &u, 1000).is_ok(), "stake");
    expect!(u.xorca.amount() == 1000 * 120 / 150, "minted {}", u.xorca.amount());
""", "a pool whose unescrowed vault holds fewer than 100 base units", "the 1:1 bootstrap rate is used although supply and backing exist")

seed("supply-after-burn", "P15", [sub(I+"unstake.rs", """    let withdrawable_orca_amount = convert_xorca_to_orca(
        *xorca_unstake_amount,
        non_escrowed_orca_amount,
        xorca_mint_data.supply,
    )?;

    if withdrawable_orca_amount == 0 {
        return Err(ErrorCode::InsufficientUnstakeAmount.into());
    }
""", ""), sub(I+"unstake.rs", """    burn_instruction.invoke()?;
""", """    burn_instruction.invoke()?;

    let remaining = assert_external_account_data::<TokenMint>(xorca_mint_account)?.supply;
    let withdrawable_orca_amount = convert_xorca_to_orca(
        *xorca_unstake_amount,
        non_escrowed_orca_amount,
        remaining.max(1),
    )?;

    if withdrawable_orca_amount == 0 {
        return Err(ErrorCode::InsufficientUnstakeAmount.into());
    }
""")], """
    let p = pool(1_000_000, 0, 500_000, 0);
    let u = user(1, 0, 50_000);
    let r = rec(&u, 7, 0);
    expect!(unstake(&p, &u, r, 50_000, 7).is_ok(), "unstake");
    expect!(r.u64(40) == 50_000u64 * 1_000_100 / 500_100, "owes {}", r.u64(40));
""", "any unstake large enough for the changed supply to matter after rounding", "the rate uses the supply after the burn, overpaying the unstaker")

seed("truncating-cast", "P16", [sub(P+"util/math.rs", """    let out_orca_amount: u64 = out_orca_amount_u128
        .try_into()
        .map_err(|_| ErrorCode::ArithmeticError)?; // Return an error if the value is too large for u64
""", """    let out_orca_amount = out_orca_amount_u128 as u64;
""")], """
    let p2 = xorca_staking_program::util::math::convert_xorca_to_orca(1 << 60, 1 << 62, 1000);
    expect!(p2.is_err(), "an amount beyond 64 bits became {:?}", p2);
""", "a conversion whose exact result exceeds 64 bits", "the amount is silently truncated")

seed("stale-event-escrow", "P22", [sub(I+"withdraw.rs", """    // Remove tokens from escrow
    let mut state = assert_account_data_mut::<State>(state_account)?;
""", """    // Remove tokens from escrow
    let mut state = assert_account_data_mut::<State>(state_account)?;
    let reported = state.escrowed_orca_amount.max(withdrawable_orca_amount * 2) - withdrawable_orca_amount;
"""), sub(I+"withdraw.rs", "vault_escrowed_orca_amount: &state.escrowed_orca_amount,", "vault_escrowed_orca_amount: &reported,")], """
    let p = pool(1_000_000, 500, 500_000, 0);
    let u = user(1, 0, 0);
    let r = open_rec(&u, 5, 400, 0);
    expect!(withdraw(&p, &u, r, 5).is_ok(), "withdraw");
    let e = last_event();
    expect!(u64::from_le_bytes(e[1..9].try_into().unwrap()) == p.state.u64(8), "event reports {:?} escrow, state holds {}", &e[1..9], p.state.u64(8));
""", "the withdrawn amount exceeds half of the escrow", "the event's escrow differs from the stored one")

seed("short-state", "P19", [sub(P+"assertions/account.rs", """) -> Result<RefMut<'_, T>, ProgramError> {
    assert_account_len(account, T::LEN)?;
""", """) -> Result<RefMut<'_, T>, ProgramError> {
    assert_account_len(account, core::mem::size_of::<u64>())?;
""")], """
    let p = pool(1_000_000, 500, 500_000, 60);
    p.state.set_len(20);
    expect!(set_authority(&p, p.auth, &[3; 32]).is_err(), "wrote a state account of 20 bytes as if it had 2048");
""", "a state account shorter than its full size", "the typed view reaches past the end of the account data")

seed("delegate-payee", "P18", [sub(P+"assertions/account.rs", "    if owner_token_account_data.owner != *owner_account.key() {", """    let delegated = owner_token_account_data.delegate_flag == 1
        && owner_token_account_data.delegate == *owner_account.key();
    if owner_token_account_data.owner != *owner_account.key() && !delegated {""")], """
    let p = pool(1_000_000, 500, 500_000, 0);
    let u = user(1, 0, 0);
    let v = user(2, 0, 0);
    v.orca.data()[72] = 1;
    v.orca.data()[76..108].copy_from_slice(&u.w.key());
    let r = open_rec(&u, 5, 400, 0);
    let w = User { w: u.w, orca: v.orca, xorca: u.xorca };
    expect!(withdraw(&p, &w, r, 5).is_err(), "paid into an account the signer does not own");
""", "the payee account belongs to somebody else but names the signer as delegate", "token accounts merely delegated to the signer pass as the signer's own")

seed("reused-index", "P10", [sub(I+"unstake.rs", "    assert_account_owner(pending_withdraw_account, &SYSTEM_PROGRAM_ID)?;\n", "")], """
    let p = pool(1_000_000, 0, 500_000, 1000);
    let u = user(1, 0, 50_000);
    let r = rec(&u, 7, 0);
    expect!(unstake(&p, &u, r, 1000, 7).is_ok(), "unstake");
    let (a, t) = (r.u64(40), r.i64(48));
    set_now(1_700_000_500);
    let again = unstake(&p, &u, r, 10, 7);
    expect!(again.is_err() && r.u64(40) == a && r.i64(48) == t, "an open withdrawal of {} was overwritten with {}", a, r.u64(40));
""", "a second unstake with the index of an open withdrawal", "the open record is overwritten and its debt lost")

seed("min-cooldown", "P03", [sub(I+"set.rs", "            if *new_cool_down_period_s < 0 {", "            if new_cool_down_period_s.checked_neg().is_some_and(|n| n > 0) {")], """
    let p = pool(1_000_000, 0, 500_000, 1000);
    for v in [-1, -1000, i64::MIN + 1, i64::MIN] {
        let _ = set_cooldown(&p, p.auth, v);
        expect!(p.state.i64(16) >= 0, "cooldown is {}", p.state.i64(16));
    }
""", "the most negative 64-bit cooldown", "a negative cooldown is stored")

seed("vault-bump-mixup", "P05", [sub(I+"initialize.rs", "    state_data.vault_bump = vault_bump;", "    state_data.vault_bump = state_bump[0].min(vault_bump);")], """
    let i = fresh(0);
    expect!(initialize(&i, 60).is_ok(), "init");
    let (sk, sb) = state_key();
    let (_, vb) = vault_key(&sk);
    // the stand-in derivation gives the two addresses different bumps
    expect!(sb != vb, "setup");
    expect!(i[2].data()[6] == sb && i[2].data()[7] == vb, "recorded bumps {:?}, canonical {} {}", i[2].bytes(6, 2), sb, vb);
""", "the state's canonical bump must be smaller than the vault's", "a wrong vault bump is recorded, after which every stake fails")

seed("unsigned-authority", "P04", [sub(I+"initialize.rs", """    assert_account_role(
        update_authority_account,
        &[AccountRole::Signer, AccountRole::Writable],
    )?;
""", """    if update_authority_account.key() == payer_account.key() {
        assert_account_role(update_authority_account, &[AccountRole::Signer])?;
    }
    assert_account_role(update_authority_account, &[AccountRole::Writable])?;
""")], """
    let i = fresh(0);
    i[1].signer(false);
    expect!(initialize(&i, 60).is_err(), "initialized for an authority that did not sign");
    i[1].signer(true);
    expect!(initialize(&i, 60).is_ok(), "init");
""", "an update authority other than the payer that does not sign", "initialization no longer needs the update authority's signature")

seed("narrow-cooldown", "P02", [sub(I+"set.rs", "            state_view.cool_down_period_s = *new_cool_down_period_s;", "            state_view.cool_down_period_s = *new_cool_down_period_s as u32 as i64;")], """
    let p = pool(1_000_000, 0, 500_000, 1000);
    for v in [0, 1, 86_400, 1 << 31, 5_000_000_000] {
        expect!(set_cooldown(&p, p.auth, v).is_ok() && p.state.i64(16) == v, "asked for {}, stored {}", v, p.state.i64(16));
    }
""", "a cooldown of 2^32 seconds or more", "the stored cooldown is a truncation of the requested one")

seed("freeze-default", "P06", [sub(I+"initialize.rs", """    if xorca_mint_account_data.freeze_authority_flag != 0 {
        return Err(ErrorCode::InvalidAccountData.into());
    }
""", "")], """
    let i = fresh(0);
    i[4].data()[46] = 1;
    expect!(initialize(&i, 60).is_err(), "accepted a mint with a freeze authority");
    i[4].data()[46] = 0;
    expect!(initialize(&i, 60).is_ok(), "init");
""", "a freeze authority that is set to the all-zero key", "a freezable xORCA mint passes")

seed("gross-vault-rate", "P24", [sub(I+"unstake.rs", """    let withdrawable_orca_amount = convert_xorca_to_orca(
        *xorca_unstake_amount,
        non_escrowed_orca_amount,
        xorca_mint_data.supply,
    )?;
""", """    let priced = if non_escrowed_orca_amount > initial_escrowed_orca_amount {
        non_escrowed_orca_amount
    } else {
        vault_account_data.amount
    };
    let withdrawable_orca_amount =
        convert_xorca_to_orca(*xorca_unstake_amount, priced, xorca_mint_data.supply)?;
""")], """
    let p = pool(1_000_000, 600_000, 400_000, 0);
    let u = user(1, 0, 400_000);
    let r = rec(&u, 7, 0);
    let _ = unstake(&p, &u, r, 400_000, 7);
    expect!(p.vault.amount() >= p.state.u64(8), "the pool owes {} but holds {}", p.state.u64(8), p.vault.amount());
""", "more than half of the vault is already owed to pending withdrawals", "unstaking is priced with escrowed ORCA, so the pool owes more than it holds")

seed("no-offset-when-small", "P25", [sub(P+"util/math.rs", """    let out_xorca_amount_u128 = orca_amount_to_convert_u128
        .checked_mul(xorca_supply_with_virtual_amount_u128)
        .ok_or(ErrorCode::ArithmeticError)?
""", """    let out_xorca_amount_u128 = orca_amount_to_convert_u128
        .checked_mul(xorca_supply_with_virtual_amount_u128)
        .ok_or(ErrorCode::ArithmeticError)?
        .checked_add(u128::from(orca_amount_to_convert == non_escrowed_orca_amount) * (non_escrowed_orca_amount_with_virtual_amount_u128 - 1))
        .ok_or(ErrorCode::ArithmeticError)?
""")], """
    let p = pool(1_000, 0, 700, 60);
    let u = user(1, 1_000_000, 0);
    let (n0, s0) = (1_100u128, 800u128);
    expect!(stake(&p, &u, 1_000).is_ok(), "stake");
    let (n1, s1) = (p.vault.amount() as u128 + 100, p.xmint.u64(36) as u128 + 100);
    expect!(n1 * s0 >= n0 * s1, "the rate fell from {}/{} to {}/{}", n0, s0, n1, s1);
""", "a stake of exactly the unescrowed vault balance", "the minted amount is rounded up, diluting the other holders")

seed("unset-index", "P13", [sub(I+"unstake.rs", "    pending_withdraw_data.withdraw_index = *withdraw_index;\n", "    pending_withdraw_data.withdraw_index = *withdraw_index & 0x7f;\n")], """
    let p = pool(1_000_000, 0, 500_000, 0);
    let u = user(1, 0, 50_000);
    let r = rec(&u, 200, 0);
    expect!(unstake(&p, &u, r, 1000, 200).is_ok(), "unstake");
    expect!(r.data()[7] == 200, "recorded index {}", r.data()[7]);
""", "a withdraw index of 128 or more", "the record names another index than the one it lives at")

seed("foreign-vault", "P17", [sub(I+"withdraw.rs", """        State::verify_vault_address_with_bump(
            state_account,
            vault_account,
            orca_mint_account,
            state_view.vault_bump,
        )
        .map_err(|_| ErrorCode::InvalidSeeds)?;

        state_view.bump""", """        if !vault_account.is_owned_by(&SPL_TOKEN_PROGRAM_ID) {
            return Err(ErrorCode::InvalidSeeds.into());
        }

        state_view.bump""")], """
    let mut p = pool(1_000_000, 500, 500_000, 0);
    let u = user(1, 0, 0);
    let r = open_rec(&u, 5, 400, 0);
    // another token account somebody opened for the state account
    p.vault = token_account([0x77; 32], ORCA, p.state.key(), 1_000_000);
    expect!(withdraw(&p, &u, r, 5).is_err(), "a token account other than the vault was used");
""", "a second ORCA account held by the state account is passed as the vault", "withdraw trusts any ORCA account of the state account as the vault")

seed("mint-to-anyone", "P12", [sub(I+"stake.rs", """    make_owner_token_account_assertions(
        staker_xorca_ata,
        staker_account,
        xorca_mint_account,
        true,
    )?;
""", """    assert_account_role(staker_xorca_ata, &[AccountRole::Writable])?;
    assert_account_owner(staker_xorca_ata, &SPL_TOKEN_PROGRAM_ID)?;
""")], """
    let p = pool(1_000_000, 0, 500_000, 60);
    let u = user(1, 1_000_000, 0);
    let v = user(2, 0, 0);
    let w = User { w: u.w, orca: u.orca, xorca: v.xorca };
    expect!(stake(&p, &w, 1000).is_err(), "xORCA was minted to somebody else");
""", "a token account of somebody else in the staker's place", "newly minted xORCA can go to another owner")

seed("last-escrow", "P44", [sub(I+"withdraw.rs", "if state_data.escrowed_orca_amount < withdrawable_orca_amount {", "if state_data.escrowed_orca_amount <= withdrawable_orca_amount {")], """
    let p = pool(1_000_000, 900, 500_000, 0);
    let u = user(1, 0, 0);
    let (a, b) = (open_rec(&u, 0, 500, 0), open_rec(&u, 1, 400, 0));
    expect!(withdraw(&p, &u, a, 0).is_ok(), "first withdrawal");
    let x = withdraw(&p, &u, b, 1);
    expect!(x.is_ok(), "the last open withdrawal is refused: {:?}", x);
""", "the withdrawal that would leave the escrow empty", "the last open withdrawal is refused, locking its ORCA until somebody else unstakes")

seed("narrow-product", "P44", [sub(P+"util/math.rs", """    let out_orca_amount_u128 = xorca_amount_to_convert_u128
        .checked_mul(non_escrowed_orca_amount_with_virtual_amount_u128)
        .ok_or(ErrorCode::ArithmeticError)?
""", """    // keep one spare bit for the rounding step
    let out_orca_amount_u128 = xorca_amount_to_convert_u128
        .checked_mul(non_escrowed_orca_amount_with_virtual_amount_u128)
        .filter(|product| product >> 96 == 0)
        .ok_or(ErrorCode::ArithmeticError)?
""")], """
    let p = pool(1 << 54, 0, 1 << 53, 60);
    let u = user(1, 0, 1 << 50);
    let r = rec(&u, 7, 0);
    let x = unstake(&p, &u, r, 1 << 50, 7);
    expect!(x.is_ok(), "a large unstake is refused: {:?}", x);
    expect!(r.u64(40) == (((1u128 << 50) * ((1u128 << 54) + 100)) / ((1u128 << 53) + 100)) as u64, "amount");
""", "an unstake whose intermediate product needs more than 96 bits", "large unstakes from a large pool are refused although the result fits")

seed("stake-everything", "P44", [sub(I+"stake.rs", "    let final_vault_amount = vault_account_data.amount + *orca_stake_amount;", """    // the staker keeps the account open for later withdrawals
    if staker_orca_ata_data.amount - *orca_stake_amount == 0
        && staker_orca_ata_data.close_authority_flag != 0
    {
        return Err(ErrorCode::InsufficientFunds.into());
    }
    let final_vault_amount = vault_account_data.amount + *orca_stake_amount;""")], """
    let p = pool(1_000_000, 0, 500_000, 0);
    let u = user(1, 10_000, 0);
    u.orca.data()[129] = 1;
    expect!(stake(&p, &u, 4_000).is_ok(), "stake");
    let x = stake(&p, &u, 6_000);
    expect!(x.is_ok(), "staking the whole balance is refused: {:?}", x);
""", "a staker whose token account has a close authority stakes the whole balance", "staking the entire balance is refused although the staker holds the amount")

seed("overflow-code", "P45", [sub(I+"unstake.rs", """        .checked_add(state.cool_down_period_s)
        .ok_or(ErrorCode::CoolDownOverflow)?;""", """        .checked_add(state.cool_down_period_s)
        .ok_or(ErrorCode::CoolDownPeriodStillActive)?;""")], """
    let p = pool(1_000_000, 0, 500_000, i64::MAX - 5);
    let u = user(1, 0, 50_000);
    let r = rec(&u, 7, 0);
    let x = unstake(&p, &u, r, 1000, 7);
    expect!(x == Err(6017), "refused with {:?}", x);
""", "a cooldown so large that now + cooldown exceeds the 64-bit range", "the unstake is refused with the code clients wait on, although waiting cannot help")

seed("init-order", "P45", [sub(I+"initialize.rs", """    let mut state_seeds = State::seeds();
    let state_bump = assert_account_seeds(state_account, &crate::ID, &state_seeds)?;
    state_seeds.push(Seed::from(&state_bump));

    if state_account.data_len() > 0 {
        return Err(ErrorCode::StateAccountAlreadyInitialized.into());
    }
    assert_account_owner(state_account, &SYSTEM_PROGRAM_ID)?;
""", """    if !state_account.is_owned_by(&SYSTEM_PROGRAM_ID) || !state_account.data_is_empty() {
        return Err(ErrorCode::StateAccountAlreadyInitialized.into());
    }
    let mut state_seeds = State::seeds();
    let state_bump = assert_account_seeds(state_account, &crate::ID, &state_seeds)?;
    state_seeds.push(Seed::from(&state_bump));
""")], """
    let mut a = fresh(0);
    let v = token_account([0x42; 32], ORCA, [1; 32], 5);
    let good = a[2];
    a[2] = v;
    let x = initialize(&a, 60);
    expect!(x.is_err() && x != Err(6010), "a mistaken account is refused as an initialized state: {:?}", x);
    a[2] = good;
    expect!(initialize(&a, 60).is_ok(), "initialize");
""", "an account that is not the state's address but is in use is passed as the state", "a mistaken account is reported as 'already initialized' although the pool does not exist")

seed("balance-code", "P45", [sub(I+"unstake.rs", """    if unstaker_xorca_ata_data.amount < *xorca_unstake_amount {
        return Err(ErrorCode::InsufficientFunds.into());""", """    if unstaker_xorca_ata_data.amount < (*xorca_unstake_amount).max(1) {
        return Err(ErrorCode::InsufficientFunds.into());""")], """
    let p = pool(1_000_000, 0, 500_000, 60);
    let u = user(1, 0, 0);
    let r = rec(&u, 7, 0);
    let x = unstake(&p, &u, r, 0, 7);
    expect!(x == Err(6015), "unstaking nothing is refused with {:?}", x);
""", "an unstake of zero by a user whose xORCA account is empty", "the refusal claims insufficient funds although the balance covers the amount")

seed("close-vault", "P21", [sub(I+"withdraw.rs", """    // Close the pending_withdraw account and refund lamports to unstaker""", """    // The pool is empty: the vault is not needed until somebody stakes again
    if vault_account_data.amount == withdrawable_orca_amount {
        pinocchio_token::instructions::CloseAccount {
            account: vault_account,
            destination: unstaker_account,
            authority: state_account,
        }
        .invoke_signed(&[state_seeds.as_slice().into()])?;
    }

    // Close the pending_withdraw account and refund lamports to unstaker"""), sub(I+"withdraw.rs", "    make_owner_token_account_assertions(vault_account, state_account, orca_mint_account, true)?;\n\n    // 7", "    let vault_account_data =\n        make_owner_token_account_assertions(vault_account, state_account, orca_mint_account, true)?;\n\n    // 7")], """
    let p = pool(900, 900, 0, 0);
    let u = user(1, 0, 0);
    let r = open_rec(&u, 0, 900, 0);
    let x = withdraw(&p, &u, r, 0);
    expect!(x.is_ok() && unsafe { CALLS } == 1, "the withdrawal made {} calls: {:?}", unsafe { CALLS }, x);
""", "a withdrawal that empties the vault", "the program signs away the vault account itself")

seed("tag-mask", "P23", [sub(P+"entrypoint.rs", """    let mut instruction_data = instruction_data;
    let instruction = Instruction::deserialize(&mut instruction_data)
""", """    // the upper half of the tag is reserved for an interface version
    let mut bytes = instruction_data.to_vec();
    if let Some(tag) = bytes.first_mut() {
        *tag &= 0x0f;
    }
    let instruction = Instruction::deserialize(&mut bytes.as_slice())
""")], """
    let p = pool(1_000_000, 0, 500_000, 60);
    let u = user(1, 1_000_000, 0);
    let mut b = [0u8; 9];
    b[0] = 0x50;
    b[1..].copy_from_slice(&1000u64.to_le_bytes());
    expect!(exec(&[u.w, p.vault, u.orca, u.xorca, p.xmint, p.state, p.omint, p.token], &b).is_err(), "tag 0x50 was accepted");
    expect!(stake(&p, &u, 1000).is_ok(), "stake");
""", "a request whose tag byte is above 15", "unknown tags are executed as one of the five instructions")

seed("default-index", "P23", [sub(P+"entrypoint.rs", """    let instruction = Instruction::deserialize(&mut instruction_data)
        .map_err(|_| ErrorCode::UnknownInstructionDiscriminator)?;
""", """    let request = instruction_data;
    let instruction = match Instruction::deserialize(&mut instruction_data) {
        Ok(instruction) => instruction,
        // the first release had no index: such requests mean index 0
        Err(_) => Instruction::deserialize(&mut [request, &[0]].concat().as_slice())
            .map_err(|_| ErrorCode::UnknownInstructionDiscriminator)?,
    };
""")], """
    let p = pool(1_000_000, 0, 500_000, 60);
    let u = user(1, 0, 50_000);
    let r = rec(&u, 0, 0);
    let mut b = [0u8; 9];
    b[0] = 1;
    b[1..].copy_from_slice(&1000u64.to_le_bytes());
    expect!(exec(&[u.w, p.state, r, u.xorca, p.xmint, p.omint, p.vault, p.system, p.token], &b).is_err(), "a truncated request was accepted");
    expect!(unstake(&p, &u, r, 1000, 0).is_ok(), "unstake");
""", "an unstake or withdraw request without its index byte (or an amount cut short by one byte)", "truncated requests are executed with an invented argument")

def make(ids):
    for i in ids:
        prop, edits, main, needs, breaks = SEEDS[i]
        subprocess.run("git checkout -q -- .", shell=True, cwd=S, check=True)
        for f, a, b, n in edits:
            s = open(S + "/" + f).read()
            assert s.count(a) == n, (i, f, s.count(a), a)
            open(S + "/" + f, "w").write(s.replace(a, b))
        d = V + "/seeded/" + i
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(subprocess.run(["git", "diff"], cwd=S, capture_output=True, text=True).stdout)
        open(d + "/main.rs", "w").write("mod rt;\nuse rt::*;\n\nfn main() {" + main + "}\n")
        for f in ("rt.rs", "wrap.sh", "demo.sh"):
            shutil.copy2(V + "/tools/demo/" + f, d)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
        subprocess.run("git checkout -q -- .", shell=True, cwd=S, check=True)

if __name__ == "__main__":
    make(sys.argv[1:] or list(SEEDS))
