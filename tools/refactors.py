#!/usr/bin/env python3
"""behaviour-preserving edits on which every check must stay quiet (development tool)"""
import os, subprocess, sys
V = "/verif"; S = "/tmp/xr/repo"; P = "solana-program/src/"; I = P + "instructions/"
R = {}
def ref(id, *edits):
    R[id] = edits
def sub(f, a, b, n=1):
    return (f, a, b, n)

ref("slice-pattern", sub(I+"stake.rs", """    let staker_account = get_account_info(accounts, 0)?;
    let vault_account = get_account_info(accounts, 1)?;
    let staker_orca_ata = get_account_info(accounts, 2)?;
    let staker_xorca_ata = get_account_info(accounts, 3)?;
    let xorca_mint_account = get_account_info(accounts, 4)?;
    let state_account = get_account_info(accounts, 5)?;
    let orca_mint_account = get_account_info(accounts, 6)?;
    let token_program_account = get_account_info(accounts, 7)?;
""", """    let [staker_account, vault_account, staker_orca_ata, staker_xorca_ata, xorca_mint_account, state_account, orca_mint_account, token_program_account, ..] = accounts else {
        return Err(ErrorCode::NotEnoughAccountKeys.into());
    };
"""), sub(I+"stake.rs", "util::{account::get_account_info, math::convert_orca_to_xorca}", "util::math::convert_orca_to_xorca"))

ref("iter-next", sub(I+"set.rs", """    let update_authority_account = get_account_info(accounts, 0)?;
    let state_account = get_account_info(accounts, 1)?;
""", """    let mut it = accounts.iter();
    let update_authority_account = it.next().ok_or(ErrorCode::NotEnoughAccountKeys)?;
    let state_account = it.next().ok_or(ErrorCode::NotEnoughAccountKeys)?;
"""), sub(I+"set.rs", "    util::account::get_account_info,\n", ""))

ref("branch-sub", sub(I+"stake.rs", """    let non_escrowed_orca_amount = vault_account_data
        .amount
        .checked_sub(state.escrowed_orca_amount)
        .ok_or(ErrorCode::InsufficientVaultBacking)?;
""", """    if vault_account_data.amount < state.escrowed_orca_amount {
        return Err(ErrorCode::InsufficientVaultBacking.into());
    }
    let non_escrowed_orca_amount = vault_account_data.amount - state.escrowed_orca_amount;
"""), sub(I+"withdraw.rs", """    state.escrowed_orca_amount = state
        .escrowed_orca_amount
        .checked_sub(withdrawable_orca_amount)
        .ok_or(ErrorCode::InsufficientEscrow)?;
""", """    state.escrowed_orca_amount -= withdrawable_orca_amount;
"""))

MATH_A = open("/repo/" + P + "util/math.rs").read()
ref("math-helper", sub(P+"util/math.rs", MATH_A[MATH_A.index("    // Perform calculations"):MATH_A.index("pub fn convert_xorca_to_orca")], """    scale(orca_amount_to_convert, (xorca_supply, VIRTUAL_XORCA_SUPPLY), (non_escrowed_orca_amount, VIRTUAL_NON_ESCROWED_ORCA_AMOUNT))
}

/// amount * (num + offset) / (den + offset), rounded down
fn scale(amount: u64, num: (u64, u128), den: (u64, u128)) -> Result<u64, ProgramError> {
    let n = num.0 as u128 + num.1;
    let d = u128::from(den.0) + den.1;
    let q = (amount as u128).checked_mul(n).ok_or(ErrorCode::ArithmeticError)? / d;
    if q > u64::MAX as u128 {
        return Err(ErrorCode::ArithmeticError.into());
    }
    Ok(q as u64)
}

"""), )
ref("math-fast-path", sub(P+"util/math.rs", """    let out_xorca_amount_u128 = orca_amount_to_convert_u128
        .checked_mul(xorca_supply_with_virtual_amount_u128)
        .ok_or(ErrorCode::ArithmeticError)?
        .checked_div(non_escrowed_orca_amount_with_virtual_amount_u128)
        .ok_or(ErrorCode::ArithmeticError)?;
""", """    let product = orca_amount_to_convert_u128
        .checked_mul(xorca_supply_with_virtual_amount_u128)
        .ok_or(ErrorCode::ArithmeticError)?;
    let out_xorca_amount_u128 = if orca_amount_to_convert == 0 {
        0
    } else {
        product / non_escrowed_orca_amount_with_virtual_amount_u128
    };
"""))
ref("role-iter", sub(P+"assertions/account.rs", open("/repo/"+P+"assertions/account.rs").read().split("pub fn assert_account_role")[1].split("pub fn assert_account_owner")[0], """(account: &AccountInfo, roles: &[AccountRole]) -> ProgramResult {
    roles.iter().try_for_each(|role| {
        let ok = match role {
            AccountRole::Signer => account.is_signer(),
            AccountRole::Writable => account.is_writable(),
        };
        if ok { Ok(()) } else { Err(ErrorCode::InvalidAccountRole.into()) }
    })
}

"""))
ref("discr-any", sub(P+"assertions/account.rs", """    for discriminator in discriminators {
        if *discriminator as u8 == data[0] {
            return Ok(());
        }
    }
""", """    let tag = data[0];
    if discriminators.iter().any(|d| *d as u8 == tag) {
        return Ok(());
    }
"""))
ref("seeds-loop", sub(P+"assertions/account.rs", """    let seed_bytes = seeds
        .iter()
        .map(|seed| seed.as_ref())
        .collect::<Vec<&[u8]>>();
    let (address, bump)""", """    let mut seed_bytes: Vec<&[u8]> = Vec::with_capacity(seeds.len());
    for i in 0..seeds.len() {
        seed_bytes.push(seeds[i].as_ref());
    }
    let (address, bump)"""), sub(P+"pda.rs", """        pending_withdraw_seeds_raw(unstaker, withdraw_index)
            .into_iter()
            .map(Seed::from)
            .collect()
""", """        let mut v = Vec::new();
        for s in pending_withdraw_seeds_raw(unstaker, withdraw_index) {
            v.push(Seed::from(s));
        }
        v
"""))
ref("close-reorder", sub(P+"util/account.rs", """    let mut account_to_close_data = account_to_close.try_borrow_mut_data()?;
    account_to_close_data[0] = AccountDiscriminator::Closed as u8;

    *receiver.try_borrow_mut_lamports()? += account_to_close.lamports();
    *account_to_close.try_borrow_mut_lamports()? = 0;

    drop(account_to_close_data);
""", """    let refund = account_to_close.lamports();
    {
        let mut balance = receiver.try_borrow_mut_lamports()?;
        *balance = balance.checked_add(refund).ok_or(ProgramError::ArithmeticOverflow)?;
    }
    *account_to_close.try_borrow_mut_lamports()? = 0;
    {
        let mut data = account_to_close.try_borrow_mut_data()?;
        if let Some(tag) = data.first_mut() {
            *tag = AccountDiscriminator::Closed as u8;
        }
    }
"""))
ref("close-no-tag", sub(P+"util/account.rs", """    let mut account_to_close_data = account_to_close.try_borrow_mut_data()?;
    account_to_close_data[0] = AccountDiscriminator::Closed as u8;
""", """    let mut account_to_close_data = account_to_close.try_borrow_mut_data()?;
    account_to_close_data.fill(0);
"""), sub(P+"util/account.rs", "state::{AccountDiscriminator, ProgramAccount}", "state::ProgramAccount"))
ref("create-match", sub(P+"util/account.rs", """    let lamports_to_transfer = required_lamports.saturating_sub(current_lamports);
    if lamports_to_transfer > 0 {
        Transfer {
            from: funder,
            to: new_account,
            lamports: lamports_to_transfer,
        }
        .invoke_signed(signers)?;
    }
""", """    if current_lamports < required_lamports {
        Transfer {
            from: funder,
            to: new_account,
            lamports: required_lamports - current_lamports,
        }
        .invoke()?;
    }
"""))
ref("create-always-secure", sub(P+"util/account.rs", """    if current_lamports == 0 {
        CreateAccount {
            from: funder,
            to: new_account,
            lamports: required_lamports,
            space: space as u64,
            owner,
        }
        .invoke_signed(signers)?;
        return Ok(());
    }
""", ""), sub(P+"util/account.rs", "Allocate, Assign, CreateAccount, Transfer", "Allocate, Assign, Transfer"))
ref("assign-struct", sub(I+"unstake.rs", """    pending_withdraw_data.bump = pending_withdraw_bump[0];
    pending_withdraw_data.withdraw_index = *withdraw_index;
    pending_withdraw_data.unstaker = *unstaker_account.key();
    pending_withdraw_data.withdrawable_orca_amount = withdrawable_orca_amount;
    let current_unix_timestamp = get_current_unix_timestamp()?;
    let withdrawable_timestamp = current_unix_timestamp
        .checked_add(state.cool_down_period_s)
        .ok_or(ErrorCode::CoolDownOverflow)?;
    pending_withdraw_data.withdrawable_timestamp = withdrawable_timestamp;
""", """    fill_record(
        &mut pending_withdraw_data,
        pending_withdraw_bump[0],
        *withdraw_index,
        unstaker_account.key(),
        withdrawable_orca_amount,
        unlock_time(state.cool_down_period_s)?,
    );
"""), sub(I+"unstake.rs", "pub fn process_instruction(", """fn unlock_time(cooldown: i64) -> Result<i64, ErrorCode> {
    let now = get_current_unix_timestamp().map_err(|_| ErrorCode::CoolDownOverflow)?;
    cooldown.checked_add(now).ok_or(ErrorCode::CoolDownOverflow)
}

fn fill_record(r: &mut PendingWithdraw, bump: u8, index: u8, who: &pinocchio::pubkey::Pubkey, amount: u64, at: i64) {
    r.withdrawable_timestamp = at;
    r.withdrawable_orca_amount = amount;
    r.unstaker.copy_from_slice(who);
    r.withdraw_index = index;
    r.bump = bump;
}

pub fn process_instruction("""))
ref("event-helper", sub(I+"stake.rs", """    Event::Stake {
        orca_stake_amount: orca_stake_amount,
        vault_orca_amount: &final_vault_amount,
        vault_escrowed_orca_amount: &state.escrowed_orca_amount,
        xorca_mint_supply: &final_xorca_supply,
        xorca_to_mint: &xorca_to_mint,
    }
    .emit()?;

    Ok(())
}""", """    report(*orca_stake_amount, final_vault_amount, state.escrowed_orca_amount, final_xorca_supply, xorca_to_mint)
}

fn report(a: u64, v: u64, e: u64, s: u64, m: u64) -> ProgramResult {
    let event = Event::Stake {
        orca_stake_amount: &a,
        vault_orca_amount: &v,
        vault_escrowed_orca_amount: &e,
        xorca_mint_supply: &s,
        xorca_to_mint: &m,
    };
    event.emit()
}"""))
ref("event-from-accounts", sub(I+"stake.rs", """    let final_vault_amount = vault_account_data.amount + *orca_stake_amount;
    let final_xorca_supply = xorca_mint_data.supply + xorca_to_mint;
""", """    let final_vault_amount = assert_external_account_data::<crate::cpi::token::TokenAccount>(vault_account)?.amount;
    let final_xorca_supply = assert_external_account_data::<TokenMint>(xorca_mint_account)?.supply;
"""))
ref("address-table", sub(I+"stake.rs", """    assert_account_address(orca_mint_account, &ORCA_MINT_ID)?;
    assert_account_address(xorca_mint_account, &XORCA_MINT_ID)?;
    assert_account_address(token_program_account, &SPL_TOKEN_PROGRAM_ID)?;
""", """    for (account, id) in [
        (orca_mint_account, &ORCA_MINT_ID),
        (xorca_mint_account, &XORCA_MINT_ID),
        (token_program_account, &SPL_TOKEN_PROGRAM_ID),
    ] {
        assert_account_address(account, id)?;
    }
"""))
ref("dispatch-direct", sub(P+"entrypoint.rs", """            instructions::initialize::process_instruction(accounts, cool_down_period_s)?;
        }""", """            return instructions::initialize::process_instruction(accounts, cool_down_period_s);
        }"""), sub(P+"entrypoint.rs", """            instructions::set::process_instruction(accounts, instruction_data)?;
        }
    }
    Ok(())""", """            return instructions::set::process_instruction(accounts, instruction_data);
        }
    }
    Ok(())"""))
ref("dispatch-manual", sub(P+"entrypoint.rs", """    let mut instruction_data = instruction_data;
    let instruction = Instruction::deserialize(&mut instruction_data)
        .map_err(|_| ErrorCode::UnknownInstructionDiscriminator)?;
""", """    if let [2, index, ..] = instruction_data {
        return instructions::withdraw::process_instruction(accounts, index);
    }
    let instruction = Instruction::deserialize(&mut &instruction_data[..])
        .map_err(|_| ErrorCode::UnknownInstructionDiscriminator)?;
"""))
ref("withdraw-merge", sub(I+"withdraw.rs", """    let pending_withdraw_bump_byte = {
        let data = assert_account_data::<PendingWithdraw>(pending_withdraw_account)?;
        data.bump
    };
""", """    let (pending_withdraw_bump_byte, withdrawable_orca_amount, withdrawable_timestamp) = {
        let data = assert_account_data::<PendingWithdraw>(pending_withdraw_account)?;
        (data.bump, data.withdrawable_orca_amount, data.withdrawable_timestamp)
    };
"""), sub(I+"withdraw.rs", """    let (withdrawable_orca_amount, withdrawable_timestamp) = {
        let pending_withdraw_data =
            assert_account_data::<PendingWithdraw>(pending_withdraw_account)?;
        (
            pending_withdraw_data.withdrawable_orca_amount,
            pending_withdraw_data.withdrawable_timestamp,
        )
    };

""", ""))
ref("withdraw-reorder", sub(I+"withdraw.rs", """    // Close the pending_withdraw account and refund lamports to unstaker
    close_program_account(pending_withdraw_account, unstaker_account)?;

    // Remove tokens from escrow
    let mut state = assert_account_data_mut::<State>(state_account)?;
    state.escrowed_orca_amount = state
        .escrowed_orca_amount
        .checked_sub(withdrawable_orca_amount)
        .ok_or(ErrorCode::InsufficientEscrow)?;
""", """    // Remove tokens from escrow
    let mut state = assert_account_data_mut::<State>(state_account)?;
    let left = state.escrowed_orca_amount.saturating_sub(withdrawable_orca_amount);
    state.escrowed_orca_amount = left;
    close_program_account(pending_withdraw_account, unstaker_account)?;
"""))
ref("ripe-swap", sub(I+"withdraw.rs", """    if current_unix_timestamp < withdrawable_timestamp {
        return Err(ErrorCode::CoolDownPeriodStillActive.into());
    }
""", """    match withdrawable_timestamp.cmp(&current_unix_timestamp) {
        core::cmp::Ordering::Greater => return Err(ErrorCode::CoolDownPeriodStillActive.into()),
        _ => {}
    }
"""))
ref("transfer-checked", sub(I+"stake.rs", """    let transfer_instruction = Transfer {
        from: staker_orca_ata,
        to: vault_account,
        authority: staker_account,
        amount: *orca_stake_amount,
    };
""", """    let transfer_instruction = pinocchio_token::instructions::TransferChecked {
        from: staker_orca_ata,
        mint: orca_mint_account,
        to: vault_account,
        authority: staker_account,
        amount: *orca_stake_amount,
        decimals: 6,
    };
"""), sub(I+"stake.rs", "instructions::{MintTo, Transfer}", "instructions::MintTo"))
ref("set-local", sub(I+"set.rs", """            if *new_cool_down_period_s < 0 {
                return Err(ErrorCode::InvalidCoolDownPeriod.into());
            }
            state_view.cool_down_period_s = *new_cool_down_period_s;
""", """            let v = *new_cool_down_period_s;
            state_view.cool_down_period_s = match v {
                0.. => v,
                _ => return Err(ErrorCode::InvalidCoolDownPeriod.into()),
            };
"""))
ref("set-split", sub(I+"set.rs", "            state_view.update_authority = *new_authority;\n", "            for (dst, src) in state_view.update_authority.iter_mut().zip(new_authority.iter()) {\n                *dst = *src;\n            }\n"))
ref("key-loop-compare", sub(P+"assertions/account.rs", "    if account.key() != address {\n        log!(\n            \"Account {} has wrong address\"", "    let same = account.key().iter().zip(address.iter()).all(|(a, b)| a == b);\n    if !same {\n        log!(\n            \"Account {} has wrong address\""))
ref("init-literal", sub(I+"initialize.rs", """    let mut state_data = State::default();
    if *cool_down_period_s < 0 {
        return Err(ErrorCode::InvalidCoolDownPeriod.into());
    }
    state_data.cool_down_period_s = *cool_down_period_s;
    state_data.bump = state_bump[0];
    state_data.vault_bump = vault_bump;
    state_data.update_authority = *update_authority_account.key();
""", """    if cool_down_period_s.is_negative() {
        return Err(ErrorCode::InvalidCoolDownPeriod.into());
    }
    let state_data = State {
        bump: state_bump[0],
        vault_bump,
        cool_down_period_s: *cool_down_period_s,
        update_authority: *update_authority_account.key(),
        ..Default::default()
    };
"""))
ref("init-vault-once", sub(I+"initialize.rs", """    let (_, vault_bump) = find_program_address(
        &crate::pda::seeds::vault_seeds_raw(
            state_account.key(),
            &SPL_TOKEN_PROGRAM_ID,
            orca_mint_account.key(),
        ),
        &ASSOCIATED_TOKEN_PROGRAM_ID,
    );
""", ""), sub(I+"initialize.rs", "    assert_account_seeds(vault_account, &ASSOCIATED_TOKEN_PROGRAM_ID, &vault_seeds)?;", "    let [vault_bump] = assert_account_seeds(vault_account, &ASSOCIATED_TOKEN_PROGRAM_ID, &vault_seeds)?;"),
    sub(I+"initialize.rs", "account_info::AccountInfo, instruction::Seed, pubkey::find_program_address, ProgramResult,", "account_info::AccountInfo, instruction::Seed, ProgramResult,"))
ref("find-bump", sub(I+"withdraw.rs", """    PendingWithdraw::verify_address_with_bump(
        pending_withdraw_account,
        unstaker_account.key(),
        &withdraw_index_bytes,
        &crate::ID,
        pending_withdraw_bump_byte,
    )
    .map_err(|_| ErrorCode::InvalidSeeds)?;
""", """    let _ = pending_withdraw_bump_byte;
    crate::assertions::account::assert_account_seeds(
        pending_withdraw_account,
        &crate::ID,
        &PendingWithdraw::seeds(unstaker_account.key(), &withdraw_index_bytes),
    )?;
"""))
ref("auth-helper", sub(I+"stake.rs", """    State::verify_address_with_bump(state_account, &crate::ID, state_view.bump)
        .map_err(|_| ErrorCode::InvalidSeeds)?;

    // Verify vault address using stored vault_bump
    State::verify_vault_address_with_bump(
        state_account,
        vault_account,
        orca_mint_account,
        state_view.vault_bump,
    )
    .map_err(|_| ErrorCode::InvalidSeeds)?;
""", """    check_pool(&state_view, state_account, vault_account, orca_mint_account)?;
"""), sub(I+"stake.rs", "pub fn process_instruction(", """fn check_pool(view: &State, state: &AccountInfo, vault: &AccountInfo, mint: &AccountInfo) -> ProgramResult {
    let (bump, vault_bump) = (view.bump, view.vault_bump);
    if State::verify_vault_address_with_bump(state, vault, mint, vault_bump).is_err() {
        return Err(ErrorCode::InvalidSeeds.into());
    }
    match State::verify_address_with_bump(state, &crate::ID, bump) {
        Ok(()) => Ok(()),
        Err(_) => Err(ErrorCode::InvalidSeeds.into()),
    }
}

pub fn process_instruction("""))
ref("noop", sub(I+"stake.rs", "    let staker_account = get_account_info(accounts, 0)?;\n", "    let _unused = accounts.len().wrapping_add(1);\n    let staker_account = get_account_info(accounts, 0)?;\n"),
    sub(P+"util/math.rs", "    if (xorca_supply == 0) || (non_escrowed_orca_amount == 0) {\n        return Ok", "    let _ = xorca_supply.leading_zeros();\n    if (xorca_supply == 0) || (non_escrowed_orca_amount == 0) {\n        return Ok"))
ref("unstake-early-clock", sub(I+"unstake.rs", "    // 1. Unstaker Account Assertions\n", "    let current_unix_timestamp = get_current_unix_timestamp()?;\n    // 1. Unstaker Account Assertions\n"),
    sub(I+"unstake.rs", "    let current_unix_timestamp = get_current_unix_timestamp()?;\n    let withdrawable_timestamp", "    let withdrawable_timestamp"))
ref("unstake-unbounded-escrow", sub(I+"unstake.rs", """    let mut state = assert_account_data_mut::<State>(state_account)?;
    state.escrowed_orca_amount = state
        .escrowed_orca_amount
        .checked_add(withdrawable_orca_amount)
        .ok_or(ErrorCode::ArithmeticError)?;
""", """    let new_escrow = initial_escrowed_orca_amount
        .checked_add(withdrawable_orca_amount)
        .ok_or(ErrorCode::ArithmeticError)?;
    let mut state = assert_account_data_mut::<State>(state_account)?;
    state.escrowed_orca_amount = new_escrow;
"""))
ref("owner-loop", sub(P+"util/account.rs", "    if !new_account.is_owned_by(&SYSTEM_PROGRAM_ID) {\n        return Ok(());\n    }\n", "    if new_account.owner() != &SYSTEM_PROGRAM_ID {\n        return Err(ProgramError::IllegalOwner);\n    }\n"))
ref("tokens-manual", sub(P+"assertions/account.rs", "    let account = T::deserialize(&mut &*data).map_err(|_| ErrorCode::InvalidAccountData)?;\n    Ok(account)", "    let mut bytes: &[u8] = &data;\n    match T::deserialize(&mut bytes) {\n        Ok(v) => Ok(v),\n        Err(_) => Err(ErrorCode::InvalidAccountData.into()),\n    }"))

# ---- Rust client
C = "rust-client/src/"; G = C + "generated/"
ref("c-list-iter", sub(C+"utils/mod.rs", """    let mut addresses = Vec::new();
    for i in 0..max_withdrawals_to_search {
        let (address, _) = find_pending_withdraw_pda(staker, &i)?;
        addresses.push(address);
    }
""", """    let addresses = (0..max_withdrawals_to_search)
        .map(|i| find_pending_withdraw_pda(staker, &i).map(|(address, _)| address))
        .collect::<Result<Vec<Pubkey>, ProgramError>>()?;
"""))
ref("c-list-loop", sub(C+"utils/mod.rs", """    let pending_withdraws = maybe_accounts
        .into_iter()
        .flatten()
        .filter(|account| account.owner == XORCA_STAKING_PROGRAM_ID)
        .map(|account| PendingWithdraw::from_bytes(&account.data))
        .collect::<Result<Vec<PendingWithdraw>, std::io::Error>>()?;

    Ok(pending_withdraws)
""", """    let mut found = Vec::with_capacity(maybe_accounts.len());
    for maybe in &maybe_accounts {
        let Some(account) = maybe else { continue };
        if account.owner != XORCA_STAKING_PROGRAM_ID {
            continue;
        }
        found.push(PendingWithdraw::from_bytes(account.data.as_slice())?);
    }
    Ok(found)
"""))
ref("c-list-match", sub(C+"utils/mod.rs", """    let max_withdrawals_to_search =
        max_withdrawals_to_search.unwrap_or(DEFAULT_MAX_WITHDRAWALS_TO_SEARCH);
""", """    let limit = match max_withdrawals_to_search {
        Some(n) => n,
        None => DEFAULT_MAX_WITHDRAWALS_TO_SEARCH,
    };
"""), sub(C+"utils/mod.rs", "    for i in 0..max_withdrawals_to_search {\n", "    let mut i = 0u8;\n    while i < limit {\n"), sub(C+"utils/mod.rs", "        addresses.push(address);\n", "        addresses.push(address);\n        i += 1;\n"))
ref("c-list-helper", sub(C+"utils/mod.rs", """    let mut addresses = Vec::new();
    for i in 0..max_withdrawals_to_search {
        let (address, _) = find_pending_withdraw_pda(staker, &i)?;
        addresses.push(address);
    }
""", """    let addresses = pending_withdraw_addresses(staker, max_withdrawals_to_search)?;
"""), sub(C+"utils/mod.rs", "/// Fetches the vault token account state\n", """fn pending_withdraw_addresses(staker: &Pubkey, count: u8) -> Result<Vec<Pubkey>, ProgramError> {
    let mut out = Vec::with_capacity(usize::from(count));
    for i in 0..count {
        out.push(find_pending_withdraw_pda(staker, &i)?.0);
    }
    Ok(out)
}

/// Fetches the vault token account state
"""))
ref("c-conv-helper", sub(C+"conversion.rs", """    let out_xorca = (orca_amount_to_convert as u128)
        .checked_mul(xorca_supply_with_virtual_offset)
        .ok_or(ConversionError::Arithmetic)?
        .checked_div(non_escrowed_with_virtual_offset)
        .ok_or(ConversionError::Arithmetic)?;

    out_xorca
        .try_into()
        .map_err(|_| ConversionError::Arithmetic)
""", """    mul_div(orca_amount_to_convert, xorca_supply_with_virtual_offset, non_escrowed_with_virtual_offset)
"""), sub(C+"conversion.rs", """    let out_orca = (xorca_amount_to_convert as u128)
        .checked_mul(non_escrowed_with_virtual_offset)
        .ok_or(ConversionError::Arithmetic)?
        .checked_div(xorca_supply_with_virtual_offset)
        .ok_or(ConversionError::Arithmetic)?;

    out_orca.try_into().map_err(|_| ConversionError::Arithmetic)
}
""", """    mul_div(xorca_amount_to_convert, non_escrowed_with_virtual_offset, xorca_supply_with_virtual_offset)
}

/// a * b / c, rounded down
fn mul_div(a: u64, b: u128, c: u128) -> Result<u64, ConversionError> {
    let product = u128::from(a).checked_mul(b).ok_or(ConversionError::Arithmetic)?;
    u64::try_from(product / c).map_err(|_| ConversionError::Arithmetic)
}
"""))
ref("c-conv-plain", sub(C+"conversion.rs", """    let xorca_supply_with_virtual_offset = (xorca_supply as u128)
        .checked_add(VIRTUAL_XORCA_SUPPLY)
        .ok_or(ConversionError::Arithmetic)?;
    let non_escrowed_with_virtual_offset = (non_escrowed_orca_amount as u128)
        .checked_add(VIRTUAL_NON_ESCROWED_ORCA_AMOUNT)
        .ok_or(ConversionError::Arithmetic)?;
    Ok((
        non_escrowed_with_virtual_offset,
        xorca_supply_with_virtual_offset,
    ))
""", """    let supply = u128::from(xorca_supply) + VIRTUAL_XORCA_SUPPLY;
    let pool = VIRTUAL_NON_ESCROWED_ORCA_AMOUNT + u128::from(non_escrowed_orca_amount);
    Ok((pool, supply))
"""))
ref("c-conv-guard", sub(C+"conversion.rs", """    if xorca_supply == 0 || non_escrowed_orca_amount == 0 {
        return Ok(orca_amount_to_convert);
    }
""", """    let bootstrap = !(xorca_supply > 0 && non_escrowed_orca_amount > 0);
    if bootstrap {
        return Ok(orca_amount_to_convert);
    }
"""), sub(C+"conversion.rs", """    out_orca.try_into().map_err(|_| ConversionError::Arithmetic)
""", """    if out_orca > u64::MAX as u128 {
        return Err(ConversionError::Arithmetic);
    }
    Ok(out_orca as u64)
"""))
ref("c-pda-helper", sub(C+"pda/mod.rs", """    let seeds: &[&[u8]] = &[state.as_ref(), token_program.as_ref(), orca_mint.as_ref()];
    Pubkey::try_find_program_address(seeds, &ATA_PROGRAM_ID).ok_or(ProgramError::InvalidSeeds)
""", """    let (owner, program, mint) = (state.to_bytes(), token_program.to_bytes(), orca_mint.to_bytes());
    find(&[&owner, &program, &mint], &ATA_PROGRAM_ID)
"""), sub(C+"pda/mod.rs", """    let seeds: &[&[u8]] = &[b"pending_withdraw", unstaker.as_ref(), &[*withdraw_index]];
    Pubkey::try_find_program_address(seeds, &XORCA_STAKING_PROGRAM_ID)
        .ok_or(ProgramError::InvalidSeeds)
}
""", """    let index = withdraw_index.to_le_bytes();
    find(&["pending_withdraw".as_bytes(), unstaker.as_array(), index.as_slice()], &XORCA_STAKING_PROGRAM_ID)
}

fn find(seeds: &[&[u8]], program: &Pubkey) -> Result<(Pubkey, u8), ProgramError> {
    match Pubkey::try_find_program_address(seeds, program) {
        Some(found) => Ok(found),
        None => Err(ProgramError::InvalidSeeds),
    }
}
"""))
ref("c-rate-if", sub(C+"utils/mod.rs", """    let numerator = vault
        .amount
        .checked_sub(state.escrowed_orca_amount)
        .with_context(|| "Vault amount is less than escrowed amount")?;
    let denominator = fetch_xorca_mint_supply(rpc)?;
""", """    let denominator = fetch_xorca_mint_supply(rpc)?;
    if vault.amount < state.escrowed_orca_amount {
        anyhow::bail!("Vault amount is less than escrowed amount");
    }
    let numerator = vault.amount - state.escrowed_orca_amount;
"""))
ref("c-utils-helper", sub(C+"utils/mod.rs", """    let token_program = Pubkey::from_str(TOKEN_PROGRAM_ADDRESS)?;
    let orca_mint = Pubkey::from_str(ORCA_MINT_ADDRESS)?;

    let (vault_address, _)""", """    let [token_program, orca_mint] = [parse(TOKEN_PROGRAM_ADDRESS)?, parse(ORCA_MINT_ADDRESS)?];

    let (vault_address, _)"""), sub(C+"utils/mod.rs", "    let xorca_mint = Pubkey::from_str(XORCA_MINT_ADDRESS)?;\n", "    let xorca_mint = parse(XORCA_MINT_ADDRESS)?;\n"), sub(C+"utils/mod.rs", "/// Fetches the total supply of", """fn parse(address: &str) -> Result<Pubkey, anyhow::Error> {
    Ok(address.parse::<Pubkey>()?)
}

/// Fetches the total supply of"""))
ref("c-state-direct", sub(C+"utils/mod.rs", """    let decoded = fetch_state(rpc, &state_address)?;
    Ok(decoded.data)
""", """    fetch_state(rpc, &state_address).map(|account| account.data).map_err(ProgramError::from)
"""), sub(C+"utils/mod.rs", """    let state = fetch_state_account_data(rpc)?;
    Ok(state.cool_down_period_s)
""", """    fetch_state_account_data(rpc).map(|s| s.cool_down_period_s)
"""))
SRC = open("/repo/" + G + "instructions/set.rs").read()
ref("c-ix-vec", sub(G+"instructions/set.rs", SRC[SRC.index("        let mut accounts = Vec::with_capacity(2 + "):SRC.index("        solana_instruction::Instruction {\n")], """        let mut accounts = vec![
            solana_instruction::AccountMeta { pubkey: self.update_authority_account, is_signer: true, is_writable: true },
            solana_instruction::AccountMeta { pubkey: self.state_account, is_signer: false, is_writable: true },
        ];
        accounts.extend(remaining_accounts.iter().cloned());
        let mut data = vec![SET_DISCRIMINATOR];
        args.serialize(&mut data).unwrap();

"""))
SRC2 = open("/repo/" + G + "instructions/withdraw.rs").read()
A2 = SRC2.index("        let mut account_infos = Vec::with_capacity(")
ref("c-cpi-vec", sub(G+"instructions/withdraw.rs", SRC2[A2:SRC2.index("        if signers_seeds.is_empty()", A2)], """        let mut account_infos = vec![
            self.__program.clone(), self.unstaker_account.clone(), self.state_account.clone(), self.pending_withdraw_account.clone(),
            self.unstaker_orca_ata.clone(), self.vault_account.clone(), self.orca_mint_account.clone(),
            self.system_program_account.clone(), self.token_program_account.clone(),
        ];
        for (info, _, _) in remaining_accounts {
            account_infos.push((*info).clone());
        }

"""), sub(G+"instructions/withdraw.rs", """        if signers_seeds.is_empty() {
            solana_cpi::invoke(&instruction, &account_infos)
        } else {
            solana_cpi::invoke_signed(&instruction, &account_infos, signers_seeds)
        }
""", """        solana_cpi::invoke_signed(&instruction, &account_infos, signers_seeds)
"""), sub(G+"instructions/withdraw.rs", """        remaining_accounts.iter().for_each(|remaining_account| {
            accounts.push(solana_instruction::AccountMeta {
                pubkey: *remaining_account.0.key,
                is_signer: remaining_account.1,
                is_writable: remaining_account.2,
            })
        });
""", """        accounts.extend(remaining_accounts.iter().map(|(info, is_signer, is_writable)| solana_instruction::AccountMeta {
            pubkey: *info.key,
            is_signer: *is_signer,
            is_writable: *is_writable,
        }));
"""))
ref("c-fetch-zip", sub(G+"accounts/pending_withdraw.rs", """    for i in 0..addresses.len() {
        let address = addresses[i];
        if let Some(account) = accounts[i].as_ref() {
            let data = PendingWithdraw::from_bytes(&account.data)?;
            decoded_accounts.push(crate::shared::MaybeAccount::Exists(
                crate::shared::DecodedAccount {
                    address,
                    account: account.clone(),
                    data,
                },
            ));
        } else {
            decoded_accounts.push(crate::shared::MaybeAccount::NotFound(address));
        }
    }
""", """    for (&address, account) in addresses.iter().zip(accounts) {
        decoded_accounts.push(match account {
            Some(account) => {
                let data = PendingWithdraw::from_bytes(&account.data)?;
                crate::shared::MaybeAccount::Exists(crate::shared::DecodedAccount { address, account, data })
            }
            None => crate::shared::MaybeAccount::NotFound(address),
        });
    }
"""))
ref("c-fetch-remove", sub(G+"accounts/state.rs", """    let accounts = fetch_all_state(rpc, &[*address])?;
    Ok(accounts[0].clone())
""", """    let mut accounts = fetch_all_state(rpc, std::slice::from_ref(address))?;
    Ok(accounts.remove(0))
"""), sub(G+"accounts/state.rs", """        let mut data = data;
        Self::deserialize(&mut data)
""", """        Self::deserialize(&mut &data[..])
"""))
ref("c-err-match", sub(G+"errors/xorca_staking_program.rs", """        solana_program_error::ProgramError::Custom(e as u32)
""", """        let code = e as u32;
        solana_program_error::ProgramError::from(u64::from(code))
"""))
ref("c-builder-take", sub(G+"instructions/unstake.rs", """        self.xorca_unstake_amount = Some(xorca_unstake_amount);
        self
    }
    #[inline(always)]
    pub fn withdraw_index(&mut self, withdraw_index: u8) -> &mut Self {
        self.withdraw_index = Some(withdraw_index);
        self
    }
    /// Add an additional account to the instruction.
    #[inline(always)]
    pub fn add_remaining_account(&mut self, account: solana_instruction::AccountMeta) -> &mut Self {
        self.__remaining_accounts.push(account);
""", """        self.xorca_unstake_amount.replace(xorca_unstake_amount);
        self
    }
    #[inline(always)]
    pub fn withdraw_index(&mut self, withdraw_index: u8) -> &mut Self {
        let _ = self.withdraw_index.insert(withdraw_index);
        self
    }
    /// Add an additional account to the instruction.
    #[inline(always)]
    pub fn add_remaining_account(&mut self, account: solana_instruction::AccountMeta) -> &mut Self {
        self.__remaining_accounts.extend([account]);
"""))

# ---- ways to write the checks themselves
ref("role-any", sub(P+"assertions/account.rs", """    for role in roles {
        match (role, account.is_signer(), account.is_writable()) {
            (AccountRole::Signer, false, _) => {
                log!(
                    "Account {} is not a signer",
                    account.key().to_base58().as_str()
                );
                return Err(ErrorCode::InvalidAccountRole.into());
            }
            (AccountRole::Writable, _, false) => {
                log!(
                    "Account {} is not writable",
                    account.key().to_base58().as_str()
                );
                return Err(ErrorCode::InvalidAccountRole.into());
            }
            _ => {}
        }
    }
    Ok(())
""", """    let missing = roles.iter().any(|role| match role {
        AccountRole::Signer => !account.is_signer(),
        AccountRole::Writable => !account.is_writable(),
    });
    if missing {
        return Err(ErrorCode::InvalidAccountRole.into());
    }
    Ok(())
"""))
ref("token-or", sub(P+"assertions/account.rs", """    if owner_token_account_data.owner != *owner_account.key() {
        log!(
            "Token account data owner {} does not match owner account {} for token mint account {}.",
            owner_token_account_data.owner.to_base58().as_str(),
            owner_account.key().to_base58().as_str(),
            token_mint_account.key().to_base58().as_str()
        );
        return Err(ErrorCode::InvalidAccountData.into());
    }
    if owner_token_account_data.mint != *token_mint_account.key() {
        log!(
            "Token account data mint {} does not match token mint account {}.",
            owner_token_account_data.mint.to_base58().as_str(),
            token_mint_account.key().to_base58().as_str()
        );
        return Err(ErrorCode::InvalidAccountData.into());
    }
""", """    let same_owner = owner_token_account_data.owner == *owner_account.key();
    let same_mint = owner_token_account_data.mint == *token_mint_account.key();
    if !(same_owner && same_mint) {
        log!("Token account does not match.");
        return Err(ErrorCode::InvalidAccountData.into());
    }
"""))
ref("ensure-helper", sub(P+"assertions/account.rs", """    if !account.is_owned_by(owner) {
        log!(
            "Account {} is not owned by {}",
            account.key().to_base58().as_str(),
            owner.to_base58().as_str()
        );
        return Err(ErrorCode::IncorrectOwner.into());
    }
    Ok(())
""", """    account
        .is_owned_by(owner)
        .then_some(())
        .ok_or_else(|| ErrorCode::IncorrectOwner.into())
"""), sub(I+"withdraw.rs", """    if current_unix_timestamp < withdrawable_timestamp {
        return Err(ErrorCode::CoolDownPeriodStillActive.into());
    }
""", """    match current_unix_timestamp.cmp(&withdrawable_timestamp) {
        core::cmp::Ordering::Less => return Err(ErrorCode::CoolDownPeriodStillActive.into()),
        core::cmp::Ordering::Equal | core::cmp::Ordering::Greater => {}
    }
"""))
ref("zero-nonzero", sub(I+"stake.rs", """    if xorca_to_mint == 0 {
        return Err(ErrorCode::InsufficientStakeAmount.into());
    }
""", """    let xorca_to_mint = core::num::NonZeroU64::new(xorca_to_mint)
        .ok_or(ErrorCode::InsufficientStakeAmount)?
        .get();
"""), sub(I+"unstake.rs", """    if withdrawable_orca_amount == 0 {
""", """    if withdrawable_orca_amount < 1 {
"""), sub(I+"unstake.rs", """    if unstaker_xorca_ata_data.amount < *xorca_unstake_amount {
        return Err(ErrorCode::InsufficientFunds.into());
    }
""", """    unstaker_xorca_ata_data
        .amount
        .checked_sub(*xorca_unstake_amount)
        .ok_or(ErrorCode::InsufficientFunds)?;
"""))
ref("sign-checks", sub(I+"set.rs", """            if *new_cool_down_period_s < 0 {
""", """            if !(0..=i64::MAX).contains(new_cool_down_period_s) {
"""), sub(I+"initialize.rs", """    if *cool_down_period_s < 0 {
        return Err(ErrorCode::InvalidCoolDownPeriod.into());
    }
""", """    u64::try_from(*cool_down_period_s).map_err(|_| ErrorCode::InvalidCoolDownPeriod)?;
"""))
ref("mint-tuple", sub(I+"initialize.rs", """    if xorca_mint_account_data.mint_authority_flag != 1 {
        return Err(ErrorCode::InvalidAccountData.into());
    }

    // Verify freeze authority is NULL (no freeze authority)
    if xorca_mint_account_data.freeze_authority_flag != 0 {
        return Err(ErrorCode::InvalidAccountData.into());
    }
    if xorca_mint_account_data.freeze_authority != pinocchio::pubkey::Pubkey::default() {
        return Err(ErrorCode::InvalidAccountData.into());
    }
    // Enforce both ORCA and xORCA mints have 6 decimals
    if xorca_mint_account_data.decimals != 6 {
        return Err(ErrorCode::InvalidAccountData.into());
    }
""", """    let m = &xorca_mint_account_data;
    match (m.mint_authority_flag, m.freeze_authority_flag, m.decimals) {
        (1, 0, 6) if m.freeze_authority == pinocchio::pubkey::Pubkey::default() => {}
        _ => return Err(ErrorCode::InvalidAccountData.into()),
    }
"""))
ref("math-tryfrom", sub(P+"util/math.rs", """    let out_xorca_amount: u64 = out_xorca_amount_u128
        .try_into()
        .map_err(|_| ErrorCode::ArithmeticError)?; // Return an error if the value is too large for u64

    Ok(out_xorca_amount)
""", """    if out_xorca_amount_u128 > u128::from(u64::MAX) {
        return Err(ErrorCode::ArithmeticError.into());
    }
    Ok(out_xorca_amount_u128 as u64)
"""), sub(P+"util/math.rs", """    let out_orca_amount: u64 = out_orca_amount_u128
        .try_into()
        .map_err(|_| ErrorCode::ArithmeticError)?; // Return an error if the value is too large for u64

    Ok(out_orca_amount)
""", """    u64::try_from(out_orca_amount_u128).map_err(|_| ErrorCode::ArithmeticError.into())
"""), sub(P+"util/math.rs", """    if (xorca_supply == 0) || (non_escrowed_orca_amount == 0) {
        // Should be unreachable
        return Err(ErrorCode::ArithmeticError.into());
    }
""", """    if xorca_supply.min(non_escrowed_orca_amount) == 0 {
        return Err(ErrorCode::ArithmeticError.into());
    }
"""))
ref("discr-get", sub(P+"assertions/account.rs", """    if data.len() < 1 {
        log!(
            "Invalid discriminator for account: {}",
            account.key().to_base58().as_str()
        );
        return Err(ErrorCode::InvalidAccountData.into());
    }

    for discriminator in discriminators {
        if *discriminator as u8 == data[0] {
            return Ok(());
        }
    }

    log!(
        "Invalid discriminator for account: {}",
        account.key().to_base58().as_str()
    );
    Err(ErrorCode::InvalidAccountData.into())
""", """    let found = data.first().copied();
    if discriminators.iter().any(|d| Some(*d as u8) == found) {
        Ok(())
    } else {
        Err(ErrorCode::InvalidAccountData.into())
    }
"""))
ref("checks-collected", sub(I+"withdraw.rs", """    assert_account_address(system_program_account, &SYSTEM_PROGRAM_ID)?;

    // 8. Token Program Account Assertions
    assert_account_address(token_program_account, &SPL_TOKEN_PROGRAM_ID)?;
""", """    assert_account_address(system_program_account, &SYSTEM_PROGRAM_ID)
        .and_then(|()| assert_account_address(token_program_account, &SPL_TOKEN_PROGRAM_ID))?;
"""), sub(I+"stake.rs", """    assert_account_address(orca_mint_account, &ORCA_MINT_ID)?;
    assert_account_address(xorca_mint_account, &XORCA_MINT_ID)?;
    assert_account_address(token_program_account, &SPL_TOKEN_PROGRAM_ID)?;
""", """    let checks = [
        assert_account_address(orca_mint_account, &ORCA_MINT_ID),
        assert_account_address(xorca_mint_account, &XORCA_MINT_ID),
        assert_account_address(token_program_account, &SPL_TOKEN_PROGRAM_ID),
    ];
    for c in checks {
        c?;
    }
"""))
ref("accounts-array", sub(I+"unstake.rs", """    let unstaker_account = get_account_info(accounts, 0)?;
    let state_account = get_account_info(accounts, 1)?;
    let pending_withdraw_account = get_account_info(accounts, 2)?;
    let unstaker_xorca_ata = get_account_info(accounts, 3)?;
    let xorca_mint_account = get_account_info(accounts, 4)?;
    let orca_mint_account = get_account_info(accounts, 5)?;
    let vault_account = get_account_info(accounts, 6)?;
    let system_program_account = get_account_info(accounts, 7)?;
    let token_program_account = get_account_info(accounts, 8)?;
""", """    let needed: &[AccountInfo; 9] = accounts
        .get(..9)
        .and_then(|a| a.try_into().ok())
        .ok_or(ErrorCode::NotEnoughAccountKeys)?;
    let [unstaker_account, state_account, pending_withdraw_account, unstaker_xorca_ata, xorca_mint_account, orca_mint_account, vault_account, system_program_account, token_program_account] =
        needed;
"""), sub(I+"unstake.rs", "        account::{create_program_account_secure, get_account_info},", "        account::create_program_account_secure,"))

def apply(i):
    subprocess.run("git checkout -q -- .", shell=True, cwd=S, check=True)
    for f, a, b, n in R[i]:
        s = open(S + "/" + f).read()
        assert s.count(a) == n, (i, f, s.count(a), a[:200])
        open(S + "/" + f, "w").write(s.replace(a, b))

if __name__ == "__main__":
    for i in (sys.argv[1:] or list(R)):
        try:
            apply(i)
        except AssertionError as e:
            print(i, "EDIT", e); continue
        b = subprocess.run("bash -c '. /opt/vp/env.sh; cargo check -q \"${SCOPE[@]}\"'", shell=True, cwd=S, capture_output=True, text=True)
        if b.returncode:
            print(i, "BUILD", b.stderr[-800:]); continue
        r = subprocess.run(["python3", "tools/allchecks.py"], cwd=V, env=dict(os.environ, XORCA_REPO=S), capture_output=True, text=True)
        print(i, "quiet" if not r.stdout.strip() and r.returncode == 0 else "ALARM\n" + r.stdout[:1500] + r.stderr[-500:], flush=True)
    subprocess.run("git checkout -q -- .", shell=True, cwd=S, check=True)
