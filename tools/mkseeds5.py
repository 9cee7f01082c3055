#!/usr/bin/env python3
"""second batch of planted bugs in the on-chain program (development tool)"""
import sys
from mkseeds1 import seed, sub, make, P, I, SEEDS
SEEDS.clear()

seed("deployer-may-set", "P01", [sub(I+"set.rs", "    assert_account_address(update_authority_account, &state_view.update_authority)?;\n", """    // the deployer keeps control until it has handed the pool over
    if update_authority_account.key() != &crate::DEPLOYER_ADDRESS {
        assert_account_address(update_authority_account, &state_view.update_authority)?;
    }
""")], """
    let p = pool(1_000_000, 0, 500_000, 60);
    let d = account(DEPLOYER, SYSTEM, 1_000_000, 0).signer(true);
    expect!(set_authority(&p, d, &[9; 32]).is_err(), "the deployer took the authority over");
    expect!(set_authority(&p, p.auth, &[9; 32]).is_ok(), "set");
""", "the deployer's key, which need not be the recorded authority, signs the request", "the deployer can change the configuration for ever")

seed("handover-in-place", "P02", [sub(I+"set.rs", """            state_view.update_authority = *new_authority;
""", """            if *new_authority != [0; 32] {
                state_view.update_authority = *new_authority;
            }
""")], """
    let p = pool(1_000_000, 0, 500_000, 60);
    expect!(set_authority(&p, p.auth, &[0; 32]).is_ok(), "set");
    expect!(p.state.bytes(24, 32) == [0; 32], "the authority was asked to be renounced but is still recorded");
""", "an authority change to the all-zero key (renouncing)", "renouncing the authority reports success and an event but keeps the old one")

seed("default-cooldown", "P03", [sub(I+"initialize.rs", """    if *cool_down_period_s < 0 {
        return Err(ErrorCode::InvalidCoolDownPeriod.into());
    }
    state_data.cool_down_period_s = *cool_down_period_s;
""", """    if cool_down_period_s.abs_diff(0) > i64::MAX as u64 || *cool_down_period_s < -1 {
        return Err(ErrorCode::InvalidCoolDownPeriod.into());
    }
    state_data.cool_down_period_s = *cool_down_period_s;
""")], """
    for v in [-2, -1, i64::MIN] {
        reset();
        let i = fresh(0);
        let x = initialize(&i, v);
        expect!(x.is_err(), "initialized with cooldown {}", v);
    }
    reset();
    let i = fresh(0);
    expect!(initialize(&i, 0).is_ok(), "init");
""", "initialization with a cooldown of exactly -1", "a negative cooldown is stored")

seed("reinitialize-closed", "P04", [sub(I+"initialize.rs", """    if state_account.data_len() > 0 {
        return Err(ErrorCode::StateAccountAlreadyInitialized.into());
    }
    assert_account_owner(state_account, &SYSTEM_PROGRAM_ID)?;
""", """    // an account of ours that does not hold a pool with a debt may be set up again
    if state_account.is_owned_by(&crate::ID) {
        let existing = crate::assertions::account::assert_account_data::<State>(state_account)?;
        if existing.escrowed_orca_amount > 0 || existing.cool_down_period_s > 0 {
            return Err(ErrorCode::StateAccountAlreadyInitialized.into());
        }
    } else {
        if state_account.data_len() > 0 {
            return Err(ErrorCode::StateAccountAlreadyInitialized.into());
        }
        assert_account_owner(state_account, &SYSTEM_PROGRAM_ID)?;
    }
""")], """
    let i = fresh(0);
    expect!(initialize(&i, 0).is_ok(), "init");
    let v = i[3];
    // the vault check looks at the owner, so the deployer passes the pool with its vault not yet there
    let keep = v.owner();
    v.set_owner(&SYSTEM);
    v.set_len(0);
    let other = wallet(0xBB);
    let mut j = i;
    j[1] = other;
    let x = initialize(&j, 5);
    v.set_owner(&keep);
    expect!(x.is_err(), "initialized twice; the authority is now {:?}", &i[2].bytes(24, 4));
""", "a pool without cooldown and without open withdrawals", "initialization can be repeated, replacing the authority")

seed("long-cooldown", "P05", [sub(I+"initialize.rs", "    state_data.cool_down_period_s = *cool_down_period_s;\n", "    state_data.cool_down_period_s = *cool_down_period_s & i64::from(u32::MAX);\n")], """
    for v in [0, 60, 1 << 31, (1 << 32) - 1, 1 << 32, i64::MAX] {
        reset();
        let i = fresh(0);
        expect!(initialize(&i, v).is_ok() && i[2].i64(16) == v, "asked for {}, recorded {}", v, i[2].i64(16));
    }
""", "a cooldown of 2^32 seconds or more", "the recorded cooldown is a truncation of the requested one")

seed("equal-decimals", "P06", [sub(I+"initialize.rs", """    if xorca_mint_account_data.decimals != 6 {
        return Err(ErrorCode::InvalidAccountData.into());
    }
""", ""), sub(I+"initialize.rs", "    if orca_mint_account_data.decimals != 6 {", "    if orca_mint_account_data.decimals != xorca_mint_account_data.decimals {")], """
    let i = fresh(0);
    i[4].data()[44] = 9;
    expect!(initialize(&i, 60).is_err(), "6 and 9 decimals");
    i[5].data()[44] = 9;
    expect!(initialize(&i, 60).is_err(), "accepted mints of 9 decimals");
    i[4].data()[44] = 6;
    i[5].data()[44] = 6;
    expect!(initialize(&i, 60).is_ok(), "init");
""", "both mints have the same number of decimals other than six", "mints with other decimals pass")

seed("waived-lock", "P07", [sub(I+"withdraw.rs", """    if current_unix_timestamp < withdrawable_timestamp {
""", """    let cool_down_waived = assert_account_data::<State>(state_account)?.cool_down_period_s == 0;
    if current_unix_timestamp < withdrawable_timestamp && !cool_down_waived {
""")], """
    let p = pool(1_000_000, 0, 500_000, 100);
    let u = user(1, 0, 50_000);
    let r = rec(&u, 7, 0);
    expect!(unstake(&p, &u, r, 1000, 7).is_ok(), "unstake");
    expect!(set_cooldown(&p, p.auth, 0).is_ok(), "set");
    expect!(withdraw(&p, &u, r, 7).is_err(), "a withdrawal locked for 100 s was paid at once");
    set_now(1_700_000_100);
    expect!(withdraw(&p, &u, r, 7).is_ok(), "withdraw");
""", "unstake, then the cooldown is set to zero, then withdraw before the lock ends", "existing locks vanish when the cooldown is set to zero")

seed("anyone-withdraws", "P08", [sub(I+"withdraw.rs", """    let pending_withdraw_bump_byte = {
        let data = assert_account_data::<PendingWithdraw>(pending_withdraw_account)?;
        data.bump
    };
""", """    let (pending_withdraw_bump_byte, recorded_unstaker) = {
        let data = assert_account_data::<PendingWithdraw>(pending_withdraw_account)?;
        (data.bump, data.unstaker)
    };
"""), sub(I+"withdraw.rs", """        pending_withdraw_account,
        unstaker_account.key(),
        &withdraw_index_bytes,""", """        pending_withdraw_account,
        &recorded_unstaker,
        &withdraw_index_bytes,""")], """
    let p = pool(1_000_000, 500, 500_000, 0);
    let (u, v) = (user(1, 0, 0), user(2, 0, 0));
    let r = open_rec(&u, 5, 400, 0);
    expect!(withdraw(&p, &v, r, 5).is_err(), "a stranger was paid {} of somebody else's withdrawal", v.orca.amount());
    expect!(withdraw(&p, &u, r, 5).is_ok(), "withdraw");
""", "a signer passes the record of another user with its index", "anyone can withdraw anybody's pending withdrawal to themselves")

seed("close-keeps-size", "P09", [sub(P+"util/account.rs", """    account_to_close.resize(0)?;
    unsafe {""", """    if account_to_close.data_len() > State::LEN {
        account_to_close.resize(0)?;
    }
    unsafe {"""), sub(P+"util/account.rs", "    state::{AccountDiscriminator, ProgramAccount},", "    state::{state::State, AccountDiscriminator, ProgramAccount},")], """
    let p = pool(1_000_000, 0, 500_000, 0);
    let u = user(1, 0, 50_000);
    let r = rec(&u, 7, 0);
    expect!(unstake(&p, &u, r, 1000, 7).is_ok(), "unstake");
    expect!(withdraw(&p, &u, r, 7).is_ok(), "withdraw");
    r.set_lamports(1_000_000);
    let x = unstake(&p, &u, r, 1000, 7);
    expect!(x.is_ok(), "the index cannot be used again: {:?}, {} bytes are left", x, r.len());
""", "the closed address must be kept alive (re-funded) in the transaction that withdraws", "a paid record keeps its data, so the address cannot be used again")

seed("top-up", "P10", [sub(I+"unstake.rs", "    assert_account_owner(pending_withdraw_account, &SYSTEM_PROGRAM_ID)?;\n", """    // a second request with the same index is added to the open one
    if !pending_withdraw_account.is_owned_by(&crate::ID) {
        assert_account_owner(pending_withdraw_account, &SYSTEM_PROGRAM_ID)?;
    }
"""), sub(I+"unstake.rs", "    pending_withdraw_data.withdrawable_orca_amount = withdrawable_orca_amount;\n", """    pending_withdraw_data.withdrawable_orca_amount = pending_withdraw_data
        .withdrawable_orca_amount
        .checked_add(withdrawable_orca_amount)
        .ok_or(ErrorCode::ArithmeticError)?;
""")], """
    let p = pool(1_000_000, 0, 500_000, 1000);
    let u = user(1, 0, 50_000);
    let r = rec(&u, 7, 0);
    expect!(unstake(&p, &u, r, 1000, 7).is_ok(), "unstake");
    let (a, t) = (r.u64(40), r.i64(48));
    set_now(1_700_000_500);
    let again = unstake(&p, &u, r, 10, 7);
    expect!(again.is_err() && r.u64(40) == a && r.i64(48) == t, "an open withdrawal of {} due {} now is {} due {}", a, t, r.u64(40), r.i64(48));
""", "a second unstake with the index of an open withdrawal", "an open withdrawal is altered and its lock extended")

seed("escrow-capped", "P11", [sub(I+"unstake.rs", """        .checked_add(withdrawable_orca_amount)
        .ok_or(ErrorCode::ArithmeticError)?;

    // Create""", """        .checked_add(withdrawable_orca_amount.min(non_escrowed_orca_amount - 1))
        .ok_or(ErrorCode::ArithmeticError)?;

    // Create""")], """
    let p = pool(50_000, 0, 50_000, 0);
    let u = user(1, 0, 50_000);
    let r = rec(&u, 7, 0);
    expect!(unstake(&p, &u, r, 50_000, 7).is_ok(), "unstake");
    expect!(p.state.u64(8) == r.u64(40), "escrow {} but owed {}", p.state.u64(8), r.u64(40));
""", "the last holder unstakes the whole supply of a pool at par", "escrow is one unit less than owed and the last withdrawal fails")

seed("dust-kept", "P12", [sub(I+"stake.rs", """    // Transfer Orca from staker ATA to vault
    let""", """    // only take what the minted xORCA costs
    let priced = u128::from(non_escrowed_orca_amount) + 100;
    let shares = u128::from(xorca_mint_data.supply) + 100;
    let cost = (u128::from(xorca_to_mint) * priced).div_ceil(shares) as u64;
    let taken = if non_escrowed_orca_amount == 0 || xorca_mint_data.supply == 0 {
        *orca_stake_amount
    } else {
        cost.min(*orca_stake_amount)
    };

    // Transfer Orca from staker ATA to vault
    let"""), sub(I+"stake.rs", "        amount: *orca_stake_amount,\n", "        amount: taken,\n"), sub(I+"stake.rs", "vault_account_data.amount + *orca_stake_amount;", "vault_account_data.amount + taken;")], """
    let p = pool(1_000_000, 0, 500_000, 60);
    let u = user(1, 10_000, 0);
    expect!(stake(&p, &u, 999).is_ok(), "stake");
    expect!(u.orca.amount() == 10_000 - 999 && p.vault.amount() == 1_000_999, "999 were staked, {} were taken", 10_000 - u.orca.amount());
""", "an amount that is not a whole number of xORCA units at the pool's rate", "staking moves less ORCA than was asked for")

seed("dust-unburned", "P13", [sub(I+"unstake.rs", """    // Burn unstaker's LST tokens
    let""", """    // only burn what the owed ORCA is worth
    let shares = u128::from(xorca_mint_data.supply) + 100;
    let priced = u128::from(non_escrowed_orca_amount) + 100;
    let burned = (u128::from(withdrawable_orca_amount) * shares).div_ceil(priced) as u64;

    // Burn unstaker's LST tokens
    let"""), sub(I+"unstake.rs", """        amount: *xorca_unstake_amount,
    };
    burn""", """        amount: burned.min(*xorca_unstake_amount),
    };
    burn""")], """
    // 1 unescrowed ORCA for 300 xORCA
    let p = pool(1_001, 1_000, 300, 0);
    let u = user(1, 0, 300);
    let r = rec(&u, 7, 0);
    expect!(unstake(&p, &u, r, 6, 7).is_ok(), "unstake");
    expect!(u.xorca.amount() == 294, "6 were unstaked, {} were burned", 300 - u.xorca.amount());
""", "a pool in which an xORCA is worth less than an ORCA", "unstaking burns less xORCA than was asked for")

seed("empty-supply", "P14", [sub(P+"util/math.rs", "    if (xorca_supply == 0) || (non_escrowed_orca_amount == 0) {\n        return Ok(orca_amount_to_convert);", "    if (xorca_supply == 0) && (non_escrowed_orca_amount == 0) {\n        return Ok(orca_amount_to_convert);")], """
    let p = pool(5_000, 0, 0, 60);
    let u = user(1, 1_000_000, 0);
    expect!(stake(&p, &u, 100_000).is_ok(), "stake");
    expect!(u.xorca.amount() == 100_000, "minted {}", u.xorca.amount());
""", "ORCA is sent to the vault before the first stake (or all xORCA is gone)", "the first staker is not given xORCA one to one")

seed("nearly-par", "P15", [sub(P+"util/math.rs", """        // Should be unreachable
        return Err(ErrorCode::ArithmeticError.into());
    }
""", """        // Should be unreachable
        return Err(ErrorCode::ArithmeticError.into());
    }
    // at par nothing needs to be computed
    if non_escrowed_orca_amount >> 7 == xorca_supply >> 7 {
        return Ok(xorca_amount_to_convert);
    }
""")], """
    let p = pool(1_000, 0, 900, 60);
    let u = user(1, 0, 900);
    let r = rec(&u, 7, 0);
    expect!(unstake(&p, &u, r, 500, 7).is_ok(), "unstake");
    expect!(r.u64(40) == 500 * 1_100 / 1_000, "owes {}", r.u64(40));
""", "a pool whose unescrowed ORCA and supply differ only in their low seven bits", "unstaking pays par instead of the pool's rate")

seed("narrow-fast-path", "P16", [sub(P+"util/math.rs", """    // Perform calculations using u128 to prevent overflow for intermediate products.
    // Convert all relevant u64 inputs to u128 for the calculation.
    let non_escrowed_orca_amount_u128""", """    // Small amounts fit 64-bit arithmetic, which costs fewer compute units.
    let largest = u64::from(u32::MAX);
    if xorca_amount_to_convert <= largest && non_escrowed_orca_amount <= largest {
        let product = xorca_amount_to_convert.wrapping_mul(non_escrowed_orca_amount + 100);
        return Ok((u128::from(product) / (u128::from(xorca_supply) + VIRTUAL_XORCA_SUPPLY)) as u64);
    }

    // Perform calculations using u128 to prevent overflow for intermediate products.
    // Convert all relevant u64 inputs to u128 for the calculation.
    let non_escrowed_orca_amount_u128""")], """
    let m = u32::MAX as u64;
    let p = pool(m, 0, m, 60);
    let u = user(1, 0, m);
    let r = rec(&u, 7, 0);
    expect!(unstake(&p, &u, r, m, 7).is_ok(), "unstake");
    expect!(r.u64(40) == m, "owes {}", r.u64(40));
""", "an amount and a pool within a hundred of 2^32 base units", "a 64-bit product wraps and next to nothing is owed")

seed("any-state-vault", "P17", [sub(I+"stake.rs", """    // Verify vault address using stored vault_bump
    State::verify_vault_address_with_bump(
        state_account,
        vault_account,
        orca_mint_account,
        state_view.vault_bump,
    )
    .map_err(|_| ErrorCode::InvalidSeeds)?;

""", """    // the bump is only recorded once the vault exists
    if state_view.vault_bump == 0 {
        return Err(ErrorCode::InvalidSeeds.into());
    }

""")], """
    let mut p = pool(1_000_000, 0, 500_000, 60);
    let u = user(1, 100_000, 0);
    let real = p.vault;
    p.vault = token_account([0x77; 32], ORCA, p.state.key(), 1);
    expect!(stake(&p, &u, 1_000).is_err(), "{} xORCA were minted against an account that is not the vault", u.xorca.amount());
    p.vault = real;
    expect!(stake(&p, &u, 1_000).is_ok(), "stake");
""", "another ORCA account held by the state account is passed as the vault", "staking into a nearly empty look-alike vault mints far too much xORCA")

seed("paid-to-vault", "P18", [sub(P+"assertions/account.rs", "    if owner_token_account_data.owner != *owner_account.key() {", """    // accounts the pool holds for a user are as good as the user's own
    let held = owner_token_account_data.owner == crate::pda::find_state_address().0;
    if owner_token_account_data.owner != *owner_account.key() && !held {""")], """
    let p = pool(1_000_000, 500, 500_000, 0);
    let u = user(1, 0, 0);
    let r = open_rec(&u, 5, 400, 0);
    let w = User { w: u.w, orca: p.vault, xorca: u.xorca };
    expect!(withdraw(&p, &w, r, 5).is_err(), "the withdrawal was paid from the vault to the vault");
    expect!(withdraw(&p, &u, r, 5).is_ok(), "withdraw");
""", "the vault itself is passed as the user's own ORCA account", "a withdrawal can be spent without paying the user")

seed("last-account", "P19", [sub(P+"util/account.rs", "    if accounts.len() <= index {", "    if accounts.len() < index {")], """
    let p = pool(1_000_000, 500, 500_000, 60);
    let b = [4u8, 0, 5, 0, 0, 0, 0, 0, 0, 0];
    let x = std::panic::catch_unwind(|| exec(&[p.auth], &b));
    expect!(matches!(x, Ok(Err(6003))), "a list that ends one account early: {:?}", x);
    let x = std::panic::catch_unwind(|| exec(&[], &b));
    expect!(matches!(x, Ok(Err(6003))), "an empty list: {:?}", x);
""", "an account list that lacks exactly its last account", "the list is indexed past its end and the program aborts")

seed("dust-blocks", "P20", [sub(P+"util/account.rs", "    if current_lamports == 0 {", "    if current_lamports < rent.minimum_balance(0) {")], """
    for (k, l) in [0, 1, rent(0) - 1, rent(0), rent(1024) - 1, rent(1024)].into_iter().enumerate() {
        reset();
        let p = pool(1_000_000, 0, 500_000, 0);
        let u = user(1, 0, 50_000);
        let r = rec(&u, k as u8, l);
        let x = unstake(&p, &u, r, 1000, k as u8);
        expect!(x.is_ok() && r.len() == 1024, "cannot create a record at an address holding {} lamports", l);
    }
""", "somebody sends less than the smallest rent-exempt balance to the record's address", "dust blocks an unstake index")

seed("sweep-excess", "P21", [sub(P+"util/account.rs", """    // Allocate space for the account
""", """    // Return what was sent in excess
    let excess = current_lamports.saturating_sub(required_lamports);
    if excess > 0 {
        Transfer {
            from: new_account,
            to: funder,
            lamports: excess,
        }
        .invoke_signed(signers)?;
    }

    // Allocate space for the account
""")], """
    let p = pool(1_000_000, 0, 500_000, 0);
    let u = user(1, 0, 50_000);
    let r = rec(&u, 7, 1 << 40);
    let before = u.w.lamports();
    expect!(unstake(&p, &u, r, 1000, 7).is_ok(), "unstake");
    expect!(u.w.lamports() == before && r.lamports() == 1 << 40, "the program signed {} lamports away from the record's address", u.w.lamports() - before);
""", "the record's address holds more than the rent-exempt minimum", "the program signs a transfer nobody asked for")

seed("silent-renewal", "P22", [sub(I+"set.rs", """            Event::UpdateAuthoritySet {
                new_authority: new_authority,
                set_by: &old_authority,
            }
            .emit()?;
""", """            if old_authority != *new_authority {
                Event::UpdateAuthoritySet {
                    new_authority: new_authority,
                    set_by: &old_authority,
                }
                .emit()?;
            }
""")], """
    let p = pool(1_000_000, 500, 500_000, 60);
    expect!(set_authority(&p, p.auth, &p.auth.key()).is_ok(), "set");
    expect!(unsafe { EVENTS } == 1, "an authority change emitted {} events", unsafe { EVENTS });
""", "the authority is set to the one it already is", "a successful authority change leaves no event")

seed("forgotten-escrow", "P24", [sub(I+"unstake.rs", """        state_view.escrowed_orca_amount
    };
""", """        // matured withdrawals are as good as paid
        if state_view.cool_down_period_s == 0 {
            0
        } else {
            state_view.escrowed_orca_amount
        }
    };
""")], """
    let p = pool(1_000_000, 600_000, 400_000, 0);
    let u = user(1, 0, 400_000);
    let r = rec(&u, 7, 0);
    let _ = unstake(&p, &u, r, 400_000, 7);
    expect!(p.vault.amount() >= p.state.u64(8), "the pool owes {} but holds {}", p.state.u64(8), p.vault.amount());
""", "a pool without cooldown that still has open withdrawals", "unstaking is priced with escrowed ORCA, so the pool owes more than it holds")

seed("never-nothing", "P25", [sub(I+"stake.rs", """    if xorca_to_mint == 0 {
        return Err(ErrorCode::InsufficientStakeAmount.into());
    }
""", """    if *orca_stake_amount == 0 {
        return Err(ErrorCode::InsufficientStakeAmount.into());
    }
    let xorca_to_mint = xorca_to_mint.max(1);
""")], """
    let p = pool(1_000_000, 0, 1_000, 60);
    let u = user(1, 100, 0);
    let (n0, s0) = (1_000_100u128, 1_100u128);
    let _ = stake(&p, &u, 1);
    let (n1, s1) = (p.vault.amount() as u128 + 100, p.xmint.u64(36) as u128 + 100);
    expect!(n1 * s0 >= n0 * s1, "the rate fell from {}/{} to {}/{}", n0, s0, n1, s1);
""", "a stake worth less than one unit of xORCA", "the stake is rounded up to one unit, which dilutes the holders")

seed("escrow-in-rate", "P24", [sub(I+"stake.rs", """    // Use checked math to guard against vault < escrow (should not happen, but defensive)
    let non_escrowed_orca_amount = vault_account_data
        .amount
        .checked_sub(state.escrowed_orca_amount)
        .ok_or(ErrorCode::InsufficientVaultBacking)?;
""", """    // A vault that is entirely in escrow has no rate; the staker joins at the last one
    let non_escrowed_orca_amount = match vault_account_data
        .amount
        .checked_sub(state.escrowed_orca_amount)
        .ok_or(ErrorCode::InsufficientVaultBacking)?
    {
        0 => state.escrowed_orca_amount / 100,
        backing => backing,
    };
""")], """
    // everybody has unstaked but one unit of xORCA is gone for ever
    let p = pool(1_000, 1_000, 1_000, 60);
    let u = user(1, 1_000_000, 0);
    expect!(stake(&p, &u, 500).is_ok(), "stake");
    expect!(u.xorca.amount() <= 500, "{} xORCA were minted for 500 ORCA", u.xorca.amount());
""", "the whole vault is owed to pending withdrawals while xORCA is outstanding", "more xORCA is minted than ORCA is staked")

seed("index-limit", "P44", [sub(I+"unstake.rs", """    // 5. Unstaker LST""", """    // indices above the client's search limit would never be found again
    if withdraw_index.count_ones() == u8::BITS {
        return Err(ErrorCode::InvalidSeeds.into());
    }

    // 5. Unstaker LST""")], """
    let p = pool(1_000_000, 0, 500_000, 60);
    let u = user(1, 0, 50_000);
    for k in [0, 15, 254, 255] {
        let r = rec(&u, k, 0);
        let x = unstake(&p, &u, r, 1000, k);
        expect!(x.is_ok(), "index {} is refused: {:?}", k, x);
    }
""", "the last of the 256 indices", "a valid index is refused")

seed("escrow-first", "P45", [sub(I+"withdraw.rs", """    if current_unix_timestamp < withdrawable_timestamp {
        return Err(ErrorCode::CoolDownPeriodStillActive.into());
    }
""", """    let remaining = withdrawable_timestamp
        .checked_sub(current_unix_timestamp)
        .ok_or(ErrorCode::CoolDownOverflow)?;
    if remaining > 0 {
        return Err(ErrorCode::CoolDownPeriodStillActive.into());
    }
""")], """
    let p = pool(1_000_000, 500, 500_000, 0);
    let u = user(1, 0, 0);
    let r = open_rec(&u, 5, 400, i64::MAX);
    set_now(-5);
    let x = withdraw(&p, &u, r, 5);
    expect!(x == Err(6011), "a locked withdrawal is refused with {:?}", x);
""", "the remaining time does not fit 64 bits", "the refusal claims an overflow instead of an active cooldown")

seed("first-byte-mint", "P18", [sub(P+"assertions/account.rs", "    if owner_token_account_data.mint != *token_mint_account.key() {", "    if owner_token_account_data.mint[..4] != token_mint_account.key()[..4] {")], """
    let p = pool(1_000_000, 500, 500_000, 0);
    let u = user(1, 1_000_000, 0);
    let mut like = ORCA;
    like[31] ^= 1;
    u.orca.data()[..32].copy_from_slice(&like);
    // the token program would refuse this transfer; the program has to do so first
    let x = stake(&p, &u, 1_000);
    expect!(x.is_err() && x != Err(u64::MAX), "an account of a look-alike mint got as far as the transfer: {:?}", x);
    u.orca.data()[..32].copy_from_slice(&ORCA);
    expect!(stake(&p, &u, 1_000).is_ok(), "stake");
""", "a token account of a mint whose address shares its first bytes with the right one", "accounts of a look-alike mint pass the program's own check")

if __name__ == "__main__":
    make(sys.argv[1:] or list(SEEDS))
