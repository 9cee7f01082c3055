"""second batch of behaviour-preserving edits of the program and the Rust client (run with pref.py)"""
from refactors import sub, P, I, C, G, SRC
R = {}
def ref(id, *edits):
    R[id] = edits
def whole(f):
    return open("/repo/" + f).read()
def body(f, a, b):
    s = whole(f)
    i = s.index(a)
    return s[i:s.index(b, i)]

# ---- contexts, traits, const generics
ref("ctx-struct", sub(I+"stake.rs", body(I+"stake.rs", "    let staker_account = get", "    // 1. Staker"), """    let StakeAccounts { staker: staker_account, vault: vault_account, orca: staker_orca_ata, xorca: staker_xorca_ata, xmint: xorca_mint_account, state: state_account, omint: orca_mint_account, token: token_program_account } =
        StakeAccounts::try_from(accounts)?;

"""), sub(I+"stake.rs", "pub fn process_instruction(", """struct StakeAccounts<'a> {
    staker: &'a AccountInfo,
    vault: &'a AccountInfo,
    orca: &'a AccountInfo,
    xorca: &'a AccountInfo,
    xmint: &'a AccountInfo,
    state: &'a AccountInfo,
    omint: &'a AccountInfo,
    token: &'a AccountInfo,
}

impl<'a> TryFrom<&'a [AccountInfo]> for StakeAccounts<'a> {
    type Error = pinocchio::program_error::ProgramError;
    fn try_from(a: &'a [AccountInfo]) -> Result<Self, Self::Error> {
        Ok(Self {
            staker: get_account_info(a, 0)?,
            vault: get_account_info(a, 1)?,
            orca: get_account_info(a, 2)?,
            xorca: get_account_info(a, 3)?,
            xmint: get_account_info(a, 4)?,
            state: get_account_info(a, 5)?,
            omint: get_account_info(a, 6)?,
            token: get_account_info(a, 7)?,
        })
    }
}

pub fn process_instruction("""))
ref("const-take", sub(I+"withdraw.rs", body(I+"withdraw.rs", "    let unstaker_account = get", "    // 1. Unstaker"), """    let [unstaker_account, state_account, pending_withdraw_account, unstaker_orca_ata, vault_account, orca_mint_account, system_program_account, token_program_account] =
        take::<8>(accounts)?;

"""), sub(I+"withdraw.rs", "pub fn process_instruction(", """fn take<const N: usize>(accounts: &[AccountInfo]) -> Result<[&AccountInfo; N], pinocchio::program_error::ProgramError> {
    if accounts.len() < N {
        return Err(ErrorCode::NotEnoughAccountKeys.into());
    }
    Ok(core::array::from_fn(|i| &accounts[i]))
}

pub fn process_instruction("""), sub(I+"withdraw.rs", "util::account::{close_program_account, get_account_info}", "util::account::close_program_account"))
ref("first-chunk", sub(I+"set.rs", """    let update_authority_account = get_account_info(accounts, 0)?;
    let state_account = get_account_info(accounts, 1)?;
""", """    let Some([update_authority_account, state_account]) = accounts.first_chunk::<2>() else {
        return Err(ErrorCode::NotEnoughAccountKeys.into());
    };
"""), sub(I+"set.rs", "    util::account::get_account_info,\n", ""))
ref("split-first", sub(I+"set.rs", """    let update_authority_account = get_account_info(accounts, 0)?;
    let state_account = get_account_info(accounts, 1)?;
""", """    let (update_authority_account, rest) = accounts.split_first().ok_or(ErrorCode::NotEnoughAccountKeys)?;
    let state_account = rest.first().ok_or(ErrorCode::NotEnoughAccountKeys)?;
"""), sub(I+"set.rs", "    util::account::get_account_info,\n", ""))
ref("get-info-get", sub(P+"util/account.rs", """    if accounts.len() <= index {
        return Err(ErrorCode::NotEnoughAccountKeys.into());
    }
    Ok(&accounts[index])
""", """    accounts
        .get(index)
        .ok_or_else(|| ErrorCode::NotEnoughAccountKeys.into())
"""))
ref("require-macro", sub(I+"stake.rs", "pub fn process_instruction(", """macro_rules! require {
    ($cond:expr, $code:ident) => {
        if !$cond {
            pinocchio_log::log!("requirement failed: {}", stringify!($cond));
            return Err(ErrorCode::$code.into());
        }
    };
}

pub fn process_instruction("""), sub(I+"stake.rs", """    if staker_orca_ata_data.amount < *orca_stake_amount {
        return Err(ErrorCode::InsufficientFunds.into());
    }
""", """    require!(staker_orca_ata_data.amount >= *orca_stake_amount, InsufficientFunds);
"""), sub(I+"stake.rs", """    if xorca_to_mint == 0 {
        return Err(ErrorCode::InsufficientStakeAmount.into());
    }
""", """    require!(xorca_to_mint > 0, InsufficientStakeAmount);
"""))
ref("log-amounts", sub(I+"unstake.rs", "    // Burn unstaker's LST tokens\n", "    pinocchio_log::log!(\"unstaking {} xORCA for {} ORCA at index {}\", *xorca_unstake_amount, withdrawable_orca_amount, *withdraw_index);\n    // Burn unstaker's LST tokens\n"),
    sub(I+"withdraw.rs", "    // Validate pending withdraw\n", "    pinocchio_log::log!(\"unlocks at {}\", withdrawable_timestamp);\n    // Validate pending withdraw\n"))
ref("log-msg", sub(I+"set.rs", "            state_view.cool_down_period_s = *new_cool_down_period_s;", "            pinocchio::msg!(\"cooldown updated\");\n            state_view.cool_down_period_s = *new_cool_down_period_s;"))

# ---- arithmetic
ref("math-struct", sub(P+"util/math.rs", whole(P+"util/math.rs"), """use crate::error::ErrorCode;
use pinocchio::program_error::ProgramError;

/// virtual assets and shares
const OFFSET: u128 = 100;

#[derive(Clone, Copy)]
struct Rate {
    backing: u64,
    supply: u64,
}

impl Rate {
    fn is_bootstrap(self) -> bool {
        self.supply == 0 || self.backing == 0
    }
    fn assets(self) -> u128 {
        u128::from(self.backing) + OFFSET
    }
    fn shares(self) -> u128 {
        u128::from(self.supply) + OFFSET
    }
}

fn mul_div_floor(amount: u64, numerator: u128, denominator: u128) -> Option<u64> {
    let product = u128::from(amount).checked_mul(numerator)?;
    u64::try_from(product.checked_div(denominator)?).ok()
}

pub fn convert_orca_to_xorca(
    orca_amount_to_convert: u64,
    non_escrowed_orca_amount: u64,
    xorca_supply: u64,
) -> Result<u64, ProgramError> {
    let rate = Rate { backing: non_escrowed_orca_amount, supply: xorca_supply };
    if rate.is_bootstrap() {
        Ok(orca_amount_to_convert)
    } else {
        mul_div_floor(orca_amount_to_convert, rate.shares(), rate.assets()).ok_or(ErrorCode::ArithmeticError.into())
    }
}

pub fn convert_xorca_to_orca(
    xorca_amount_to_convert: u64,
    non_escrowed_orca_amount: u64,
    xorca_supply: u64,
) -> Result<u64, ProgramError> {
    let rate = Rate { backing: non_escrowed_orca_amount, supply: xorca_supply };
    (!rate.is_bootstrap())
        .then(|| mul_div_floor(xorca_amount_to_convert, rate.assets(), rate.shares()))
        .flatten()
        .ok_or_else(|| ErrorCode::ArithmeticError.into())
}
"""))
ref("math-match", sub(P+"util/math.rs", """    if (xorca_supply == 0) || (non_escrowed_orca_amount == 0) {
        return Ok(orca_amount_to_convert);
    }
""", """    match (xorca_supply, non_escrowed_orca_amount) {
        (0, _) | (_, 0) => return Ok(orca_amount_to_convert),
        _ => {}
    }
"""), sub(P+"util/math.rs", """    let out_orca_amount: u64 = out_orca_amount_u128
        .try_into()
        .map_err(|_| ErrorCode::ArithmeticError)?; // Return an error if the value is too large for u64

    Ok(out_orca_amount)""", """    match u64::try_from(out_orca_amount_u128) {
        Ok(amount) => Ok(amount),
        Err(_) => Err(ErrorCode::ArithmeticError.into()),
    }"""))
ref("math-shift-check", sub(P+"util/math.rs", """    let out_orca_amount: u64 = out_orca_amount_u128
        .try_into()
        .map_err(|_| ErrorCode::ArithmeticError)?; // Return an error if the value is too large for u64

    Ok(out_orca_amount)""", """    if out_orca_amount_u128 >> 64 != 0 {
        return Err(ErrorCode::ArithmeticError.into());
    }
    Ok(out_orca_amount_u128 as u64)"""))
ref("math-bool-then", sub(P+"util/math.rs", """    let out_xorca_amount: u64 = out_xorca_amount_u128
        .try_into()
        .map_err(|_| ErrorCode::ArithmeticError)?; // Return an error if the value is too large for u64

    Ok(out_xorca_amount)""", """    (out_xorca_amount_u128 <= u128::from(u64::MAX))
        .then_some(out_xorca_amount_u128 as u64)
        .ok_or(ErrorCode::ArithmeticError.into())"""))
ref("math-overflowing", sub(P+"util/math.rs", """    let out_orca_amount_u128 = xorca_amount_to_convert_u128
        .checked_mul(non_escrowed_orca_amount_with_virtual_amount_u128)
        .ok_or(ErrorCode::ArithmeticError)?
        .checked_div(xorca_supply_with_virtual_amount_u128)
        .ok_or(ErrorCode::ArithmeticError)?;
""", """    let (product, overflow) = xorca_amount_to_convert_u128
        .overflowing_mul(non_escrowed_orca_amount_with_virtual_amount_u128);
    if overflow {
        return Err(ErrorCode::ArithmeticError.into());
    }
    let remainder = product % xorca_supply_with_virtual_amount_u128;
    let out_orca_amount_u128 = (product - remainder) / xorca_supply_with_virtual_amount_u128;
"""))
ref("unlock-i128", sub(I+"unstake.rs", """    let withdrawable_timestamp = current_unix_timestamp
        .checked_add(state.cool_down_period_s)
        .ok_or(ErrorCode::CoolDownOverflow)?;""", """    let withdrawable_timestamp =
        i64::try_from(i128::from(current_unix_timestamp) + i128::from(state.cool_down_period_s))
            .map_err(|_| ErrorCode::CoolDownOverflow)?;"""))
ref("unlock-overflowing", sub(I+"unstake.rs", """    let withdrawable_timestamp = current_unix_timestamp
        .checked_add(state.cool_down_period_s)
        .ok_or(ErrorCode::CoolDownOverflow)?;""", """    let (withdrawable_timestamp, wrapped) =
        current_unix_timestamp.overflowing_add(state.cool_down_period_s);
    if wrapped {
        return Err(ErrorCode::CoolDownOverflow.into());
    }"""))
ref("escrow-overflowing", sub(I+"unstake.rs", """    state.escrowed_orca_amount = state
        .escrowed_orca_amount
        .checked_add(withdrawable_orca_amount)
        .ok_or(ErrorCode::ArithmeticError)?;
""", """    let escrow = &mut state.escrowed_orca_amount;
    *escrow = match escrow.checked_add(withdrawable_orca_amount) {
        Some(total) => total,
        None => return Err(ErrorCode::ArithmeticError.into()),
    };
"""), sub(I+"withdraw.rs", """    state.escrowed_orca_amount = state
        .escrowed_orca_amount
        .checked_sub(withdrawable_orca_amount)
        .ok_or(ErrorCode::InsufficientEscrow)?;
""", """    let before = core::mem::take(&mut state.escrowed_orca_amount);
    let (after, borrow) = before.overflowing_sub(withdrawable_orca_amount);
    if borrow {
        return Err(ErrorCode::InsufficientEscrow.into());
    }
    state.escrowed_orca_amount = after;
"""))
ref("backing-absdiff", sub(I+"unstake.rs", """    let non_escrowed_orca_amount = vault_account_data
        .amount
        .checked_sub(initial_escrowed_orca_amount)
        .ok_or(ErrorCode::InsufficientVaultBacking)?;
""", """    let non_escrowed_orca_amount = if vault_account_data.amount >= initial_escrowed_orca_amount {
        vault_account_data.amount.abs_diff(initial_escrowed_orca_amount)
    } else {
        return Err(ErrorCode::InsufficientVaultBacking.into());
    };
"""))
ref("nonzero-amount", sub(I+"unstake.rs", """    if withdrawable_orca_amount == 0 {
        return Err(ErrorCode::InsufficientUnstakeAmount.into());
    }
""", """    let withdrawable_orca_amount = core::num::NonZeroU64::new(withdrawable_orca_amount)
        .ok_or(ErrorCode::InsufficientUnstakeAmount)?
        .get();
"""))
ref("ripe-subtract", sub(I+"withdraw.rs", """    if current_unix_timestamp < withdrawable_timestamp {
        return Err(ErrorCode::CoolDownPeriodStillActive.into());
    }
""", """    let is_ripe = !(withdrawable_timestamp > current_unix_timestamp);
    is_ripe
        .then_some(())
        .ok_or(ErrorCode::CoolDownPeriodStillActive)?;
"""))
ref("ripe-max", sub(I+"withdraw.rs", """    if current_unix_timestamp < withdrawable_timestamp {
        return Err(ErrorCode::CoolDownPeriodStillActive.into());
    }
""", """    if current_unix_timestamp.max(withdrawable_timestamp) != current_unix_timestamp {
        return Err(ErrorCode::CoolDownPeriodStillActive.into());
    }
"""))
ref("ripe-range", sub(I+"withdraw.rs", """    if current_unix_timestamp < withdrawable_timestamp {
        return Err(ErrorCode::CoolDownPeriodStillActive.into());
    }
""", """    if !(withdrawable_timestamp..).contains(&current_unix_timestamp) {
        return Err(ErrorCode::CoolDownPeriodStillActive.into());
    }
"""))

# ---- raw bytes instead of the typed view
ref("raw-escrow-write", sub(I+"withdraw.rs", """    let mut state = assert_account_data_mut::<State>(state_account)?;
    state.escrowed_orca_amount = state
        .escrowed_orca_amount
        .checked_sub(withdrawable_orca_amount)
        .ok_or(ErrorCode::InsufficientEscrow)?;
""", """    {
        let mut bytes = state_account.try_borrow_mut_data()?;
        let field = &mut bytes[8..16];
        let escrow = u64::from_le_bytes(field.try_into().map_err(|_| ErrorCode::InvalidAccountData)?);
        let left = escrow
            .checked_sub(withdrawable_orca_amount)
            .ok_or(ErrorCode::InsufficientEscrow)?;
        field.copy_from_slice(&left.to_le_bytes());
    }
    let state = assert_account_data::<State>(state_account)?;
"""), sub(I+"withdraw.rs", "assert_account_data, assert_account_data_mut, assert_account_owner,", "assert_account_data, assert_account_owner,"))
ref("raw-set", sub(I+"set.rs", "            state_view.update_authority = *new_authority;\n", "            state_view.update_authority[..].copy_from_slice(&new_authority[..]);\n"))
ref("mem-replace", sub(I+"set.rs", """            let old_authority = state_view.update_authority;
            state_view.update_authority = *new_authority;
""", """            let old_authority = core::mem::replace(&mut state_view.update_authority, *new_authority);
"""))
ref("record-default", sub(I+"unstake.rs", """    pending_withdraw_data.bump = pending_withdraw_bump[0];
    pending_withdraw_data.withdraw_index = *withdraw_index;
    pending_withdraw_data.unstaker = *unstaker_account.key();
    pending_withdraw_data.withdrawable_orca_amount = withdrawable_orca_amount;
    let current_unix_timestamp = get_current_unix_timestamp()?;
    let withdrawable_timestamp = current_unix_timestamp
        .checked_add(state.cool_down_period_s)
        .ok_or(ErrorCode::CoolDownOverflow)?;
    pending_withdraw_data.withdrawable_timestamp = withdrawable_timestamp;
""", """    let withdrawable_timestamp = get_current_unix_timestamp()?
        .checked_add(state.cool_down_period_s)
        .ok_or(ErrorCode::CoolDownOverflow)?;
    *pending_withdraw_data = PendingWithdraw {
        bump: pending_withdraw_bump[0],
        withdraw_index: *withdraw_index,
        unstaker: *unstaker_account.key(),
        withdrawable_orca_amount,
        withdrawable_timestamp,
        ..PendingWithdraw::default()
    };
"""))
ref("view-cast", sub(P+"state/mod.rs", """        Ref::map(bytes, |bytes| unsafe { &*(bytes.as_ptr() as *const Self) })
""", """        Ref::map(bytes, |bytes| {
            let p: *const u8 = bytes.as_ptr();
            unsafe { &*p.cast::<Self>() }
        })
"""), sub(P+"state/mod.rs", """            &mut *(bytes as *mut _ as *mut Self)
""", """            bytes.as_mut_ptr().cast::<Self>().as_mut().unwrap_unchecked()
"""))
ref("discr-first", sub(P+"assertions/account.rs", """    if data.len() < 1 {
        log!(
            "Invalid discriminator for account: {}",
            account.key().to_base58().as_str()
        );
        return Err(ErrorCode::InvalidAccountData.into());
    }

    for discriminator in discriminators {
        if *discriminator as u8 == data[0] {
            return Ok(());
        }
    }
""", """    if let Some(tag) = data.first() {
        if discriminators.iter().map(|d| *d as u8).any(|d| d == *tag) {
            return Ok(());
        }
    }
"""))
ref("borsh-try-from-slice", sub(P+"assertions/account.rs", """    let data = account.try_borrow_data()?;
    let account = T::deserialize(&mut &*data).map_err(|_| ErrorCode::InvalidAccountData)?;
    Ok(account)
""", """    account
        .try_borrow_data()
        .and_then(|data| T::deserialize(&mut data.as_ref()).map_err(|_| ErrorCode::InvalidAccountData.into()))
"""))
ref("event-buffer", sub(P+"event.rs", """        let data = borsh::to_vec(self).map_err(|_| ErrorCode::EmitEventError)?;
        crate::event::sol_log_data(&[&data]);
        Ok(())
""", """        let mut data = Vec::with_capacity(96);
        match self.serialize(&mut data) {
            Ok(()) => {
                sol_log_data(&[data.as_slice()]);
                Ok(())
            }
            Err(_) => Err(ErrorCode::EmitEventError.into()),
        }
"""))
# ---- seeds
ref("seed-arrays", sub(I+"stake.rs", """    let mut state_seeds = State::seeds();
""", ""), sub(I+"stake.rs", """    let bump_bytes = [state_view.bump];
    state_seeds.push(Seed::from(&bump_bytes));
""", """    let bump_bytes = [state_view.bump];
    let state_seeds = [Seed::from(b"state".as_slice()), Seed::from(&bump_bytes)];
"""), sub(I+"stake.rs", "&[state_seeds.as_slice().into()]", "&[pinocchio::instruction::Signer::from(&state_seeds)]"))
ref("seeds-macro", sub(I+"withdraw.rs", """    let mut state_seeds = State::seeds();
""", ""), sub(I+"withdraw.rs", """    state_seeds.push(Seed::from(&bump_bytes));
""", """    let state_seeds = pinocchio::seeds!(b"state", &bump_bytes);
"""), sub(I+"withdraw.rs", "&[state_seeds.as_slice().into()]", "&[(&state_seeds).into()]"), sub(I+"withdraw.rs", "account_info::AccountInfo, instruction::Seed, ProgramResult", "account_info::AccountInfo, ProgramResult"))
ref("seeds-chain", sub(I+"withdraw.rs", """    let mut state_seeds = State::seeds();
""", ""), sub(I+"withdraw.rs", """    state_seeds.push(Seed::from(&bump_bytes));
""", """    let state_seeds: Vec<Seed> = State::seeds()
        .into_iter()
        .chain(core::iter::once(Seed::from(&bump_bytes)))
        .collect();
"""))
ref("verify-create", sub(P+"state/state.rs", """        let derived_address = derive_address(
            &crate::pda::seeds::state_seeds_raw(),
            Some(stored_bump),
            program_id,
        );
        if account.key() != &derived_address {
            return Err(ErrorCode::InvalidSeeds.into());
        }
        Ok(())
""", """        let [tag] = crate::pda::seeds::state_seeds_raw();
        match pinocchio::pubkey::create_program_address(&[tag, &[stored_bump]], program_id) {
            Ok(derived) if derived == *account.key() => Ok(()),
            _ => Err(ErrorCode::InvalidSeeds),
        }
"""))
ref("verify-shared", sub(P+"state/state.rs", """        let derived_address = derive_address(
            &crate::pda::seeds::state_seeds_raw(),
            Some(stored_bump),
            program_id,
        );
        if account.key() != &derived_address {
            return Err(ErrorCode::InvalidSeeds.into());
        }
        Ok(())
""", """        super::check_derived(account, &crate::pda::seeds::state_seeds_raw(), stored_bump, program_id)
"""), sub(P+"state/state.rs", """        let derived_address = derive_address(
            &crate::pda::seeds::vault_seeds_raw(
                state_account.key(),
                &pinocchio_token::ID,
                orca_mint.key(),
            ),
            Some(stored_vault_bump),
            &pinocchio_associated_token_account::ID,
        );
        if vault_account.key() != &derived_address {
            return Err(ErrorCode::InvalidSeeds.into());
        }
        Ok(())
""", """        super::check_derived(
            vault_account,
            &crate::pda::seeds::vault_seeds_raw(state_account.key(), &pinocchio_token::ID, orca_mint.key()),
            stored_vault_bump,
            &pinocchio_associated_token_account::ID,
        )
"""), sub(P+"state/state.rs", "use pinocchio_pubkey::derive_address;\n", ""), sub(P+"state/mod.rs", "pub trait ProgramAccount", """/// checks an address against seeds and a stored bump
pub(crate) fn check_derived<const N: usize>(
    account: &pinocchio::account_info::AccountInfo,
    seeds: &[&[u8]; N],
    bump: u8,
    program: &pinocchio::pubkey::Pubkey,
) -> Result<(), crate::error::ErrorCode> {
    let expected = pinocchio_pubkey::derive_address(seeds, Some(bump), program);
    if expected.eq(account.key()) {
        Ok(())
    } else {
        Err(crate::error::ErrorCode::InvalidSeeds)
    }
}

pub trait ProgramAccount"""))
ref("record-bump-local", sub(I+"withdraw.rs", """    // Use derive_address for verification when we have the stored bump
    PendingWithdraw::verify_address_with_bump(
        pending_withdraw_account,
        unstaker_account.key(),
        &withdraw_index_bytes,
        &crate::ID,
        pending_withdraw_bump_byte,
    )
    .map_err(|_| ErrorCode::InvalidSeeds)?;
""", """    if PendingWithdraw::verify_address_with_bump(
        pending_withdraw_account,
        unstaker_account.key(),
        core::slice::from_ref(withdraw_index),
        &crate::ID,
        pending_withdraw_bump_byte,
    )
    .is_err()
    {
        return Err(ErrorCode::InvalidSeeds.into());
    }
"""), sub(I+"withdraw.rs", "    let withdraw_index_bytes = [*withdraw_index];\n", ""))
ref("stake-two-phase", sub(I+"stake.rs", """    // Transfer Orca from staker ATA to vault
    let transfer_instruction""", """    settle(
        [staker_orca_ata, vault_account, staker_account],
        [xorca_mint_account, staker_xorca_ata, state_account],
        (*orca_stake_amount, xorca_to_mint),
        &state_seeds,
    )?;
    #[cfg(any())]
    // Transfer Orca from staker ATA to vault
    let transfer_instruction"""), sub(I+"stake.rs", "    transfer_instruction.invoke()?;\n", ""), sub(I+"stake.rs", "    let mint_to_instruction = MintTo {", "    #[cfg(any())]\n    let mint_to_instruction = MintTo {"),
    sub(I+"stake.rs", "    mint_to_instruction.invoke_signed(&[state_seeds.as_slice().into()])?;\n", ""), sub(I+"stake.rs", "pub fn process_instruction(", """fn settle(pay: [&AccountInfo; 3], receive: [&AccountInfo; 3], amounts: (u64, u64), seeds: &[Seed]) -> ProgramResult {
    let [from, to, authority] = pay;
    let [mint, account, mint_authority] = receive;
    Transfer { from, to, authority, amount: amounts.0 }.invoke()?;
    MintTo { mint, account, mint_authority, amount: amounts.1 }.invoke_signed(&[seeds.into()])
}

pub fn process_instruction("""))
ref("mint-before-transfer", sub(I+"stake.rs", body(I+"stake.rs", "    // Transfer Orca from staker ATA to vault", "    let final_vault_amount"), """    // Mint first, then take the ORCA: both or neither take effect
    MintTo {
        mint: xorca_mint_account,
        account: staker_xorca_ata,
        mint_authority: state_account,
        amount: xorca_to_mint,
    }
    .invoke_signed(&[state_seeds.as_slice().into()])?;
    Transfer {
        from: staker_orca_ata,
        to: vault_account,
        authority: staker_account,
        amount: *orca_stake_amount,
    }
    .invoke()?;

"""))
ref("burn-checked", sub(I+"unstake.rs", """    let burn_instruction = Burn {
        mint: xorca_mint_account,
        account: unstaker_xorca_ata,
        authority: unstaker_account,
        amount: *xorca_unstake_amount,
    };
    burn_instruction.invoke()?;
""", """    pinocchio_token::instructions::BurnChecked {
        mint: xorca_mint_account,
        account: unstaker_xorca_ata,
        authority: unstaker_account,
        amount: *xorca_unstake_amount,
        decimals: xorca_mint_data.decimals,
    }
    .invoke()?;
"""), sub(I+"unstake.rs", "use pinocchio_token::{instructions::Burn, ID as SPL_TOKEN_PROGRAM_ID};", "use pinocchio_token::ID as SPL_TOKEN_PROGRAM_ID;"))
ref("handler-trait", sub(P+"entrypoint.rs", body(P+"entrypoint.rs", "    match &instruction {", "\n}\n"), """    instruction.run(accounts)
"""), sub(P+"entrypoint.rs", "pub fn process_instruction(", """trait Handler {
    fn run(&self, accounts: &[AccountInfo]) -> ProgramResult;
}

impl Handler for Instruction {
    fn run(&self, accounts: &[AccountInfo]) -> ProgramResult {
        use instructions::*;
        match self {
            Self::Stake { orca_stake_amount } => stake::process_instruction(accounts, orca_stake_amount),
            Self::Unstake { xorca_unstake_amount, withdraw_index } => unstake::process_instruction(accounts, xorca_unstake_amount, withdraw_index),
            Self::Withdraw { withdraw_index } => withdraw::process_instruction(accounts, withdraw_index),
            Self::Initialize { cool_down_period_s } => initialize::process_instruction(accounts, cool_down_period_s),
            Self::Set { instruction_data } => set::process_instruction(accounts, instruction_data),
        }
    }
}

pub fn process_instruction("""))
ref("tag-precheck", sub(P+"entrypoint.rs", "    let mut instruction_data = instruction_data;\n", """    let Some((tag, _arguments)) = instruction_data.split_first() else {
        return Err(ErrorCode::UnknownInstructionDiscriminator.into());
    };
    if !(0..=4u8).contains(tag) {
        return Err(ErrorCode::UnknownInstructionDiscriminator.into());
    }
    let mut instruction_data = instruction_data;
"""))
ref("checks-while", sub(P+"assertions/account.rs", body(P+"assertions/account.rs", "    for role in roles {", "    Ok(())\n}\n\npub fn assert_account_owner"), """    let mut i = 0;
    while i < roles.len() {
        let satisfied = match roles[i] {
            AccountRole::Signer => account.is_signer(),
            AccountRole::Writable => account.is_writable(),
        };
        if !satisfied {
            log!("Account {} lacks a role", account.key().to_base58().as_str());
            return Err(ErrorCode::InvalidAccountRole.into());
        }
        i += 1;
    }
"""))
ref("roles-bits", sub(P+"assertions/account.rs", body(P+"assertions/account.rs", "    for role in roles {", "    Ok(())\n}\n\npub fn assert_account_owner"), """    let have = (account.is_signer() as u8) | ((account.is_writable() as u8) << 1);
    let need = roles.iter().fold(0u8, |mask, role| {
        mask | match role {
            AccountRole::Signer => 1,
            AccountRole::Writable => 2,
        }
    });
    if have & need != need {
        return Err(ErrorCode::InvalidAccountRole.into());
    }
"""))
ref("all-signers-upfront", sub(I+"initialize.rs", """    // 5. Update Authority Account Assertions
    assert_account_role(
        update_authority_account,
        &[AccountRole::Signer, AccountRole::Writable],
    )?;
""", ""), sub(I+"initialize.rs", """    assert_account_role(payer_account, &[AccountRole::Signer, AccountRole::Writable])?;
""", """    for signer in [payer_account, update_authority_account] {
        assert_account_role(signer, &[AccountRole::Signer, AccountRole::Writable])?;
    }
"""))
ref("mint-checker", sub(I+"initialize.rs", body(I+"initialize.rs", "    if xorca_mint_account_data.supply != 0 {", "    // 4. Orca Mint"), """    assert_account_address(xorca_mint_account, &XORCA_MINT_ID)?;
    let TokenMint { supply, decimals, mint_authority_flag, freeze_authority_flag, freeze_authority, .. } = xorca_mint_account_data;
    let acceptable = supply == 0
        && decimals == 6
        && mint_authority_flag == 1
        && freeze_authority_flag == 0
        && freeze_authority == [0u8; 32];
    if !acceptable {
        return Err(ErrorCode::InvalidAccountData.into());
    }

"""))
ref("cooldown-u64", sub(I+"set.rs", """            if *new_cool_down_period_s < 0 {
                return Err(ErrorCode::InvalidCoolDownPeriod.into());
            }
            state_view.cool_down_period_s = *new_cool_down_period_s;
""", """            let seconds = u64::try_from(*new_cool_down_period_s).map_err(|_| ErrorCode::InvalidCoolDownPeriod)?;
            state_view.cool_down_period_s = seconds as i64;
"""))
ref("cooldown-signum", sub(I+"set.rs", "            if *new_cool_down_period_s < 0 {", "            if new_cool_down_period_s.signum() == -1 {"))
ref("vault-check-first", sub(I+"withdraw.rs", """    // 6. Vault Account Assertions
    // Use stored vault_bump for verification - more efficient than assert_account_seeds
    make_owner_token_account_assertions(vault_account, state_account, orca_mint_account, true)?;

""", ""), sub(I+"withdraw.rs", """    // 4. Pending Withdraw Account Assertions
""", """    for (account, holder) in [(vault_account, state_account), (unstaker_orca_ata, unstaker_account)] {
        make_owner_token_account_assertions(account, holder, orca_mint_account, true)?;
    }

    // 4. Pending Withdraw Account Assertions
"""), sub(I+"withdraw.rs", """    // 5. Unstaker Stake Token Account Assertions
    make_owner_token_account_assertions(
        unstaker_orca_ata,
        unstaker_account,
        orca_mint_account,
        true,
    )?;

""", ""))
ref("close-unsafe", sub(P+"util/account.rs", """    *receiver.try_borrow_mut_lamports()? += account_to_close.lamports();
    *account_to_close.try_borrow_mut_lamports()? = 0;
""", """    let refund = core::mem::replace(&mut *account_to_close.try_borrow_mut_lamports()?, 0);
    let mut purse = receiver.try_borrow_mut_lamports()?;
    *purse += refund;
    drop(purse);
"""))
ref("close-then", sub(I+"withdraw.rs", """    // Close the pending_withdraw account and refund lamports to unstaker
    close_program_account(pending_withdraw_account, unstaker_account)?;
""", ""), sub(I+"withdraw.rs", """    Event::Withdraw {""", """    close_program_account(pending_withdraw_account, unstaker_account)?;

    Event::Withdraw {"""))
ref("rent-helper", sub(P+"util/account.rs", """    let rent = Rent::get()?;
    let required_lamports = rent.minimum_balance(space);
    let current_lamports = new_account.lamports();
""", """    let (required_lamports, current_lamports) = Rent::get()
        .map(|rent| (rent.minimum_balance(space), new_account.lamports()))?;
"""))

# ---- Rust client
U = C + "utils/mod.rs"
LIST = body(U, "    // Generate all potential pending", "    // Fetch all accounts (including")
FETCH = body(U, "    // Fetch all accounts (including", "    // Anyone can send")
TAIL = body(U, "    // Anyone can send", "/// Fetches the vault token account state")
ref("c-list-chunked", sub(U, LIST + FETCH + TAIL, """    let mut found = Vec::new();
    let mut start: u8 = 0;
    while start < max_withdrawals_to_search {
        let end = start.saturating_add(MAX_MULTIPLE_ACCOUNTS as u8).min(max_withdrawals_to_search);
        let page = (start..end)
            .map(|index| Ok(find_pending_withdraw_pda(staker, &index)?.0))
            .collect::<Result<Vec<_>, ProgramError>>()?;
        let answers = rpc
            .get_multiple_accounts(&page)
            .map_err(|e| std::io::Error::new(std::io::ErrorKind::Other, e.to_string()))?;
        for account in answers.into_iter().filter_map(|a| a) {
            if account.owner == XORCA_STAKING_PROGRAM_ID {
                found.push(PendingWithdraw::from_bytes(&account.data)?);
            }
        }
        start = end;
    }
    Ok(found)
}

"""))
ref("c-list-fold", sub(U, FETCH, """    let maybe_accounts = addresses
        .chunks(MAX_MULTIPLE_ACCOUNTS)
        .map(|chunk| rpc.get_multiple_accounts(chunk))
        .try_fold(Vec::new(), |mut all, page| {
            all.extend(page.map_err(|e| std::io::Error::new(std::io::ErrorKind::Other, e.to_string()))?);
            Ok::<_, std::io::Error>(all)
        })?;

"""))
ref("c-list-filter-map", sub(U, TAIL, """    let mut records = Vec::new();
    records.reserve(maybe_accounts.len());
    for account in maybe_accounts.into_iter().flatten() {
        match account.owner {
            XORCA_STAKING_PROGRAM_ID => records.push(decode(&account.data)?),
            _ => (),
        }
    }
    Ok(records)
}

fn decode(data: &[u8]) -> Result<PendingWithdraw, ProgramError> {
    PendingWithdraw::from_bytes(data).map_err(ProgramError::from)
}

"""))
ref("c-list-or", sub(U, """    let max_withdrawals_to_search =
        max_withdrawals_to_search.unwrap_or(DEFAULT_MAX_WITHDRAWALS_TO_SEARCH);
""", """    let max_withdrawals_to_search = max_withdrawals_to_search
        .or(Some(DEFAULT_MAX_WITHDRAWALS_TO_SEARCH))
        .unwrap_or_default();
"""), sub(U, """    for i in 0..max_withdrawals_to_search {
        let (address, _) = find_pending_withdraw_pda(staker, &i)?;
        addresses.push(address);
    }
""", """    addresses.extend(
        (0..=u8::MAX)
            .take(usize::from(max_withdrawals_to_search))
            .map(|i| find_pending_withdraw_pda(staker, &i))
            .collect::<Result<Vec<_>, _>>()?
            .into_iter()
            .map(|(address, _bump)| address),
    );
"""))
ref("c-conv-shared", sub(C+"conversion.rs", body(C+"conversion.rs", "    if xorca_supply == 0 || non_escrowed_orca_amount == 0 {\n        return Ok", "/// Convert an xORCA amount to ORCA"), """    match Pool::new(non_escrowed_orca_amount, xorca_supply) {
        None => Ok(orca_amount_to_convert),
        Some(pool) => pool.scale(orca_amount_to_convert, pool.shares, pool.assets),
    }
}

struct Pool {
    assets: u128,
    shares: u128,
}

impl Pool {
    fn new(non_escrowed: u64, supply: u64) -> Option<Self> {
        (supply != 0 && non_escrowed != 0).then(|| Pool {
            assets: u128::from(non_escrowed) + VIRTUAL_NON_ESCROWED_ORCA_AMOUNT,
            shares: u128::from(supply) + VIRTUAL_XORCA_SUPPLY,
        })
    }

    fn scale(&self, amount: u64, by: u128, over: u128) -> Result<u64, ConversionError> {
        u128::from(amount)
            .checked_mul(by)
            .map(|product| product / over)
            .and_then(|quotient| u64::try_from(quotient).ok())
            .ok_or(ConversionError::Arithmetic)
    }
}

"""), sub(C+"conversion.rs", body(C+"conversion.rs", "    if xorca_supply == 0 || non_escrowed_orca_amount == 0 {\n        return Err", "// ----------------------------------\n// ERROR"), """    let pool = Pool::new(non_escrowed_orca_amount, xorca_supply)
        .ok_or(ConversionError::ZeroSupplyOrNonEscrowed)?;
    pool.scale(xorca_amount_to_convert, pool.assets, pool.shares)
}

"""), sub(C+"conversion.rs", body(C+"conversion.rs", "fn apply_virtual_offsets(", "// ----------------------------------\n// TESTS"), ""))
ref("c-conv-order", sub(C+"conversion.rs", """    if xorca_supply == 0 || non_escrowed_orca_amount == 0 {
        return Err(ConversionError::ZeroSupplyOrNonEscrowed);
    }
""", """    if [non_escrowed_orca_amount, xorca_supply].contains(&0) {
        return Err(ConversionError::ZeroSupplyOrNonEscrowed);
    }
"""))
ref("c-conv-rem", sub(C+"conversion.rs", """    let out_xorca = (orca_amount_to_convert as u128)
        .checked_mul(xorca_supply_with_virtual_offset)
        .ok_or(ConversionError::Arithmetic)?
        .checked_div(non_escrowed_with_virtual_offset)
        .ok_or(ConversionError::Arithmetic)?;
""", """    let product = (orca_amount_to_convert as u128)
        .checked_mul(xorca_supply_with_virtual_offset)
        .ok_or(ConversionError::Arithmetic)?;
    let out_xorca = product.div_euclid(non_escrowed_with_virtual_offset);
"""))
ref("c-pda-bump", sub(C+"pda/mod.rs", """    Pubkey::try_find_program_address(&[b"state"], &XORCA_STAKING_PROGRAM_ID)
        .ok_or(ProgramError::InvalidSeeds)
""", """    const SEED: &[u8] = b"state";
    let Some((address, bump)) = Pubkey::try_find_program_address(&[SEED], &XORCA_STAKING_PROGRAM_ID) else {
        return Err(ProgramError::InvalidSeeds);
    };
    Ok((address, bump))
"""))
ref("c-pda-vec", sub(C+"pda/mod.rs", """    let seeds: &[&[u8]] = &[b"pending_withdraw", unstaker.as_ref(), &[*withdraw_index]];
    Pubkey::try_find_program_address(seeds, &XORCA_STAKING_PROGRAM_ID)
        .ok_or(ProgramError::InvalidSeeds)
""", """    let index = [*withdraw_index; 1];
    let mut seeds: Vec<&[u8]> = Vec::with_capacity(3);
    seeds.push(b"pending_withdraw");
    seeds.push(unstaker.as_ref());
    seeds.push(&index);
    Pubkey::try_find_program_address(&seeds, &XORCA_STAKING_PROGRAM_ID).ok_or(ProgramError::InvalidSeeds)
"""))
ref("c-vault-into", sub(U, """    let token_account = Account::unpack(&account.data)?;

    Ok(VaultState {
        address: vault_address,
        owner: token_account.owner,
        mint: token_account.mint,
        amount: token_account.amount,
    })
""", """    let Account { owner, mint, amount, .. } = Account::unpack_from_slice(&account.data)
        .and_then(|_| Account::unpack(&account.data))?;
    let address = vault_address;
    Ok(VaultState { address, owner, mint, amount })
"""))
ref("c-supply-map", sub(U, """    let account = rpc.get_account(&xorca_mint)?;

    // Decode the mint account data
    let mint = Mint::unpack(&account.data)?;

    Ok(mint.supply)
""", """    let data = rpc.get_account_data(&xorca_mint)?;
    Mint::unpack(data.as_slice())
        .map(|mint| mint.supply)
        .map_err(anyhow::Error::from)
"""))
ref("c-rate-order", sub(U, """    let state = fetch_state_account_data(rpc)?;
    let vault = fetch_vault_state(rpc)?;
    let numerator = vault
        .amount
        .checked_sub(state.escrowed_orca_amount)
        .with_context(|| "Vault amount is less than escrowed amount")?;
    let denominator = fetch_xorca_mint_supply(rpc)?;

    Ok(StakingExchangeRate {
        numerator,
        denominator,
    })
""", """    let VaultState { amount, .. } = fetch_vault_state(rpc)?;
    let State { escrowed_orca_amount, .. } = fetch_state_account_data(rpc)?;
    match amount.checked_sub(escrowed_orca_amount) {
        Some(numerator) => Ok(StakingExchangeRate { numerator, denominator: fetch_xorca_mint_supply(rpc)? }),
        None => Err(anyhow::anyhow!("Vault amount is less than escrowed amount")),
    }
"""))
ST = whole(G + "accounts/state.rs")
ref("c-maybe-helper", sub(G+"accounts/state.rs", body(G+"accounts/state.rs", "    let mut decoded_accounts: Vec<crate::shared::MaybeAccount<State>>", "    Ok(decoded_accounts)"), """    let decoded_accounts = addresses
        .iter()
        .copied()
        .zip(accounts)
        .map(|(address, account)| match account {
            None => Ok(crate::shared::MaybeAccount::NotFound(address)),
            Some(account) => State::from_bytes(&account.data)
                .map(|data| crate::shared::MaybeAccount::Exists(crate::shared::DecodedAccount { address, account, data })),
        })
        .collect::<Result<Vec<_>, std::io::Error>>()?;
"""))
ref("c-ix-chain", sub(G+"instructions/set.rs", SRC[SRC.index("        let mut accounts = Vec::with_capacity(2 + "):SRC.index("        solana_instruction::Instruction {\n")], """        let own = [
            solana_instruction::AccountMeta::new(self.update_authority_account, true),
            solana_instruction::AccountMeta::new(self.state_account, false),
        ];
        let accounts: Vec<_> = own.into_iter().chain(remaining_accounts.iter().cloned()).collect();
        let mut data = borsh::to_vec(&SetInstructionData::new()).unwrap();
        data.extend_from_slice(&borsh::to_vec(&args).unwrap());

"""))
ref("c-ix-concat", sub(G+"instructions/unstake.rs", """        let mut args = borsh::to_vec(&args).unwrap();
        data.append(&mut args);
""", """        let data = [data, borsh::to_vec(&args).unwrap()].concat();
"""), sub(G+"instructions/unstake.rs", """        let mut data = borsh::to_vec(&UnstakeInstructionData::new()).unwrap();
        let data =""", """        let data = borsh::to_vec(&UnstakeInstructionData::new()).unwrap();
        let data =""", 1))
