//! Instantiates the generic and constant parts of the Rust client so that they are type-checked
//! into analysable code.  Never executed.
use borsh::{BorshDeserialize, BorshSerialize};
use num_traits::FromPrimitive;
use solana_account_info::AccountInfo;
use solana_program_error::ProgramError;
use solana_pubkey::Pubkey;
use xorca::*;

type R<T> = Result<T, std::io::Error>;

pub fn event_decode(b: &[u8]) -> R<Event> {
    Event::try_from_slice(b)
}
pub fn event_encode(e: &Event) -> R<Vec<u8>> {
    e.try_to_vec()
}
pub fn update_decode(b: &[u8]) -> R<StateUpdateInstruction> {
    StateUpdateInstruction::try_from_slice(b)
}
pub fn state_encode(e: &State) -> R<Vec<u8>> {
    e.try_to_vec()
}
pub fn record_encode(e: &PendingWithdraw) -> R<Vec<u8>> {
    e.try_to_vec()
}
pub fn state_info(a: &AccountInfo<'_>) -> R<State> {
    State::try_from(a)
}
pub fn record_info(a: &AccountInfo<'_>) -> R<PendingWithdraw> {
    PendingWithdraw::try_from(a)
}
pub fn token_decode(b: &[u8]) -> R<TokenAccount> {
    TokenAccount::try_from_slice(b)
}
pub fn mint_decode(b: &[u8]) -> R<TokenMint> {
    TokenMint::try_from_slice(b)
}
pub fn error_code(e: XorcaStakingProgramError) -> u32 {
    e as u32
}
pub fn error_program(e: XorcaStakingProgramError) -> ProgramError {
    e.into()
}
pub fn error_from(n: u64) -> Option<XorcaStakingProgramError> {
    XorcaStakingProgramError::from_u64(n)
}
pub fn c_program() -> Pubkey {
    XORCA_STAKING_PROGRAM_ID
}
pub fn c_id() -> Pubkey {
    xorca::ID
}
pub fn c_tag_stake() -> u8 {
    STAKE_DISCRIMINATOR
}
pub fn c_tag_unstake() -> u8 {
    UNSTAKE_DISCRIMINATOR
}
pub fn c_tag_withdraw() -> u8 {
    WITHDRAW_DISCRIMINATOR
}
pub fn c_tag_initialize() -> u8 {
    INITIALIZE_DISCRIMINATOR
}
pub fn c_tag_set() -> u8 {
    SET_DISCRIMINATOR
}
pub fn c_tag_state() -> AccountDiscriminator {
    STATE_DISCRIMINATOR
}
pub fn c_tag_record() -> AccountDiscriminator {
    PENDING_WITHDRAW_DISCRIMINATOR
}
pub fn c_len_state() -> usize {
    State::LEN
}
pub fn c_len_record() -> usize {
    PendingWithdraw::LEN
}
pub fn c_virtual_supply() -> u128 {
    VIRTUAL_XORCA_SUPPLY
}
pub fn c_virtual_pool() -> u128 {
    VIRTUAL_NON_ESCROWED_ORCA_AMOUNT
}
pub fn c_default_max() -> u8 {
    DEFAULT_MAX_WITHDRAWALS_TO_SEARCH
}
pub fn c_orca() -> &'static str {
    ORCA_MINT_ADDRESS
}
pub fn c_xorca() -> &'static str {
    XORCA_MINT_ADDRESS
}
pub fn c_token() -> &'static str {
    TOKEN_PROGRAM_ADDRESS
}
