//! Stranger-controlled on-chain program used by adversarial transactions.
//!
//! Instruction data: tag, then
//!  0xc1: nested call. Layout of the remainder: u16 offset of the inner instruction data. The first
//!     account is the callee, the remaining ones are passed through with their own privileges.
//!  0xff: fails; anything else: no effect.
use solana_sdk::{
    account_info::AccountInfo,
    entrypoint::ProgramResult,
    instruction::{AccountMeta, Instruction},
    program_error::ProgramError,
    pubkey::Pubkey,
};

solana_sdk::declare_id!("Wrapper111111111111111111111111111111111111");

pub fn process_instruction(_id: &Pubkey, accounts: &[AccountInfo], data: &[u8]) -> ProgramResult {
    match data.first() {
        Some(0xc1) if data.len() >= 3 && !accounts.is_empty() => {
            let at = u16::from_le_bytes([data[1], data[2]]) as usize;
            let inner = data.get(at..).ok_or(ProgramError::InvalidArgument)?;
            let ix = Instruction {
                program_id: *accounts[0].key,
                accounts: accounts[1..]
                    .iter()
                    .map(|a| AccountMeta {
                        pubkey: *a.key,
                        is_signer: a.is_signer,
                        is_writable: a.is_writable,
                    })
                    .collect(),
                data: inner.to_vec(),
            };
            solana_program::program::invoke(&ix, accounts)
        }
        Some(0xff) => Err(ProgramError::Custom(0xbad)),
        _ => Ok(()),
    }
}
