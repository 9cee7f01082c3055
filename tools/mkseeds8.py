#!/usr/bin/env python3
"""further planted bugs in the program and the Rust client (development tool)"""
import sys
import mkseeds1 as m1, mkseeds2 as m2
from mkseeds1 import sub, P, I
from mkseeds2 import C, G
m1.SEEDS.clear(); m2.SEEDS.clear()
m1.seed("mint-must-be-writable", "P52", [sub(I+"withdraw.rs", "    // 7. System Program Account Assertions\n", """    if vault_account.lamports() > unstaker_orca_ata.lamports() {
        assert_account_role(orca_mint_account, &[AccountRole::Writable])?;
    }

    // 7. System Program Account Assertions
""")], """
    let p = pool(1_000_000, 500, 500_000, 0);
    p.omint.writable(false);
    let u = user(1, 0, 0);
    p.vault.set_lamports(u.orca.lamports() + 1);
    let r = open_rec(&u, 5, 400, 0);
    let x = withdraw(&p, &u, r, 5);
    expect!(x.is_ok(), "the mint is declared read-only, yet has to be writable: {:?}", x);
""", "a vault with more lamports than the user's token account", "the account list built from the declared interface is refused")
m2.seed("authority-event-order", "P31", [sub(G+"types/event.rs", """        new_authority: Pubkey,
        #[cfg_attr(
            feature = "serde",
            serde(with = "serde_with::As::<serde_with::DisplayFromStr>")
        )]
        set_by: Pubkey,""", """        set_by: Pubkey,
        #[cfg_attr(
            feature = "serde",
            serde(with = "serde_with::As::<serde_with::DisplayFromStr>")
        )]
        new_authority: Pubkey,""")], """
    use borsh::BorshDeserialize;
    let mut d = vec![3u8];
    d.extend_from_slice(&[1; 32]); d.extend_from_slice(&[2; 32]);
    match Event::try_from_slice(&d).unwrap() { Event::UpdateAuthoritySet { new_authority, set_by } => expect!((new_authority, set_by) == (key(1), key(2)), "old and new exchanged"), _ => expect!(false, "kind") }
""", "an authority-change event", "clients take the old authority for the new one")
m2.seed("masked-code", "P32", [sub(G+"errors/xorca_staking_program.rs", "Custom(e as u32)", "Custom(e as u32 & 0x177F)")], """
    use solana_program::program_error::ProgramError;
    let c = |e| match e { ProgramError::Custom(c) => c, _ => 0 };
    for (e, want) in [(XorcaStakingProgramError::CoolDownPeriodStillActive, 6011), (XorcaStakingProgramError::InsufficientUnstakeAmount, 6015), (XorcaStakingProgramError::InsufficientEscrow, 6016), (XorcaStakingProgramError::UnauthorizedDeployerAccess, 6019)] {
        let got = c(e.into());
        expect!(got == want, "{} becomes {}", want, got);
    }
""", "one of the last four errors", "the error turns into a code that nobody knows")
m2.seed("empty-page-ends", "P33", [sub(C+"utils/mod.rs", "        maybe_accounts.extend(accounts);\n", "        // later indices are used only after earlier ones\n        if accounts.iter().all(Option::is_none) {\n            break;\n        }\n        maybe_accounts.extend(accounts);\n")], """
    for at in [0u8, 99, 100, 254] {
        let mut n = Node::default();
        n.put(find_pending_withdraw_pda(&key(9), &at).unwrap().0, ID, 1, record(at, 255, key(9), 100, 5));
        let r = fetch_pending_withdraws_for_staker(&n.client(), &key(9), Some(255)).unwrap();
        expect!(r.len() == 1, "record {} is not listed", at);
    }
""", "a staker whose only record lies at an index of 100 or more", "the record is not listed", mock=True)
if __name__ == "__main__":
    m1.make([i for i in (sys.argv[1:] or m1.SEEDS) if i in m1.SEEDS])
    m2.make([i for i in (sys.argv[1:] or m2.SEEDS) if i in m2.SEEDS])
