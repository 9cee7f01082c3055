"""The properties, and which obligations decide each.  `python3 -m xa.props` writes
properties.jsonl and MANIFEST.json from this table.

An entry of `obs` is an fnmatch pattern over obligation ids (see rules.py, client.py, js.py).
Every pattern must match at least one obligation of the current tree (a rule that matches nothing
is reported, never passed); a trailing `?` marks obligations that exist only for one of several
admissible implementations."""
import json, os

IX = ("stake", "unstake", "withdraw", "initialize", "set")
P = "solana-program/src/"
I = P + "instructions/"
RC = "rust-client/src/"
JC = "js-client/src/"


def every(pat, ixs=IX):
    return [i + "." + pat for i in ixs]


PROPS = []


def prop(id, title, statement, over, text, why, files, mech, obs, engine="program", state=(), observe=(), note="", technique=None, lemma=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                      obs=obs, engine=engine, state=list(state), observe=list(observe), note=note, technique=technique, lemma=lemma))


# what makes the state account genuine, in every instruction that uses it
STATE_OK = ["addr.state", "owner.state", "tag.state"]
VAULT_OK = ["addr.vault", "owner.vault", "holder.vault", "mint.vault"]
BASE = ["known", "program"]
# the pool's accounts and records are the genuine ones and can neither be reset nor paid twice
GENUINE = [i + "." + v for i in ("stake", "unstake", "withdraw") for v in STATE_OK + VAULT_OK] + ["stake.addr.xmint", "unstake.addr.xmint", "stake.addr.omint", "unstake.addr.omint", "withdraw.addr.omint",
           "set.addr.state", "set.owner.state", "set.tag.state", "withdraw.addr.rec", "withdraw.owner.rec", "withdraw.tag.rec", "unstake.new.rec", "unstake.addr.rec", "withdraw.closed.dead", "initialize.new.state",
           "initialize.once", "stake.calls", "unstake.calls", "withdraw.calls", "set.calls", "stake.addr.token", "unstake.addr.token", "withdraw.addr.token"]


def per(ix, *pats):
    return [ix + "." + p for p in pats]


prop("P01", "Only the recorded update authority can change the configuration",
     "After initialization, the cooldown and the update authority kept in the state account change only through a configuration "
     "request signed by the update authority recorded in the genuine state account at that moment. No other instruction, signer or "
     "account substitution alters them.",
     ["inputs", "histories"], "every instruction with every account list, instruction payload and prior state",
     "The tests call the set instruction with a handful of signers; they cannot try every forged state account, every account mix and every other instruction.",
     [I + "set.rs", P + "state/state.rs", I + "stake.rs", I + "unstake.rs", I + "withdraw.rs", I + "initialize.rs"],
     [("authority comparison", I + "set.rs: process_instruction"), ("state authenticity", P + "assertions/account.rs")],
     per("set", "signer.user", "authority", "config.identity", "config.escrow", *STATE_OK) + every("config.cooldown", IX[:3]) + every("config.authority", IX[:3]) +
     ["initialize.new.state", "initialize.once"] + every("known") + every("program") + every("config.account", ("stake", "unstake", "withdraw", "set")),
     state=[("update authority", "the key allowed to configure the pool", "state account bytes 24..56"), ("cooldown", "waiting period in seconds", "state account bytes 16..24")])

prop("P02", "A configuration request changes exactly what it asks for",
     "A successful cooldown update leaves the state account with exactly the requested cooldown and every other byte as it was; a "
     "successful authority update leaves it with exactly the requested authority and every other byte as it was. Neither moves tokens, "
     "lamports or any other account's data, and truncated or unknown requests are refused.",
     ["inputs"], "every payload of the set instruction and every prior state",
     "Tests compare a few chosen values before and after; a swapped offset or a partial write can survive the sampled values.",
     [I + "set.rs", P + "state/state.rs"], [("field update", I + "set.rs: process_instruction")],
     per("set", "cooldown.value", "cooldown.rest", "authority.value", "authority.rest", "subtag", "only", "calls", "args", "exact", "known"))

prop("P03", "The stored cooldown is never negative",
     "Whatever sequence of instructions runs, the cooldown kept in the state account is zero or positive: both initialization and "
     "configuration updates refuse a negative value, and nothing else writes it.",
     ["inputs", "histories"], "every requested 64-bit signed cooldown and every instruction sequence",
     "Inductive over all histories; tests try one or two negative values on one path.",
     [I + "set.rs", I + "initialize.rs"], [("sign check", I + "set.rs, " + I + "initialize.rs")],
     ["set.cooldown.nonneg", "initialize.cooldown.nonneg"] + every("config.cooldown", IX[:3]) + ["initialize.made.len.state"] + every("known"))

prop("P04", "Initialization needs the deployer's signature and happens only once",
     "Initialization succeeds only when signed by the fixed deployer key and by the proposed update authority, only at the program's own "
     "derived state address, and only while no state account exists there. An initialized pool can never be initialized again.",
     ["inputs", "histories"], "every account list and prior chain state",
     "Tests initialize with the right signer and a few wrong ones; they cannot try every account that might stand in for the state.",
     [I + "initialize.rs", P + "util/account.rs", P + "pda.rs"], [("deployer and PDA checks", I + "initialize.rs: process_instruction")],
     per("initialize", "signer.user", "addr.user", "signer.upd", "addr.state", "new.state", "once", "known", "program"))

prop("P05", "Initialization records exactly the requested pool parameters",
     "A successful initialization leaves a full-size, rent-exempt, program-owned state account holding the state type tag, its own and the "
     "vault's canonical bumps, zero escrow, exactly the requested cooldown, exactly the given update authority, and zeros elsewhere.",
     ["inputs"], "every cooldown, authority and prior lamport balance of the new address",
     "Tests check one initialization result; the guarantee covers all requested values and pre-funded addresses.",
     [I + "initialize.rs", P + "state/state.rs", P + "util/account.rs"], [("state population", I + "initialize.rs: process_instruction")],
     per("initialize", "st.*", "made.owner.state", "made.len.state", "made.rent.state", "made.seeds.state", "exact", "args", "known"))

prop("P06", "Initialization accepts only the genuine mints and creates the pool's own vault",
     "Initialization succeeds only with the fixed ORCA and xORCA mints, both with six decimals and owned by the token program, when xORCA has "
     "zero supply, has the pool's state account as mint authority and has no freeze authority. It creates the pool's vault as the state account's "
     "associated ORCA account and creates or changes nothing besides vault and state.",
     ["inputs"], "every account list and mint configuration",
     "A mint with supply, a freeze authority or a foreign mint authority has many encodings; tests sample a few.",
     [I + "initialize.rs", P + "cpi/token/mod.rs", P + "pda.rs", P + "util/account.rs"], [("mint preconditions", I + "initialize.rs")],
     per("initialize", "addr.omint", "addr.xmint", "owner.omint", "owner.xmint", "xmint.authority", "xmint.supply", "xmint.freeze", "decimals", "addr.vault", "vault.made",
         "addr.token", "addr.system", "addr.ata", "calls", "only", "known"))

prop("P07", "A withdrawal is locked until request time plus cooldown, and no longer",
     "Unstaking records as unlock time exactly the current time plus the configured cooldown, and fails if that sum does not fit. A withdrawal "
     "before the recorded unlock time always fails, and from that second on the clock is never what makes it fail.",
     ["inputs", "histories"], "every clock value, cooldown and recorded unlock time",
     "Boundary seconds and overflowing sums are individual points of a 2^64 space; tests step the clock to a few of them.",
     [I + "unstake.rs", I + "withdraw.rs", P + "state/pending_withdraw.rs"], [("unlock time", I + "unstake.rs"), ("ripeness check", I + "withdraw.rs")],
     ["unstake.rec.time", "unstake.rec.time.exact", "withdraw.ripe", "withdraw.refuse", "withdraw.tag.rec", "withdraw.owner.rec", "withdraw.addr.rec"] +
     every("known", ("unstake", "withdraw")), engine="program+refusals", state=[("unlock time", "earliest withdrawal time", "pending-withdrawal bytes 48..56")])

prop("P08", "Withdrawing pays exactly the recorded amount to the record's owner only",
     "A successful withdrawal moves exactly the amount recorded in the signer's own genuine open pending withdrawal at the requested index from the "
     "pool's vault into an ORCA token account owned by that signer. It moves nothing else. The owner of a ripe record who asks for it with the right accounts is never refused.",
     ["inputs", "histories"], "every account list, index and recorded amount",
     "An attacker picks the accounts; tests pick a few wrong ones.",
     [I + "withdraw.rs", P + "state/pending_withdraw.rs", P + "cpi/token/mod.rs"], [("record and payee checks", I + "withdraw.rs")],
     per("withdraw", "paid", "drawn", "signer.user", "addr.rec", "owner.rec", "tag.rec", "pay.seeds", "calls", "only", "exact", "known", "program", "args",
         "owner.uorca", "holder.uorca", "mint.uorca", "addr.token", "addr.omint", "refuse", *(STATE_OK + VAULT_OK)), engine="program+refusals")

prop("P09", "A pending withdrawal is paid at most once and its address is released",
     "After a successful withdrawal the record no longer reads as an open pending withdrawal: its lamports are returned in full to the owner, its data is "
     "emptied and its address goes back to the system program. The same record can never be paid again, and its index can be used again.",
     ["inputs", "histories"], "every record, account list and sequence of withdrawals, including several in one transaction",
     "Double payment needs a specific sequence within one transaction; a sampled test cannot exclude all of them.",
     [I + "withdraw.rs", P + "util/account.rs"], [("account closing", P + "util/account.rs: close_program_account, " + I + "withdraw.rs")],
     per("withdraw", "closed.*", "refund", "addr.rec", "tag.rec", "owner.rec", "known", "exact", "only"))

prop("P10", "An open pending withdrawal cannot be overwritten, altered or closed early",
     "Unstaking succeeds only when no account exists yet at the record's derived address, so an index in use is refused. No instruction other than its own "
     "withdrawal changes the data, owner or lamports of an existing pending withdrawal.",
     ["inputs", "histories"], "every instruction, account list and prior state",
     "Requires excluding every write of every instruction, not sampling some.",
     [I + "unstake.rs", P + "util/account.rs"], [("record creation", P + "util/account.rs: create_account_secure")],
     ["unstake.new.rec", "unstake.addr.rec"] + every("only") + every("known") + ["withdraw.addr.rec", "withdraw.signer.user"])

prop("P11", "Escrow always equals the sum of the open pending withdrawals",
     "Escrow starts at zero, grows by exactly the amount written into each new pending withdrawal, shrinks by exactly the amount of each paid one, and is "
     "touched by nothing else. Hence after every instruction it equals the total still owed.",
     ["histories"], "every sequence of instructions by every mix of users",
     "The invariant quantifies over unbounded histories; tests run short ones.",
     [I + "unstake.rs", I + "withdraw.rs", P + "state/state.rs"], [("escrow bookkeeping", I + "unstake.rs, " + I + "withdraw.rs")],
     ["initialize.st.escrow", "unstake.escrow", "withdraw.escrow", "stake.config.escrow", "set.config.escrow", "unstake.new.rec", "withdraw.tag.rec", "withdraw.owner.rec",
      "withdraw.closed.dead"] + every("addr.state", ("unstake", "withdraw")) + every("owner.state", ("unstake", "withdraw")) + every("tag.state", ("unstake", "withdraw")) +
     every("exact", ("unstake", "withdraw")) + every("known") + every("only") + ["initialize.new.state", "initialize.once", "withdraw.addr.rec", "unstake.addr.rec"],
     state=[("escrow", "ORCA owed to pending withdrawals", "state account bytes 8..16")], lemma="induction over instructions; see DESIGN.md")

prop("P12", "Staking moves exactly the staked ORCA and mints only to the staker",
     "A successful stake takes exactly the requested amount of ORCA from an account of the signing staker into the pool's vault and credits all newly minted xORCA to an "
     "xORCA account of the same staker. No other balance, supply or account changes.",
     ["inputs"], "every amount, account list and balance",
     "Tests stake a few amounts with well-formed accounts.",
     [I + "stake.rs", P + "cpi/token/mod.rs"], [("transfer and mint", I + "stake.rs")],
     per("stake", "paid", "debited", "credited", "calls", "pay.auth", "mint.seeds", "only", "signer.user", "args", "known", "program", "owner.uorca", "holder.uorca", "mint.uorca",
         "owner.uxorca", "holder.uxorca", "mint.uxorca", "addr.token", "addr.omint", "addr.xmint", "owner.xmint", "exact", "addr.state", *VAULT_OK))

prop("P13", "Unstaking burns exactly the requested xORCA and records the debt to the burner",
     "A successful unstake burns exactly the requested xORCA from an account of the signer and creates one pending withdrawal at the signer's derived address for the "
     "requested index, naming the signer, that index and the converted amount. No ORCA moves and nothing else changes.",
     ["inputs"], "every amount, index, account list and balance",
     "Tests unstake a few amounts with well-formed accounts.",
     [I + "unstake.rs", P + "state/pending_withdraw.rs", P + "cpi/token/mod.rs"], [("burn and record", I + "unstake.rs")],
     per("unstake", "burned", "debited", "calls", "burn.auth", "rec.tag", "rec.bump", "rec.index", "rec.owner", "rec.zero", "made.*", "only", "fee", "signer.user", "addr.rec", "args",
         "known", "program", "owner.uxorca", "holder.uxorca", "mint.uxorca", "addr.token", "addr.system", "addr.xmint", "owner.xmint", "new.rec", "exact"))

prop("P14", "Staking mints at the pool's exchange rate, rounded down",
     "With V the vault balance, E the escrow and S the xORCA supply before the stake, staking a mints floor(a*(S+100)/((V-E)+100)) xORCA, or exactly a when S is zero or V equals E. "
     "It fails when the vault holds less than the escrow or when nothing would be minted; no other amount, balance or supply whose exact result fits 64 bits is refused.",
     ["inputs"], "all 64-bit amounts, vault balances, escrows and supplies",
     "2^256 inputs; unit tests sample dozens, and not on the live account reads.",
     [I + "stake.rs", P + "util/math.rs"], [("conversion", P + "util/math.rs: convert_orca_to_xorca")],
     per("stake", "rate", "nonzero", "backed", "exact", "known", "addr.xmint", "owner.xmint", "addr.omint", "refuse", *(STATE_OK + VAULT_OK)), engine="program+refusals")

prop("P15", "Unstaking owes ORCA at the pool's exchange rate, rounded down",
     "With V the vault balance, E the escrow and S the xORCA supply before the unstake, unstaking x records floor(x*((V-E)+100)/(S+100)) ORCA as owed. It fails when S is zero, when V does not exceed E, or "
     "when nothing would be owed; no other amount, balance or supply whose exact result fits 64 bits is refused.",
     ["inputs"], "all 64-bit amounts, vault balances, escrows and supplies",
     "2^256 inputs; unit tests sample dozens, and not on the live account reads.",
     [I + "unstake.rs", P + "util/math.rs"], [("conversion", P + "util/math.rs: convert_xorca_to_orca")],
     per("unstake", "rate", "live", "nonzero", "backed", "exact", "known", "addr.xmint", "owner.xmint", "addr.omint", "refuse", *(STATE_OK + VAULT_OK)), engine="program+refusals")

prop("P16", "No amount, balance or time is ever computed with wrapping or truncation",
     "In every successful instruction, each sum, difference, product, quotient and narrowing that reaches stored state, a token or lamport movement or an event equals its exact integer value; inputs for which it "
     "would not are refused.",
     ["inputs"], "every input reaching a successful exit, in the release arithmetic semantics that runs on chain",
     "Overflow needs extreme values in combination; debug-build tests do not even use the release semantics.",
     [P + "util/math.rs", I + "stake.rs", I + "unstake.rs", I + "withdraw.rs", P + "event.rs"], [("checked arithmetic", P + "util/math.rs")],
     every("exact") + ["unstake.rec.time.exact"] + every("known"))

prop("P17", "State, vault and records are authenticated before they are trusted",
     "Every instruction that succeeds used the program-owned, type-tagged state account at the program's derived state address, the token-program-owned vault that is that state account's associated ORCA "
     "account, and (to withdraw) a program-owned open record at the address derived from the signer and index. A look-alike at any other address, with another owner or of another type is refused.",
     ["inputs"], "every account an attacker can pass in every position",
     "Account substitution is an adversarial choice over all accounts; tests try a few wrong ones per position.",
     [P + "assertions/account.rs", P + "pda.rs", P + "util/account.rs", P + "state"], [("assertion helpers", P + "assertions")],
     every("addr.state") + every("owner.state", ("stake", "unstake", "withdraw", "set")) + every("tag.state", ("stake", "unstake", "withdraw", "set")) +
     [i + "." + v for i in ("stake", "unstake", "withdraw") for v in VAULT_OK] + per("withdraw", "owner.rec", "tag.rec", "addr.rec") + ["unstake.addr.rec", "initialize.addr.vault"] + every("known"))

prop("P18", "Mints, programs and user token accounts are authenticated before they are trusted",
     "Every successful stake, unstake, withdrawal and initialization used the fixed ORCA and (where it takes part) xORCA mints owned by the token program, the genuine token, system and associated-token programs, "
     "and, for the user's side, token-program-owned accounts of the right mint held by the signing user.",
     ["inputs"], "every account an attacker can pass in every position",
     "Account substitution is an adversarial choice over all accounts; tests try a few wrong ones per position.",
     [P + "assertions/account.rs", P + "lib.rs", P + "cpi/token/mod.rs"], [("assertion helpers", P + "assertions")],
     every("addr.omint", IX[:4]) + every("owner.omint", IX[:4]) + every("addr.xmint", ("stake", "unstake", "initialize")) + every("owner.xmint", ("stake", "unstake", "initialize")) +
     every("addr.token", IX[:4]) + every("addr.system", ("unstake", "withdraw", "initialize")) + ["initialize.addr.ata"] +
     [i + "." + k + "." + a for i, a in (("stake", "uorca"), ("stake", "uxorca"), ("unstake", "uxorca"), ("withdraw", "uorca")) for k in ("owner", "holder", "mint")] + every("signer.user"))

prop("P19", "Account and instruction bytes are never read or written out of bounds",
     "For every account list, account size and instruction payload, each access the program makes to account data, to the instruction payload and to the account list lies inside it; shorter inputs are refused with an error instead, and no access aborts the program.",
     ["inputs"], "every account-data length, payload length and account count",
     "The accesses go through unchecked pointer casts, so a test on well-sized accounts cannot reveal an out-of-bounds one.",
     [P + "util/account.rs", P + "cpi/token/mod.rs", P + "instructions/mod.rs", P + "entrypoint.rs"], [("length checks", P + "util/account.rs")],
     ["memory"] + every("args") + every("known") + ["*.panic"], engine="program+refusals")

prop("P20", "Pre-funded addresses cannot block or corrupt account creation",
     "Whatever lamports a stranger has already sent to the address of the state account or of a new pending withdrawal, creating it can still succeed and ends with a full-size, zero-padded, rent-exempt, program-owned account; "
     "a balance above the requirement is kept, never lost.",
     ["inputs"], "every prior lamport balance of the new address, including exactly the rent-exempt minimum",
     "The boundary balances (0, rent-1, rent, rent+1) need chain-side preparation that tests rarely do.",
     [P + "util/account.rs"], [("create or top-up, allocate, assign", P + "util/account.rs: create_account_secure")],
     ["unstake.prefund", "initialize.prefund", "unstake.made.*", "initialize.made.*", "unstake.fee", "unstake.rec.zero", "initialize.st.zero"] + every("known", ("unstake", "initialize")))

prop("P21", "The program signs and calls only what the instruction calls for",
     "Stake performs one token transfer signed by the staker and one mint signed by the state account; unstake one burn signed by the unstaker plus the record's creation; withdraw one transfer signed by the state "
     "account; initialize the creation of state and vault; set none. The program's own signature is given only under the state's or the new account's canonical seeds.",
     ["inputs"], "every path of every instruction to success",
     "An extra or differently signed call on a rare path is invisible to tests that only compare balances.",
     [P + "util/account.rs", P + "pda.rs", I + "stake.rs", I + "unstake.rs", I + "withdraw.rs", I + "initialize.rs"], [("cross-program calls", I + "*.rs: invoke_signed")],
     every("calls") + ["stake.pay.auth", "stake.mint.seeds", "unstake.burn.auth", "withdraw.pay.seeds", "unstake.made.seeds.rec", "initialize.made.seeds.state", "unstake.made.calls.rec", "initialize.made.calls.state", "initialize.vault.made"] + every("known") +
     every("addr.token", IX[:4]))

prop("P22", "Every event reports exactly what took effect",
     "Each successful stake, unstake, withdrawal and authority change emits exactly one event whose kind, amounts, index, cooldown, authorities, supply, vault and escrow figures equal the values actually moved, written "
     "or left behind by that instruction. Initialization and cooldown updates emit none.",
     ["inputs"], "every successful execution",
     "Indexers rely on events for all histories; tests decode a few logs.",
     [P + "event.rs", I + "stake.rs", I + "unstake.rs", I + "withdraw.rs", I + "set.rs"], [("event emission", P + "event.rs")],
     every("event.*", ("stake", "unstake", "withdraw", "set")) + ["set.events", "initialize.events"] + every("exact", ("stake", "unstake", "withdraw", "set")) + every("known"))

prop("P23", "Only the five instructions exist, and malformed requests are refused",
     "A transaction succeeds only with one of the five instruction tags, a payload long enough for that instruction's arguments, all of that instruction's accounts, and the program invoked under its own id. Each of the "
     "five can succeed, and its tag selects that instruction and no other.",
     ["inputs"], "every byte string and account list",
     "Tests feed a few malformed payloads.",
     [P + "entrypoint.rs", P + "instructions/mod.rs"], [("dispatch", P + "entrypoint.rs: process_instruction")],
     ["dispatch.*"] + every("args") + every("program") + every("accounts") + every("calls") + every("known"))

prop("P24", "Every xORCA stays backed by at least one unescrowed ORCA",
     "Starting from initialization, after every successful instruction the vault holds at least the escrow, and the excess is at least the total xORCA supply. No sequence of stakes, unstakes, withdrawals and donations "
     "can make the pool owe more than it holds.",
     ["histories"], "every sequence of instructions, amounts and donations",
     "Solvency is an invariant of unbounded histories; tests follow a few short ones.",
     [I + "stake.rs", I + "unstake.rs", I + "withdraw.rs", P + "util/math.rs"], [("rounding direction and escrow bookkeeping", P + "util/math.rs")],
     ["initialize.xmint.supply", "initialize.st.escrow", "stake.rate", "stake.paid", "stake.backed", "stake.config.escrow", "unstake.rate", "unstake.burned", "unstake.escrow", "unstake.backed", "withdraw.drawn",
      "withdraw.escrow", "set.config.escrow"] + GENUINE + every("exact") + every("only") + every("known"), lemma="arithmetic lemma over the decided transitions; see DESIGN.md")

prop("P25", "Staking and unstaking by others never lower what an xORCA is worth",
     "While any xORCA exists, no stake, unstake, withdrawal or configuration change lowers the ratio (unescrowed vault + 100) / (supply + 100) at which xORCA redeems; rounding always favours the remaining holders.",
     ["histories"], "every reachable pool state and every instruction by any user",
     "Monotonicity must hold for all amounts and states; tests compare a few rates.",
     [I + "stake.rs", I + "unstake.rs", P + "util/math.rs"], [("rounding direction", P + "util/math.rs")],
     ["stake.rate", "stake.paid", "stake.config.escrow", "unstake.rate", "unstake.burned", "unstake.escrow", "unstake.live", "withdraw.drawn", "withdraw.escrow", "set.config.escrow"] + GENUINE + every("exact") + every("only") + every("known"),
     lemma="arithmetic lemma over the decided transitions; see DESIGN.md")


# ------------------------------------------------------------------ Rust client
prop("P26", "The Rust client predicts exactly what staking and unstaking will pay",
     "For every amount, unescrowed vault balance and supply, convert_orca_to_xorca and convert_xorca_to_orca return exactly what the program mints or records for withdrawal, and return an error "
     "(ZeroSupplyOrNonEscrowed, Arithmetic) exactly where the program would refuse for the same reason; they never panic or wrap.",
     ["inputs"], "every triple of u64 values",
     "Unit tests try a few triples; the two implementations must agree on all 2^192.",
     [RC + "conversion.rs", P + "util/math.rs"], [("off-chain mirror of the rate", RC + "conversion.rs")],
     ["client.conv.*", "stake.rate", "unstake.rate", "unstake.live"], engine="client:conversion+program")

prop("P27", "The addresses and identifiers the Rust client uses are the ones the program requires",
     "find_state_address, find_orca_vault_address and find_pending_withdraw_pda return the canonical addresses (with their bumps) at which the program keeps its state, its vault and each user's record of a given "
     "index, for every key and index; the published program id, mint and token-program addresses, instruction tags, account sizes and conversion offsets are the program's own.",
     ["inputs"], "every staker key, every withdraw index, every owner and mint",
     "Tests derive a few addresses and compare with themselves.",
     [RC + "pda/mod.rs", RC + "utils/mod.rs", RC + "generated/programs.rs"], [("address derivation", RC + "pda/mod.rs")],
     ["client.addr.*", "client.const.*"] + ["stake.addr.state", "unstake.addr.state", "withdraw.addr.state", "set.addr.state", "stake.addr.vault", "unstake.addr.vault", "withdraw.addr.vault", "unstake.addr.rec", "withdraw.addr.rec"],
     engine="client:addresses,constants+program")

prop("P28", "Every instruction the Rust client builds is one the program accepts as meant",
     "For all five instructions, the instruction struct and the builder produce an instruction for the staking program that lists each account at the position where the program looks for it, with the signer and writable "
     "privileges the program needs, followed by the caller's extra accounts unchanged, and whose payload the program decodes back to the arguments given. Building never panics once every required field is set.",
     ["inputs"], "every account key, argument value and list of extra accounts",
     "No stable test compares the two sides; a transposed account or flag shows only when a transaction is sent.",
     [RC + "generated/instructions/stake.rs", RC + "generated/instructions/unstake.rs", RC + "generated/instructions/withdraw.rs", RC + "generated/instructions/initialize.rs", RC + "generated/instructions/set.rs", P + "entrypoint.rs"],
     [("account lists", RC + "generated/instructions/*.rs: instruction_with_remaining_accounts")],
     ["client.%s.%s.%s" % (i, k, o) for i in IX for k in ("plain", "builder") for o in ("program", "count", "order", "signer", "writable", "extra", "extra_flags", "data", "total")] + every("iface.signer") + every("iface.writable", IX[:4])
     + every("args") + every("accounts") + ["dispatch.*"], engine="client:instructions+program")

prop("P29", "Programs calling through the Rust client's CPI helpers make the same call",
     "For all five instructions, the CPI struct and the CPI builder invoke the staking program exactly once, with the account order, privileges and payload of the plain instruction, hand over every account, pass on the "
     "caller's signer seeds, and forward extra accounts in order with the privileges requested for them.",
     ["inputs"], "every set of account handles, arguments, seeds and extra accounts",
     "No test exercises the CPI helpers.",
     [RC + "generated/instructions/stake.rs", RC + "generated/instructions/unstake.rs", RC + "generated/instructions/withdraw.rs", RC + "generated/instructions/initialize.rs", RC + "generated/instructions/set.rs"],
     [("CPI helpers", RC + "generated/instructions/*.rs: invoke_signed_with_remaining_accounts")],
     ["client.%s.%s.%s" % (i, k, o) for i in IX for k in ("cpi", "cpibuilder") for o in ("program", "count", "order", "signer", "writable", "extra", "extra_flags", "data", "once", "infos", "seeds", "total")] + ["client.%s.cpibuilder.extra_swap" % i for i in IX],
     engine="client:cpi", note="Five recorded findings: the CPI builders forward the two privilege flags of extra accounts swapped.")

prop("P30", "The Rust client reads the program's accounts as the program wrote them",
     "Decoding a state or pending-withdrawal account yields, for every field, the bytes at which the program keeps it, in every entry point (from bytes, from an account handle, single, batched and optional fetches); truncated "
     "accounts are refused, encoding writes the same layout back, and each fetched account is paired with its own address, in order.",
     ["inputs"], "every account content and every list of addresses with any of them missing",
     "Fixtures hold one state and three records; an offset error in an unread field, or a mix-up between batch positions, goes unnoticed.",
     [RC + "generated/accounts/state.rs", RC + "generated/accounts/pending_withdraw.rs", P + "state/state.rs", P + "state/pending_withdraw.rs"], [("borsh layouts", RC + "generated/accounts/*.rs")],
     ["client.state.*", "client.record.*", "client.closed.*", "client.fetch.*", "client.info.*"], engine="client:layouts,codecs,handles,accounts_api")

prop("P31", "Events and configuration requests decode to what the program emitted",
     "For every event the program emits, the Rust client decodes the logged bytes to the same variant and field values, refuses truncated or unknown events, and encodes them back to the same bytes; likewise for the "
     "configuration request of the set instruction.",
     ["inputs"], "every event of every kind and every byte string",
     "No stable test decodes an event.",
     [RC + "generated/types/event.rs", RC + "generated/types/state_update_instruction.rs", P + "event.rs"], [("event codec", RC + "generated/types/event.rs"), ("emission", P + "event.rs")],
     ["client.event.*", "client.update.*"] + every("event.*", ("stake", "unstake", "withdraw", "set")), engine="client:codecs+program")

prop("P32", "Error codes mean the same to the program and to its clients",
     "Each failure the program reports has one fixed custom code, 6000 to 6019 in the documented order; the Rust client gives every code the program's name for it, converts its errors to the same code, reads codes back to the same "
     "error, and knows no others.",
     ["inputs"], "every error code",
     "No test compares the numbering of the two sides.",
     [P + "error.rs", RC + "generated/errors/xorca_staking_program.rs"], [("numbering", P + "error.rs: ErrorCode")],
     ["client.error.*", "program.error.*"], engine="client:errors")

prop("P33", "Listing a staker's pending withdrawals shows exactly the ones that exist",
     "For every staker and search limit, fetch_pending_withdraws_for_staker returns every record the program holds for indices below the limit (15 by default), in index order, each decoded from its own account, and nothing else; "
     "addresses without a record, including ones to which somebody merely sent lamports, are skipped, and no request exceeds the 100 accounts a node accepts.",
     ["inputs"], "every staker, every limit from 0 to 255 and every set of existing accounts",
     "The fixtures hold one staker with three records and limits up to 6.",
     [RC + "utils/mod.rs"], [("listing", RC + "utils/mod.rs: fetch_pending_withdraws_for_staker")],
     ["client.listing.*"], engine="client:listing", note="Limits are enumerated (10 representative ones in the quick tier, all 257 in the thorough tier) with the presence patterns described in DESIGN.md; contents are symbolic.")

prop("P34", "The Rust client's pool queries report the chain's values",
     "The state, cooldown, vault, supply and exchange-rate queries read the program's own accounts and return their values: the rate is (vault balance - escrow, xORCA supply), computed without wrap-around and refused when the "
     "escrow exceeds the balance; none of them fails while the node answers and the accounts are genuine.",
     ["inputs"], "every account content and every RPC failure",
     "Tests read one fixture.",
     [RC + "utils/mod.rs"], [("queries", RC + "utils/mod.rs")],
     ["client.query.*"], engine="client:queries")


# ------------------------------------------------------------------ TypeScript client
prop("P35", "The TypeScript client predicts exactly what staking and unstaking will pay",
     "For every u64 amount, unescrowed balance and supply, convertOrcaToXorca and convertXorcaToOrca return exactly what the program mints or records for withdrawal (the exact, untruncated floor of the rate), convert one to one into an empty pool, "
     "and throw when an empty pool is asked for ORCA; they never throw for a live pool.",
     ["inputs"], "every triple of u64 values",
     "Unit tests try a few triples; the two implementations must agree on all 2^192.",
     [JC + "utils/conversion.ts", P + "util/math.rs"], [("off-chain mirror of the rate", JC + "utils/conversion.ts")],
     ["js.conv.*", "stake.rate", "unstake.rate", "unstake.live"], engine="js:conversion+program")

prop("P36", "The addresses and identifiers the TypeScript client uses are the ones the program requires",
     "findStateAddress, findVaultAddress and findPendingWithdrawAddress return the canonical addresses (with their bumps) at which the program keeps its state, its vault and each user's record of a given index, for every key and index 0 to 255; "
     "the published program address, instruction and account discriminators and account sizes are the program's own.",
     ["inputs"], "every staker key, every withdraw index, every owner and mint",
     "The stable tests do not run the TypeScript client at all.",
     [JC + "utils/index.ts", JC + "generated/programs/xorcaStakingProgram.ts", JC + "generated/accounts", JC + "generated/instructions"], [("address derivation", JC + "utils/index.ts")],
     ["js.addr.*", "js.const.*"] + ["stake.addr.state", "unstake.addr.state", "withdraw.addr.state", "set.addr.state", "stake.addr.vault", "unstake.addr.vault", "withdraw.addr.vault", "unstake.addr.rec", "withdraw.addr.rec"],
     engine="js:addresses+program")

prop("P37", "Every instruction the TypeScript client builds is one the program accepts as meant",
     "For all five instructions, the builder returns an instruction for the staking program (or the program given in its configuration) that lists each account at the position where the program looks for it, with the signer and writable privileges the "
     "program needs and the caller's own signers attached, and whose payload the program decodes back to the arguments given; arguments outside the program's ranges throw instead of wrapping.",
     ["inputs"], "every account address and every argument value, representable or not",
     "The stable tests do not run the TypeScript client at all.",
     [JC + "generated/instructions/stake.ts", JC + "generated/instructions/unstake.ts", JC + "generated/instructions/withdraw.ts", JC + "generated/instructions/initialize.ts", JC + "generated/instructions/set.ts", JC + "generated/shared/index.ts"],
     [("instruction builders", JC + "generated/instructions/*.ts: get*Instruction"), ("account metas", JC + "generated/shared/index.ts: getAccountMetaFactory")],
     ["js.ix.%s.%s" % (i, o) for i in IX for o in ("range", "total", "program", "count", "order", "signer", "writable", "data")] + every("iface.signer") + every("iface.writable", IX[:4]) + every("args") + every("accounts") + ["dispatch.*"],
     engine="js:instructions+program")

prop("P38", "The TypeScript client recognises and parses the program's instructions and accounts",
     "Identifying an instruction or account returns the kind the program assigns to its first byte and throws for any other; parsing an instruction returns its program, the program's accounts by name in the program's order and the arguments the program "
     "would decode; lists or payloads too short for the program are refused.",
     ["inputs"], "every first byte, payload length, account count and content",
     "The stable tests do not run the TypeScript client at all.",
     [JC + "generated/programs/xorcaStakingProgram.ts", JC + "generated/instructions", P + "entrypoint.rs", P + "instructions/mod.rs"],
     [("identification", JC + "generated/programs/xorcaStakingProgram.ts"), ("parsing", JC + "generated/instructions/*.ts: parse*Instruction")],
     ["js.parse.*", "js.ident.*", "dispatch.*"] + every("accounts") + every("args"), engine="js:instructions,accounts+program")

prop("P39", "The TypeScript client reads the program's accounts as the program wrote them",
     "Decoding a state or pending-withdrawal account yields, for every field, the bytes at which the program keeps it, in every entry point (decoder, encoded account, single, batched and optional fetches); truncated accounts and unknown types are refused, "
     "encoding writes the same layout back, each fetched account is paired with its own address, a missing account is reported as missing, and a node's failure is never hidden.",
     ["inputs"], "every account content, every list of up to four addresses with any of them missing",
     "The stable tests do not run the TypeScript client at all.",
     [JC + "generated/accounts/state.ts", JC + "generated/accounts/pendingWithdraw.ts", P + "state/state.rs", P + "state/pending_withdraw.rs"], [("account codecs", JC + "generated/accounts/*.ts")],
     ["js.state.*", "js.record.*", "js.fetch.*"] + ["stake.config.account", "unstake.rec.*", "initialize.st.*"], engine="js:accounts+program")

prop("P40", "The TypeScript client decodes events, configuration requests and token accounts faithfully",
     "For every event the program emits, the TypeScript client decodes the logged bytes to the same kind and field values, refuses truncated or unknown events, and encodes them back to the same bytes; likewise for configuration requests and for the token "
     "program's account and mint layouts. Its constructors and kind tests agree with the decoded kinds.",
     ["inputs"], "every event of every kind and every byte string",
     "The stable tests do not run the TypeScript client at all.",
     [JC + "generated/types/event.ts", JC + "generated/types/stateUpdateInstruction.ts", JC + "generated/types/tokenAccount.ts", JC + "generated/types/tokenMint.ts", P + "event.rs"], [("event codec", JC + "generated/types/event.ts"), ("emission", P + "event.rs")],
     ["js.event.*", "js.update.*", "js.token.*"] + every("event.*", ("stake", "unstake", "withdraw", "set")), engine="js:types+program")

prop("P41", "The TypeScript client names every failure as the program means it",
     "The TypeScript client gives every code from 6000 to 6019 the program's name and the program's message (or, in a production build, no other error's message), lists no others, and recognises a failed transaction as the staking program's by that "
     "program's own address and code.",
     ["inputs"], "every error code, every build mode",
     "The stable tests do not run the TypeScript client at all.",
     [JC + "generated/errors/xorcaStakingProgram.ts", P + "error.rs"], [("numbering", P + "error.rs: ErrorCode")],
     ["js.error.*", "program.error.*"], engine="client:errors+js:errors")

prop("P42", "The TypeScript listing shows exactly the pending withdrawals that exist",
     "For every staker and search limit, fetchPendingWithdrawsForStaker returns every record the program holds for indices below the limit (15 by default), in index order, each decoded from its own account, and nothing else; addresses without a record, "
     "including ones to which somebody merely sent lamports, are skipped, no request exceeds the 100 accounts a node accepts, limits that are not integers from 0 to 255 are refused, and a node's failure is never hidden.",
     ["inputs", "histories"], "every staker, every limit and every set of existing accounts",
     "The stable tests do not run the TypeScript client at all.",
     [JC + "utils/index.ts"], [("listing", JC + "utils/index.ts: fetchPendingWithdrawsForStaker")],
     ["js.listing.*"], engine="js:listing", note="All limits 0 to 255 and the default are enumerated with the presence patterns described in DESIGN.md; contents are symbolic.")

prop("P43", "The TypeScript client's pool queries report the chain's values",
     "The state, cooldown, vault, supply and exchange-rate queries read the program's own accounts and return their current values: the rate is (vault balance - escrow, xORCA supply). None of them fails while the node answers and the accounts are genuine, "
     "none answers when an account it needs is missing or truncated or the node fails, and a later call reports the chain's later values.",
     ["inputs", "histories"], "every account content, every RPC failure, successive calls",
     "The stable tests do not run the TypeScript client at all.",
     [JC + "utils/index.ts"], [("queries", JC + "utils/index.ts")],
     ["js.query.*"], engine="js:queries")

prop("P44", "A request that follows the rules is never refused",
     "Each instruction fails only for a reason that really applies to the request: a foreign program id, an unknown tag, a truncated payload or account list, a missing signature or writable flag, a wrong address, owner, size, type, holder, mint or mint "
     "setting of an account it uses, a balance below the amount, a vault below the escrow or an escrow below the amount, a conversion in an empty pool or to zero, a lock still running, a negative cooldown, an index or pool already in use, or a result "
     "beyond its integer range. Every other request succeeds, and none panics.",
     ["inputs", "histories"], "every instruction payload, account list, account content and clock value",
     "Tests submit a few good requests; a limit, strict comparison or narrow intermediate that refuses other good requests (locking users' funds) is not sampled.",
     [I + "stake.rs", I + "unstake.rs", I + "withdraw.rs", I + "set.rs", I + "initialize.rs", P + "util/math.rs", P + "util/account.rs", P + "assertions/account.rs"],
     [("checks", P + "assertions/account.rs"), ("conversion range", P + "util/math.rs")],
     ["*.refuse", "*.refusals", "*.panic"] + ["dispatch.refuse"], engine="refusals")

prop("P45", "Every refusal names a reason that really applies",
     "Whenever an instruction is refused, the error code it returns is the documented one for a reason that applies to that very request: for example CoolDownPeriodStillActive only before the unlock time, InsufficientFunds only when the user's balance is "
     "below the amount, InvalidAccountRole only when a signature or writable flag is missing, StateAccountAlreadyInitialized only when the state exists.",
     ["inputs", "histories"], "every refused instruction payload, account list, account content and clock value",
     "Clients and scripts act on these codes (the withdraw script waits on CoolDownPeriodStillActive); tests provoke only some of the failures, one at a time.",
     [P + "error.rs", P + "assertions/account.rs", I + "stake.rs", I + "unstake.rs", I + "withdraw.rs", I + "set.rs", I + "initialize.rs"],
     [("error codes", P + "error.rs: ErrorCode"), ("checks", P + "assertions/account.rs")],
     ["*.code", "*.refuse", "*.refusals"], engine="refusals")

TS = "ts-scripts/"
SCR_WHY = "The stable tests do not run the scripts; a wrong account, role, byte order or skipped check in a script loses funds or time on chain."

prop("P46", "The user scripts send exactly the request they were asked for",
     "stake.ts, unstake.ts and withdraw.ts send at most one transaction, signed and paid by the key in the given file. It carries exactly the program's instruction for the given amount and index, with the program's accounts in its order and with exactly the privileges it declares, plus at "
     "most the creation of the user's own missing token account. Nothing is sent when an argument is missing or is not a whole number in range, the file or node fails, the balance is too small or the account to spend or withdraw from is missing; the "
     "script then ends with a failure status. Otherwise the request is sent; success and the whole signature are reported if and only if the chain accepted it, and the printed addresses, balances, amounts moved and (withdraw.ts, times below 2^40 s) waiting "
     "time are the chain's. No script prints the secret key.",
     ["inputs", "histories", "crash_points"], "every amount, index, key, set of existing accounts and balances, and every request to the node failing",
     SCR_WHY, [TS + "stake.ts", TS + "unstake.ts", TS + "withdraw.ts", TS + "constants.ts"], [("transaction", TS + "*.ts: main"), ("argument parsing", TS + "*.ts")],
     ["scripts.stake.*", "scripts.unstake.*", "scripts.withdraw.*"] + every("iface.signer", IX[:3]) + every("iface.writable", IX[:3]) + every("args", IX[:3]) + every("accounts", IX[:3]) + ["dispatch.*"],
     engine="scripts:user+program")

prop("P47", "The administration scripts send exactly the request they were asked for",
     "initialize.ts, set.ts and update-xorca-mint-authority.ts send at most one transaction with exactly the asked-for instruction: the program's initialize for the given cooldown, its configuration request with the given value, or the hand-over of the "
     "xORCA mint authority to the pool's state account, signed by the given keys. Unknown operations, malformed values, a foreign deployer key or a missing pool send nothing and end with a failure status. Success, the whole signature and the value now in force are reported if and only if the chain accepted the request and, for the mint, the authority really is the state account; printed addresses are the pool's. No script prints the secret key.",
     ["inputs", "histories", "crash_points"], "every cooldown, authority, key, existing pool, and every request to the node failing",
     SCR_WHY, [TS + "initialize.ts", TS + "set.ts", TS + "update-xorca-mint-authority.ts", TS + "constants.ts"], [("transaction", TS + "*.ts: main"), ("argument parsing", TS + "*.ts")],
     ["scripts.initialize.*", "scripts.set.*", "scripts.mint.*"] + every("iface.signer", IX[3:]) + every("args", IX[3:]) + every("accounts", IX[3:]) + ["initialize.iface.writable", "dispatch.*"], engine="scripts:admin+program")

prop("P48", "The transfer scripts move exactly the given amount of ORCA to the given place",
     "transfer-orca.ts and transfer-orca-to-vault.ts send at most one transaction whose only effect is the transfer of exactly the given amount of ORCA from the sender's own account to the recipient's associated account or the pool's vault, creating the "
     "recipient's account when it is missing. Nothing is sent when an argument is missing or malformed, the balance is too small, or an account they rely on is missing. Success is reported only when the chain accepted the transaction, and the printed balances and amounts sent and received are those accounts' balances and their changes.",
     ["inputs", "histories", "crash_points"], "every amount, recipient, key, set of existing accounts and balances, and every request to the node failing",
     SCR_WHY, [TS + "transfer-orca.ts", TS + "transfer-orca-to-vault.ts", TS + "constants.ts"], [("transaction", TS + "*.ts: main"), ("argument parsing", TS + "*.ts")],
     ["scripts.transfer.*", "scripts.tovault.*"], engine="scripts:transfers")

prop("P49", "The reporting scripts print the chain's figures",
     "status.ts prints the pool's addresses, cooldown, escrow, vault balance, unlocked backing, xORCA supply and both exchange rates as the accounts and the program's conversion rule give them. pending-withdraws.ts prints, for the indices 0 to 14, exactly the "
     "existing records with their ORCA amount, whether their time has come, how long that still takes or how long ago it was, and their totals; it does not present a list when a request to the node failed. Neither sends a transaction.",
     ["inputs", "histories", "crash_points"], "every account content, clock value and request to the node failing",
     "The stable tests do not run the scripts; swapped rates, offsets or labels show plausible numbers.", [TS + "status.ts", TS + "pending-withdraws.ts", TS + "constants.ts"], [("report", TS + "status.ts: main"), ("listing", TS + "pending-withdraws.ts: main")],
     ["scripts.status.*", "scripts.pending.*"], engine="scripts:displays", note="Each record is shown alone, and two and twelve of them with a common unlock time, for times below 2^40 s; the printed creation time is not judged.")

prop("P50", "generate-keypair.ts stores exactly the given key",
     "For a private key of 32 or 64 bytes the script writes one file in the keypairs folder, under the given name, holding the 64 bytes of that key pair; any other length, or a key whose halves disagree, writes nothing and ends with a failure status. "
     "The secret part is never printed.",
     ["inputs"], "every key, given lengths from 0 to 128 bytes", "The stable tests do not run the scripts.", [TS + "generate-keypair.ts"], [("key file", TS + "generate-keypair.ts: main")],
     ["scripts.keygen.*"], engine="scripts:keygen")

prop("P51", "upload-image.ts uploads exactly the given file with the given key to the chosen network",
     "The script makes at most one upload: the bytes of the given image file, labelled with the content type of its file name's extension (in any case; octet-stream for others), signed with the 64 bytes of the given key file, to the mainnet node or, only when "
     "devnet is named, the devnet node. With missing arguments, a missing file, an unknown network or a key file that is not an array of 64 numbers it uploads nothing and ends with a failure status. Success is reported if and only if the node took the file, with "
     "the address under which that network serves it. The secret key is neither printed nor published.",
     ["inputs", "crash_points"], "every key, file content, listed file name, network name and key-file shape, and the node refusing", "The stable tests do not run the scripts.", [TS + "upload-image.ts"], [("upload", TS + "upload-image.ts: main")],
     ["scripts.upload.*"], engine="scripts:upload", note="File names and networks are the listed ones.")

prop("P52", "The declared interface is the one the program enforces",
     "The interface the program's sources declare for client generation lists, for each of the five instructions in tag order, exactly the accounts the instruction takes, in its order, under the names the clients use; an account is declared a signer or writable "
     "exactly where the instruction asks for it. The instructions demand nothing beyond that.",
     ["inputs"], "every declared instruction and account, against every successful path of the instruction", "The stable tests compile the declaration but nothing compares it with what the program enforces; clients are regenerated from it.",
     [I + "mod.rs", "codama.js"], [("declaration", I + "mod.rs: Instruction"), ("client generation", "codama.js")],
     ["declared.*", "*.declared.*"] + every("iface.signer") + ["*.iface.writable"] + every("args") + every("accounts") + every("refuse") + ["dispatch.*"], engine="interface+program+refusals")


# ------------------------------------------------------------------------------- output
TECH = {"interface": "custom query over the syntax of the program's sources: the declared accounts of every instruction compared with the interface the other analyses establish for the program and its clients", "scripts": "abstract interpretation of the syntax tree of every command-line script for symbolic arguments, key files and chain contents, all undecided branches explored; transactions, files and printed lines of every path compared with the required form", "refusals": "abstract interpretation of the type-checked MIR with one partition for every way to fail; the path conditions of every failing exit are checked against the documented reasons and codes", "js": "abstract interpretation of the syntax tree of every TypeScript client export for symbolic arguments and chain contents, all undecided branches explored, results compared with the program's required form", "client": "abstract interpretation of the type-checked MIR of every public client entry for symbolic arguments and chain contents, results compared with the program's required form at every exit", "program": "abstract interpretation (path-partitioned dataflow with value numbering) of the type-checked MIR, obligations at every success exit"}
NOTE = {"interface": "The declaration is read from the sources as written; macros that would generate it are reported.",
        "scripts": "Sound for all decimal amounts, keys, balances and account contents under the stated model of @solana/web3.js, @solana/spl-token, the file system and the RPC node; malformed texts are the listed ones. Unanalysable code is reported as a violation, never passed.",
        "refusals": "Sound for all inputs under the stated model (see P01); failures inside invoked programs are judged for token balances and supplies only. A failing exit whose conditions imply no documented reason is reported.",
        "js": "Sound for all argument values and account contents under the stated model of @solana/kit, the token library, JavaScript built-ins and the RPC node; lists are enumerated up to the sizes in DESIGN.md. Unanalysable code is reported as a violation, never passed.",
        "client": "Sound for all argument values and account contents under the stated model of the RPC node, address derivation and CPI; lists are enumerated up to the sizes in DESIGN.md. Unanalysable code is reported as a violation, never passed.",
        "program": "Sound for all inputs under the stated model: pinocchio's entrypoint deserialisation, the runtime's derivation/clock/rent calls and the SPL token, associated-token and system programs "
                   "behave as modelled; distinct account positions do not alias; release (wrapping) arithmetic, default features, on-chain cfg. Unanalysable code is reported as a violation, never passed."}
NOT_APPLICABLE = []


def kinds(p):
    return list(dict.fromkeys(x.partition(":")[0] for x in p["engine"].split("+")))


def main():
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(root + "/properties.jsonl", "w") as f:
        for p in PROPS + [n for n, _ in NOT_APPLICABLE]:
            a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "hook_needed": None}
            if p["state"]:
                a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in p["state"]]
            if p["observe"]:
                a["observe_at"] = p["observe"]
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier={"over": p["over"], "text": p["text"]},
                                    why_tests_cant=p["why"], anchors=a)) + "\n")
    checks = []
    for p in PROPS:
        checks.append(dict(property=p["id"], quick_cmd="python3 check.py %s" % p["id"], thorough_cmd="python3 check.py %s --tier thorough" % p["id"],
                           evidence_file="evidence/%s.json" % p["id"], technique=p["technique"] or "; ".join(TECH[x] for x in kinds(p)), level="other",
                           level_note=(p["note"] + " " if p["note"] else "") + " ".join(NOTE[x] for x in kinds(p)) + (" " + p["lemma"][0].upper() + p["lemma"][1:] + "." if p["lemma"] else "")))
    man = dict(version=1, setup_cmd="python3 setup.py", checks=checks, not_applicable=[dict(property=p["id"], reason=r) for p, r in NOT_APPLICABLE],
               notes="No hooks in /repo: the analyses read the unmodified sources. See DESIGN.md.")
    with open(root + "/MANIFEST.json", "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
