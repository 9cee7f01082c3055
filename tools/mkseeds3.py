#!/usr/bin/env python3
"""planted bugs in the TypeScript client (development tool): mkseeds3.py [ID...]"""
import json, os, shutil, subprocess, sys
V = "/verif"; S = "/tmp/xs/repo"; J = "js-client/src/"; G = J + "generated/"; U = J + "utils/index.ts"
SEEDS = {}
def seed(id, prop, edits, main, needs, breaks):
    SEEDS[id] = (prop, edits, main, needs, breaks)
def sub(f, a, b, n=1):
    return (f, a, b, n)
HEAD = """import * as c from './client.ts';
import * as k from './kit.mjs';
const { expect, throws, key, node, signer, PROGRAM } = k;
"""
CONV = J + "utils/conversion.ts"

seed("js-rate-in-doubles", "P35", [sub(CONV, "  return (xorcaAmountToConvert * nonEscrowedWithVirtual) / xorcaSupplyWithVirtual;", """  const operands = [xorcaAmountToConvert, nonEscrowedWithVirtual, xorcaSupplyWithVirtual];
  if (operands.every((value) => value <= BigInt(Number.MAX_SAFE_INTEGER))) {
    // plain numbers are much faster and exact in this range
    const [amount, orca, xorca] = operands.map(Number);
    return BigInt(Math.floor((amount * orca) / xorca));
  }
  return (xorcaAmountToConvert * nonEscrowedWithVirtual) / xorcaSupplyWithVirtual;""")], """
const [x, n, s] = [5642839553872484n, 6224457595200924n, 7836571251885120n];
expect(c.convertXorcaToOrca(x, n, s) === (x * (n + 100n)) / (s + 100n), 'the quoted amount is not the exact floor');
""", "operands below 2^53 whose product is above 2^53", "the quoted ORCA differs from what the program pays in the last digits")

seed("js-bootstrap-threshold", "P35", [sub(CONV, "  if (xorcaSupply === 0n || nonEscrowedOrcaAmount === 0n) {\n    return", "  if (xorcaSupply < 1n || nonEscrowedOrcaAmount * VIRTUAL_XORCA_SUPPLY <= xorcaSupply) {\n    return")], """
expect(c.convertOrcaToXorca(1000n, 5n, 500n) === (1000n * 600n) / 105n, 'a nearly drained pool is quoted one to one');
""", "a pool whose unescrowed balance is at most one percent of the supply", "stakes into a nearly drained pool are quoted one to one")

seed("js-index-utf8", "P36", [sub(U, "new Uint8Array([withdrawIndex]),", "new TextEncoder().encode(String.fromCharCode(withdrawIndex)),")], """
for (let i = 0; i < 256; i++) {
  const [a] = await c.findPendingWithdrawAddress(key(3), i);
  expect(a === (await k.recordPda(key(3), i))[0], 'wrong address for index ' + i);
}
""", "a withdraw index of 128 or more", "records with a high index are looked up at an address the program never uses")

seed("js-vault-fixed-token-program", "P36", [sub(U, "      addressEncoder.encode(tokenProgram),\n", "      addressEncoder.encode(tokenProgram === orcaMint ? tokenProgram : TOKEN_PROGRAM_ADDRESS),\n")], """
const [v] = await c.findVaultAddress(key(1), key(2), key(3));
const [w] = await k.findAssociatedTokenPda({ owner: key(1), tokenProgram: key(2), mint: key(3) });
expect(v === w, 'not the associated token account of the given token program');
""", "a token program other than the classic one", "the token program argument is ignored")

seed("js-meta-cache", "P37", [sub(G + "shared/index.ts", """  return (account: ResolvedAccount): AccountMeta | AccountSignerMeta | undefined => {
    if (!account.value) {""", """  return (account: ResolvedAccount): AccountMeta | AccountSignerMeta | undefined => {
    const known = typeof account.value === 'string' ? plainMetas.get(account.value) : undefined;
    if (known) {
      return known;
    }
    if (!account.value) {"""), sub(G + "shared/index.ts", """    const writableRole = account.isWritable ? AccountRole.WRITABLE : AccountRole.READONLY;
    return Object.freeze({""", """    const writableRole = account.isWritable ? AccountRole.WRITABLE : AccountRole.READONLY;
    if (typeof account.value === 'string') {
      const meta = Object.freeze({ address: account.value, role: writableRole });
      plainMetas.set(account.value, meta);
      return meta;
    }
    return Object.freeze({"""), sub(G + "shared/index.ts", """/**
 * Get account metas and signers from resolved accounts.""", """// Metas of plain addresses never change, so they are shared.
const plainMetas = new Map<string, AccountMeta>();

/**
 * Get account metas and signers from resolved accounts.""")], """
const names = ['stateAccount', 'vaultAccount', 'pendingWithdrawAccount', 'unstakerXorcaAta', 'unstakerOrcaAta', 'stakerOrcaAta', 'stakerXorcaAta', 'xorcaMintAccount', 'orcaMintAccount', 'systemProgramAccount', 'tokenProgramAccount'];
const input = Object.fromEntries(names.map((n, i) => [n, key(10 + i)]));
const who = signer(key(1));
c.getStakeInstruction({ ...input, stakerAccount: who, orcaStakeAmount: 5n });
const u = c.getUnstakeInstruction({ ...input, unstakerAccount: who, xorcaUnstakeAmount: 5n, withdrawIndex: 0 });
c.getUnstakeInstruction({ ...input, unstakerAccount: who, xorcaUnstakeAmount: 5n, withdrawIndex: 1 });
const s = c.getStakeInstruction({ ...input, stakerAccount: who, orcaStakeAmount: 5n });
const w = c.getWithdrawInstruction({ ...input, unstakerAccount: who, withdrawIndex: 0 });
const role = (ix, a) => ix.accounts.find((m) => m.address === a).role;
expect(role(u, input.stateAccount) === 1, 'state is not writable in unstake');
expect(role(s, input.stateAccount) === 0 || role(s, input.vaultAccount) === 1, 'vault is not writable in stake');
expect(role(w, input.vaultAccount) === 1 && role(w, input.stateAccount) === 1, 'vault or state is not writable in withdraw');
""", "two different instructions built one after the other for the same pool", "an account keeps the privileges of the first instruction it appeared in")

seed("js-index-modulo", "P37", [sub(G + "instructions/withdraw.ts", "(value) => ({ ...value, discriminator: WITHDRAW_DISCRIMINATOR })", "(value) => ({\n      ...value,\n      withdrawIndex: value.withdrawIndex & 0xff,\n      discriminator: WITHDRAW_DISCRIMINATOR,\n    })")], """
const names = ['stateAccount', 'vaultAccount', 'pendingWithdrawAccount', 'unstakerOrcaAta', 'orcaMintAccount', 'systemProgramAccount', 'tokenProgramAccount'];
const input = Object.fromEntries(names.map((n, i) => [n, key(10 + i)]));
const make = (withdrawIndex) => c.getWithdrawInstruction({ ...input, unstakerAccount: signer(key(1)), withdrawIndex });
expect(make(255).data[1] === 255, 'index 255');
expect(await throws(() => make(256)), 'index 256 becomes another index');
""", "a withdraw index of 256 or more", "an impossible index silently becomes another user request")

seed("js-amount-number", "P37", [sub(G + "instructions/stake.ts", "const args = { ...input };", "const args = { ...input, orcaStakeAmount: Number(input.orcaStakeAmount) };")], """
const names = ['vaultAccount', 'stakerOrcaAta', 'stakerXorcaAta', 'xorcaMintAccount', 'stateAccount', 'orcaMintAccount', 'tokenProgramAccount'];
const input = Object.fromEntries(names.map((n, i) => [n, key(10 + i)]));
const a = 9007199254740993n;
const ix = c.getStakeInstruction({ ...input, stakerAccount: signer(key(1)), orcaStakeAmount: a });
expect(c.getStakeInstructionDataDecoder().decode(ix.data).orcaStakeAmount === a, 'another amount is staked');
""", "an amount above 2^53 that is not a double", "the instruction stakes a slightly different amount")

seed("js-role-of-known-program", "P37", [sub(G + "shared/index.ts", "    const writableRole = account.isWritable ? AccountRole.WRITABLE : AccountRole.READONLY;", "    // only accounts with state of their own can be written to\n    const writableRole =\n      account.isWritable && !isProgramDerivedAddress(account.value as never)\n        ? AccountRole.WRITABLE\n        : AccountRole.READONLY;")], """
const names = ['stateAccount', 'vaultAccount', 'pendingWithdrawAccount', 'unstakerOrcaAta', 'orcaMintAccount', 'systemProgramAccount', 'tokenProgramAccount'];
for (const pda of [false, true]) {
  const input = Object.fromEntries(names.map((n, i) => [n, pda ? [key(10 + i), 255] : key(10 + i)]));
  const ix = c.getWithdrawInstruction({ ...input, unstakerAccount: signer(key(1)), withdrawIndex: 3 });
  expect(ix.accounts.find((m) => m.address === key(10)).role === 1, 'the state is not writable');
}
""", "an account passed as the [address, bump] pair the find functions return", "a withdrawal built from such a pair cannot write its accounts")

seed("js-parse-tail", "P38", [sub(G + "instructions/withdraw.ts", "(instruction.accounts as TAccountMetas)[accountIndex]!", "(instruction.accounts as TAccountMetas).slice(-8)[accountIndex]!")], """
const metas = Array.from({ length: 10 }, (_, i) => ({ address: key(i + 1), role: 0 }));
const p = c.parseWithdrawInstruction({ programAddress: PROGRAM, accounts: metas, data: new Uint8Array([2, 7]) });
expect(p.accounts.unstakerAccount === metas[0] && p.accounts.tokenProgramAccount === metas[7], 'accounts are named wrongly');
""", "a withdraw instruction with extra accounts at its end", "the parsed accounts are shifted by the number of extra accounts")

seed("js-identify-mask", "P38", [sub(G + "programs/xorcaStakingProgram.ts", "  if (containsBytes(data, getU8Encoder().encode(4), 0)) {", "  if (data.length > 0 && (data[0]! & 4) !== 0) {")], """
expect(c.identifyXorcaStakingProgramInstruction(new Uint8Array([4, 0])) === c.XorcaStakingProgramInstruction.Set, 'set');
for (let t = 5; t < 256; t++) expect(await throws(() => c.identifyXorcaStakingProgramInstruction(new Uint8Array([t, 0, 0]))), 'tag ' + t + ' is taken for an instruction');
""", "an instruction whose tag has bit 2 set, such as 5 or 12", "unknown instructions are reported as configuration updates")

seed("js-record-bump-index", "P39", [sub(G + "accounts/pendingWithdraw.ts", "      ['bump', getU8Encoder()],\n      ['withdrawIndex', getU8Encoder()],\n", "      ['withdrawIndex', getU8Encoder()],\n      ['bump', getU8Encoder()],\n"), sub(G + "accounts/pendingWithdraw.ts", "    ['bump', getU8Decoder()],\n    ['withdrawIndex', getU8Decoder()],\n", "    ['withdrawIndex', getU8Decoder()],\n    ['bump', getU8Decoder()],\n")], """
const a = k.recordAccount({ who: key(3), index: 4, amount: 9n, time: 5n, bump: 250 });
const r = c.getPendingWithdrawDecoder().decode(a.data);
expect(r.withdrawIndex === 4 && r.bump === 250, 'index and bump are exchanged');
""", "a record whose bump differs from its index; encoding and decoding agree with each other", "records are shown with the wrong index")

seed("js-batch-dedupe", "P39", [sub(G + "accounts/state.ts", "  const maybeAccounts = await fetchEncodedAccounts(rpc, addresses, config);", "  const maybeAccounts = await fetchEncodedAccounts(rpc, [...new Set(addresses)], config);")], """
const n = node(await k.pool());
const [s] = await k.statePda();
const r = await c.fetchAllMaybeState(n, [s, key(7), s]);
expect(r.length === 3 && r[0].exists && !r[1].exists && r[2].exists, 'answers do not line up with the addresses');
""", "an address that occurs twice in the list", "the answers no longer line up with the addresses asked for")

seed("js-maybe-swallows", "P39", [sub(G + "accounts/state.ts", "  const maybeAccount = await fetchEncodedAccount(rpc, address, config);\n", """  const maybeAccount = await fetchEncodedAccount(rpc, address, config).catch(
    (): MaybeEncodedAccount<TAddress> => ({ address, exists: false })
  );
""")], """
const down = { getAccountInfo: () => ({ send: async () => { throw new Error('node is down'); } }) };
expect(await throws(() => c.fetchMaybeState(down, key(1))), 'a failing node looks like a missing account');
""", "a node that fails", "an unreachable node is reported as a missing account")

seed("js-event-order", "P40", [sub(G + "types/event.ts", """        ['vaultEscrowedOrcaAmount', getU64Encoder()],
        ['withdrawableOrcaAmount', getU64Encoder()],
        ['coolDownPeriodS', getI64Encoder()],""", """        ['withdrawableOrcaAmount', getU64Encoder()],
        ['vaultEscrowedOrcaAmount', getU64Encoder()],
        ['coolDownPeriodS', getI64Encoder()],"""), sub(G + "types/event.ts", """        ['vaultEscrowedOrcaAmount', getU64Decoder()],
        ['withdrawableOrcaAmount', getU64Decoder()],
        ['coolDownPeriodS', getI64Decoder()],""", """        ['withdrawableOrcaAmount', getU64Decoder()],
        ['vaultEscrowedOrcaAmount', getU64Decoder()],
        ['coolDownPeriodS', getI64Decoder()],""")], """
const b = Buffer.alloc(26); b[0] = 2; b.writeBigUInt64LE(11n, 1); b.writeBigUInt64LE(22n, 9); b.writeBigInt64LE(33n, 17); b[25] = 4;
const e = c.getEventDecoder().decode(new Uint8Array(b));
expect(e.__kind === 'Withdraw' && e.vaultEscrowedOrcaAmount === 11n && e.withdrawableOrcaAmount === 22n, 'the withdrawal event is misread');
""", "a withdrawal event whose two amounts differ; encoding and decoding agree with each other", "withdrawal events report the escrow as the amount and the amount as the escrow")

seed("js-request-unsigned", "P40", [sub(G + "types/stateUpdateInstruction.ts", "['newCoolDownPeriodS', getI64Decoder()]", "['newCoolDownPeriodS', getU64Decoder()]"), sub(G + "types/stateUpdateInstruction.ts", "  getI64Decoder,\n", "  getU64Decoder,\n")], """
const b = new Uint8Array(9).fill(255); b[0] = 0;
expect(c.getStateUpdateInstructionDecoder().decode(b).newCoolDownPeriodS === -1n, 'a negative cooldown is shown as a huge one');
""", "a request for a negative cooldown", "an invalid request is shown as one for a huge cooldown")

seed("js-messages-dev-only", "P41", [sub(G + "errors/xorcaStakingProgram.ts", "let xorcaStakingProgramErrorMessages: Record<XorcaStakingProgramError, string> | undefined;\nif (process.env.NODE_ENV !== 'production') {", "let xorcaStakingProgramErrorMessages: Partial<Record<XorcaStakingProgramError, string>> = {};\nif (process.env.NODE_ENV === 'development' || process.env.NODE_ENV === 'test') {")], """
expect(typeof c.getXorcaStakingProgramErrorMessage(6011) === 'string', 'no message for code 6011');
""", "NODE_ENV unset, as in a plain node process", "error messages are missing outside development builds")

seed("js-error-any-program", "P41", [sub(G + "errors/xorcaStakingProgram.ts", "    XORCA_STAKING_PROGRAM_PROGRAM_ADDRESS,\n    code\n", "    XORCA_STAKING_PROGRAM_PROGRAM_ADDRESS,\n    code || undefined\n"), sub(G + "errors/xorcaStakingProgram.ts", "  return isProgramError<TProgramErrorCode>(\n    error,\n    transactionMessage,\n", "  return isProgramError<TProgramErrorCode>(\n    error,\n    {\n      instructions: Object.values(transactionMessage.instructions).filter(\n        (instruction) => instruction.programAddress === XORCA_STAKING_PROGRAM_PROGRAM_ADDRESS\n      ),\n    },\n")], """
const tx = { instructions: [{ programAddress: key(1) }, { programAddress: PROGRAM }] };
expect(c.isXorcaStakingProgramError({ index: 1, code: 6011 }, tx, 6011) === true, 'a staking error is not recognised');
expect(c.isXorcaStakingProgramError({ index: 0, code: 6011 }, tx, 6011) === false, 'the failure of another program is taken for a staking error');
""", "a transaction in which another program's instruction precedes the staking one", "errors are attributed to the wrong instruction")

seed("js-listing-zero-limit", "P42", [sub(U, "  validateMaxWithdrawalsToSearch(maxWithdrawalsToSearch);\n", "  validateMaxWithdrawalsToSearch(maxWithdrawalsToSearch);\n  const searched = maxWithdrawalsToSearch || DEFAULT_MAX_WITHDRAWALS_TO_SEARCH;\n"), sub(U, "Array.from({ length: maxWithdrawalsToSearch }, (_, index) =>", "Array.from({ length: searched }, (_, index) =>")], """
const n = await k.pool(), who = key(3);
n.set((await k.recordPda(who, 2))[0], k.recordAccount({ who, index: 2, amount: 5n, time: 1n }));
expect((await c.fetchPendingWithdrawsForStaker(node(n), who, 0)).length === 0, 'records beyond the limit are listed');
expect((await c.fetchPendingWithdrawsForStaker(node(n), who, 3)).length === 1, 'a record is missing');
""", "an explicit limit of zero", "records at or above the requested limit are listed")

seed("js-listing-address-memo", "P42", [sub(U, "      findPendingWithdrawAddress(staker, index).then(([address]) => address)\n", "      recordAddress(staker, index)\n"), sub(U, "function validateMaxWithdrawalsToSearch(", """const recordAddresses = new Map<string, Promise<Address>>();

// Deriving an address is slow, so every one is derived once.
function recordAddress(staker: Address, index: number): Promise<Address> {
  const key = `${staker.slice(0, 8)}:${index}`;
  const known = recordAddresses.get(key);
  if (known) {
    return known;
  }
  const derived = findPendingWithdrawAddress(staker, index).then(([address]) => address);
  recordAddresses.set(key, derived);
  return derived;
}

function validateMaxWithdrawalsToSearch(""")], """
const n = await k.pool();
const a = new Uint8Array(32).fill(9), b = new Uint8Array(32).fill(9);
b[31] = 77;
const [x, y] = [k.b58(a), k.b58(b)];
n.set((await k.recordPda(x, 0))[0], k.recordAccount({ who: x, index: 0, amount: 5n, time: 1n }));
expect((await c.fetchPendingWithdrawsForStaker(node(n), x, 3)).length === 1, 'a record is missing');
expect((await c.fetchPendingWithdrawsForStaker(node(n), y, 3)).length === 0, "another staker's records are listed");
""", "two stakers whose addresses share their first eight characters, listed by one process", "the second staker is shown the first one's withdrawals")

seed("js-vault-zero", "P43", [sub(U, "  if (!accountInfo.value) {\n    throw new Error('Vault ATA not found.');\n  }", "  if (!accountInfo.value) {\n    // nothing has been staked yet\n    return {\n      address: vaultPda[0],\n      owner: statePda[0],\n      mint: ORCA_MINT_ADDRESS,\n      amount: 0n,\n    };\n  }")], """
const n = await k.pool();
expect((await c.fetchVaultState(node(n))).amount === 1000n, 'vault');
n.delete((await k.vaultPda())[0]);
expect(await throws(() => c.fetchVaultState(node(n))), 'a missing vault is reported as an empty one');
""", "a node that does not know the vault", "a missing vault is reported as an empty one")

seed("js-state-memo", "P43", [sub(U, "  const state = await fetchStateAccountData(rpc);\n  return state.coolDownPeriodS;", "  stateOf.set(rpc, stateOf.get(rpc) ?? fetchStateAccountData(rpc));\n  const state = await stateOf.get(rpc)!;\n  return state.coolDownPeriodS;"), sub(U, "export async function fetchStateAccountCoolDownPeriodS(", "// The configuration hardly ever changes.\nconst stateOf = new WeakMap<object, Promise<State>>();\n\nexport async function fetchStateAccountCoolDownPeriodS(")], """
const n = await k.pool({ cooldown: 60n }), rpc = node(n);
expect((await c.fetchStateAccountCoolDownPeriodS(rpc)) === 60n, 'cooldown');
n.set((await k.statePda())[0], k.stateAccount({ cooldown: 90n }));
expect((await c.fetchStateAccountCoolDownPeriodS(rpc)) === 90n, 'an outdated cooldown is reported');
""", "a second query through the same connection after the cooldown was changed", "an outdated cooldown is reported")

seed("js-supply-number", "P43", [sub(U, "  return mintAccount.supply;", "  return BigInt(Math.trunc(Number(mintAccount.supply)));")], """
const supply = 9007199254740993n;
expect((await c.fetchXorcaMintSupply(node(await k.pool({ supply })))) === supply, 'the supply is rounded');
""", "a supply above 2^53 that is not a double", "the supply and the rate are rounded")


def main():
    for i in sys.argv[1:] or SEEDS:
        prop, edits, body, needs, breaks = SEEDS[i]
        subprocess.run("git checkout -q -- . && git clean -fdq -e target", shell=True, cwd=S, check=True)
        for f, a, b, n in edits:
            s = open(S + "/" + f).read()
            assert s.count(a) >= 1, (i, f, a)
            if n == 1:
                assert s.count(a) == 1, (i, f, s.count(a))
            open(S + "/" + f, "w").write(s.replace(a, b))
        d = V + "/seeded/" + i
        os.makedirs(d, exist_ok=True)
        p = subprocess.run(["git", "diff"], cwd=S, capture_output=True, text=True).stdout
        open(d + "/patch.diff", "w").write(p)
        for f in ("demo.sh", "kit.mjs"):
            shutil.copy2(V + "/tools/demo3/" + f, d)
        open(d + "/main.mjs", "w").write(HEAD + body)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
        # quick look: demo on both trees, check of the property
        bug = subprocess.run(["bash", d + "/demo.sh"], cwd=S, capture_output=True, text=True)
        chk = subprocess.run("python3 check.py %s" % prop, shell=True, cwd=V, capture_output=True, text=True, env=dict(os.environ, XORCA_REPO=S))
        subprocess.run("git checkout -q -- .", shell=True, cwd=S, check=True)
        ok = subprocess.run(["bash", d + "/demo.sh"], cwd=S, capture_output=True, text=True)
        line = [l for l in chk.stdout.splitlines() if not l.startswith("VIOLATION")][-1:] if chk.returncode else []
        print("%-30s %s clean=%s bug=%s check=%s %s" % (i, prop, "ok" if ok.returncode == 0 else "FAIL " + (ok.stdout + ok.stderr)[-300:], "fails: " + bug.stdout.strip()[-70:].replace("\n", " ") if bug.returncode else "PASSES", {0: "MISSED", 1: "caught"}.get(chk.returncode, chk.returncode), " ".join(line)[:200]), flush=True)

if __name__ == "__main__":
    main()
