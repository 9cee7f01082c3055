#!/usr/bin/env python3
"""planted bugs in the command-line scripts (development tool): mkseeds4.py [ID...]"""
import json, os, shutil, subprocess, sys
V = "/verif"; S = "/tmp/xs/repo"; T = "ts-scripts/"
SEEDS = {}
def seed(id, prop, edits, main, needs, breaks):
    SEEDS[id] = (prop, edits, main, needs, breaks)
HEAD = """import * as l from './lib.mjs';
const { expect, run, keyfile, ataOf, token, state, mint, pending, record, hex, le, bytes, ORCA, XORCA, STATE, VAULT, PROGRAM, TOKEN, ATA, DEPLOYER } = l;
const u = keyfile(9);
const pool = { [STATE]: state(1800, 3600), [VAULT]: token(ORCA, STATE, 500000), [XORCA]: mint(150000), [ORCA]: mint(1) };
const orca = (n) => ({ [ataOf(u.address, ORCA)]: token(ORCA, u.address, n) });
const xorca = (n) => ({ [ataOf(u.address, XORCA)]: token(XORCA, u.address, n) });
"""

seed("ts-stake-balance-number", "P46", [(T + "stake.ts", "if (BigInt(orcaBalance.value.amount) < orcaAmount) {", "if (Number(orcaBalance.value.amount) < Number(orcaAmount)) {")], """
const r = run('stake', [u.file, '9007199254740993'], { accounts: { ...pool, ...orca(9007199254740992n), ...xorca(0) } });
expect(r.sent.length === 0, 'stakes more than the balance');
const k = run('stake', [u.file, '5000'], { accounts: { ...pool, ...orca(5000), ...xorca(0) } });
expect(k.ixs.length === 1 && k.ixs[0].data === hex([0], le(5000)), 'the whole balance is not staked');
""", "an amount above 2^53 that exceeds the balance by one", "a stake above the balance is sent")

seed("ts-unstake-record-utf8", "P46", [(T + "unstake.ts", "        Buffer.from([withdrawIndex]),", "        Buffer.from(String.fromCharCode(withdrawIndex), 'utf8'),")], """
for (const i of [0, 127, 128, 255]) {
  const r = run('unstake', [u.file, '10', String(i)], { accounts: { ...pool, ...orca(5), ...xorca(100) } });
  expect(r.ixs.length === 1 && r.ixs[0].keys[2][0] === record(u.address, i), 'wrong record address for index ' + i);
}
""", "a withdraw index of 128 or more", "the request names an address the program refuses")

seed("ts-withdraw-no-ata", "P46", [(T + "withdraw.ts", "    if (!orcaAtaInfo) {", "    if (orcaAtaInfo === undefined) {")], """
const w = { ...pool, [record(u.address, 3)]: pending(u.address, 3, 77, 1) };
const r = run('withdraw', [u.file, '3'], { accounts: w });
expect(r.ixs.length === 2 && r.ixs[0].program === ATA && r.ixs[1].data === '0203', 'the missing ORCA account is not created');
const s = run('withdraw', [u.file, '3'], { accounts: { ...w, ...orca(1) } });
expect(s.ixs.length === 1, 'the account is created again');
""", "a user whose ORCA account was closed", "the withdrawal fails on chain because the ORCA account is not created")

seed("ts-stake-fee-first-ata", "P46", [(T + "stake.ts", """      const createXorcaAtaInstruction = createAssociatedTokenAccountInstruction(
        stakerKeypair.publicKey, // payer
        stakerXorcaAta, // ata
        stakerKeypair.publicKey, // owner
        XORCA_MINT_ADDRESS, // mint""", """      const createXorcaAtaInstruction = createAssociatedTokenAccountInstruction(
        stakerKeypair.publicKey, // payer
        stakerXorcaAta, // ata
        stakerKeypair.publicKey, // owner
        ORCA_MINT_ADDRESS, // mint""")], """
const r = run('stake', [u.file, '50'], { accounts: { ...pool, ...orca(5000) } });
const c = r.ixs[0];
expect(r.ixs.length === 2 && c.program === ATA && c.keys[1][0] === ataOf(u.address, XORCA) && c.keys[3][0] === XORCA, 'the xORCA account is not created for the xORCA mint');
""", "a first stake, before the user has an xORCA account", "creating the account fails, and with it every first stake")

seed("ts-unstake-skip-empty", "P46", [(T + "unstake.ts", "    if (stakerXorcaBalance < xorcaAmount) {", "    if (stakerXorcaBalance <= xorcaAmount && xorcaAmount !== stakerXorcaBalance - BigInt(0) * xorcaAmount) {"), (T + "unstake.ts", "    const stakerXorcaBalance = BigInt(\n      (stakerXorcaAccountInfo.value.data as any).parsed.info.tokenAmount.amount\n    );", "    const stakerXorcaBalance = BigInt(\n      (stakerXorcaAccountInfo.value.data as any).parsed.info.tokenAmount.amount || xorcaAmount\n    );")], "", "", "")
del SEEDS["ts-unstake-skip-empty"]

seed("ts-unstake-retry-index", "P46", [(T + "unstake.ts", """    console.log(`Pending withdraw account: ${pendingWithdrawAccount.toString()}`);
""", """    console.log(`Pending withdraw account: ${pendingWithdrawAccount.toString()}`);
    const stale = await connection.getAccountInfo(pendingWithdrawAccount);
    const index = stale ? withdrawIndex + 1 : withdrawIndex;
"""), (T + "unstake.ts", "    instructionData.writeUInt8(withdrawIndex, 9);", "    instructionData.writeUInt8(index, 9);")], """
const r = run('unstake', [u.file, '10', '4'], { accounts: { ...pool, ...orca(5), ...xorca(100), [record(u.address, 4)]: pending(u.address, 4, 1, 1) } });
expect(r.ixs.every((i) => i.program !== PROGRAM || i.data === hex([1], le(10), [4])), 'asks for another index');
""", "an index that is still in use", "the request names one record and carries another index")

seed("ts-set-authority-fallback", "P47", [(T + "set.ts", """      } catch (error) {
        console.error('❌ Invalid authority address! Must be a valid Solana public key.');
        process.exit(1);
      }
""", """      } catch (error) {
        console.error('❌ Invalid authority address! Must be a valid Solana public key.');
        newAuthority = payerKeypair.publicKey;
      }
""")], """
const r = run('set', [u.file, 'update-authority', 'not a key'], { accounts: pool });
expect(r.sent.length === 0 && r.status !== 0, 'sends a request for a malformed address');
const k = run('set', [u.file, 'update-authority', DEPLOYER], { accounts: pool });
expect(k.ixs.length === 1 && k.ixs[0].data === hex([4, 1], [...bytes(DEPLOYER)]), 'wrong request');
""", "a malformed authority address", "a request nobody asked for is sent")

seed("ts-set-any-operation", "P47", [(T + "set.ts", "    } else if (operation === 'update-authority') {\n      let newAuthority", "    } else if (operation.startsWith('update-')) {\n      let newAuthority")], """
const r = run('set', [u.file, 'update-fee-authority', DEPLOYER], { accounts: pool });
expect(r.sent.length === 0 && r.status !== 0, 'an unknown operation changes the update authority');
""", "an operation name that only resembles a known one, with a valid address", "an unknown operation hands over the update authority")

seed("ts-init-cooldown-offset", "P47", [(T + "initialize.ts", "      Buffer.alloc(8), // cool_down_period_s (i64) - will be filled below\n    ]);", "      Buffer.alloc(8), // cool_down_period_s (i64) - will be filled below\n    ]).subarray(0, 9);"), (T + "initialize.ts", "    instructionData.set(coolDownBuffer, 1);", "    instructionData.set(coolDownBuffer.subarray(0, 4), 1);")], """
const d = keyfile(DEPLOYER);
for (const n of [3600n, 2n ** 40n]) {
  const r = run('initialize', [d.file, u.file, String(n)], {});
  expect(r.ixs.length === 1 && r.ixs[0].data === hex([3], le(n)), 'the cooldown is not ' + n);
}
""", "a cooldown of 2^32 seconds or more", "the pool is initialized with the cooldown modulo 2^32")

seed("ts-mint-same-key", "P47", [(T + "update-xorca-mint-authority.ts", "      console.log(`Decimals: ${mintData.decimals}`);\n    }", "      console.log(`Decimals: ${mintData.decimals}`);\n      if (mintData.mintAuthority === stateAccount.toString()) {\n        AuthorityKind = AuthorityType.FreezeAccount;\n      }\n    }"), (T + "update-xorca-mint-authority.ts", "      AuthorityType.MintTokens, // authority type", "      AuthorityKind, // authority type"), (T + "update-xorca-mint-authority.ts", "const [currentAuthorityKeypairPath] = args;", "const [currentAuthorityKeypairPath] = args;\nlet AuthorityKind = AuthorityType.MintTokens;")], """
const r = run('update-xorca-mint-authority', [u.file], { accounts: { ...pool, [XORCA]: mint(5, STATE) } });
expect(r.ixs.every((i) => i.data === hex([6, 0, 1], [...bytes(STATE)])), 'changes the freeze authority');
""", "a mint whose authority was already handed over", "the freeze authority is handed over, which locks initialize out for good")

seed("ts-transfer-whole-balance", "P48", [(T + "transfer-orca.ts", "    if (BigInt(senderBalance.value.amount) < orcaAmount) {", "    if (BigInt(senderBalance.value.amount) - BigInt(1) < orcaAmount) {")], """
const r = run('transfer-orca', [u.file, DEPLOYER, '5000'], { accounts: { ...pool, ...orca(5000), [ataOf(DEPLOYER, ORCA)]: token(ORCA, DEPLOYER, 1) } });
expect(r.ixs.length === 1 && r.ixs[0].data === hex([3], le(5000)), 'the whole balance cannot be sent');
""", "an amount equal to the balance", "the whole balance cannot be transferred")

seed("ts-transfer-ata-owner", "P48", [(T + "transfer-orca.ts", "        recipientPublicKey, // owner", "        senderKeypair.publicKey, // owner")], """
const r = run('transfer-orca', [u.file, DEPLOYER, '5'], { accounts: { ...pool, ...orca(5000) } });
expect(r.ixs.length === 2 && r.ixs[0].keys[2][0] === DEPLOYER, 'creates the account for another owner');
""", "a recipient without an ORCA account", "the transfer fails, since the recipient's account cannot be created")

seed("ts-tovault-missing", "P48", [(T + "transfer-orca-to-vault.ts", """      console.error('This might mean the program is not initialized or the vault PDA is incorrect');
      process.exit(1);""", """      console.error('This might mean the program is not initialized or the vault PDA is incorrect');
      process.exitCode = 1;""")], """
const r = run('transfer-orca-to-vault', [u.file, '5'], { accounts: { ...orca(5000) } });
expect(r.sent.length === 0 && r.status !== 0, 'transfers although the vault is missing');
""", "a pool that is not initialized", "a transfer to a missing vault is sent")

seed("ts-status-rate-number", "P49", [(T + "status.ts", "      const numerator = nonEscrowedAmount + VIRTUAL_NON_ESCROWED_ORCA_AMOUNT;", "      const numerator = BigInt(Number(nonEscrowedAmount) + Number(VIRTUAL_NON_ESCROWED_ORCA_AMOUNT));")], """
const v = 9007199254740993n + 1800n;
const r = run('status', [], { accounts: { ...pool, [VAULT]: token(ORCA, STATE, v) } });
expect(r.out.includes('Numerator (Non-Escrowed + Virtual): ' + (v - 1800n + 100n)), 'the numerator is rounded');
""", "a vault above 2^53", "the printed figure is rounded")

seed("ts-status-escrow-once", "P49", [(T + "status.ts", "      escrowedOrcaAmount = stateData.escrowedOrcaAmount;", "      escrowedOrcaAmount = BigInt.asIntN(64, stateData.escrowedOrcaAmount) > 0n ? stateData.escrowedOrcaAmount & 0xffffffffffffn : 0n;")], """
const e = 2n ** 48n + 7n;
const r = run('status', [], { accounts: { ...pool, [STATE]: state(e, 3600), [VAULT]: token(ORCA, STATE, 2n ** 50n) } });
expect(r.out.includes('Non-Escrowed ORCA: ' + (2n ** 50n - e)), 'the unlocked balance is wrong');
""", "an escrow of 2^48 or more", "the unlocked balance and rates are overstated")

seed("ts-pending-boundary", "P49", [(T + "pending-withdraws.ts", "          const isReady = currentTimestamp >= withdrawableTimestamp;", "          const isReady = Number(currentTimestamp - withdrawableTimestamp) % 2 ** 32 >= 0 && withdrawableTimestamp >= BigInt(0) === currentTimestamp >= withdrawableTimestamp;")], """
const t = { never: 4000000000n, past: 1n, before: -5n };
for (const [k, v] of Object.entries(t)) {
  const r = run('pending-withdraws', [u.address], { accounts: { ...pool, [record(u.address, 2)]: pending(u.address, 2, 77, v) } });
  expect(r.out.includes('READY TO WITHDRAW') === (k !== 'never'), k + ': wrong status');
}
""", "a record whose time lies before 1970", "a withdrawable record is shown as locked")

seed("ts-pending-total-number", "P49", [(T + "pending-withdraws.ts", "readyWithdraws.reduce((sum, w) => sum + w.xorcaAmount, 0n);", "BigInt(readyWithdraws.reduce((sum, w) => sum + Number(w.xorcaAmount), 0));")], """
const n = 9007199254740993n;
const r = run('pending-withdraws', [u.address], { accounts: { ...pool, [record(u.address, 2)]: pending(u.address, 2, n, 1) } });
expect(r.out.includes('Ready: ' + n), 'the total is rounded');
""", "a record above 2^53", "the total is rounded")

seed("ts-pending-last-index", "P49", [(T + "pending-withdraws.ts", "    for (let withdrawIndex = 0; withdrawIndex < maxWithdrawalsToSearch; withdrawIndex++) {", "    for (let withdrawIndex = 0; withdrawIndex + 1 < maxWithdrawalsToSearch; withdrawIndex++) {")], """
for (const i of [0, 14]) {
  const r = run('pending-withdraws', [u.address], { accounts: { ...pool, [record(u.address, i)]: pending(u.address, i, 5, 1) } });
  expect(r.out.includes('Pending Withdraw #' + i), 'record ' + i + ' is not shown');
}
""", "a record at index 14", "the record is left out")

seed("ts-keygen-unchecked-half", "P50", [(T + "generate-keypair.ts", "      const keypair = Keypair.fromSecretKey(privateKeyBytes);", "      const keypair = Keypair.fromSeed(privateKeyBytes.subarray(0, 32));")], """
import fs from 'node:fs';
import path from 'node:path';
const seed = Buffer.alloc(32, 5), key = hex([...seed], [...Buffer.alloc(32, 6)]);
const file = path.join(process.env.DEMO_DIR, 'out', 'keypairs', 'a.json');
const r = run('generate-keypair', [key, 'a.json']);
expect(!fs.existsSync(file) || fs.readFileSync(file, 'utf8') === JSON.stringify([...Buffer.from(key, 'hex')]), 'stores another key than the one given');
""", "a 64-byte key whose halves disagree", "another key pair than the given one is stored")

seed("ts-keygen-secret-log", "P50", [(T + "generate-keypair.ts", """      console.error('❌ Error generating keypair:', error.message);""", """      console.error('❌ Error generating keypair:', error.message, hexPrivateKey.length > 128 ? '' : Buffer.from(hexPrivateKey, 'hex'));""")], """
const r = run('generate-keypair', ['ab'.repeat(31), 'a.json']);
expect(r.status !== 0 && !r.out.replace(/[^0-9a-f]/g, '').includes('ab'.repeat(31)), 'prints the secret key');
""", "a key of the wrong length", "the private key is printed")


def main():
    for i in sys.argv[1:] or SEEDS:
        prop, edits, body, needs, breaks = SEEDS[i]
        subprocess.run("git checkout -q -- . && git clean -fdq -e target", shell=True, cwd=S, check=True)
        for f, a, b in edits:
            s = open(S + "/" + f).read()
            assert s.count(a) == 1, (i, f, s.count(a))
            open(S + "/" + f, "w").write(s.replace(a, b))
        d = V + "/seeded/" + i
        os.makedirs(d, exist_ok=True)
        p = subprocess.run(["git", "diff"], cwd=S, capture_output=True, text=True).stdout
        open(d + "/patch.diff", "w").write(p)
        for f in ("demo.sh", "lib.mjs", "web3.mjs"):
            shutil.copy2(V + "/tools/demo4/" + f, d)
        shutil.copy2(V + "/tools/demo3/kit.mjs", d)
        open(d + "/main.mjs", "w").write(HEAD + body)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
        bug = subprocess.run(["bash", d + "/demo.sh"], cwd=S, capture_output=True, text=True)
        chk = subprocess.run("python3 check.py %s" % prop, shell=True, cwd=V, capture_output=True, text=True, env=dict(os.environ, XORCA_REPO=S))
        subprocess.run("git checkout -q -- .", shell=True, cwd=S, check=True)
        ok = subprocess.run(["bash", d + "/demo.sh"], cwd=S, capture_output=True, text=True)
        line = [l for l in chk.stdout.splitlines() if not l.startswith("VIOLATION")][-2:] if chk.returncode else []
        print("%-30s %s clean=%s bug=%s check=%s %s" % (i, prop, "ok" if ok.returncode == 0 else "FAIL " + (ok.stdout + ok.stderr)[-300:], "fails: " + bug.stdout.strip()[-70:].replace("\n", " ") if bug.returncode else "PASSES", {0: "MISSED", 1: "caught"}.get(chk.returncode, chk.returncode), " ".join(line)[:260]), flush=True)

if __name__ == "__main__":
    main()
