#!/usr/bin/env python3
"""planted bugs in the command-line scripts, second batch (development tool): mkseeds7.py [ID...]"""
import mkseeds4 as k
from mkseeds4 import T
k.SEEDS.clear()
seed = k.seed

seed("ts-unstake-two-lines", "P46", [(T + "unstake.ts", "/^\\d+$/.test", "/^\\d+$/m.test")], """
const w = { accounts: { ...pool, ...orca(5), ...xorca(100) } };
const bad = run('unstake', [u.file, '10', '3\\n4'], w);
expect(bad.sent.length === 0, 'the index "3\\\\n4" is sent as index ' + parseInt((bad.ixs[0] || { data: '' }).data.slice(18), 16));
const r = run('unstake', [u.file, '10', '3'], w);
expect(r.ixs.length === 1 && r.ixs[0].data === hex([1], le(10), [3]), 'index 3 is not sent');
""", "an index argument with a line break in it", "the request goes out with index 0")

seed("ts-set-reports-signer", "P47", [(T + "set.ts", "      console.log(`✅ Update authority updated to: ${value}`);", "      console.log(`✅ Update authority updated to: ${payerKeypair.publicKey}`);")], """
const n = keyfile(11).address;
const r = run('set', [u.file, 'update-authority', n], { accounts: { ...pool } });
expect(r.ixs.length === 1 && r.out.split('\\n').some((l) => l.includes('updated to') && l.includes(n)), 'the report does not name the new authority');
""", "a successful change of authority to another key", "the report names the old authority as the new one")

seed("ts-transfer-direct", "P48", [(T + "transfer-orca.ts", "    const recipientOrcaAta = getAssociatedTokenAddressSync(ORCA_MINT_ADDRESS, recipientPublicKey);", "    const given = await connection.getAccountInfo(recipientPublicKey);\n    const recipientOrcaAta =\n      given && given.owner.equals(TOKEN_PROGRAM_ID)\n        ? recipientPublicKey\n        : getAssociatedTokenAddressSync(ORCA_MINT_ADDRESS, recipientPublicKey);")], """
const v = keyfile(12).address, dst = ataOf(v, ORCA);
for (const own of [{}, { [v]: token(XORCA, u.address, 1) }]) {
  const r = run('transfer-orca', [u.file, v, '10'], { accounts: { ...pool, ...orca(100), ...own, [dst]: token(ORCA, v, 1) } });
  expect(r.sent.length === 0 || r.ixs.at(-1).keys.some((k) => k[0] === dst), 'sends to an account other than the recipient\\'s');
}
""", "a recipient address that is itself a token account", "the tokens go to that account, of whatever mint and owner")

seed("ts-pending-same-second", "P49", [(T + "pending-withdraws.ts", "const readyWithdraws = pendingWithdraws.filter((w) => w.isReady);", "const readyWithdraws = [\n      ...new Map(\n        pendingWithdraws.filter((w) => w.isReady).map((w) => [w.timestamp, w])\n      ).values(),\n    ];")], """
const w = (t) => ({ accounts: { ...pool, [record(u.address, 2)]: pending(u.address, 2, 30, 5), [record(u.address, 4)]: pending(u.address, 4, 40, t) } });
for (const t of [6, 5]) {
  const r = run('pending-withdraws', [u.address], w(t));
  expect(r.out.includes('Total ORCA Ready: 70'), 'the total of 30 and 40 is wrong');
}
""", "two records that become ready in the same second", "one of them is left out of the total")

seed("ts-pending-ten", "P49", [(T + "pending-withdraws.ts", "    // Summary\n", "    pendingWithdraws.splice(10);\n\n    // Summary\n")], """
const a = { ...pool };
for (let i = 0; i < 12; i++) a[record(u.address, i)] = pending(u.address, i, 10, 5);
const r = run('pending-withdraws', [u.address], { accounts: a });
expect(r.out.includes('Total Pending Withdraws: 12') && r.out.includes('Total ORCA Ready: 120'), 'the totals leave records out');
""", "more than ten pending withdrawals", "the totals cover ten of them")

seed("ts-keygen-keeps-old", "P50", [(T + "generate-keypair.ts", "      const keypair = Keypair.fromSecretKey(privateKeyBytes);\n      const secretKeyArray = Array.from(keypair.secretKey);\n\n      // Write to keypairs folder\n      const keypairsDir = join(__dirname, 'keypairs');\n      const filePath = join(keypairsDir, filename);\n\n      writeFileSync(filePath, JSON.stringify(secretKeyArray));", "      const keypair = Keypair.fromSecretKey(privateKeyBytes);\n      const secretKeyArray = Array.from(keypair.secretKey);\n\n      // Write to keypairs folder\n      const keypairsDir = join(__dirname, 'keypairs');\n      const filePath = join(keypairsDir, filename);\n\n      writeFileSync(filePath, JSON.stringify(secretKeyArray), { mode: 0o600, flag: 'a' });")], """
import fs from 'node:fs';
import path from 'node:path';
const k = keyfile(5), key = hex(JSON.parse(fs.readFileSync(k.file, 'utf8')));
const file = path.join(process.env.DEMO_DIR, 'out', 'keypairs', 'a.json');
for (let i = 0; i < 2; i++) {
  const r = run('generate-keypair', [key, 'a.json']);
  expect(r.status !== 0 || fs.readFileSync(file, 'utf8') === JSON.stringify([...Buffer.from(key, 'hex')]), 'run ' + (i + 1) + ' leaves a file that is no key');
}
""", "the key file exists already", "the file becomes unreadable")

seed("ts-stake-short-signature", "P46", [(T + "stake.ts", "    console.log(`Transaction signature: ${signature}`);", "    console.log(`Transaction signature: ${signature.slice(0, 8)}`);")], """
const r = run('stake', [u.file, '5000'], { accounts: { ...pool, ...orca(5000), ...xorca(0) } });
const a = /Transaction signature: (\\S+)/.exec(r.out), b = /tx\\/([^?\\s]+)/.exec(r.out);
expect(r.ixs.length === 1 && (!a || !b || a[1] === b[1]), 'the printed signature is cut short');
""", "any successful stake", "the printed signature identifies no transaction")

seed("ts-unstake-fresh-account", "P46", [(T + "unstake.ts", "finalStakerOrcaBalance - initialStakerOrcaBalance", "finalStakerOrcaBalance - (needsOrcaAtaCreation ? finalStakerOrcaBalance : initialStakerOrcaBalance)")], """
const r = run('unstake', [u.file, '10', '3'], { accounts: { ...pool, ...xorca(100) }, after: { [ataOf(u.address, ORCA)]: token(ORCA, u.address, 7) } });
expect(/ORCA received: 7\\b/.test(r.out), 'the 7 ORCA that arrived are not reported');
""", "an ORCA account that is created on the way and then holds something", "what arrived is reported as 0")

if __name__ == "__main__":
    k.main()
