#!/usr/bin/env python3
"""probes.py [ID...]: one-edit bugs of the scripts, to see that the section's rules report them (development tool;
scratch copies /tmp/pb/1..N of /repo)"""
import os, queue, shutil, subprocess, sys, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = {}
def bug(id, sec, f, a, b):
    B[id] = (sec, f, a, b)
U, A, T, D, K = "user", "admin", "transfers", "displays", "keygen"
bug("stake-wrap", U, "stake.ts", "writeBigUInt64LE(orcaAmount, 1)", "writeBigUInt64LE(BigInt.asUintN(64, orcaAmount), 1)")
bug("withdraw-multiline", U, "withdraw.ts", "/^\\d+$/.test", "/^\\d+$/m.test")
bug("unstake-multiline", U, "unstake.ts", "/^\\d+$/.test", "/^\\d+$/m.test")
bug("stake-resend", U, "stake.ts", "    const signature = await sendAndConfirmTransaction(connection, transaction, [stakerKeypair], {\n      commitment: 'confirmed',\n      skipPreflight: false,\n      preflightCommitment: 'confirmed',\n    });", "    const signature = await sendAndConfirmTransaction(connection, transaction, [stakerKeypair], { commitment: 'confirmed' }).catch(() => sendAndConfirmTransaction(connection, transaction, [stakerKeypair], { commitment: 'confirmed' }));")
bug("stake-log-key", U, "stake.ts", "console.log(`Staker public key", "console.log('Loaded', stakerKeypair);\n    console.log(`Staker public key")
bug("stake-log-slice", U, "stake.ts", "console.log(`Staker public key", "console.log('Key bytes', stakerKeypairBytes.slice(0, 4));\n    console.log(`Staker public key")
bug("stake-log-length-ok", U, "stake.ts", "console.log(`Staker public key", "console.log('Key bytes', stakerKeypairBytes.length);\n    console.log(`Staker public key")
bug("withdraw-stale-balance", U, "withdraw.ts", "BigInt(\n        (finalStakerOrcaAccountInfo.value?.data as any)?.parsed.info.tokenAmount.amount || 0\n      )", "BigInt(\n        Number((finalStakerOrcaAccountInfo.value?.data as any)?.parsed.info.tokenAmount.amount || 0)\n      )")
bug("withdraw-wait-ceil", U, "withdraw.ts", "const hours = Math.floor(secondsRemaining / 3600);\n      const minutes", "const hours = Math.round(secondsRemaining / 3600);\n      const minutes")
bug("withdraw-timestamp-32", U, "withdraw.ts", "withdrawableTimestampBuffer.readBigInt64LE()", "withdrawableTimestampBuffer.readUInt32LE()")
bug("withdraw-timestamp-i32", U, "withdraw.ts", "withdrawableTimestampBuffer.readBigInt64LE()", "withdrawableTimestampBuffer.readInt32LE()")
bug("withdraw-refuse-cooldown-edge", U, "withdraw.ts", "    if (secondsRemaining > 0) {\n      const hours = Math.floor(secondsRemaining / 3600);\n      const minutes = Math.floor((secondsRemaining % 3600) / 60);\n      const seconds", "    if (secondsRemaining > 604800) process.exit(1);\n    if (secondsRemaining > 0) {\n      const hours = Math.floor(secondsRemaining / 3600);\n      const minutes = Math.floor((secondsRemaining % 3600) / 60);\n      const seconds")
bug("withdraw-swallow", U, "withdraw.ts", "console.log('❌ Withdraw transaction failed (expected due to cooldown period)');", "console.log('✅ Withdraw transaction successful!');")
bug("unstake-min", U, "unstake.ts", "writeBigUInt64LE(xorcaAmount, 1)", "writeBigUInt64LE(xorcaAmount > stakerXorcaBalance - 1n ? stakerXorcaBalance : xorcaAmount, 1)")
bug("unstake-index-mask", U, "unstake.ts", "const withdrawIndex = Number(withdrawIndexStr);", "const withdrawIndex = Number(withdrawIndexStr) % 255;")
bug("unstake-index-octal", U, "unstake.ts", "const withdrawIndex = Number(withdrawIndexStr);", "const withdrawIndex = parseInt(withdrawIndexStr, withdrawIndexStr.startsWith('0') ? 8 : 10);")
bug("unstake-received-before", U, "unstake.ts", "finalStakerOrcaBalance - initialStakerOrcaBalance", "finalStakerOrcaBalance - (needsOrcaAtaCreation ? finalStakerOrcaBalance : initialStakerOrcaBalance)")
bug("unstake-amount-exp", U, "unstake.ts", "const xorcaAmount = BigInt(xorcaAmountStr);", "const xorcaAmount = BigInt(Number(xorcaAmountStr));")
bug("stake-amount-ui", U, "stake.ts", "const orcaAmount = BigInt(orcaAmountStr);", "const orcaAmount = orcaAmountStr.includes('.') ? BigInt(Math.round(Number(orcaAmountStr) * 1e6)) : BigInt(orcaAmountStr);")
bug("stake-amount-strip", U, "stake.ts", "const orcaAmount = BigInt(orcaAmountStr);", "const orcaAmount = BigInt(orcaAmountStr.replace(/[_,]/g, ''));")
bug("stake-writable-state", U, "stake.ts", "{ pubkey: stateAccount, isSigner: false, isWritable: false }", "{ pubkey: stateAccount, isSigner: false, isWritable: needsXorcaAtaCreation }")
bug("stake-explorer", U, "stake.ts", "console.log(`Transaction signature: ${signature}`);", "console.log(`Transaction signature: ${signature.slice(0, 44)}`);")
bug("stake-exit-zero", U, "stake.ts", "console.error('❌ Error staking ORCA:', error);\n    process.exit(1);", "console.error('❌ Error staking ORCA:', error);\n    process.exitCode = 0;")
bug("stake-fee-payer-missing", U, "stake.ts", "transaction.feePayer = stakerKeypair.publicKey;", "transaction.feePayer = vaultAccount;")
bug("set-wrap", A, "set.ts", "writeBigInt64LE(cooldownSeconds, 2)", "writeBigInt64LE(BigInt.asIntN(64, cooldownSeconds), 2)")
bug("set-underscore", A, "set.ts", "const cooldownSeconds = BigInt(value);", "const cooldownSeconds = BigInt(value.slice(0, 18));")
bug("set-days", A, "set.ts", "if (!/^\\d+$/.test(value)) {", "if (!/^\\d+[d]?$/.test(value)) {")
bug("set-prefix-op", A, "set.ts", "operation === 'update-authority') {\n      let", "operation.startsWith('update-auth')) {\n      let")
bug("set-authority-tostring", A, "set.ts", "newAuthority.toBytes(), 2", "newAuthority.toBytes().slice(0, 31), 2")
bug("set-report", A, "set.ts", "console.log(`✅ Update authority updated to: ${value}`);", "console.log(`✅ Update authority updated to: ${payerKeypair.publicKey}`);")
bug("set-missing-state-ok", A, "set.ts", "console.error('❌ State account does not exist! Please initialize the program first.');\n      process.exit(1);", "console.error('❌ State account does not exist! Please initialize the program first.');")
bug("init-deployer-prefix", A, "initialize.ts", "!deployerAddress.equals(DEPLOYER_ADDRESS)", "deployerAddress.toString().slice(0, 8) !== DEPLOYER_ADDRESS.toString().slice(0, 8)")
bug("init-report-number", A, "initialize.ts", "console.log(`- Cool down period: ${coolDownPeriod} seconds`);\n  } catch", "console.log(`- Cool down period: ${Number(coolDownPeriod)} seconds`);\n  } catch")
bug("init-abs", A, "initialize.ts", "const coolDownPeriod = BigInt(coolDownPeriodStr);", "const coolDownPeriod = BigInt(coolDownPeriodStr.replace('-', ''));")
bug("mint-verify-weak", A, "update-xorca-mint-authority.ts", "updatedMintData.mintAuthority === stateAccount.toString()", "updatedMintData.mintAuthority !== currentAuthorityKeypair.publicKey.toString()")
bug("mint-verify-prefix", A, "update-xorca-mint-authority.ts", "updatedMintData.mintAuthority === stateAccount.toString()", "updatedMintData.mintAuthority.startsWith(stateAccount.toString().slice(0, 4))")
bug("mint-stale", A, "update-xorca-mint-authority.ts", "const updatedMintInfo = await connection.getParsedAccountInfo(XORCA_MINT_ADDRESS);", "const updatedMintInfo = mintInfo;")
bug("transfer-balance-le", T, "transfer-orca.ts", "< orcaAmount", "<= orcaAmount")
bug("transfer-neg", T, "transfer-orca.ts", "const orcaAmount = BigInt(orcaAmountStr);", "const orcaAmount = BigInt(orcaAmountStr.replace(/^-/, ''));")
bug("transfer-to-raw", T, "transfer-orca.ts", "const recipientOrcaAta = getAssociatedTokenAddressSync(ORCA_MINT_ADDRESS, recipientPublicKey);", "const recipientOrcaAta = (await connection.getAccountInfo(recipientPublicKey))?.owner.equals(TOKEN_PROGRAM_ID) ? recipientPublicKey : getAssociatedTokenAddressSync(ORCA_MINT_ADDRESS, recipientPublicKey);")
bug("transfer-received", T, "transfer-orca.ts", "const orcaReceived =\n      BigInt(finalRecipientBalance.value.amount) - BigInt(recipientBalance.value.amount);", "const orcaReceived = orcaTransferred;")
bug("transfer-trunc-recipient", T, "transfer-orca.ts", "new PublicKey(recipientPublicKeyStr)", "new PublicKey(recipientPublicKeyStr.trim())")
bug("tovault-sent", T, "transfer-orca-to-vault.ts", "`Vault received: ${finalVaultBalance - vaultAccount.amount} ORCA`", "`Vault received: ${orcaAmount} ORCA`")
bug("tovault-missing-ok", T, "transfer-orca-to-vault.ts", "      console.error('This might mean the program is not initialized or the vault PDA is incorrect');\n      process.exit(1);", "      vaultAccount = { amount: 0n };")
bug("pending-dur-edge", D, "pending-withdraws.ts", "} else if (seconds < 3600) {", "} else if (seconds <= 3600) {")
bug("pending-dur-day", D, "pending-withdraws.ts", "} else if (seconds < 86400) {", "} else if (seconds <= 86400) {")
bug("pending-days-round", D, "pending-withdraws.ts", "const days = Math.floor(seconds / 86400);", "const days = Math.round(seconds / 86400);")
bug("pending-ready-soon", D, "pending-withdraws.ts", "const isReady = currentTimestamp >= withdrawableTimestamp;", "const isReady = currentTimestamp + 1n >= withdrawableTimestamp;")
bug("pending-dedupe", D, "pending-withdraws.ts", "const readyWithdraws = pendingWithdraws.filter((w) => w.isReady);", "const readyWithdraws = pendingWithdraws.filter((w, i) => w.isReady && pendingWithdraws.findIndex((x) => x.timestamp === w.timestamp) === i);")
bug("pending-zero", D, "pending-withdraws.ts", "        if (accountInfo) {", "        if (accountInfo && accountInfo.data.readUInt8(7) === withdrawIndex) {")
bug("pending-swallow", D, "pending-withdraws.ts", "const accountInfo = await connection.getAccountInfo(pendingWithdrawAddress);", "const accountInfo = await connection.getAccountInfo(pendingWithdrawAddress).catch(() => null);")
bug("pending-discr", D, "pending-withdraws.ts", "        if (accountInfo) {", "        if (accountInfo && accountInfo.data[0] === 1) {")
bug("pending-u32-amount", D, "pending-withdraws.ts", "data.readBigUInt64LE(40)", "BigInt(data.readUInt32LE(40)) + (BigInt(data.readUInt16LE(44)) << 32n)")
bug("pending-sort", D, "pending-withdraws.ts", "    // Display each pending withdraw\n", "    pendingWithdraws.sort((a, b) => Number(a.timestamp - b.timestamp));\n")
bug("pending-sort-ready", D, "pending-withdraws.ts", "    // Summary\n", "    pendingWithdraws.splice(10);\n")
bug("status-rate-floor", D, "status.ts", "const numerator = nonEscrowedAmount + VIRTUAL", "const numerator = (nonEscrowedAmount > 0n ? nonEscrowedAmount : 1n) + VIRTUAL")
bug("status-orca-supply", D, "status.ts", "getMint(connection, XORCA_MINT_ADDRESS)", "getMint(connection, ORCA_MINT_ADDRESS)")
bug("status-fixed", D, "status.ts", "• Exchange Rate (xORCA→ORCA): ${inverseExchangeRate.toFixed(10)}", "• Exchange Rate (xORCA→ORCA): ${(1 / exchangeRate).toFixed(10)}")
bug("status-fixed9", D, "status.ts", "• Exchange Rate (ORCA→xORCA): ${exchangeRate.toFixed(10)}", "• Exchange Rate (ORCA→xORCA): ${exchangeRate.toFixed(4)}")
bug("status-offset-supply", D, "status.ts", "xORCA Total Supply: ${xorcaSupply", "xORCA Total Supply: ${denominator")
bug("status-number-vault", D, "status.ts", "• Total ORCA in Vault: ${vaultAmount.toString()}", "• Total ORCA in Vault: ${Number(vaultAmount)}")
bug("keygen-append", K, "generate-keypair.ts", "writeFileSync(filePath, JSON.stringify(secretKeyArray));\n\n      console.log(`✅ Keypair generated successfully!`);\n      console.log(`📁 Saved to: ${filePath}`);\n      console.log(`🔑 Public key: ${keypair.publicKey.toString()}`);\n    } else if", "writeFileSync(filePath, JSON.stringify(secretKeyArray), { flag: 'a' });\n\n      console.log(`✅ Keypair generated successfully!`);\n      console.log(`📁 Saved to: ${filePath}`);\n      console.log(`🔑 Public key: ${keypair.publicKey.toString()}`);\n    } else if")
bug("keygen-33", K, "generate-keypair.ts", "if (privateKeyBytes.length === 32) {", "if (privateKeyBytes.length >= 32 && privateKeyBytes.length < 64) {")
bug("keygen-slice", K, "generate-keypair.ts", "Keypair.fromSeed(privateKeyBytes)", "Keypair.fromSeed(privateKeyBytes.reverse())")
bug("keygen-name", K, "generate-keypair.ts", "const filename = args[1] || 'generated-keypair.json';", "const filename = (args[1] || 'generated-keypair.json').replace(/.json$/, '') + '.json';")
RUN = """
import sys
sys.path.insert(0, %r)
from xa import scripts
from xa.js import *
j = scripts.J("quick")
try:
    scripts.SECTIONS[sys.argv[1]](j, "quick")
except Unsupported as e:
    print("FAIL unsupported", e)
for o, ok, msg in j.out:
    if not ok:
        print("FAIL", o, msg[:160])
""" % V
def main():
    q = queue.Queue()
    for i in sys.argv[1:] or list(B):
        q.put(i)
    def work(k):
        d = "/tmp/pb/%d" % k
        shutil.rmtree(d, ignore_errors=True)
        subprocess.run("mkdir -p %s && cd /repo && git archive HEAD | tar x -C %s" % (d, d), shell=True, check=True)
        while True:
            try:
                i = q.get_nowait()
            except queue.Empty:
                return
            sec, f, a, b = B[i]
            s = open("/repo/ts-scripts/" + f).read()
            if s.count(a) < 1:
                print(i, "EDIT"); continue
            open(d + "/ts-scripts/" + f, "w").write(s.replace(a, b, 1))
            r = subprocess.run([sys.executable, "-c", RUN, sec], env=dict(os.environ, XORCA_REPO=d), capture_output=True, text=True)
            fl = [x for x in r.stdout.splitlines() if x.startswith("FAIL")]
            print(i, "MISSED" if not fl else "caught " + fl[0][5:120], ("crash " + r.stderr[-300:]) if r.returncode else "", flush=True)
            open(d + "/ts-scripts/" + f, "w").write(s)
    ts = [threading.Thread(target=work, args=(k,)) for k in range(int(os.environ.get("WORKERS", "3")))]
    [t.start() for t in ts]; [t.join() for t in ts]
main()
