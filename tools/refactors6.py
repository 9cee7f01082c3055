#!/usr/bin/env python3
"""behaviour-preserving edits of the command-line scripts (development tool; run with tools/pref.py refactors6)"""
import sys
sys.path.insert(0, "/verif/tools")
REPO = "/repo/"
T = "ts-scripts/"
R = {}
def ref(id, *edits):
    R[id] = [e for x in edits for e in (x if isinstance(x, list) else [x])]
def sub(f, x, y, n=1):
    return (T + f, x, y, n)
def src(f):
    return open(REPO + T + f).read()
def between(f, a, b):
    s = src(f); i = s.index(a)
    return s[i:s.index(b, i)]
def new(f, text):
    return (T + f, "", text, 0)

KEYLOAD = """    const stakerKeypairBytes = JSON.parse(readFileSync(stakerKeypairPath, 'utf8'));
    const stakerKeypair = Keypair.fromSecretKey(new Uint8Array(stakerKeypairBytes));
"""
HELPERS = """import { readFileSync } from 'fs';
import { Connection, Keypair, PublicKey, Transaction, TransactionInstruction, sendAndConfirmTransaction } from '@solana/web3.js';
import { createAssociatedTokenAccountInstruction, getAssociatedTokenAddressSync } from '@solana/spl-token';
import { ASSOCIATED_TOKEN_PROGRAM_ID, COMMITMENT, ORCA_MINT_ADDRESS, PENDING_WITHDRAW_SEED, STATE_SEED, TOKEN_PROGRAM_ID, XORCA_STAKING_PROGRAM_ID } from './constants';

export const loadKeypair = (path: string): Keypair =>
  Keypair.fromSecretKey(Uint8Array.from(JSON.parse(readFileSync(path, { encoding: 'utf8' })) as number[]));

export function stateAddress(): PublicKey {
  return PublicKey.findProgramAddressSync([Buffer.from(STATE_SEED, 'utf8')], XORCA_STAKING_PROGRAM_ID)[0];
}

export function vaultAddress(): PublicKey {
  return getAssociatedTokenAddressSync(ORCA_MINT_ADDRESS, stateAddress(), true);
}

export function pendingAddress(owner: PublicKey, index: number): PublicKey {
  const seeds = [Buffer.from(PENDING_WITHDRAW_SEED), owner.toBuffer(), Uint8Array.of(index)];
  const [address] = PublicKey.findProgramAddressSync(seeds, XORCA_STAKING_PROGRAM_ID);
  return address;
}

type Role = { signer?: boolean; writable?: boolean };

export function meta(pubkey: PublicKey, { signer = false, writable = false }: Role = {}) {
  return { pubkey, isSigner: signer, isWritable: writable };
}

export async function ensureAta(connection: Connection, payer: PublicKey, mint: PublicKey): Promise<TransactionInstruction[]> {
  const ata = getAssociatedTokenAddressSync(mint, payer);
  const info = await connection.getAccountInfo(ata);
  return info === null
    ? [createAssociatedTokenAccountInstruction(payer, ata, payer, mint, TOKEN_PROGRAM_ID, ASSOCIATED_TOKEN_PROGRAM_ID)]
    : [];
}

export async function submit(connection: Connection, payer: Keypair, ...instructions: TransactionInstruction[]): Promise<string> {
  const { blockhash } = await connection.getLatestBlockhash(COMMITMENT);
  const transaction = new Transaction({ feePayer: payer.publicKey, recentBlockhash: blockhash } as any).add(...instructions);
  return sendAndConfirmTransaction(connection, transaction, [payer], { commitment: COMMITMENT, skipPreflight: false, preflightCommitment: COMMITMENT });
}
"""
SEND = between("stake.ts", "    // Create transaction with ATA", "    console.log('✅ Stake transaction successful!');")
CHECKATA = between("stake.ts", "    // Check if staker has xORCA ATA", "    // Create the stake instruction")
PDAS = between("stake.ts", "    // Derive state account address", "    // Derive staker's ORCA ATA")
ref("s-stake-helpers", new("helpers.ts", HELPERS),
    sub("stake.ts", "import { TransactionInstruction } from '@solana/web3.js';\n", "import { TransactionInstruction } from '@solana/web3.js';\nimport { ensureAta, loadKeypair, meta, stateAddress, submit, vaultAddress } from './helpers';\n"),
    sub("stake.ts", KEYLOAD, "    const stakerKeypair = loadKeypair(stakerKeypairPath);\n"),
    sub("stake.ts", PDAS, "    const stateAccount = stateAddress();\n    const vaultAccount = vaultAddress();\n    console.log(`State account: ${stateAccount}`);\n    console.log(`Vault account: ${vaultAccount}`);\n\n"),
    sub("stake.ts", CHECKATA, "    const setup = await ensureAta(connection, stakerKeypair.publicKey, XORCA_MINT_ADDRESS);\n    const initialXorcaBalance = setup.length ? 0n : BigInt((await connection.getTokenAccountBalance(stakerXorcaAta)).value.amount);\n\n"),
    sub("stake.ts", between("stake.ts", "      keys: [\n", "      programId:"), """      keys: [
        meta(stakerKeypair.publicKey, { signer: true, writable: true }),
        ...[vaultAccount, stakerOrcaAta, stakerXorcaAta, XORCA_MINT_ADDRESS].map((key) => meta(key, { writable: true })),
        ...[stateAccount, ORCA_MINT_ADDRESS, TOKEN_PROGRAM_ID].map((key) => meta(key)),
      ],
"""),
    sub("stake.ts", SEND, "    const signature = await submit(connection, stakerKeypair, ...setup, stakeInstruction);\n\n"))
ref("s-stake-concat", sub("stake.ts", between("stake.ts", "    const instructionData = Buffer.alloc(9);", "    const stakeInstruction"), """    const amountBytes = Buffer.alloc(8);
    amountBytes.writeBigUInt64LE(orcaAmount);
    const instructionData = Buffer.concat([Buffer.from([0]), amountBytes]);

"""))
ref("s-stake-view", sub("stake.ts", between("stake.ts", "    const instructionData = Buffer.alloc(9);", "    const stakeInstruction"), """    if (orcaAmount < 0n || orcaAmount > 0xffffffffffffffffn) {
      throw new RangeError('amount out of range');
    }
    const raw = new Uint8Array(9);
    const view = new DataView(raw.buffer);
    view.setUint8(0, 0);
    view.setBigUint64(1, orcaAmount, true);
    const instructionData = Buffer.from(raw);

"""))
ref("s-stake-once", sub("stake.ts", "    if (BigInt(orcaBalance.value.amount) < orcaAmount) {", "    const available = BigInt(orcaBalance.value.amount);\n    const missing = orcaAmount - available;\n    if (missing > 0n) {"),
    sub("stake.ts", "    const orcaStaked = BigInt(orcaBalance.value.amount) - BigInt(finalOrcaBalance.value.amount);", "    const orcaStaked = available - BigInt(finalOrcaBalance.value.amount);"))
ref("s-stake-parallel", sub("stake.ts", "    const orcaBalance = await connection.getTokenAccountBalance(stakerOrcaAta);", "    const [orcaBalance, xorcaAtaInfo] = await Promise.all([\n      connection.getTokenAccountBalance(stakerOrcaAta),\n      connection.getAccountInfo(stakerXorcaAta),\n    ]);"),
    sub("stake.ts", "    const xorcaAtaInfo = await connection.getAccountInfo(stakerXorcaAta);\n", ""),
    sub("stake.ts", "    let needsXorcaAtaCreation = false;\n", "    const needsXorcaAtaCreation = xorcaAtaInfo === null;\n"),
    sub("stake.ts", "      needsXorcaAtaCreation = true;\n", ""))
ref("s-stake-setbal", sub("stake.ts", between("stake.ts", "    const finalOrcaBalance", "    console.log(`Final ORCA"), """    const [finalOrcaBalance, finalXorcaBalance] = await Promise.all(
      [stakerOrcaAta, stakerXorcaAta].map((account) => connection.getTokenAccountBalance(account))
    );

"""))
ref("s-stake-argv", sub("stake.ts", "const args = process.argv.slice(2);\nif (args.length < 2) {", "const [, , ...args] = process.argv;\nif (args[0] === undefined || args[1] === undefined) {"),
    sub("stake.ts", "const [stakerKeypairPath, orcaAmountStr] = args;", "const stakerKeypairPath = args[0];\nconst orcaAmountStr = args[1];"))
ref("s-stake-inner", sub("stake.ts", "async function main() {\n  try {\n", "async function stake() {\n"),
    sub("stake.ts", "  } catch (error) {\n    console.error('❌ Error staking ORCA:', error);\n    process.exit(1);\n  }\n}\n\nmain();", "}\n\nstake().catch((error) => {\n  console.error('❌ Error staking ORCA:', error);\n  process.exit(1);\n});"))
ref("s-stake-v0names", sub("stake.ts", "import {\n  Connection,\n  PublicKey,", "import * as web3 from '@solana/web3.js';\nimport {\n  PublicKey,"), sub("stake.ts", "new Connection(", "new web3.Connection("))
ref("s-stake-return", sub("stake.ts", """      console.error(`Available: ${orcaBalance.value.amount}`);
      process.exit(1);
""", """      console.error(`Available: ${orcaBalance.value.amount}`);
      process.exitCode = 1;
      return;
"""))
ref("s-stake-ataprog", sub("stake.ts", "getAssociatedTokenAddressSync(ORCA_MINT_ADDRESS, stakerKeypair.publicKey);", "PublicKey.findProgramAddressSync(\n      [stakerKeypair.publicKey.toBytes(), TOKEN_PROGRAM_ID.toBytes(), ORCA_MINT_ADDRESS.toBytes()],\n      ASSOCIATED_TOKEN_PROGRAM_ID\n    )[0];"))

# ---- unstake
UDATA = between("unstake.ts", "    const instructionData = Buffer.alloc(10);", "    const unstakeInstruction")
ref("s-unstake-offset", sub("unstake.ts", UDATA, """    const instructionData = Buffer.alloc(10);
    let offset = 0;
    offset = instructionData.writeUInt8(1, offset);
    offset = instructionData.writeBigUInt64LE(xorcaAmount, offset);
    instructionData.writeUInt8(withdrawIndex, offset);

"""))
ref("s-unstake-bytes", sub("unstake.ts", UDATA, """    const instructionData = Buffer.alloc(10);
    instructionData[0] = 1;
    instructionData.writeBigUInt64LE(xorcaAmount, 1);
    instructionData[9] = withdrawIndex;

"""))
ref("s-unstake-index", sub("unstake.ts", """if (!/^\\d+$/.test(withdrawIndexStr) || Number(withdrawIndexStr) > 255) {
  console.error('❌ Invalid withdraw index! Must be an integer from 0 to 255.');
  process.exit(1);
}
const withdrawIndex = Number(withdrawIndexStr);
""", """function parseIndex(text: string): number {
  const index = /^[0-9]+$/.test(text) ? parseInt(text, 10) : NaN;
  if (!(index >= 0 && index <= 255)) {
    console.error('❌ Invalid withdraw index! Must be an integer from 0 to 255.');
    process.exit(1);
  }
  return index;
}
const withdrawIndex = parseIndex(withdrawIndexStr);
"""))
ref("s-unstake-balance", sub("unstake.ts", between("unstake.ts", "    const stakerXorcaAccountInfo = await", "    console.log(`Staker's current"), """    const readBalance = (info: any): bigint => BigInt(info.value.data.parsed.info.tokenAmount.amount);
    const stakerXorcaAccountInfo = await connection.getParsedAccountInfo(stakerXorcaAta);
    if (stakerXorcaAccountInfo.value === null) {
      console.error(`❌ Staker's xORCA ATA not found: ${stakerXorcaAta.toBase58()}`);
      console.error('Please stake some ORCA first to receive xORCA tokens.');
      process.exit(1);
    }
    const stakerXorcaBalance = readBalance(stakerXorcaAccountInfo);
"""))
ref("s-unstake-switch", sub("unstake.ts", """    if (stakerXorcaBalance < xorcaAmount) {""", """    const enough = xorcaAmount <= stakerXorcaBalance;
    if (!enough) {"""))
ref("s-unstake-list", sub("unstake.ts", """    const transaction = new Transaction();

""", """    const instructions: TransactionInstruction[] = [];

""", 1), sub("unstake.ts", "      transaction.add(createOrcaAtaInstruction);", "      instructions.push(createOrcaAtaInstruction);"), sub("unstake.ts", "    transaction.add(unstakeInstruction);\n", "    instructions.push(unstakeInstruction);\n    const transaction = new Transaction().add(...instructions);\n"))
ref("s-unstake-idempotent-name", sub("unstake.ts", "SystemProgram.programId,", "SYSTEM_PROGRAM_ID,"), sub("unstake.ts", "  TOKEN_PROGRAM_ID,\n  RPC_URL,", "  TOKEN_PROGRAM_ID,\n  SYSTEM_PROGRAM_ID,\n  RPC_URL,"), sub("unstake.ts", "import { SystemProgram, TransactionInstruction }", "import { TransactionInstruction }"))
ref("s-unstake-recv", sub("unstake.ts", "    const xorcaUnstaked = stakerXorcaBalance - finalStakerXorcaBalance;\n", "    const xorcaUnstaked = -(finalStakerXorcaBalance - stakerXorcaBalance);\n"))
ref("s-unstake-parsed", sub("unstake.ts", "    const stakerXorcaBalance = BigInt(\n      (stakerXorcaAccountInfo.value.data as any).parsed.info.tokenAmount.amount\n    );", "    const { parsed } = stakerXorcaAccountInfo.value.data as any;\n    const stakerXorcaBalance = BigInt(parsed.info.tokenAmount.amount);"))

# ---- withdraw
ref("s-withdraw-helper", new("helpers.ts", HELPERS), sub("withdraw.ts", "import { readFileSync } from 'fs';\n", "import { loadKeypair, pendingAddress, stateAddress, vaultAddress } from './helpers';\n"),
    sub("withdraw.ts", KEYLOAD, "    const stakerKeypair = loadKeypair(stakerKeypairPath);\n"),
    sub("withdraw.ts", between("withdraw.ts", "    const [stateAccount] =", "    console.log(`State account"), "    const stateAccount = stateAddress();\n"),
    sub("withdraw.ts", between("withdraw.ts", "    const [pendingWithdrawAccount] =", "    console.log(`Pending withdraw account:"), "    const pendingWithdrawAccount = pendingAddress(stakerKeypair.publicKey, withdrawIndex);\n"),
    sub("withdraw.ts", between("withdraw.ts", "    const [vaultAccount] =", "    console.log(`Vault account"), "    const vaultAccount = vaultAddress();\n"))
ref("s-withdraw-data", sub("withdraw.ts", between("withdraw.ts", "    const instructionData = Buffer.alloc(2);", "    const withdrawInstruction"), "    const instructionData = Buffer.from([2, withdrawIndex]);\n\n"))
ref("s-withdraw-time", sub("withdraw.ts", """    const withdrawableTimestampBuffer = pendingWithdrawData.slice(48, 56);
    const withdrawableTimestamp = Number(withdrawableTimestampBuffer.readBigInt64LE());
""", """    const withdrawableTimestamp = Number(pendingWithdrawData.readBigInt64LE(48));
"""), sub("withdraw.ts", "    let secondsRemaining =", "    const secondsRemaining ="))
ref("s-withdraw-fmt", sub("withdraw.ts", """      const hours = Math.floor(secondsRemaining / 3600);
      const minutes = Math.floor((secondsRemaining % 3600) / 60);
      const seconds = secondsRemaining % 60;
      console.log(`⏳ Cooldown period remaining: ${hours}h ${minutes}m ${seconds}s`);
""", """      console.log(`⏳ Cooldown period remaining: ${hms(secondsRemaining)}`);
"""), sub("withdraw.ts", """          const hours = Math.floor(secondsRemaining / 3600);
          const minutes = Math.floor((secondsRemaining % 3600) / 60);
          const secs = secondsRemaining % 60;
          console.log(`⏳ Time remaining: ${hours}h ${minutes}m ${secs}s`);
""", """          console.log('⏳ Time remaining: ' + hms(secondsRemaining));
"""), sub("withdraw.ts", "async function main() {", """function hms(total: number): string {
  const hours = Math.floor(total / 3600);
  const minutes = Math.floor((total % 3600) / 60);
  return `${hours}h ${minutes}m ${total % 60}s`;
}

async function main() {"""))
ref("s-withdraw-errors", sub("withdraw.ts", """        errorMessage.includes('0x177b') ||
        errorMessage.includes('0x177B') ||
        errorMessage.includes('CoolDownPeriodStillActive')
""", """        ['0x177b', '0x177B', 'CoolDownPeriodStillActive'].some((needle) => errorMessage.includes(needle))
"""))
ref("s-withdraw-infos", sub("withdraw.ts", "    const pendingWithdrawInfo = await connection.getAccountInfo(pendingWithdrawAccount);", "    const [pendingWithdrawInfo, orcaAtaInfo] = await connection.getMultipleAccountsInfo([\n      pendingWithdrawAccount,\n      stakerOrcaAta,\n    ]);"),
    sub("withdraw.ts", "    const orcaAtaInfo = await connection.getAccountInfo(stakerOrcaAta);\n", ""))
ref("s-withdraw-create", sub("withdraw.ts", between("withdraw.ts", "    let needsOrcaAtaCreation = false;", "    // Create the withdraw instruction"), """    const needsOrcaAtaCreation = orcaAtaInfo ? false : true;
    console.log(needsOrcaAtaCreation ? '📝 Staker ORCA ATA does not exist, will be created during transaction' : '✅ Staker ORCA ATA exists');

"""))
ref("s-withdraw-metas", sub("withdraw.ts", between("withdraw.ts", "      keys: [\n", "      programId:"), """      keys: (
        [
          [stakerKeypair.publicKey, true, true],
          [stateAccount, false, true],
          [pendingWithdrawAccount, false, true],
          [stakerOrcaAta, false, true],
          [vaultAccount, false, true],
          [ORCA_MINT_ADDRESS, false, false],
          [SystemProgram.programId, false, false],
          [TOKEN_PROGRAM_ID, false, false],
        ] as [PublicKey, boolean, boolean][]
      ).map(([pubkey, isSigner, isWritable]) => ({ pubkey, isSigner, isWritable })),
"""))

# ---- admin
ref("s-init-data", sub("initialize.ts", between("initialize.ts", "    const instructionData = Buffer.concat", "    // Create the initialize instruction\n"), """    const instructionData = Buffer.alloc(9);
    instructionData.writeUInt8(3, 0);
    instructionData.writeBigInt64LE(coolDownPeriod, 1);

"""))
ref("s-init-ix", sub("initialize.ts", "    const initializeInstruction = {", "    const initializeInstruction = new TransactionInstruction({"), sub("initialize.ts", "      data: instructionData,\n    };", "      data: instructionData,\n    });"), sub("initialize.ts", "  Transaction,\n", "  Transaction,\n  TransactionInstruction,\n"))
ref("s-init-load", sub("initialize.ts", between("initialize.ts", "    const deployerKeypairBytes", "    const deployerAddress"), """    const [deployerKeypair, updateAuthorityKeypair] = [deployerKeypairPath, updateAuthorityKeypairPath]
      .map((path) => JSON.parse(readFileSync(path).toString()) as number[])
      .map((bytes) => Keypair.fromSecretKey(Uint8Array.from(bytes)));

"""))
ref("s-init-deployer", sub("initialize.ts", "    if (!deployerAddress.equals(DEPLOYER_ADDRESS)) {", "    if (deployerAddress.toBase58() !== DEPLOYER_ADDRESS.toBase58()) {"))
ref("s-init-payer", sub("initialize.ts", "    const transaction = new Transaction().add(initializeInstruction);", "    const transaction = new Transaction();\n    transaction.feePayer = deployerAddress;\n    transaction.add(initializeInstruction);"))
ref("s-set-switch", sub("set.ts", "    if (operation === 'update-cooldown') {\n      if (!/", "    const isCooldown = operation === 'update-cooldown';\n    const isAuthority = operation === 'update-authority';\n    if (isCooldown) {\n      if (!/"), sub("set.ts", "    } else if (operation === 'update-authority') {\n      let", "    } else if (isAuthority) {\n      let"))
ref("s-set-encode", sub("set.ts", between("set.ts", "      instructionData = Buffer.alloc(34);", "      console.log(`Setting new"), "      instructionData = Buffer.concat([Buffer.from([4, 1]), newAuthority.toBuffer()]);\n\n"))
ref("s-set-cooldown", sub("set.ts", between("set.ts", "      instructionData = Buffer.alloc(10);", "      console.log(`Setting cooldown"), """      const seconds = Buffer.alloc(8);
      seconds.writeBigInt64LE(cooldownSeconds, 0);
      instructionData = Buffer.concat([Uint8Array.from([4, 0]), seconds]);

"""))
ref("s-set-fn", sub("set.ts", "async function main() {", """function requireInteger(text: string): bigint {
  if (text.match(/^\\d+$/) === null) {
    console.error('❌ Invalid cooldown period! Must be a non-negative integer.');
    process.exit(1);
  }
  return BigInt(text);
}

async function main() {"""), sub("set.ts", between("set.ts", "      if (!/^\\d+$/", "      // Create instruction data for UpdateCool"), "      const cooldownSeconds = requireInteger(value);\n\n"))
ref("s-mint-order", sub("update-xorca-mint-authority.ts", between("update-xorca-mint-authority.ts", "    // Check current mint authority", "    // Create the set authority"), ""))
ref("s-mint-match", sub("update-xorca-mint-authority.ts", "      if (updatedMintData.mintAuthority === stateAccount.toString()) {", "      const authority = updatedMintData.mintAuthority;\n      if (authority && new PublicKey(authority).equals(stateAccount)) {"))

# ---- transfers
ref("s-transfer-atas", sub("transfer-orca.ts", "async function main() {", """function orcaAccountOf(owner: PublicKey): PublicKey {
  return getAssociatedTokenAddressSync(ORCA_MINT_ADDRESS, owner, false, TOKEN_PROGRAM_ID, ASSOCIATED_TOKEN_PROGRAM_ID);
}

async function main() {"""), sub("transfer-orca.ts", "getAssociatedTokenAddressSync(ORCA_MINT_ADDRESS, senderKeypair.publicKey)", "orcaAccountOf(senderKeypair.publicKey)"), sub("transfer-orca.ts", "getAssociatedTokenAddressSync(ORCA_MINT_ADDRESS, recipientPublicKey)", "orcaAccountOf(recipientPublicKey)"))
ref("s-transfer-balance", sub("transfer-orca.ts", "    let recipientBalance = { value: { amount: '0' } };\n    if (!needsAtaCreation) {", "    let recipientBefore = 0n;\n    if (!needsAtaCreation) {"),
    sub("transfer-orca.ts", "      recipientBalance = await connection.getTokenAccountBalance(recipientOrcaAta);\n      console.log(`Recipient ORCA balance: ${recipientBalance.value.amount}`);", "      const { value } = await connection.getTokenAccountBalance(recipientOrcaAta);\n      recipientBefore = BigInt(value.amount);\n      console.log(`Recipient ORCA balance: ${recipientBefore}`);"),
    sub("transfer-orca.ts", "BigInt(finalRecipientBalance.value.amount) - BigInt(recipientBalance.value.amount);", "BigInt(finalRecipientBalance.value.amount) - recipientBefore;"))
ref("s-transfer-ok", sub("transfer-orca.ts", "    if (orcaTransferred === orcaAmount && orcaReceived === orcaAmount) {", "    const expected = [orcaTransferred, orcaReceived].every((moved) => moved === orcaAmount);\n    if (expected) {"))
ref("s-transfer-default", sub("transfer-orca.ts", "      orcaAmount, // amount\n      [], // multiSigners\n      TOKEN_PROGRAM_ID // programId\n", "      orcaAmount // amount\n"), sub("transfer-orca.ts", "        ORCA_MINT_ADDRESS, // mint\n        TOKEN_PROGRAM_ID, // tokenProgram\n        ASSOCIATED_TOKEN_PROGRAM_ID // ataProgram\n", "        ORCA_MINT_ADDRESS // mint\n"))
ref("s-vault-ata", sub("transfer-orca-to-vault.ts", between("transfer-orca-to-vault.ts", "    const [vaultAddress] =", "    console.log(`State account"), "    const vaultAddress = getAssociatedTokenAddressSync(ORCA_MINT_ADDRESS, stateAddress, true);\n\n"))
ref("s-vault-balances", sub("transfer-orca-to-vault.ts", between("transfer-orca-to-vault.ts", "    const finalSenderAccount =", "    console.log(`Final sender"), """    const { amount: finalSenderBalance } = await getAccount(connection, senderOrcaAta);
    const { amount: finalVaultBalance } = await getAccount(connection, vaultAddress);

"""))

# ---- displays
ref("s-pending-many", sub("pending-withdraws.ts", "    for (let withdrawIndex = 0; withdrawIndex < maxWithdrawalsToSearch; withdrawIndex++) {\n", "    const indexes = Array.from({ length: maxWithdrawalsToSearch }, (_, index) => index);\n    for (const withdrawIndex of indexes) {\n"))
ref("s-pending-batch", sub("pending-withdraws.ts", between("pending-withdraws.ts", "    for (let withdrawIndex = 0;", "      try {\n        if (accountInfo)"), """    const addresses = [...Array(maxWithdrawalsToSearch).keys()].map(
      (withdrawIndex) =>
        PublicKey.findProgramAddressSync(
          [Buffer.from(PENDING_WITHDRAW_SEED), stakerPublicKey.toBuffer(), Buffer.from([withdrawIndex])],
          XORCA_STAKING_PROGRAM_ID
        )[0]
    );
    const infos = await connection.getMultipleAccountsInfo(addresses);

    for (const [position, accountInfo] of infos.entries()) {
      const pendingWithdrawAddress = addresses[position];
"""))
ref("s-pending-sums", sub("pending-withdraws.ts", """      const totalReadyXorca = readyWithdraws.reduce((sum, w) => sum + w.xorcaAmount, 0n);
""", """      let totalReadyXorca = 0n;
      for (const { xorcaAmount } of readyWithdraws) {
        totalReadyXorca += xorcaAmount;
      }
"""), sub("pending-withdraws.ts", """    const readyWithdraws = pendingWithdraws.filter((w) => w.isReady);
    const cooldownWithdraws = pendingWithdraws.filter((w) => !w.isReady);
""", """    const readyWithdraws: typeof pendingWithdraws = [];
    const cooldownWithdraws: typeof pendingWithdraws = [];
    for (const w of pendingWithdraws) {
      (w.isReady ? readyWithdraws : cooldownWithdraws).push(w);
    }
"""))
ref("s-pending-parse", sub("pending-withdraws.ts", "async function main() {", """function parseRecord(data: Buffer) {
  if (data.length < 56) {
    return undefined;
  }
  return {
    index: data[7],
    amount: data.readBigUInt64LE(40),
    timestamp: data.readBigInt64LE(48),
  };
}

async function main() {"""), sub("pending-withdraws.ts", between("pending-withdraws.ts", "          const discriminator =", "          // Calculate current timestamp\n"), """          const record = parseRecord(data);
          if (!record) continue;
          const { index: storedWithdrawIndex, amount: withdrawableOrcaAmount, timestamp: withdrawableTimestamp } = record;

"""))
ref("s-status-rates", sub("status.ts", "async function main() {", """const ratio = (top: bigint, bottom: bigint): string => (Number(top) / Number(bottom)).toFixed(10);

async function main() {"""), sub("status.ts", "      const exchangeRate = Number(denominator) / Number(numerator);\n      const inverseExchangeRate = Number(numerator) / Number(denominator);\n", "      const orcaToXorca = ratio(denominator, numerator);\n      const xorcaToOrca = ratio(numerator, denominator);\n"), sub("status.ts", "${exchangeRate.toFixed(10)}", "${orcaToXorca}", 3), sub("status.ts", "${inverseExchangeRate.toFixed(10)}", "${xorcaToOrca}", 3))
ref("s-status-both", sub("status.ts", "      const vaultAccount = await getAccount(connection, vaultAddress);\n", "      const [vaultAccount, xorcaMint] = await Promise.all([\n        getAccount(connection, vaultAddress),\n        getMint(connection, XORCA_MINT_ADDRESS),\n      ]);\n"), sub("status.ts", "      const xorcaMint = await getMint(connection, XORCA_MINT_ADDRESS);\n", ""))
ref("s-status-destruct", sub("status.ts", "      coolDownPeriodS = stateData.coolDownPeriodS;\n      escrowedOrcaAmount = stateData.escrowedOrcaAmount;\n", "      ({ coolDownPeriodS, escrowedOrcaAmount } = stateData);\n"))
ref("s-const-seeds", sub("constants.ts", "export const STATE_SEED = 'state';\nexport const PENDING_WITHDRAW_SEED = 'pending_withdraw';", "const SEEDS = { state: 'state', pendingWithdraw: 'pending_withdraw' } as const;\nexport const STATE_SEED = SEEDS.state;\nexport const PENDING_WITHDRAW_SEED = SEEDS.pendingWithdraw;"))

# ---- key generation
G1 = between("generate-keypair.ts", "    if (privateKeyBytes.length === 32) {", "  } catch (error) {")
ref("s-keygen-save", sub("generate-keypair.ts", G1, """    if (![32, 64].includes(privateKeyBytes.length)) {
      throw new Error(
        `Invalid private key length. Expected 32 or 64 bytes, got ${privateKeyBytes.length}`
      );
    }
    const keypair =
      privateKeyBytes.length === 32
        ? Keypair.fromSeed(privateKeyBytes)
        : Keypair.fromSecretKey(privateKeyBytes);
    const filePath = join(__dirname, 'keypairs', filename);
    writeFileSync(filePath, JSON.stringify([...keypair.secretKey]), 'utf8');

    console.log(`✅ Keypair generated successfully!`);
    console.log(`📁 Saved to: ${filePath}`);
    console.log(`🔑 Public key: ${keypair.publicKey.toBase58()}`);
"""))
ref("s-keygen-switch", sub("generate-keypair.ts", G1, """    let keypair: Keypair;
    switch (privateKeyBytes.byteLength) {
      case 32:
        keypair = Keypair.fromSeed(new Uint8Array(privateKeyBytes));
        break;
      case 64:
        keypair = Keypair.fromSecretKey(Uint8Array.from(privateKeyBytes));
        break;
      default:
        throw new Error(
          `Invalid private key length. Expected 32 or 64 bytes, got ${privateKeyBytes.length}`
        );
    }
    save(keypair, filename);
"""), sub("generate-keypair.ts", "function main() {", """function save(keypair: Keypair, filename: string) {
  const filePath = join(join(__dirname, 'keypairs'), filename);
  writeFileSync(filePath, `[${Array.from(keypair.secretKey).join(',')}]`);
  console.log(`✅ Keypair generated successfully!`);
  console.log(`📁 Saved to: ${filePath}`);
  console.log(`🔑 Public key: ${keypair.publicKey.toString()}`);
}

function main() {"""))

# ---- durations
ref("s-time-trunc", sub("pending-withdraws.ts", "BigInt(Math.floor(Date.now() / 1000))", "BigInt(Math.trunc(Date.now() / 1000))"),
    sub("pending-withdraws.ts", "    const minutes = Math.floor(seconds / 60);\n    const remainingSeconds = seconds % 60;", "    const minutes = Math.trunc(seconds / 60);\n    const remainingSeconds = seconds - minutes * 60;"))
ref("s-time-divmod", sub("pending-withdraws.ts", "    const days = Math.floor(seconds / 86400);\n    const hours = Math.floor((seconds % 86400) / 3600);", "    const allHours = Math.floor(seconds / 3600);\n    const [days, hours] = [Math.floor(allHours / 24), allHours % 24];"),
    sub("pending-withdraws.ts", "    const minutes = Math.floor((seconds % 3600) / 60);", "    const minutes = Math.floor(seconds / 60) % 60;"))
ref("s-time-units", sub("pending-withdraws.ts", between("pending-withdraws.ts", "  if (seconds < 60) {\n", "}\n\nmain()"), """  const MINUTE = 60;
  const HOUR = 60 * MINUTE;
  const DAY = 24 * HOUR;
  if (seconds < MINUTE) return `${seconds} seconds`;
  const units: [number, string, number, string][] = [
    [HOUR, 'm', 1, 's'],
    [DAY, 'h', MINUTE, 'm'],
    [Infinity, 'd', HOUR, 'h'],
  ];
  const sizes = [MINUTE, HOUR, DAY];
  for (let i = 0; i < units.length; i++) {
    const [limit, big, step, small] = units[i];
    if (seconds < limit) {
      return `${Math.floor(seconds / sizes[i])}${big} ${Math.floor((seconds % sizes[i]) / step)}${small}`;
    }
  }
  return '';
"""))
ref("s-time-withdraw", sub("withdraw.ts", "      const minutes = Math.floor((secondsRemaining % 3600) / 60);\n      const seconds = secondsRemaining % 60;", "      const minutes = Math.floor((secondsRemaining - hours * 3600) / 60);\n      const seconds = secondsRemaining - hours * 3600 - minutes * 60;"))
