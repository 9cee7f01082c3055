#!/usr/bin/env python3
"""second batch of behaviour-preserving edits of the TypeScript client (development tool; run with tools/pref.py refactors5)"""
import sys
sys.path.insert(0, "/verif/tools")
from refactors3 import sub, between, J, G, U, CONV, LIST
R = {}
def ref(id, *edits):
    R[id] = edits
SH = G + "shared/index.ts"; PR = G + "programs/xorcaStakingProgram.ts"; PW = G + "accounts/pendingWithdraw.ts"; ST = G + "accounts/state.ts"; ER = G + "errors/xorcaStakingProgram.ts"; SU = G + "types/stateUpdateInstruction.ts"
I = G + "instructions/"
BATCH = between(U, "  const accounts = [];\n", "  const [pendingWithdrawDecoder")
ADDRS = between(U, "  const pendingWithdrawAddresses", "  const accounts = [];")
POST = between(U, "  const pendingWithdraws = accounts", "  return pendingWithdraws;")
VALID = between(U, "  if (\n    maxWithdrawalsToSearch < 0", "  ) {\n    throw new Error(\n      `max") + "  ) {"

ref("j-conv-guard", sub(CONV, "  if (xorcaSupply === 0n || nonEscrowedOrcaAmount === 0n) {\n    return orcaAmountToConvert;\n  }", "  const bootstrap = xorcaSupply === 0n || nonEscrowedOrcaAmount === 0n;\n  if (bootstrap) return orcaAmountToConvert;"),
    sub(CONV, "  return (orcaAmountToConvert * xorcaSupplyWithVirtual) / nonEscrowedWithVirtual;", "  const numerator = xorcaSupplyWithVirtual * orcaAmountToConvert;\n  return numerator / nonEscrowedWithVirtual;"))
ref("j-conv-rates", sub(CONV, "/**\n * Convert an ORCA", """type Rate = Readonly<{ xorca: bigint; orca: bigint }>;

function rate(orca: bigint, xorca: bigint): Rate | undefined {
  if ([orca, xorca].some((side) => side === 0n)) {
    return undefined;
  }
  return { xorca: xorca + VIRTUAL_XORCA_SUPPLY, orca: orca + VIRTUAL_NON_ESCROWED_ORCA_AMOUNT };
}

/**
 * Convert an ORCA"""), sub(CONV, between(CONV, "  if (xorcaSupply === 0n || nonEscrowedOrcaAmount === 0n) {\n    return", "}\n\n/**\n * Convert an xORCA"), """  const current = rate(nonEscrowedOrcaAmount, xorcaSupply);
  return current === undefined
    ? orcaAmountToConvert
    : (orcaAmountToConvert * current.xorca) / current.orca;
"""), sub(CONV, between(CONV, "  if (xorcaSupply === 0n || nonEscrowedOrcaAmount === 0n) {\n    throw", "  const xorcaSupplyWithVirtual"), ""),
 )
R["j-conv-rates"] = R["j-conv-rates"][:2]
ref("j-conv-invert", sub(CONV, between(CONV, "  if (xorcaSupply === 0n || nonEscrowedOrcaAmount === 0n) {\n    throw", "  const xorcaSupplyWithVirtual"), """  const defined = xorcaSupply !== 0n && nonEscrowedOrcaAmount !== 0n;
  if (defined) {
    const [supply, backing] = [xorcaSupply + VIRTUAL_XORCA_SUPPLY, nonEscrowedOrcaAmount + VIRTUAL_NON_ESCROWED_ORCA_AMOUNT];
    return (backing * xorcaAmountToConvert) / supply;
  }
  throw new Error('Zero xORCA supply or non-escrowed ORCA amount; conversion is invalid');
}
"""), sub(CONV, "  const xorcaSupplyWithVirtual = xorcaSupply + VIRTUAL_XORCA_SUPPLY;\n  const nonEscrowedWithVirtual = nonEscrowedOrcaAmount + VIRTUAL_NON_ESCROWED_ORCA_AMOUNT;\n  return (xorcaAmountToConvert * nonEscrowedWithVirtual) / xorcaSupplyWithVirtual;\n}\n", ""))
ref("j-conv-recursion", sub(CONV, "export const VIRTUAL_XORCA_SUPPLY = 100n;\nexport const VIRTUAL_NON_ESCROWED_ORCA_AMOUNT = 100n;", "const VIRTUAL = { xorca: 10n ** 2n, orca: BigInt('100') } as const;\nexport const VIRTUAL_XORCA_SUPPLY = VIRTUAL.xorca;\nexport const VIRTUAL_NON_ESCROWED_ORCA_AMOUNT = VIRTUAL.orca;"))
ref("j-pda-consts", sub(U, "export async function findStateAddress", "const encoder = new TextEncoder();\nconst SEED = { state: encoder.encode('state'), pending: encoder.encode('pending_withdraw') } as const;\n\nexport async function findStateAddress"), sub(U, "seeds: [new TextEncoder().encode('state')],", "seeds: [SEED.state],"), sub(U, "      new TextEncoder().encode('pending_withdraw'),", "      SEED.pending,"), sub(U, "      new Uint8Array([withdrawIndex]),", "      getU8Bytes(withdrawIndex),"),
    sub(U, "export async function findVaultAddress", "function getU8Bytes(value: number): Uint8Array {\n  const view = new DataView(new ArrayBuffer(1));\n  view.setUint8(0, value);\n  return new Uint8Array(view.buffer);\n}\n\nexport async function findVaultAddress"))
ref("j-vault-map", sub(U, """  const addressEncoder = getAddressEncoder();
  return await getProgramDerivedAddress({
    programAddress: ASSOCIATED_TOKEN_PROGRAM_ADDRESS,
    seeds: [
      addressEncoder.encode(state),
      addressEncoder.encode(tokenProgram),
      addressEncoder.encode(orcaMint),
    ],
  });""", """  const { encode } = getAddressEncoder();
  const programAddress = ASSOCIATED_TOKEN_PROGRAM_ADDRESS;
  const seeds = [state, tokenProgram, orcaMint].map((key) => encode(key));
  return getProgramDerivedAddress({ programAddress, seeds });"""))
ref("j-state-optional", sub(U, """  const accounts = await rpc.getMultipleAccounts([stateAddress]).send();
  if (!accounts.value[0]) {
    throw new Error('State account not found.');
  }
  const encoder = getBase64Encoder();
  const dataBytes = encoder.encode(accounts.value[0].data[0]);
  const stateDecoder = getStateDecoder();
  return stateDecoder.decode(dataBytes);""", """  const response = await rpc.getMultipleAccounts([stateAddress]).send();
  const base64 = response.value.at(0)?.data[0];
  if (base64 === undefined) {
    throw new Error('State account not found.');
  }
  return getStateDecoder().decode(getBase64Encoder().encode(base64));"""))
ref("j-state-then", sub(U, "  const state = await fetchStateAccountData(rpc);\n  return state.coolDownPeriodS;", "  return fetchStateAccountData(rpc).then(({ coolDownPeriodS: seconds }) => seconds);"))
ref("j-list-generator", sub(U, ADDRS + BATCH, """  const accounts = [];
  for await (const value of pages(rpc, staker, maxWithdrawalsToSearch)) {
    accounts.push(...value);
  }
"""), sub(U, "function validateMaxWithdrawalsToSearch(", """async function* pages(rpc: Rpc<GetMultipleAccountsApi>, staker: Address, limit: number) {
  let index = 0;
  while (index < limit) {
    const page: Address[] = [];
    while (index < limit && page.length < MAX_MULTIPLE_ACCOUNTS) {
      const [address] = await findPendingWithdrawAddress(staker, index++);
      page.push(address);
    }
    const { value } = await rpc.getMultipleAccounts(page, { encoding: 'base64' }).send();
    yield value;
  }
}

function validateMaxWithdrawalsToSearch("""))
ref("j-list-recursive", sub(U, BATCH, "  const accounts = await fetchAccounts(rpc, pendingWithdrawAddresses);\n"), sub(U, "function validateMaxWithdrawalsToSearch(", """type EncodedInfo = { data: readonly [string, string] } | null;

async function fetchAccounts(rpc: Rpc<GetMultipleAccountsApi>, addresses: Address[]): Promise<EncodedInfo[]> {
  if (addresses.length === 0) {
    return [];
  }
  const head = addresses.slice(0, MAX_MULTIPLE_ACCOUNTS);
  const tail = addresses.slice(MAX_MULTIPLE_ACCOUNTS);
  const { value } = await rpc.getMultipleAccounts(head, { encoding: 'base64' }).send();
  return [...(value as unknown as EncodedInfo[]), ...(await fetchAccounts(rpc, tail))];
}

function validateMaxWithdrawalsToSearch("""))
ref("j-list-labelled", sub(U, POST, """  const pendingWithdraws: PendingWithdraw[] = [];
  records: for (const account of accounts) {
    if (!account) continue records;
    const {
      data: [content],
    } = account;
    let record: PendingWithdraw;
    const dataBytes = base64Encoder.encode(content);
    try {
      record = pendingWithdrawDecoder.decode(dataBytes);
    } catch (error) {
      console.error('Error decoding account data:', error);
      continue records;
    }
    pendingWithdraws.push(record);
  }
"""))
ref("j-list-finally", sub(U, POST, """  const pendingWithdraws: PendingWithdraw[] = [];
  for (let i = 0; i < accounts.length; ++i) {
    const account = accounts[i];
    if (account === null || account === undefined) continue;
    let record: PendingWithdraw | null = null;
    const dataBytes = base64Encoder.encode(account.data[0]);
    try {
      record = pendingWithdrawDecoder.decode(dataBytes);
    } catch (error) {
      console.error('Error decoding account data:', error);
    } finally {
      if (record !== null) {
        pendingWithdraws[pendingWithdraws.length] = record;
      }
    }
  }
"""))
ref("j-list-keys", sub(U, ADDRS, """  const indices = Array.from(Array(maxWithdrawalsToSearch).keys());
  const pdas: Promise<ProgramDerivedAddress>[] = [];
  for (const index of indices) {
    pdas.push(findPendingWithdrawAddress(staker, index));
  }
  const pendingWithdrawAddresses = (await Promise.all(pdas)).map(([address]) => address);
"""))
ref("j-list-fill", sub(U, ADDRS, """  const pendingWithdrawAddresses = await Promise.all(
    new Array(maxWithdrawalsToSearch)
      .fill(staker)
      .map(async (owner: Address, index) => (await findPendingWithdrawAddress(owner, index)).at(0) as Address)
  );
"""))
ref("j-list-do", sub(U, BATCH, """  const accounts = [];
  const queue = [...pendingWithdrawAddresses];
  if (queue.length) {
    do {
      const response = await rpc
        .getMultipleAccounts(queue.splice(0, MAX_MULTIPLE_ACCOUNTS), { encoding: 'base64' })
        .send();
      accounts.push(...response.value);
    } while (queue.length !== 0);
  }
"""))
ref("j-list-hoist", sub(U, "  const [pendingWithdrawDecoder, base64Encoder] = [getPendingWithdrawDecoder(), getBase64Encoder()];\n", ""), sub(U, "const DEFAULT_MAX_WITHDRAWALS_TO_SEARCH", "const pendingWithdrawDecoder = getPendingWithdrawDecoder();\nconst base64Encoder = getBase64Encoder();\n\nconst DEFAULT_MAX_WITHDRAWALS_TO_SEARCH"))
ref("j-list-parallel", sub(U, BATCH, """  const pageCount = Math.ceil(pendingWithdrawAddresses.length / MAX_MULTIPLE_ACCOUNTS);
  const pages = await Promise.all(
    Array.from({ length: pageCount }, (_, page) =>
      rpc
        .getMultipleAccounts(
          pendingWithdrawAddresses.filter((_, i) => Math.floor(i / MAX_MULTIPLE_ACCOUNTS) === page),
          { encoding: 'base64' }
        )
        .send()
    )
  );
  const accounts = pages.map(({ value }) => value).flat();
"""))
ref("j-list-optional", sub(U, POST, """  const tryDecode = (data?: string): PendingWithdraw | undefined => {
    if (data === undefined) return;
    const dataBytes = base64Encoder.encode(data);
    try {
      return pendingWithdrawDecoder.decode(dataBytes);
    } catch (error) {
      console.error('Error decoding account data:', error);
    }
  };
  const pendingWithdraws = accounts
    .map((account) => tryDecode(account?.data?.[0]))
    .filter((record) => record !== undefined) as PendingWithdraw[];
"""))
ref("j-validate-range", sub(U, VALID, """  const allowed = (n: number) => n >= 0 && n <= WITHDRAW_INDEX_MAX_UINT && Number.isSafeInteger(n);
  if (!allowed(maxWithdrawalsToSearch)) {"""))
ref("j-validate-trunc", sub(U, VALID, """  const outOfRange = !(maxWithdrawalsToSearch >= 0 && maxWithdrawalsToSearch <= WITHDRAW_INDEX_MAX_UINT);
  if (outOfRange || Math.trunc(maxWithdrawalsToSearch) !== maxWithdrawalsToSearch) {"""))
ref("j-validate-sequence", sub(U, VALID + "\n    throw new Error(\n      `maxWithdrawalsToSearch must be between 0 and ${WITHDRAW_INDEX_MAX_UINT} and an integer`\n    );\n  }", """  const message = `maxWithdrawalsToSearch must be between 0 and ${WITHDRAW_INDEX_MAX_UINT} and an integer`;
  if (maxWithdrawalsToSearch < 0) throw new Error(message);
  if (maxWithdrawalsToSearch > WITHDRAW_INDEX_MAX_UINT) throw new Error(message);
  if (!Number.isInteger(maxWithdrawalsToSearch)) throw new Error(message);"""))
ref("j-validate-const", sub(U, "const WITHDRAW_INDEX_MAX_UINT = 255;", "const WITHDRAW_INDEX_BITS = 8;\nconst WITHDRAW_INDEX_MAX_UINT = 2 ** WITHDRAW_INDEX_BITS - 1;"), sub(U, "const MAX_MULTIPLE_ACCOUNTS = 100;", "const MAX_MULTIPLE_ACCOUNTS = 1e2;"))
ref("j-rate-vars", sub(U, """  const numerator = vault.amount - state.escrowedOrcaAmount;
  const denominator = await fetchXorcaMintSupply(rpc);
  return {
    numerator,
    denominator,
  };""", """  const rate = { numerator: vault.amount, denominator: 0n };
  rate.numerator -= state.escrowedOrcaAmount;
  rate.denominator = await fetchXorcaMintSupply(rpc);
  return rate;"""))
ref("j-vault-spread", sub(U, """  return {
    address: vaultPda[0],
    owner: tokenAccount.owner,
    mint: tokenAccount.mint,
    amount: tokenAccount.amount,
  };""", """  const { owner, mint, amount } = tokenAccount;
  const result = { address: vaultPda[0] } as { address: Address; owner: Address; mint: Address; amount: bigint };
  return Object.assign(result, { owner, mint, amount });"""))
ref("j-base64-helper", sub(U, "  const dataBytes = new Uint8Array(Buffer.from(accountInfo.value.data[0], 'base64'));", "  const dataBytes = getBase64Encoder().encode(accountInfo.value.data[0]);", 2))
ref("j-decode-buffer", sub(U, "  const dataBytes = new Uint8Array(Buffer.from(accountInfo.value.data[0], 'base64'));", "  const [content] = accountInfo.value.data;\n  const dataBytes = Buffer.from(content, 'base64');", 2))
ref("j-meta-role-bits", sub(SH, between(SH, "    const writableRole = account.isWritable", "  };\n}\n"), """    const { value, isWritable } = account;
    const signing = isTransactionSigner(value);
    const role = (Number(isWritable) | (signing ? AccountRole.READONLY_SIGNER : 0)) as AccountRole;
    const address = expectAddress(value);
    if (signing) {
      return Object.freeze({ address, role, signer: value });
    }
    return Object.freeze({ address, role });
"""))
ref("j-meta-role-switch", sub(SH, "    const writableRole = account.isWritable ? AccountRole.WRITABLE : AccountRole.READONLY;", """    let writableRole: AccountRole;
    switch (account.isWritable) {
      case true:
        writableRole = AccountRole.WRITABLE;
        break;
      default:
        writableRole = AccountRole.READONLY;
    }"""))
ref("j-meta-table", sub(SH, "      role: isTransactionSigner(account.value) ? upgradeRoleToSigner(writableRole) : writableRole,", "      role: {\n        signer: account.isWritable ? AccountRole.WRITABLE_SIGNER : AccountRole.READONLY_SIGNER,\n        plain: writableRole,\n      }[isTransactionSigner(account.value) ? 'signer' : 'plain'],"))
ref("j-expect-order", sub(SH, """  if (typeof value === 'object' && 'address' in value) {
    return value.address;
  }
  if (Array.isArray(value)) {
    return value[0] as Address<T>;
  }
  return value as Address<T>;""", """  if (typeof value === 'string') {
    return value as Address<T>;
  }
  return Array.isArray(value) ? (value[0] as Address<T>) : (value as TransactionSigner<T>).address;"""))
ref("j-ix-literal", sub(I + "withdraw.ts", between(I + "withdraw.ts", "  // Original accounts.", "  // Original args."), """  const writable = <T>(value: T) => ({ value: value ?? null, isWritable: true }) as unknown as ResolvedAccount;
  const readonly = <T>(value: T) => ({ value: value ?? null, isWritable: false }) as unknown as ResolvedAccount;
  const accounts = {
    unstakerAccount: writable(input.unstakerAccount),
    stateAccount: writable(input.stateAccount),
    pendingWithdrawAccount: writable(input.pendingWithdrawAccount),
    unstakerOrcaAta: writable(input.unstakerOrcaAta),
    vaultAccount: writable(input.vaultAccount),
    orcaMintAccount: readonly(input.orcaMintAccount),
    systemProgramAccount: readonly(input.systemProgramAccount),
    tokenProgramAccount: readonly(input.tokenProgramAccount),
  };

"""))
ref("j-ix-values", sub(I + "unstake.ts", between(I + "unstake.ts", "    accounts: [\n      getAccountMeta", "    data: getUnstake"), "    accounts: Object.values(accounts).map(getAccountMeta),\n"))
ref("j-ix-keys", sub(I + "initialize.ts", between(I + "initialize.ts", "    accounts: [\n      getAccountMeta", "    data: getInitialize"), "    accounts: (Object.keys(accounts) as (keyof typeof accounts)[]).map((name) => getAccountMeta(accounts[name])),\n"))
ref("j-ix-entries", sub(I + "set.ts", "  const accounts = originalAccounts as Record<keyof typeof originalAccounts, ResolvedAccount>;", "  const accounts = Object.fromEntries(\n    Object.entries(originalAccounts).map(([name, account]) => [name, { ...account }])\n  ) as Record<keyof typeof originalAccounts, ResolvedAccount>;"))
ref("j-ix-nofreeze", sub(I + "set.ts", "  return Object.freeze({\n    accounts: [\n      getAccountMeta(accounts.updateAuthorityAccount),\n      getAccountMeta(accounts.stateAccount),\n    ],\n    data: getSetInstructionDataEncoder().encode(args as SetInstructionDataArgs),\n    programAddress,\n  }", "  const metas = [accounts.updateAuthorityAccount, accounts.stateAccount].map((account) => getAccountMeta(account));\n  const data = getSetInstructionDataEncoder().encode(args as SetInstructionDataArgs);\n  return Object.freeze({ programAddress, accounts: metas, data }"))
ref("j-ix-program", sub(I + "stake.ts", "  const programAddress = config?.programAddress ?? XORCA_STAKING_PROGRAM_PROGRAM_ADDRESS;", "  const { programAddress = XORCA_STAKING_PROGRAM_PROGRAM_ADDRESS } = config ?? {};"))
ref("j-ix-pick", sub(I + "unstake.ts", "  const args = { ...input };", "  const args = {\n    xorcaUnstakeAmount: input.xorcaUnstakeAmount,\n    withdrawIndex: input.withdrawIndex,\n  };"))
ref("j-ix-data", sub(I + "withdraw.ts", """  return transformEncoder(
    getStructEncoder([
      ['discriminator', getU8Encoder()],
      ['withdrawIndex', getU8Encoder()],
    ]),
    (value) => ({ ...value, discriminator: WITHDRAW_DISCRIMINATOR })
  );""", """  const fields = getStructEncoder([
    ['discriminator', getU8Encoder()],
    ['withdrawIndex', getU8Encoder()],
  ]);
  return transformEncoder(fields, ({ withdrawIndex }: WithdrawInstructionDataArgs) => {
    return { discriminator: WITHDRAW_DISCRIMINATOR, withdrawIndex };
  });"""))
ref("j-codec-helper", sub(ST, "export function getStateDecoder(): FixedSizeDecoder<State> {\n  return getStructDecoder([", "const bytes = (size: number) => fixDecoderSize(getBytesDecoder(), size);\n\nexport function getStateDecoder(): FixedSizeDecoder<State> {\n  const u8 = getU8Decoder();\n  return getStructDecoder(["), sub(ST, "    ['padding1', fixDecoderSize(getBytesDecoder(), 5)],\n    ['bump', getU8Decoder()],\n    ['vaultBump', getU8Decoder()],", "    ['padding1', bytes(5)],\n    ['bump', u8],\n    ['vaultBump', u8],"), sub(ST, "    ['padding2', fixDecoderSize(getBytesDecoder(), 1992)],", "    ['padding2', bytes(getStateSize() - 56)],"))
ref("j-codec-fields", sub(PW, """  return getStructDecoder([
    ['discriminator', getAccountDiscriminatorDecoder()],
    ['padding1', fixDecoderSize(getBytesDecoder(), 5)],
    ['bump', getU8Decoder()],
    ['withdrawIndex', getU8Decoder()],""", """  const header = [
    ['discriminator', getAccountDiscriminatorDecoder()] as const,
    ['padding1', fixDecoderSize(getBytesDecoder(), 5)] as const,
  ] as const;
  const indices = (['bump', 'withdrawIndex'] as const).map((name) => [name, getU8Decoder()] as const);
  return getStructDecoder([
    ...header,
    ...indices,"""))
ref("j-codec-parts", sub(PW, "  return combineCodec(getPendingWithdrawEncoder(), getPendingWithdrawDecoder());", "  const encoder = getPendingWithdrawEncoder();\n  const decoder = getPendingWithdrawDecoder();\n  return combineCodec(encoder, decoder);"))
ref("j-encode-if", sub(PW, "    (value) => ({\n      ...value,\n      discriminator: PENDING_WITHDRAW_DISCRIMINATOR,\n      padding1: value.padding1 ?? new Uint8Array([0, 0, 0, 0, 0]),", "    ({ padding1 = Uint8Array.from([0, 0, 0, 0, 0]), ...value }) => ({\n      ...value,\n      discriminator: PENDING_WITHDRAW_DISCRIMINATOR,\n      padding1,"))
ref("j-size-const", sub(PW, "export function getPendingWithdrawSize(): number {\n  return 1024;\n}", "const KIBIBYTE = 1 << 10;\n\nexport const getPendingWithdrawSize = (): number => KIBIBYTE;"), sub(ST, "export function getStateSize(): number {\n  return 2048;\n}", "export function getStateSize(): number {\n  return 0x400 * 2;\n}"))
ref("j-identify-find", sub(PR, between(PR, "  if (containsBytes(data, getU8Encoder().encode(0), 0)) {", "  throw new Error(\n    'The provided instruction"), """  const known = [
    XorcaStakingProgramInstruction.Stake,
    XorcaStakingProgramInstruction.Unstake,
    XorcaStakingProgramInstruction.Withdraw,
    XorcaStakingProgramInstruction.Initialize,
    XorcaStakingProgramInstruction.Set,
  ].find((_, tag) => containsBytes(data, getU8Encoder().encode(tag), 0));
  if (known !== undefined) {
    return known;
  }
"""))
ref("j-identify-map", sub(PR, between(PR, "  if (containsBytes(data, getU8Encoder().encode(0), 0)) {", "  throw new Error(\n    'The provided instruction"), """  const [tag] = data;
  const kind = tag === undefined ? undefined : BY_TAG.get(tag);
  if (kind !== undefined) return kind;
"""), sub(PR, "export function identifyXorcaStakingProgramInstruction(", """const BY_TAG = new Map<number, XorcaStakingProgramInstruction>([
  [0, XorcaStakingProgramInstruction.Stake],
  [1, XorcaStakingProgramInstruction.Unstake],
  [2, XorcaStakingProgramInstruction.Withdraw],
  [3, XorcaStakingProgramInstruction.Initialize],
  [4, XorcaStakingProgramInstruction.Set],
]);

export function identifyXorcaStakingProgramInstruction("""))
ref("j-identify-helper", sub(PR, between(PR, "  const data = 'data' in account ? account.data : account;", "  throw new Error('The provided account"), """  const startsWith = (kind: AccountDiscriminator) =>
    containsBytes(dataOf(account), getAccountDiscriminatorEncoder().encode(kind), 0);
  if (startsWith(AccountDiscriminator.State)) {
    return XorcaStakingProgramAccount.State;
  } else if (startsWith(AccountDiscriminator.PendingWithdraw)) {
    return XorcaStakingProgramAccount.PendingWithdraw;
  }
"""), sub(PR, "export enum XorcaStakingProgramAccount {", "function dataOf(source: { data: ReadonlyUint8Array } | ReadonlyUint8Array): ReadonlyUint8Array {\n  if ('data' in source) {\n    return source.data;\n  }\n  return source;\n}\n\nexport enum XorcaStakingProgramAccount {"))
ref("j-enum-object", sub(PR, "export enum XorcaStakingProgramInstruction {\n  Stake,\n  Unstake,\n  Withdraw,\n  Initialize,\n  Set,\n}", "export enum XorcaStakingProgramInstruction {\n  Stake = 0,\n  Unstake = Stake + 1,\n  Withdraw = 2,\n  Initialize = 0x3,\n  Set = 1 << 2,\n}"))
ref("j-error-offset", sub(ER, "export const XORCA_STAKING_PROGRAM_ERROR__INSUFFICIENT_ESCROW = 0x1780; // 6016", "export const XORCA_STAKING_PROGRAM_ERROR__INSUFFICIENT_ESCROW = 6016;"), sub(ER, "export const XORCA_STAKING_PROGRAM_ERROR__INVALID_SEEDS = 0x1775; // 6005", "export const XORCA_STAKING_PROGRAM_ERROR__INVALID_SEEDS = 6_005;"))
ref("j-error-early", sub(ER, """  if (process.env.NODE_ENV !== 'production') {
    return (xorcaStakingProgramErrorMessages as Record<XorcaStakingProgramError, string>)[code];
  }

  return 'Error message not available in production bundles.';""", """  if (process.env.NODE_ENV === 'production') {
    return 'Error message not available in production bundles.';
  }
  const messages = xorcaStakingProgramErrorMessages as Record<XorcaStakingProgramError, string>;
  const message = messages[code];
  return message;"""))
ref("j-error-arrow", sub(ER, """  return isProgramError<TProgramErrorCode>(
    error,
    transactionMessage,
    XORCA_STAKING_PROGRAM_PROGRAM_ADDRESS,
    code
  );""", """  const raisedByProgram = isProgramError<TProgramErrorCode>(
    error,
    transactionMessage,
    XORCA_STAKING_PROGRAM_PROGRAM_ADDRESS,
    code
  );
  return raisedByProgram;"""))
ref("j-kind-destructure", sub(SU, "  return value.__kind === kind;", "  const { __kind } = value;\n  return Object.is(__kind, kind);"), sub(SU, "  return Array.isArray(data) ? { __kind: kind, fields: data } : { __kind: kind, ...(data ?? {}) };", "  if (!Array.isArray(data)) {\n    return { __kind: kind, ...data };\n  }\n  return { __kind: kind, fields: data };"))
ref("j-union-variants", sub(SU, """  return getDiscriminatedUnionDecoder([
    ['UpdateCoolDownPeriod', getStructDecoder([['newCoolDownPeriodS', getI64Decoder()]])],
    ['UpdateUpdateAuthority', getStructDecoder([['newAuthority', getAddressDecoder()]])],
  ]);""", """  const coolDown = getStructDecoder([['newCoolDownPeriodS', getI64Decoder()]]);
  const authority = getStructDecoder([['newAuthority', getAddressDecoder()]]);
  const variants = [
    ['UpdateCoolDownPeriod', coolDown],
    ['UpdateUpdateAuthority', authority],
  ] as const;
  return getDiscriminatedUnionDecoder(variants) as Decoder<StateUpdateInstruction>;"""))
ref("j-parse-destructure", sub(I + "withdraw.ts", between(I + "withdraw.ts", "  let accountIndex = 0;", "    data: getWithdrawInstructionDataDecoder().decode(instruction.data),"), """  const [
    unstakerAccount,
    stateAccount,
    pendingWithdrawAccount,
    unstakerOrcaAta,
    vaultAccount,
    orcaMintAccount,
    systemProgramAccount,
    tokenProgramAccount,
  ] = instruction.accounts as readonly AccountMeta[] as any;
  return {
    programAddress: instruction.programAddress,
    accounts: {
      unstakerAccount,
      stateAccount,
      pendingWithdrawAccount,
      unstakerOrcaAta,
      vaultAccount,
      orcaMintAccount,
      systemProgramAccount,
      tokenProgramAccount,
    },
"""))
ref("j-parse-names", sub(I + "stake.ts", between(I + "stake.ts", "  let accountIndex = 0;", "    data: getStakeInstructionDataDecoder().decode(instruction.data),"), """  const names = [
    'stakerAccount',
    'vaultAccount',
    'stakerOrcaAta',
    'stakerXorcaAta',
    'xorcaMintAccount',
    'stateAccount',
    'orcaMintAccount',
    'tokenProgramAccount',
  ];
  const metas = instruction.accounts as TAccountMetas;
  return {
    programAddress: instruction.programAddress,
    accounts: Object.fromEntries(names.map((name, i) => [name, metas[i]])) as any,
"""))
ref("j-fetchall", sub(PW, "  const maybeAccounts = await fetchAllMaybePendingWithdraw(rpc, addresses, config);\n  assertAccountsExist(maybeAccounts);\n  return maybeAccounts;", "  return fetchAllMaybePendingWithdraw(rpc, addresses, config).then((maybeAccounts) => {\n    assertAccountsExist(maybeAccounts);\n    return maybeAccounts;\n  });"), sub(PW, "  return maybeAccounts.map((maybeAccount) => decodePendingWithdraw(maybeAccount));", "  const decoded = [];\n  for (const maybeAccount of maybeAccounts) {\n    decoded.push(decodePendingWithdraw(maybeAccount));\n  }\n  return decoded;"))
ref("j-imports", sub(U, "  getPendingWithdrawDecoder,\n  getStateDecoder,\n", "  getPendingWithdrawDecoder as pendingDecoder,\n  getStateDecoder,\n"), sub(U, "getPendingWithdrawDecoder()", "pendingDecoder()"))
ref("j-module", sub(U, "const TOKEN_PROGRAM_ADDRESS = 'TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA' as Address;", "const ADDRESSES = {\n  token: 'TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA',\n} satisfies Record<string, string>;\nconst TOKEN_PROGRAM_ADDRESS = ADDRESSES.token as Address;"))
