#!/usr/bin/env python3
"""behaviour-preserving edits of the TypeScript client on which its checks must stay quiet (development tool)"""
import glob, os, subprocess, sys
V = "/verif"; S = "/tmp/xr/repo"; J = "js-client/src/"; G = J + "generated/"; U = J + "utils/index.ts"; CONV = J + "utils/conversion.ts"
R = {}
def ref(id, *edits):
    R[id] = edits
def sub(f, a, b, n=1):
    return (f, a, b, n)
def between(f, a, b):
    s = open("/repo/" + f).read()
    i = s.index(a)
    return s[i:s.index(b, i)]

ref("j-conv-helper", sub(CONV, between(CONV, "  const xorcaSupplyWithVirtual", "}\n"), """  return mulDiv(
    orcaAmountToConvert,
    xorcaSupply + VIRTUAL_XORCA_SUPPLY,
    nonEscrowedOrcaAmount + VIRTUAL_NON_ESCROWED_ORCA_AMOUNT
  );
""", 1) if False else sub(CONV, "  return (orcaAmountToConvert * xorcaSupplyWithVirtual) / nonEscrowedWithVirtual;", "  return mulDiv(orcaAmountToConvert, xorcaSupplyWithVirtual, nonEscrowedWithVirtual);"),
    sub(CONV, "  return (xorcaAmountToConvert * nonEscrowedWithVirtual) / xorcaSupplyWithVirtual;", "  return mulDiv(xorcaAmountToConvert, nonEscrowedWithVirtual, xorcaSupplyWithVirtual);"),
    sub(CONV, "/**\n * Convert an ORCA", "const mulDiv = (a: bigint, b: bigint, c: bigint): bigint => {\n  const product = a * b;\n  return (product - (product % c)) / c;\n};\n\n/**\n * Convert an ORCA"))
ref("j-conv-switch", sub(CONV, "  if (xorcaSupply === 0n || nonEscrowedOrcaAmount === 0n) {\n    return orcaAmountToConvert;\n  }", "  const live = Boolean(xorcaSupply) && nonEscrowedOrcaAmount !== BigInt(0);\n  switch (live) {\n    case false:\n      return orcaAmountToConvert;\n    default:\n      break;\n  }"),
    sub(CONV, "  if (xorcaSupply === 0n || nonEscrowedOrcaAmount === 0n) {\n    throw", "  if (!xorcaSupply || !(nonEscrowedOrcaAmount > 0n)) {\n    throw"))
ref("j-conv-asuint", sub(CONV, "  return (orcaAmountToConvert * xorcaSupplyWithVirtual) / nonEscrowedWithVirtual;", "  const [mul, div] = [xorcaSupplyWithVirtual, nonEscrowedWithVirtual] as const;\n  let out = orcaAmountToConvert;\n  out *= mul;\n  out /= div;\n  return out;"))
ref("j-pda-helper", sub(U, "export async function findStateAddress", """const utf8 = new TextEncoder();

function programPda(...seeds: (string | Uint8Array)[]): Promise<ProgramDerivedAddress> {
  return getProgramDerivedAddress({
    programAddress: XORCA_STAKING_PROGRAM_PROGRAM_ADDRESS,
    seeds: seeds.map((seed) => (typeof seed === 'string' ? utf8.encode(seed) : seed)),
  });
}

export async function findStateAddress"""), sub(U, """  return await getProgramDerivedAddress({
    programAddress: XORCA_STAKING_PROGRAM_PROGRAM_ADDRESS,
    seeds: [new TextEncoder().encode('state')],
  });""", "  return programPda('state');"), sub(U, """  const addressEncoder = getAddressEncoder();
  const unstakerBytes = addressEncoder.encode(unstaker);
  return await getProgramDerivedAddress({
    programAddress: XORCA_STAKING_PROGRAM_PROGRAM_ADDRESS,
    seeds: [
      new TextEncoder().encode('pending_withdraw'),
      unstakerBytes,
      new Uint8Array([withdrawIndex]),
    ],
  });""", "  const index = Uint8Array.of(withdrawIndex);\n  return programPda('pending_withdraw', getAddressEncoder().encode(unstaker) as Uint8Array, index);"))
ref("j-pda-buffer", sub(U, "seeds: [new TextEncoder().encode('state')],", "seeds: ['state'],"), sub(U, "      new TextEncoder().encode('pending_withdraw'),", "      Buffer.from('pending_withdraw', 'utf8'),"), sub(U, "      new Uint8Array([withdrawIndex]),", "      Buffer.from([withdrawIndex]),"))
ref("j-pda-dataview", sub(U, """  const unstakerBytes = addressEncoder.encode(unstaker);
""", """  const unstakerBytes = addressEncoder.encode(unstaker);
  const index = new Uint8Array(1);
  index[0] = withdrawIndex;
"""), sub(U, "      new Uint8Array([withdrawIndex]),", "      index,"))
LIST = between(U, "  const pendingWithdrawAddresses", "function validateMax")
ref("j-list-loop", sub(U, LIST, """  const pendingWithdrawAddresses: Address[] = [];
  for (let index = 0; index < maxWithdrawalsToSearch; index++) {
    const [address] = await findPendingWithdrawAddress(staker, index);
    pendingWithdrawAddresses.push(address);
  }
  const decoder = getPendingWithdrawDecoder();
  const encoder = getBase64Encoder();
  const found: PendingWithdraw[] = [];
  while (pendingWithdrawAddresses.length > 0) {
    const batch = pendingWithdrawAddresses.splice(0, MAX_MULTIPLE_ACCOUNTS);
    const response = await rpc.getMultipleAccounts(batch, { encoding: 'base64' }).send();
    for (const account of response.value) {
      if (account === null) {
        continue;
      }
      const [encoded] = account.data;
      try {
        found.push(decoder.decode(encoder.encode(encoded)));
      } catch (error) {
        console.error('Error decoding account data:', error);
      }
    }
  }
  return found;
}

"""))
ref("j-list-helpers", sub(U, LIST, """  const addresses = await recordAddresses(staker, maxWithdrawalsToSearch);
  const batches: Address[][] = [];
  for (let start = 0; start < addresses.length; start += MAX_MULTIPLE_ACCOUNTS) {
    batches.push(addresses.slice(start, start + MAX_MULTIPLE_ACCOUNTS));
  }
  const responses = await Promise.all(
    batches.map((batch) => rpc.getMultipleAccounts(batch, { encoding: 'base64' }).send())
  );
  return responses
    .flatMap(({ value }) => [...value])
    .flatMap((account) => (account ? decodeRecord(account.data[0]) : []));
}

async function recordAddresses(staker: Address, count: number): Promise<Address[]> {
  const indices = [...Array(count).keys()];
  const pdas = await Promise.all(indices.map((index) => findPendingWithdrawAddress(staker, index)));
  return pdas.map((pda) => pda[0]);
}

function decodeRecord(base64: string): PendingWithdraw[] {
  try {
    return [getPendingWithdrawDecoder().decode(getBase64Encoder().encode(base64))];
  } catch (error) {
    console.error('Error decoding account data:', error);
    return [];
  }
}

"""))
ref("j-list-reduce", sub(U, between(U, "  const pendingWithdraws = accounts", "  return pendingWithdraws;"), """  const pendingWithdraws = accounts.reduce<PendingWithdraw[]>((list, account) => {
    if (!account) return list;
    let decoded: PendingWithdraw | undefined;
    try {
      decoded = pendingWithdrawDecoder.decode(base64Encoder.encode(account.data[0]));
    } catch (error) {
      console.error('Error decoding account data:', error);
    }
    return decoded === undefined ? list : [...list, decoded];
  }, []);
"""))
ref("j-list-memo", sub(U, "      findPendingWithdrawAddress(staker, index).then(([address]) => address)\n", "      recordAddress(staker, index)\n"), sub(U, "function validateMaxWithdrawalsToSearch(", """const recordAddresses = new Map<string, Promise<Address>>();

// Deriving an address is slow, so every one is derived once.
function recordAddress(staker: Address, index: number): Promise<Address> {
  const key = `${staker}:${index}`;
  let known = recordAddresses.get(key);
  if (!known) {
    known = findPendingWithdrawAddress(staker, index).then(([address]) => address);
    recordAddresses.set(key, known);
  }
  return known;
}

function validateMaxWithdrawalsToSearch("""))
ref("j-list-memo-object", sub(U, "      findPendingWithdrawAddress(staker, index).then(([address]) => address)\n", "      recordAddress(staker, index)\n"), sub(U, "function validateMaxWithdrawalsToSearch(", """const recordAddresses: Record<string, Promise<Address>[]> = {};

function recordAddress(staker: Address, index: number): Promise<Address> {
  const known = (recordAddresses[staker] ??= []);
  return (known[index] ??= findPendingWithdrawAddress(staker, index).then(([address]) => address));
}

function validateMaxWithdrawalsToSearch("""))
ref("j-list-class", sub(U, LIST, """  return new RecordSearch(rpc, staker).run(maxWithdrawalsToSearch);
}

class RecordSearch {
  private readonly decoder = getPendingWithdrawDecoder();
  private readonly base64 = getBase64Encoder();
  #found: PendingWithdraw[] = [];

  constructor(
    private readonly rpc: Rpc<GetMultipleAccountsApi>,
    private readonly staker: Address
  ) {}

  async run(limit: number): Promise<PendingWithdraw[]> {
    for (let from = 0; from < limit; from += MAX_MULTIPLE_ACCOUNTS) {
      await this.page(from, Math.min(from + MAX_MULTIPLE_ACCOUNTS, limit));
    }
    return this.#found;
  }

  private async page(from: number, to: number): Promise<void> {
    const keys = await Promise.all(
      Array.from({ length: to - from }, async (_, i) => (await findPendingWithdrawAddress(this.staker, from + i))[0])
    );
    const { value } = await this.rpc.getMultipleAccounts(keys, { encoding: 'base64' }).send();
    value.forEach((account) => {
      const record = account && this.decode(account.data[0]);
      if (record) this.#found.push(record);
    });
  }

  private decode(data: string): PendingWithdraw | null {
    try {
      return this.decoder.decode(this.base64.encode(data));
    } catch (error) {
      console.error('Error decoding account data:', error);
      return null;
    }
  }
}

"""))
ref("j-validate", sub(U, """  if (
    maxWithdrawalsToSearch < 0 ||
    maxWithdrawalsToSearch > WITHDRAW_INDEX_MAX_UINT ||
    maxWithdrawalsToSearch % 1 !== 0
  ) {""", """  const valid =
    Number.isInteger(maxWithdrawalsToSearch) &&
    maxWithdrawalsToSearch >= 0 &&
    maxWithdrawalsToSearch <= WITHDRAW_INDEX_MAX_UINT;
  if (!valid) {"""))
ref("j-validate-floor", sub(U, "    maxWithdrawalsToSearch % 1 !== 0\n", "    Math.floor(maxWithdrawalsToSearch) !== maxWithdrawalsToSearch\n"))
ref("j-rate-parallel", sub(U, """  const state = await fetchStateAccountData(rpc);
  const vault = await fetchVaultState(rpc);
  const numerator = vault.amount - state.escrowedOrcaAmount;
  const denominator = await fetchXorcaMintSupply(rpc);
  return {
    numerator,
    denominator,
  };""", """  const [{ escrowedOrcaAmount }, { amount }, denominator] = await Promise.all([
    fetchStateAccountData(rpc),
    fetchVaultState(rpc),
    fetchXorcaMintSupply(rpc),
  ]);
  return { numerator: amount - escrowedOrcaAmount, denominator };"""))
ref("j-state-generated", sub(U, """  const accounts = await rpc.getMultipleAccounts([stateAddress]).send();
  if (!accounts.value[0]) {
    throw new Error('State account not found.');
  }
  const encoder = getBase64Encoder();
  const dataBytes = encoder.encode(accounts.value[0].data[0]);
  const stateDecoder = getStateDecoder();
  return stateDecoder.decode(dataBytes);""", """  const {
    value: [account],
  } = await rpc.getMultipleAccounts([stateAddress], { encoding: 'base64' }).send();
  if (account == null) {
    throw new Error('State account not found.');
  }
  const bytes = Uint8Array.from(Buffer.from(account.data[0], 'base64'));
  return getStateDecoder().decode(bytes);"""))
ref("j-token-helper", sub(U, "export async function fetchVaultState(", """async function accountBytes(rpc: Rpc<GetAccountInfoApi>, address: Address, missing: string): Promise<Uint8Array> {
  const { value } = await rpc.getAccountInfo(address, { encoding: 'base64' }).send();
  if (value) {
    return new Uint8Array(Buffer.from(value.data[0], 'base64'));
  }
  throw new Error(missing);
}

export async function fetchVaultState("""), sub(U, """  const accountInfo = await rpc.getAccountInfo(vaultPda[0], { encoding: 'base64' }).send();
  if (!accountInfo.value) {
    throw new Error('Vault ATA not found.');
  }
  const tokenDecoder = getTokenDecoder();
  const dataBytes = new Uint8Array(Buffer.from(accountInfo.value.data[0], 'base64'));
  const tokenAccount = tokenDecoder.decode(dataBytes);
  return {
    address: vaultPda[0],
    owner: tokenAccount.owner,
    mint: tokenAccount.mint,
    amount: tokenAccount.amount,
  };""", """  const { owner, mint, amount } = getTokenDecoder().decode(
    await accountBytes(rpc, vaultPda[0], 'Vault ATA not found.')
  );
  return { address: vaultPda[0], owner, mint, amount };"""), sub(U, """  const accountInfo = await rpc.getAccountInfo(XORCA_MINT_ADDRESS, { encoding: 'base64' }).send();
  if (!accountInfo.value) {
    throw new Error('xORCA mint not found.');
  }
  const mintDecoder = getMintDecoder();
  const dataBytes = new Uint8Array(Buffer.from(accountInfo.value.data[0], 'base64'));
  const mintAccount = mintDecoder.decode(dataBytes);
  return mintAccount.supply;""", """  return accountBytes(rpc, XORCA_MINT_ADDRESS, 'xORCA mint not found.').then(
    (bytes) => getMintDecoder().decode(bytes).supply
  );"""))
ref("j-meta-role", sub(G + "shared/index.ts", between(G + "shared/index.ts", "    const writableRole = account.isWritable", "  };\n}\n"), """    const signer = isTransactionSigner(account.value) ? account.value : undefined;
    let role = account.isWritable ? AccountRole.WRITABLE : AccountRole.READONLY;
    if (signer) {
      role = upgradeRoleToSigner(role);
    }
    const meta = { address: expectAddress(account.value), role };
    return Object.freeze(signer ? { ...meta, signer } : meta);
"""))
ref("j-ix-map", sub(G + "instructions/stake.ts", between(G + "instructions/stake.ts", "    accounts: [\n      getAccountMeta", "    data: getStake"), """    accounts: [
      accounts.stakerAccount,
      accounts.vaultAccount,
      accounts.stakerOrcaAta,
      accounts.stakerXorcaAta,
      accounts.xorcaMintAccount,
      accounts.stateAccount,
      accounts.orcaMintAccount,
      accounts.tokenProgramAccount,
    ].map((account) => getAccountMeta(account)),
"""), sub(G + "instructions/stake.ts", "  const args = { ...input };", "  const { orcaStakeAmount } = input;\n  const args = { orcaStakeAmount };"))
ref("j-parse-index", sub(G + "instructions/withdraw.ts", between(G + "instructions/withdraw.ts", "  let accountIndex = 0;", "  return {\n    programAddress: instruction"), """  const remaining = [...(instruction.accounts as readonly AccountMeta[])];
  const getNextAccount = () => remaining.shift() as never;
"""))
ref("j-parse-iter", sub(G + "instructions/unstake.ts", between(G + "instructions/unstake.ts", "  let accountIndex = 0;", "  return {\n    programAddress: instruction"), """  const iterator = (instruction.accounts as TAccountMetas)[Symbol.iterator]();
  const getNextAccount = () => iterator.next().value!;
"""))
ref("j-identify-switch", sub(G + "programs/xorcaStakingProgram.ts", between(G + "programs/xorcaStakingProgram.ts", "  if (containsBytes(data, getU8Encoder().encode(0), 0)) {", "  throw new Error(\n    'The provided instruction"), """  switch (data[0]) {
    case 0:
      return XorcaStakingProgramInstruction.Stake;
    case 1:
      return XorcaStakingProgramInstruction.Unstake;
    case 2:
      return XorcaStakingProgramInstruction.Withdraw;
    case 3:
      return XorcaStakingProgramInstruction.Initialize;
    case 4:
      return XorcaStakingProgramInstruction.Set;
  }
"""))
ref("j-identify-table", sub(G + "programs/xorcaStakingProgram.ts", between(G + "programs/xorcaStakingProgram.ts", "  if (containsBytes(data, getU8Encoder().encode(0), 0)) {", "  throw new Error(\n    'The provided instruction"), """  for (const kind of Object.values(XorcaStakingProgramInstruction)) {
    if (typeof kind === 'number' && containsBytes(data, getU8Encoder().encode(kind), 0)) {
      return kind;
    }
  }
"""))
ref("j-error-map", sub(G + "errors/xorcaStakingProgram.ts", """  if (process.env.NODE_ENV !== 'production') {
    return (xorcaStakingProgramErrorMessages as Record<XorcaStakingProgramError, string>)[code];
  }

  return 'Error message not available in production bundles.';""", """  const { NODE_ENV } = process.env;
  return NODE_ENV === 'production'
    ? 'Error message not available in production bundles.'
    : xorcaStakingProgramErrorMessages![code]!;"""))
ref("j-padding-fill", sub(G + "accounts/state.ts", "padding1: value.padding1 ?? new Uint8Array([0, 0, 0, 0, 0]),", "padding1: value.padding1 === undefined ? new Uint8Array(5).fill(0) : value.padding1,"))
PW = G + "accounts/pendingWithdraw.ts"
ref("j-padding-new", sub(PW, between(PW, "        new Uint8Array([\n", "    })\n  );"), "        new Uint8Array(968),\n"))
ref("j-fetch-inline", sub(PW, """  const maybeAccount = await fetchMaybePendingWithdraw(rpc, address, config);
  assertAccountExists(maybeAccount);
  return maybeAccount;""", """  const encoded = await fetchEncodedAccount(rpc, address, config);
  assertAccountExists(encoded);
  return decodePendingWithdraw(encoded);"""), sub(PW, "  return maybeAccounts.map((maybeAccount) => decodePendingWithdraw(maybeAccount));", "  const decoded: MaybeAccount<PendingWithdraw>[] = [];\n  maybeAccounts.forEach((maybeAccount, i) => {\n    decoded[i] = decodePendingWithdraw(maybeAccount);\n  });\n  return decoded;"))
ref("j-event-fields", sub(G + "types/event.ts", """      'Withdraw',
      getStructDecoder([
        ['vaultEscrowedOrcaAmount', getU64Decoder()],
        ['withdrawableOrcaAmount', getU64Decoder()],""", """      'Withdraw',
      getStructDecoder([
        ...(['vaultEscrowedOrcaAmount', 'withdrawableOrcaAmount'] as const).map(
          (field) => [field, getU64Decoder()] as const
        ),"""))
ref("j-event-make", sub(G + "types/event.ts", "  return Array.isArray(data) ? { __kind: kind, fields: data } : { __kind: kind, ...(data ?? {}) };", "  if (Array.isArray(data)) {\n    return { __kind: kind, fields: data };\n  }\n  return Object.assign({ __kind: kind }, data);"))

def apply(i):
    subprocess.run("git checkout -q -- .", shell=True, cwd=S, check=True)
    for f, a, b, n in R[i]:
        s = open(S + "/" + f).read()
        assert s.count(a) == n, (i, f, s.count(a), a[:200])
        open(S + "/" + f, "w").write(s.replace(a, b))

if __name__ == "__main__":
    for i in (sys.argv[1:] or list(R)):
        try:
            apply(i)
        except AssertionError as e:
            print(i, "EDIT", e); continue
        bad = []
        for d in sorted(glob.glob(V + "/seeded/js-*")):
            p = subprocess.run(["bash", d + "/demo.sh"], cwd=S, capture_output=True, text=True)
            if p.returncode:
                bad.append(os.path.basename(d) + " " + (p.stdout + p.stderr)[-300:])
        out = []
        for k in range(35, 44):
            r = subprocess.run(["python3", "check.py", "P%d" % k], cwd=V, env=dict(os.environ, XORCA_REPO=S), capture_output=True, text=True)
            if r.returncode:
                out.append("P%d %d: %s" % (k, r.returncode, r.stdout[-600:]))
        print(i, "DEMO FAILS " + bad[0] if bad else "", "quiet" if not out else "ALARM\n" + "\n".join(out)[:1200], flush=True)
    subprocess.run("git checkout -q -- .", shell=True, cwd=S, check=True)
