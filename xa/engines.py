"""Runs an engine and returns (obligations, evidence)."""
PROGRAM_ASSUMES = [
    "pinocchio's entrypoint hands over the account list, program id and payload as the runtime serialised them, and each account's data area has room for the 10 KiB resize the runtime reserves",
    "distinct account positions refer to distinct accounts for written fields (the runtime serialises duplicates as one shared account; the program takes no duplicate-account path whose effect would differ from the model)",
    "sol_create_program_address / sol_try_find_program_address are collision-free functions of their inputs; sysvar clock and rent return the runtime's values",
    "SPL token, associated-token and system program instructions behave as modelled (xa/models.py); called programs do not re-enter",
    "release profile: overflow checks off, default cargo features, target_os = solana branches",
    "the lamports of any set of accounts sum to less than 2^64; account data is at most 10 MiB",
]


def program(tier):
    from . import program as P, rules
    m, iid, res = P.analyse()
    obs, by, exits = rules.evaluate(m, iid, res)
    own = sorted({m.p.insts[k]["path"] for k in m.stats["functions"] if m.p.insts[k]["crate"] == m.p.d["crate"]})
    info = dict(explanation="The program is type-checked in its on-chain configuration; its monomorphised MIR is interpreted abstractly from the entry point over all inputs, with states joined at merge points.",
                functions_analysed=len(m.stats["functions"]), program_functions=own, basic_blocks=len(m.stats["blocks"]), joins=m.stats["joins"], steps=m.steps, exits_total=len(res), success_exits={k: len(v) for k, v in by.items()},
                bounds_accesses_proved=sum(c[0] for c in m.access.values()), bounds_accesses_unproved=sum(c[1] for c in m.access.values()), assumptions=PROGRAM_ASSUMES)
    return obs, info


def refusals(tier):
    from . import refusals as F
    obs, cov, m = F.evaluate(tier)
    info = dict(explanation="The program's MIR is interpreted from the entry point with every way to fail kept apart; the conditions at each failing exit (error or panic) must imply a documented reason, and its code must be the one documented for it.",
                functions_analysed=len(m.stats["functions"]), basic_blocks=len(m.stats["blocks"]), steps=m.steps, assumptions=PROGRAM_ASSUMES, **cov)
    return obs, info


CLIENT_ASSUMES = [
    "the standard library, borsh, the Solana address, account and RPC crates behave as their sources (interpreted) or the model in xa/client.py (address derivation, RPC answers, CPI) say",
    "an RPC node answers each queried address, in order, with that account or with nothing",
    "crate features fetch, wasm and serde, host target; integer overflow wraps (release) and panics are reported",
]


def client(tier, want=None):
    from . import client_rules as R
    c = R.evaluate(tier, want)
    own = sorted(x for x in c.fns if "xorca" in x)
    info = dict(explanation="The Rust client is type-checked; the MIR of each public entry is interpreted abstractly for symbolic arguments and symbolic chain contents, generic items through the witness crate /verif/witness.",
                functions_analysed=len(c.fns), client_functions=own, basic_blocks=c.blocks, entry_calls=c.calls, opaque_callees=sorted(c.unknown)[:60], assumptions=CLIENT_ASSUMES)
    return c.out, info


JS_ASSUMES = [
    "@solana/kit codecs, account fetching, roles and address derivation, @solana-program/token decoders, the JavaScript built-ins and the RPC node behave as modelled (xa/jsmodels.py)",
    "types are erased: callers pass values of the declared TypeScript types",
    "an RPC node answers each queried address, in order, with that account or null, and refuses more than 100 addresses per request",
    "fetchStakingExchangeRate is judged for vault balance >= escrow, which the program maintains (P24)",
]


def js(tier, want=None):
    from . import js_rules as R
    j = R.evaluate(tier, want)
    info = dict(explanation="The TypeScript client is parsed; every export is interpreted abstractly (bigints and numbers as polynomials over unknowns with ranges, addresses and account contents as unknown bytes), all undecided branches are explored.",
                functions_analysed=len(j.fns), js_functions=sorted(map(str, j.fns)), ast_nodes_interpreted=j.blocks, entry_calls=j.calls, assumptions=JS_ASSUMES)
    return j.out, info


SCRIPT_ASSUMES = [
    "@solana/web3.js 1.x, @solana/spl-token 0.3/0.4, the file system, the JavaScript built-ins and the RPC node behave as modelled (xa/scripts.py, xa/jsmodels.py); addresses derived from different seeds differ",
    "key files hold the 64 bytes of a key pair, command-line addresses are base58 addresses or the listed texts that are not, amounts are decimal numerals or the listed texts that are not",
    "a node answers each request with the account asked for or fails; at most one request of a run fails; a transaction is rejected or has its effects",
]


def scripts(tier, want=None):
    from . import scripts as R
    j = R.evaluate(tier, want)
    info = dict(explanation="Each command-line script is parsed and interpreted abstractly from its first statement for unknown arguments, key files and chain contents; all undecided branches are explored and the transactions, files and printed lines of every path are compared with the program's required form.",
                functions_analysed=len(j.fns), js_functions=sorted(map(str, j.fns)), ast_nodes_interpreted=j.blocks, paths_explored=j.calls, assumptions=SCRIPT_ASSUMES)
    return j.out, info


def interface(tier, want=None):
    from . import interface as R
    obs, info = R.evaluate()
    return obs, dict(explanation="The declarations for client generation (shank attributes) are read from the syntax of the program's sources and compared, position by position, with the interface established for the program and its clients.", **info)


ENGINES = {"interface": interface, "program": program, "client": client, "js": js, "refusals": refusals, "scripts": scripts}


def run(name, tier):
    """name: engines joined by +, each optionally restricted to sections, e.g. program+client:conversion,addresses"""
    obs, info = [], {}
    for part in name.split("+"):
        e, _, secs = part.partition(":")
        o, i = ENGINES[e](tier, secs.split(",")) if secs else ENGINES[e](tier)
        obs += o
        for k, v in i.items():
            if k == "explanation":
                info[k] = (info.get(k, "") + " " + v).strip()
            elif k == "assumptions":
                info[k] = info.get(k, []) + v
            else:
                info[k if k not in info else e + "_" + k] = v
    return obs, info
