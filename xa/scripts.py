"""Obligations of the command-line scripts (ts-scripts): what they send, and what they print, for
unknown command-line arguments, key files and chain contents.  Every script is interpreted from its
first statement; @solana/web3.js and @solana/spl-token are modelled here."""
import re
from .js import *
from .js import poly, poly2, padd, pconst, isbig, isnum, asts
from .jsmodels import Models, arg
from .js_rules import PROGRAM, ORCA_MINT, XORCA_MINT, TOKEN_PROGRAM, ATA_PROGRAM, U64, J
from .rules import INTERFACE

DIR = REPO + "/ts-scripts"
CLIENT = REPO + "/js-client/src"
SYSTEM = "11111111111111111111111111111111"
TOKEN_2022 = "TokenzQdBNbLqP5VEhdkAS6EPFLC1PHnBqCXEpPxuEb"
DEPLOYER = "94kZD71sbTKhqhcvY9D9Ra5BsLzKRZgznbBbQpBWmKrT"


class ScriptModels(Models):
    def __init__(self, r):
        Models.__init__(self, None)
        self.r = r

    def tobyte(self, m, v):
        v = m.num(v)
        if isinstance(v, S) and all(m.ctx.kind[i] == "int" for mono, c in v.p for i in mono) and m.binop(">=", v, 0) and m.binop("<=", v, 255):
            return self.split(m, v.p, 1, False)[0]
        return Models.tobyte(self, m, v)

    # ------------------------------------------------------------ keys
    def pk(self, m, c):
        if all(isinstance(x, tuple) and x[0] == "ab" and x[1][0] == "b58" for x in c):
            raise Unsupported("address given as unknown text")
        o = HObj("PublicKey")
        o.cells = list(c)

        def equals(m, th, a):
            return m.seq(self.decaddr(m, o.cells), self.decaddr(m, self.cellsof(m, arg(a, 0))))
        txt = lambda m, th, a: self.decaddr(m, o.cells)
        buf = lambda m, th, a: Buf(o.cells)
        o.hm = {"toString": txt, "toBase58": txt, "toJSON": txt, "toBuffer": buf, "toBytes": lambda m, th, a: Bytes(o.cells), "toArrayLike": buf, "equals": equals, "encode": buf}
        return o

    def cellsof(self, m, v):
        """bytes of a PublicKey argument"""
        if not (isinstance(v, HObj) and v.cls == "PublicKey"):
            m.throw("TypeError", "not a public key")
        return v.cells

    def newpk(self, m, v):
        if isinstance(v, HObj) and v.cls == "PublicKey":
            return self.pk(m, v.cells)
        if isinstance(v, (Bytes, Arr)):
            c = self.cells(m, v)
            if len(c) > 32:
                m.throw("Error", "Invalid public key input")
            return self.pk(m, c + [0] * (32 - len(c)))
        if isinstance(v, (str, Opq)):
            if isinstance(v, str):
                b = b58dec(v)
                if b is None:
                    m.throw("Error", "Non-base58 character")
                if len(b) != 32:
                    m.throw("Error", "Invalid public key input")
            elif v.t[0] == "dec":
                m.throw("Error", "Invalid public key input")        # at most 22 digits
            elif v.t[0] not in ("addr", "pda", "addrof"):
                raise Unsupported("public key of the text %s" % v)
            return self.pk(m, self.encaddr(m, v))
        m.throw("Error", "Invalid public key input")

    def on_curve(self, m, c):
        t = self.decaddr(m, c)
        t = t if isinstance(t, str) else t.t
        if isinstance(t, tuple) and t[0] == "pda":
            return False
        if isinstance(t, tuple) and t[0] == "addr" and t[1] in self.r.keyfiles.values():
            return True
        return m.ctx.split(("curve", t), "%s is a wallet address" % show(t))

    def keypair(self, m, c):
        o = HObj("Keypair", {"publicKey": self.pk(m, c[32:]), "secretKey": Bytes(c)})
        return o

    def seedpair(self, m, c):
        if len(c) != 32:
            m.throw("Error", "bad seed size")
        return self.keypair(m, list(c) + [("ab", ("addr", ("key of seed", tuple(c))), i) for i in range(32)])

    # ------------------------------------------------------------ modules
    def external(self, m, mod, name):
        H = lambda f, new=None, **p: self.host(name, f, new, p)
        mod = mod[5:] if mod.startswith("node:") else mod
        if mod == "@orca-so/xorca":
            return m.export(m.load(CLIENT + "/index.ts"), name)
        if name in ("*", "default") and mod in ("fs", "path", "url", "@solana/web3.js", "@solana/spl-token", "process", "fs/promises"):
            if mod == "process":
                return m.read(m.globals, "process")
            o = HObj("module")
            o.p = Lazy(lambda k: self.external(m, mod, k))
            return o
        if mod in ("fs", "fs/promises"):
            return self.fs(m, name, mod == "fs/promises")
        if mod == "path" and name in ("join", "resolve"):
            return H(lambda m, th, a: m.cat(sum([[m.tostr(x), "/"] for x in a], [])[:-1]))
        if mod == "path" and name in ("extname", "basename"):
            def part(m, th, a):
                t = m.tostr(a[0])
                if not isinstance(t, str):
                    raise Unsupported("path.%s of an unknown path" % name)
                b = t.rstrip("/").rpartition("/")[2]
                if name == "extname":
                    h, dot, e = b.rpartition(".")
                    return dot + e if h.strip(".") or h and dot else ""
                e = arg(a, 1)
                return b[:-len(e)] if isinstance(e, str) and e and b.endswith(e) and b != e else b
            return H(part)
        if mod == "path" and name == "sep":
            return "/"
        if mod == "path" and name == "dirname":
            return H(lambda m, th, a: "/dir")
        if mod == "url" and name == "fileURLToPath":
            return H(lambda m, th, a: "/dir/script.ts")
        if mod == "process":
            return m.get(m.read(m.globals, "process"), name)
        if mod in ("buffer",) and name == "Buffer":
            return m.read(m.globals, "Buffer")
        if mod == "@solana/web3.js":
            return self.web3(m, name)
        if mod == "@solana/spl-token":
            return self.spl(m, name)
        if mod == "@irys/sdk":
            return self.irys(m, name)
        return Models.external(self, m, mod, name)

    def host(self, name, f, new=None, p=None):
        h = Host(name, f)
        if new:
            h.new = new
        h.p.update(p or {})
        return h

    def fs(self, m, name, later):
        def read(m, th, a):
            t = self.path(m, a[0])
            if m.ctx.split(("unreadable", t), "the file %s cannot be read" % show(t)):
                self.r.failed = True
                m.throw("Error", "ENOENT: no such file or directory")
            if arg(a, 1) is UNDEF or isinstance(a[1], Obj) and m.get(a[1], "encoding") is UNDEF:
                b = HObj("Buffer", {"length": m.ctx.var(("size of", t), 0, 2 ** 32, False)}, toString=lambda m, th, a: Opq("str", ("file", t)))
                b.file = t
                return b
            return Opq("str", ("file", t))
        w = lambda f: (lambda m, th, a: self.promised(lambda: f(m, th, a))) if later else f
        if name in ("readFileSync", "readFile"):
            return self.host(name, w(read))
        if name in ("writeFileSync", "writeFile"):
            def write(m, th, a):
                o = arg(a, 2)
                flag = m.get(o, "flag") if isinstance(o, Obj) else UNDEF
                t = m.tostr(a[1]) if not isinstance(a[1], Bytes) else a[1]
                # anything but replacing the file's contents leaves what was there
                self.r.written.append((m.tostr(a[0]), t if flag is UNDEF or flag in ("w", "w+", "wx", "wx+") else Opq("str", ("what was there and", repr(t)))))
                return UNDEF
            return self.host(name, w(write))
        if name == "existsSync":
            return self.host(name, lambda m, th, a: not m.ctx.split(("unreadable", self.path(m, a[0])), "the file cannot be read"))
        if name in ("statSync", "stat", "accessSync", "access", "lstatSync"):
            def look(m, th, a):
                t = self.path(m, a[0])
                if m.ctx.split(("unreadable", t), "the file %s cannot be read" % show(t)):
                    self.r.failed = True
                    m.throw("Error", "ENOENT: no such file or directory")
                return UNDEF if "access" in name else HObj("Stats", {"size": m.ctx.var(("size of", t), 0, 2 ** 32, False)}, isFile=lambda m, th, a: True, isDirectory=lambda m, th, a: False)
            return self.host(name, w(look))
        if name in ("mkdirSync", "mkdir"):
            return self.host(name, w(lambda m, th, a: UNDEF))
        raise Unsupported("fs.%s is not modelled" % name)

    def path(self, m, v):
        v = m.tostr(v)
        return v if isinstance(v, str) else v.t

    def parse_file(self, m, t):
        if t in self.r.contents:
            return self.r.contents[t](m)
        who = self.r.keyfiles.get(t)
        if who is None:
            raise Unsupported("the contents of the file %s" % (t,))
        c = [("sk", who, i) for i in range(32)] + [("ab", ("addr", who), i) for i in range(32)]
        return Arr([self.byte(m, x) for x in c])

    # ------------------------------------------------------------ @irys/sdk
    def irys(self, m, name):
        if name not in ("default", "NodeIrys"):
            raise Unsupported("@irys/sdk %s is not modelled" % name)

        def new(a):
            o = a[0]
            got = {k: m.get(o, k) for k in ("url", "network", "token", "key")}

            def upload(m, th, a):
                tags = m.get(a[1], "tags") if isinstance(arg(a, 1), Obj) else UNDEF
                tags = [(m.get(x, "name"), m.get(x, "value")) for x in m.iterate(tags)] if tags is not UNDEF else []
                n = len(self.r.uploads) + 1
                self.r.uploads.append(dict(node=got, data=a[0], tags=tags, ok=False))
                if m.ctx.split(("upload refused", n), "the node refuses the upload"):
                    raise JSThrow(Obj({"message": Opq("str", ("rejection",)), "name": "Error"}, "Error"))
                self.r.uploads[-1]["ok"] = True
                return Obj({"id": Opq("str", ("upload id", n)), "timestamp": m.ctx.var(("upload time", n), 0, 2 ** 50, False)})

            def upload_file(m, th, a):
                b = HObj("Buffer", {})
                b.file = self.path(m, a[0])
                return upload(m, th, [b] + list(a[1:]))
            later = lambda f: lambda m, th, a: self.promised(lambda: f(m, th, a))
            return HObj("Irys", {"address": Opq("str", ("irys address",))}, upload=later(upload), uploadFile=later(upload_file), ready=later(lambda m, th, a: UNDEF))
        return self.host(name, lambda m, th, a: m.throw("TypeError", "Class constructor Irys cannot be invoked without 'new'"), new)

    # ------------------------------------------------------------ @solana/web3.js
    def web3(self, m, name):
        H = lambda f, new=None, **p: self.host(name, f, new, p)
        F = lambda f: Host(name, f)
        needs = lambda m, th, a: m.throw("TypeError", "Class constructor %s cannot be invoked without 'new'" % name)
        if name == "PublicKey":
            def find(m, th, a):
                r = self.pda(m, self.decaddr(m, self.cellsof(m, arg(a, 1))), m.iterate(a[0]))
                return Arr([self.pk(m, self.encaddr(m, r.a[0])), r.a[1]])
            return H(needs, lambda a: self.newpk(m, arg(a, 0)), findProgramAddressSync=F(find), findProgramAddress=F(lambda m, th, a: self.promised(lambda: find(m, th, a))),
                     isOnCurve=F(lambda m, th, a: self.on_curve(m, self.newpk(m, arg(a, 0)).cells)), default=self.pk(m, [0] * 32))
        if name == "Keypair":
            def secret(m, th, a):
                c = self.cells(m, arg(a, 0))
                if len(c) != 64:
                    m.throw("Error", "bad secret key size")
                if not (c[0][0] == "sk" if isinstance(c[0], tuple) else False) and m.ctx.split(("badkey", tuple(c[:33])), "the public half of the key does not match"):
                    m.throw("Error", "provided secretKey is invalid")
                return self.keypair(m, c)
            return H(needs, None, fromSecretKey=F(secret), fromSeed=F(lambda m, th, a: self.seedpair(m, self.cells(m, arg(a, 0)))),
                     generate=F(lambda m, th, a: self.seedpair(m, [("random", m.nodes, i) for i in range(32)])))
        if name == "TransactionInstruction":
            return H(needs, lambda a: self.ix(m, a[0]))
        if name == "Transaction":
            return H(needs, lambda a: self.transaction(m))
        if name == "Connection":
            return H(needs, lambda a: self.connection(m))
        if name == "SystemProgram":
            return HObj("SystemProgram", {"programId": self.pk(m, [0] * 32)})
        if name in ("SYSVAR_RENT_PUBKEY", "SYSVAR_CLOCK_PUBKEY"):
            return self.pk(m, list(b58dec("SysvarRent111111111111111111111111111111111" if "RENT" in name else "SysvarC1ock11111111111111111111111111111111")))
        if name == "LAMPORTS_PER_SOL":
            return 10 ** 9
        if name == "sendAndConfirmTransaction":
            return H(lambda m, th, a: self.promised(lambda: self.send(m, arg(a, 1), m.iterate(arg(a, 2)))))
        raise Unsupported("@solana/web3.js %s is not modelled" % name)

    def ix(self, m, o):
        d = m.get(o, "data")
        return HObj("TransactionInstruction", {"programId": m.get(o, "programId"), "keys": m.get(o, "keys"), "data": Buf([]) if d is UNDEF else d})

    def transaction(self, m):
        o = HObj("Transaction", {"instructions": Arr([]), "feePayer": UNDEF, "recentBlockhash": UNDEF})

        def add(m, th, a):
            if not a:
                m.throw("Error", "No instructions")
            for x in a:
                if m.has(x, "instructions"):
                    o.p["instructions"].a += m.iterate(m.get(x, "instructions"))
                else:
                    o.p["instructions"].a.append(self.ix(m, x))
            return o

        def sign(m, th, a):
            o.signers = list(a)
            return UNDEF
        o.signers = []
        o.hm = {"add": add, "sign": sign, "partialSign": lambda m, th, a: o.signers.extend(a) or UNDEF, "serialize": lambda m, th, a: HObj("raw", {"tx": o})}
        return o

    def send(self, m, tx, signers):
        """the chain sees the transaction only with the signatures it needs"""
        if not (isinstance(tx, HObj) and tx.cls == "Transaction"):
            m.throw("TypeError", "not a transaction")
        ixs = []
        for i in m.iterate(m.get(tx, "instructions")):
            d, p, ks = m.get(i, "data"), self.cellsof(m, m.get(i, "programId")), []
            for k in m.iterate(m.get(i, "keys")):
                ks.append((self.decaddr(m, self.cellsof(m, m.get(k, "pubkey"))), m.truth(m.get(k, "isSigner")), m.truth(m.get(k, "isWritable"))))
            ixs.append((self.decaddr(m, p), ks, self.cells(m, d)))
        have = [self.akey(m, self.decaddr(m, self.cellsof(m, m.get(s, "publicKey")))) for s in signers]
        payer = m.get(tx, "feePayer")
        if payer is UNDEF or payer is NULL:
            if not have:
                m.throw("Error", "Transaction fee payer required")
            payer = have[0]
        else:
            payer = self.akey(m, self.decaddr(m, self.cellsof(m, payer)))
        need = [payer] + [self.akey(m, a) for _, ks, _ in ixs for a, s, w in ks if s]
        if not ixs:
            m.throw("Error", "No instructions provided")
        if not set(need) <= set(have):
            m.throw("Error", "Signature verification failed. Missing signature")
        if not set(have) <= set(need):
            m.throw("Error", "unknown signer")
        if len(set(i[0] if isinstance(i[0], str) else i[0].t for i in ixs)) > 60:
            m.throw("Error", "transaction too large")
        self.r.sent.append(dict(ixs=ixs, payer=payer, signers=have, ok=None))
        if m.ctx.split(("rejected", len(self.r.sent)), "the chain rejects transaction %d" % len(self.r.sent)):
            self.r.sent[-1]["ok"] = False
            raise JSThrow(Obj({"message": Opq("str", ("rejection",)), "name": "SendTransactionError", "logs": Arr([])}, "Error"))
        self.r.sent[-1]["ok"] = True
        self.r.epoch += 1
        return Opq("str", ("signature", len(self.r.sent)))

    def rpcfail(self, m):
        self.r.calls += 1
        if self.r.failures < self.r.down and m.ctx.split(("down", self.r.calls), "request %d to the node fails" % self.r.calls):
            self.r.failed = True
            self.r.failures += 1
            raise JSThrow(Obj({"message": Opq("str", ("rpc failure",)), "name": "Error"}, "Error"))

    def look(self, m, a):
        """-> account at the PublicKey a or None"""
        c = self.cellsof(m, a)
        self.rpcfail(m)
        return self.r.net.get(self.akey(m, self.decaddr(m, c)))

    def info(self, m, x):
        return NULL if x is None else Obj({"data": Buf(x["data"]), "owner": self.pk(m, self.encaddr(m, x["owner"])), "lamports": m.ctx.var(("lamports", x["key"]), 1, 2 ** 50, False), "executable": False, "rentEpoch": 0})

    def parsed_info(self, m, x):
        if x is None:
            return NULL
        o = self.info(m, x)
        c = x["data"]
        u = lambda i, n, big=True: self.uint(m, c[i:i + n], False, big)
        if x["kind"] == "token":
            f = Obj({"mint": self.decaddr(m, c[0:32]), "owner": self.decaddr(m, c[32:64]), "state": "initialized", "isNative": False, "tokenAmount": self.amount(m, x)})
        elif x["kind"] == "mint":
            opt = lambda i: self.decaddr(m, c[i:i + 32]) if m.ctx.split(("option", tuple(c[i - 4:i])), "the mint has a%s authority" % (" freeze" if i == 50 else "")) else NULL
            f = Obj({"mintAuthority": opt(4), "freezeAuthority": opt(50), "supply": m.tostr(u(36, 8)), "decimals": u(44, 1, False), "isInitialized": True})
        else:
            return o
        o.p["data"] = Obj({"program": "spl-token", "parsed": Obj({"info": f, "type": "account" if x["kind"] == "token" else "mint"}), "space": len(c)})
        return o

    def amount(self, m, x):
        v = self.uint(m, x["data"][64:72] if x["kind"] == "token" else x["data"][36:44], False, True)
        return Obj({"amount": m.tostr(v), "decimals": 6, "uiAmount": m.ctx.var(("ui", poly(v)), 0, 2 ** 64, False, "real"), "uiAmountString": Opq("str", ("ui", repr(v)))})

    def connection(self, m):
        def call(f):
            return lambda m, th, a: self.promised(lambda: f(m, a))
        wrap = lambda v: Obj({"context": Obj({"slot": 1}), "value": v})

        def bal(m, a):
            x = self.look(m, arg(a, 0))
            if x is None or x["kind"] != "token":
                self.r.failed = True
                m.throw("Error", "failed to get token account balance: Invalid param: could not find account")
            return wrap(self.amount(m, x))

        def supply(m, a):
            x = self.look(m, arg(a, 0))
            if x is None or x["kind"] != "mint":
                self.r.failed = True
                m.throw("Error", "failed to get info about account")
            return wrap(self.amount(m, x))

        def blockhash(m, a):
            self.rpcfail(m)
            return Obj({"blockhash": Opq("str", ("blockhash",)), "lastValidBlockHeight": m.ctx.var(("height",), 0, 2 ** 50, False)})

        def many(m, a):
            xs = m.iterate(arg(a, 0))
            cs = [self.cellsof(m, x) for x in xs]
            self.rpcfail(m)
            return Arr([self.info(m, self.r.net.get(self.akey(m, self.decaddr(m, c)))) for c in cs])

        def plain(f):
            def g(m, a):
                self.rpcfail(m)
                return f(m, a)
            return g

        def raw(m, a):
            x = arg(a, 0)
            if not (isinstance(x, HObj) and x.cls == "raw"):
                m.throw("TypeError", "not a serialized transaction")
            return self.send(m, x.p["tx"], x.p["tx"].signers)
        return HObj("Connection", **{k: call(f) for k, f in {
            "getAccountInfo": lambda m, a: self.info(m, self.look(m, arg(a, 0))), "getAccountInfoAndContext": lambda m, a: wrap(self.info(m, self.look(m, arg(a, 0)))),
            "getParsedAccountInfo": lambda m, a: wrap(self.parsed_info(m, self.look(m, arg(a, 0)))), "getMultipleAccountsInfo": many, "getTokenAccountBalance": bal, "getTokenSupply": supply,
            "getLatestBlockhash": blockhash, "getRecentBlockhash": blockhash, "getBalance": plain(lambda m, a: m.ctx.var(("balance", self.akey(m, self.decaddr(m, self.cellsof(m, arg(a, 0))))), 0, 2 ** 50, False)),
            "getSlot": plain(lambda m, a: m.ctx.var(("slot",), 0, 2 ** 50, False)), "getMinimumBalanceForRentExemption": plain(lambda m, a: m.ctx.var(("rent",), 0, 2 ** 50, False)),
            "sendTransaction": lambda m, a: self.send(m, arg(a, 0), m.iterate(arg(a, 1))), "sendRawTransaction": raw,
            "confirmTransaction": plain(lambda m, a: wrap(Obj({"err": NULL})))}.items()})

    # ------------------------------------------------------------ @solana/spl-token
    def spl(self, m, name):
        H = lambda f: Host(name, f)
        P = lambda s: self.pk(m, list(b58dec(s)))
        ids = {"TOKEN_PROGRAM_ID": TOKEN_PROGRAM, "ASSOCIATED_TOKEN_PROGRAM_ID": ATA_PROGRAM, "TOKEN_2022_PROGRAM_ID": TOKEN_2022}
        if name in ids:
            return P(ids[name])
        if name == "AuthorityType":
            return Obj({"MintTokens": 0, "FreezeAccount": 1, "AccountOwner": 2, "CloseAccount": 3, "0": "MintTokens", "1": "FreezeAccount", "2": "AccountOwner", "3": "CloseAccount"})
        c = lambda v, d=None: list(b58dec(d)) if v is UNDEF and d else self.cellsof(m, v)
        meta = lambda cells, s=False, w=False: Obj({"pubkey": self.pk(m, cells), "isSigner": s, "isWritable": w})

        def ix(prog, keys, data):
            return self.ix(m, Obj({"programId": self.pk(m, prog), "keys": Arr(keys), "data": Buf(data)}))
        if name in ("getAssociatedTokenAddressSync", "getAssociatedTokenAddress"):
            def f(m, th, a):
                mint, owner = c(arg(a, 0)), c(arg(a, 1))
                if not (arg(a, 2) is not UNDEF and m.truth(a[2])) and not self.on_curve(m, owner):
                    m.throw("TokenOwnerOffCurveError", "")
                r = self.derived(m, self.decaddr(m, c(arg(a, 4), ATA_PROGRAM)), owner + c(arg(a, 3), TOKEN_PROGRAM) + mint)
                return self.pk(m, self.encaddr(m, r.a[0]))
            return H(f if name.endswith("Sync") else lambda m, th, a: self.promised(lambda: f(m, th, a)))
        if name in ("createAssociatedTokenAccountInstruction", "createAssociatedTokenAccountIdempotentInstruction"):
            return H(lambda m, th, a: ix(c(arg(a, 5), ATA_PROGRAM), [meta(c(a[0]), True, True), meta(c(a[1]), False, True), meta(c(a[2])), meta(c(a[3])), meta([0] * 32), meta(c(arg(a, 4), TOKEN_PROGRAM))],
                                         [1] if "Idempotent" in name else []))
        if name in ("createTransferInstruction", "createTransferCheckedInstruction"):
            chk = "Checked" in name

            def f(m, th, a):
                if chk:
                    src, mint, dst, own, amt, dec, multi, prog = [arg(a, i) for i in range(8)]
                else:
                    src, dst, own, amt, multi, prog = [arg(a, i) for i in range(6)]
                if multi is not UNDEF and m.iterate(multi):
                    raise Unsupported("several signers of one transfer")
                d = [12 if chk else 3] + self.encint(m, m.call(m.read(m.globals, "BigInt"), [amt]), 8, False)
                if chk:
                    d += self.encint(m, dec, 1, False)
                return ix(c(prog, TOKEN_PROGRAM), [meta(c(src), False, True)] + ([meta(c(mint))] if chk else []) + [meta(c(dst), False, True), meta(c(own), True, False)], d)
            return H(f)
        if name == "createSetAuthorityInstruction":
            def f(m, th, a):
                acc, cur, kind, new, multi, prog = [arg(a, i) for i in range(6)]
                if multi is not UNDEF and m.iterate(multi):
                    raise Unsupported("several signers of one instruction")
                d = [6] + self.encint(m, kind, 1, False) + ([0] * 33 if new is NULL else [1] + c(new))
                return ix(c(prog, TOKEN_PROGRAM), [meta(c(acc), False, True), meta(c(cur), True, False)], d)
            return H(f)
        if name in ("getAccount", "getMint"):
            want = "token" if name == "getAccount" else "mint"

            def f(m, a):
                x = self.look(m, arg(a, 1))
                if x is None or x["kind"] != want:
                    self.r.failed = True
                    m.throw("TokenAccountNotFoundError", "")
                d = x["data"]
                u = lambda i, n, big=True: self.uint(m, d[i:i + n], False, big)
                if want == "token":
                    return Obj({"address": a[1], "mint": self.pk(m, d[0:32]), "owner": self.pk(m, d[32:64]), "amount": u(64, 8), "isInitialized": True, "isFrozen": False})
                return Obj({"address": a[1], "mintAuthority": self.pk(m, self.encaddr(m, Opq("str", ("addr", ("mint field", 4, self.r.epoch))))), "supply": u(36, 8), "decimals": u(44, 1, False), "isInitialized": True,
                            "freezeAuthority": NULL})
            return H(lambda m, th, a: self.promised(lambda: f(m, a)))
        raise Unsupported("@solana/spl-token %s is not modelled" % name)

    def setup(self, m, env):
        Models.setup(self, m, env)
        g = m.globals.v
        pr = g["process"].x

        def leave(m, th, a):
            c = arg(a, 0)
            raise Exit(pr.p.get("exitCode", 0) if c is UNDEF else c)
        pr.p["exit"] = Host("exit", leave)
        pr.p["argv"] = Arr(["node", "script"] + list(self.r.argv))
        pr.p["stdout"] = pr.p["stderr"] = Obj({"write": Host("write", lambda m, th, a: m.logs.append(a) or True)})
        g["import.meta"] = Cell(Obj({"url": "file:///dir/script.ts", "dirname": "/dir", "filename": "/dir/script.ts"}))
        old = g["Buffer"].x.p["from"].f

        def frm(m, th, a):
            v, e = a[0], arg(a, 1)
            if e == "hex" and isinstance(v, Opq) and v.t[0] == "hex":
                return Buf(list(v.t[1]))
            return old(m, th, a)
        g["Buffer"].x.p["from"] = Host("from", frm)

        def date(a):
            if not a:
                v = m.ctx.var(("now",), 0, 2 ** 53, False)
            else:
                v = m.num(a[0])
            nm = lambda: m.get(g["Math"].x, "floor").f(m, UNDEF, [v])
            txt = lambda k: lambda m, th, a: Opq("str", ("date", k, repr(v)))
            return HObj("Date", getTime=lambda m, th, a: v, valueOf=lambda m, th, a: v, toISOString=txt("iso"), toString=txt("str"), toUTCString=txt("utc"), toLocaleString=txt("locale"))
        g["Date"].x.new = date


class Lazy(dict):
    def __init__(self, f):
        self.f = f

    def __contains__(self, k):
        return True

    def __getitem__(self, k):
        return self.f(k)

    def get(self, k, d=None):
        return self.f(k)


class Net:
    """what the node answers: the named accounts, before (epoch 0) and after the transaction"""
    def __init__(self, r):
        self.r, self.known = r, {}

    def name(self, key, name, kind, size, owner, exists=None):
        self.known[key] = (name, kind, size, owner, exists)

    def cells(self, key, epoch):
        name, kind, size, owner, _ = self.known[key]
        c = [("b", "%s@%d" % (name, epoch), i) for i in range(size)]
        if kind == "token":
            c[108] = 1
        if name == "state":
            c[0] = 1
        if kind == "record":
            c[0] = 2
        return c

    def exists(self, key):
        ex = self.known[key][4]
        if ex is None:
            ex = self.r.ctx.split(("exists", self.known[key][0]), "the %s account exists" % self.known[key][0])
        return ex

    def get(self, key):
        if key not in self.known:
            self.known[key] = ("other %s" % show(key, 200), "token", 165, SYSTEM, None)
        self.r.asked.append(key)
        if not self.exists(key) and not self.created(key):
            return None
        name, kind, size, owner, _ = self.known[key]
        return dict(data=self.cells(key, self.r.epoch), kind=kind, owner=owner, key=name)

    def created(self, key):
        return any(s["ok"] and any(len(ks) > 1 and self.r.models.akey(self.r.m, ks[1][0]) == key and (p if isinstance(p, str) else None) == ATA_PROGRAM for p, ks, d in s["ixs"]) for s in self.r.sent)


class SRun:
    """one path through one script"""
    def __init__(self, j, ctx, script, argv, keyfiles, down=True, world=None, contents=None):
        self.j, self.ctx, self.argv, self.script = j, ctx, argv, script
        self.uploads, self.contents = [], contents or {}
        self.keyfiles, self.down, self.failures = keyfiles, int(down), 0
        self.sent, self.written, self.asked, self.calls, self.epoch, self.failed = [], [], [], 0, 0, False
        self.net = Net(self)
        self.models = ScriptModels(self)
        self.m = Machine(DIR, ctx, self.models, None)
        self.m.trees = dict(asts(DIR), **asts(CLIENT))
        self.m.file = DIR + "/" + script
        a = lambda *s: self.derive(*s)
        self.state = a(PROGRAM, "state")
        self.vault = a(ATA_PROGRAM, self.state, TOKEN_PROGRAM, ORCA_MINT)
        self.net.name(self.key(self.state), "state", "state", 2048, PROGRAM)
        self.net.name(self.key(self.vault), "vault", "token", 165, TOKEN_PROGRAM)
        self.net.name(self.key(ORCA_MINT), "ORCA mint", "mint", 82, TOKEN_PROGRAM, True)
        self.net.name(self.key(XORCA_MINT), "xORCA mint", "mint", 82, TOKEN_PROGRAM, True)
        if world:
            world(self)
        self.code, self.thrown = 0, None
        path = DIR + "/" + script
        if path not in self.m.trees:
            raise Unsupported("%s is gone" % script)
        try:
            self.m.load(path)
            pr = self.m.read(self.m.globals, "process").p
            self.code = pr.get("exitCode", 0)
            if any(not p.seen for p in self.m.rejected):
                self.code = 1
        except Exit as x:
            self.code = x.code
        except JSThrow as x:
            self.code, self.thrown = 1, x.v

    def key(self, a):
        return self.models.akey(self.m, a)

    def derive(self, program, *seeds):
        c = []
        for s in seeds:
            c += list(s) if isinstance(s, (list, bytes)) else list(s.encode()) if isinstance(s, str) and len(s) < 32 else self.models.encaddr(self.m, s)
        return self.models.derived(self.m, program, c).a[0]

    def who(self, name):
        return Opq("str", ("addr", name))

    def ata(self, owner, mint, name=None, exists=None):
        a = self.derive(ATA_PROGRAM, owner, TOKEN_PROGRAM, mint)
        if name and self.key(a) not in self.net.known:
            self.net.name(self.key(a), name, "token", 165, TOKEN_PROGRAM, exists)
        return a

    def u(self, key, off, n, signed=False, epoch=0):
        """integer in the account"""
        return self.models.uint(self.m, self.net.cells(self.key(key), epoch)[off:off + n], signed, True)

    def holds(self, v, op, w):
        """is v op w, on this path (the path is split where that is open)"""
        p = padd(poly2(v), poly2(w), -1)
        if op == ">=":
            return not self.ctx.sign(p, "<")
        if op == "<=":
            return not self.ctx.sign(tuple((m, -c) for m, c in p), "<")
        raise ValueError(op)

    def cond(self):
        return "" if not self.ctx.log else " when " + ", ".join("%s%s" % ("" if r else "not ", w) for w, r in self.ctx.log[:5])

    def refused(self):
        c = self.code
        return not (c == 0 or c is UNDEF or c is NULL)

    def lines(self):
        """(text parts) of every line of output"""
        out = []
        for a in self.m.logs:
            t = self.m.cat(sum([[self.m.tostr(x) if not isinstance(x, (Obj, Arr)) or isinstance(x, HObj) else "<object>", " "] for x in a], [])[:-1])
            parts = [t] if isinstance(t, str) else list(t.t[1:]) if t.t[0] == "cat" else [t.t]
            out.append(parts)
        return out


OID = {"stake.ts": "scripts.stake", "unstake.ts": "scripts.unstake", "withdraw.ts": "scripts.withdraw", "initialize.ts": "scripts.initialize", "set.ts": "scripts.set", "update-xorca-mint-authority.ts": "scripts.mint",
       "transfer-orca.ts": "scripts.transfer", "transfer-orca-to-vault.ts": "scripts.tovault", "status.ts": "scripts.status", "pending-withdraws.ts": "scripts.pending", "generate-keypair.ts": "scripts.keygen", "upload-image.ts": "scripts.upload"}


def secrets(r, x, seen=None):
    """does the value (or text, or term) give away bytes of a secret key"""
    seen = set() if seen is None else seen
    if isinstance(x, (str, int, float, bool)) or x is None or id(x) in seen:
        return False
    seen.add(id(x))
    rec = lambda y: secrets(r, y, seen)
    if isinstance(x, tuple):
        if x and x[0] in ("sk", "secret", "random"):
            return True
        if x and x[0] in ("ab", "pda", "addr", "key of seed", "file"):
            return x[0] == "file"
        if x and x[0] in ("dec", "fixed") and isinstance(x[1], tuple):
            return any(rec(r.ctx.atoms[i]) for mono, c in x[1] for i in mono)
        return any(rec(y) for y in x)
    if isinstance(x, S):
        return any(rec(r.ctx.atoms[i]) for mono, c in x.p for i in mono)
    if isinstance(x, Opq):
        return rec(x.t)
    if isinstance(x, Bytes):
        return any(rec(c) for c in x.B[x.o:x.o + x.n])
    if isinstance(x, Arr):
        return any(rec(y) for y in x.a)
    if isinstance(x, (Obj, HObj)) and isinstance(x.p, dict) and not isinstance(x.p, Lazy):
        return any(rec(y) for y in list(x.p.values()))
    return False


def each(j, script, argv, judge, keyfiles=None, down=True, world=None, contents=None):
    def one(ctx):
        av = [x(ctx) if callable(x) else x for x in argv]
        kf = {("path", n): n for n in (keyfiles or [])}
        r = SRun(j, ctx, script, av, kf, down, world, contents)
        judge(r)
        j.ob(OID[script] + ".secret", not any(secrets(r, x) for a in r.m.logs for x in a), "%s: prints the secret key%s" % (script, r.cond()))
        j.ob(OID[script] + ".files", script == "generate-keypair.ts" or not r.written, "%s: writes a file%s" % (script, r.cond()))
        j.fns |= r.m.functions | {"ts-scripts/" + script}
        j.blocks += r.m.nodes
        j.calls += 1
        for c in r.m.coroutines:
            c.drop()
    paths(one, 4000)


def path(n):
    return Opq("str", ("path", n))


def whole(name, lo=-(2 ** 70), hi=2 ** 70):
    """the decimal text of an unknown whole number"""
    def f(ctx):
        return Opq("str", ("dec", ctx.var(("in", name), lo, hi).p))
    return f


def num(r, name):
    return S(True, (((r.ctx.ids[("in", name)],), 1),))


GARBAGE = ["abc", "12abc", "1.5", "1e9", "0.1", "--5", "1_000", "NaN", "5 5", "5\n5", "x\n5"]


def exact_text(s):
    """the whole number a text stands for beyond doubt (accepting the exponent form), else None"""
    g = re.fullmatch(r"(\d+)(?:[eE]\+?(\d+))?", s)
    return int(g[1]) * 10 ** int(g[2] or 0) if g else None


# ------------------------------------------------------------------ what is sent
def le(r, v, n, signed=False):
    return r.models.encint(r.m, v, n, signed)


def is_create(r, ix, payer, ata, owner, mint):
    p, ks, d = ix
    k = r.key
    want = [k(payer), k(ata), k(owner), k(mint), SYSTEM, TOKEN_PROGRAM]
    return k(p) == ATA_PROGRAM and [k(a) for a, s, w in ks][:6] == want and ks[0][1] and d in ([], [0], [1])


def plan(j, oid, r, want, need, who, create=None, optional=False, payer=None):
    """the one transaction the script may send.  want: (program, [(address, signer, writable)], data) of its
    instruction; need: [(holds, text)] what must be true before it is sent; create: (ata, owner, mint, name) of
    an account made first when it does not exist"""
    ok = all(x for x, _ in need)
    if not r.sent:
        if ok and not r.failed:
            j.ob(oid + ".sends", False, "%s: sends nothing although nothing is wrong%s" % (r.script, r.cond()))
        else:
            j.ob(oid + ".sends", True, "")
        j.ob(oid + ".status", r.refused(), "%s: sends nothing, yet ends with exit status 0%s" % (r.script, r.cond()))
        return
    j.ob(oid + ".sends", True, "")
    for x, t in need:
        j.ob(oid + ".guard", x, "%s: sends a transaction although %s%s" % (r.script, t, r.cond()))
    j.ob(oid + ".once", len(r.sent) == 1, "%s: sends %d transactions%s" % (r.script, len(r.sent), r.cond()))
    s = r.sent[0]
    ixs = list(s["ixs"])
    if create:
        ata, owner, mint, name = create
        there = r.net.exists(r.key(ata))
        made = [i for i in ixs if is_create(r, i, payer or who, ata, owner, mint)]
        idem = all(i[2] == [1] for i in made)
        ixs = [i for i in ixs if not any(i is q for q in made)]
        j.ob(oid + ".ata", len(made) <= 1 and (there or made or optional) and not (there and made and not idem),
             "%s: %s the %s account%s" % (r.script, "does not create" if not made else "creates again", name, r.cond()))
        first = [i for i in s["ixs"]]
        j.ob(oid + ".order", not made or first.index(made[0]) == 0 or optional, "%s: creates the %s account only after using it%s" % (r.script, name, r.cond()))
    j.ob(oid + ".only", len(ixs) == 1, "%s: the transaction has %d other instructions%s" % (r.script, len(ixs), r.cond()))
    if len(ixs) == 1 and want is not None:
        p, ks, d = ixs[0]
        wp, wk, wd = want
        j.ob(oid + ".program", r.key(p) == r.key(wp), "%s: the instruction goes to another program%s" % (r.script, r.cond()))
        j.ob(oid + ".accounts", [r.key(a) for a, s_, w in ks] == [r.key(a) for a, s_, w in wk], "%s: the accounts of the instruction are not those the program expects: %s, expected %s%s" % (
            r.script, [show(r.key(a), 30) for a, s_, w in ks], [show(r.key(a), 30) for a, s_, w in wk], r.cond()))
        if len(ks) == len(wk):
            for i, ((a, s1, w1), (b, s2, w2)) in enumerate(zip(ks, wk)):
                j.ob(oid + ".roles", s1 == s2 and w1 == w2, "%s: account %d of the instruction is given as %s%s, the program needs %s%s%s" % (
                    r.script, i, "signer " * s1, "writable" if w1 else "read-only", "signer " * s2, "writable" if w2 else "read-only", r.cond()))
        j.ob(oid + ".data", d == wd, "%s: the instruction carries %s, expected %s%s" % (r.script, show(d, 120), show(wd, 120), r.cond()))
    pk = r.key(payer or who)
    j.ob(oid + ".payer", s["payer"] == pk, "%s: the fee is not paid by the user%s" % (r.script, r.cond()))
    said = [x for parts in r.lines() for x in parts]
    if s["ok"] is False:
        good = [x for x in said if isinstance(x, str) and re.search(r"\bsuccess", x, re.I)]
        j.ob(oid + ".outcome", not good and not any(x == ("signature", 1) for x in said), "%s: prints %r although the chain refused the transaction%s" % (r.script, good[:1], r.cond()))
        j.ob(oid + ".outcome", r.refused() or r.script == "withdraw.ts", "%s: ends with exit status 0 although the chain refused the transaction%s" % (r.script, r.cond()))
    elif s["ok"] and not r.failed:
        j.ob(oid + ".outcome", not r.refused(), "%s: ends with a failure status although the transaction succeeded%s" % (r.script, r.cond()))
        labelled(j, oid + ".outcome", r, {"Transaction signature": [Opq("str", ("signature", 1))], "Signature": [Opq("str", ("signature", 1))]})
        j.ob(oid + ".outcome", any(x == ("signature", 1) for x in said), "%s: does not print the signature of the transaction%s" % (r.script, r.cond()))
        return True


def iface(ix, accts, data):
    return (PROGRAM, [(accts[n], sg, wr) for n, (sg, wr) in INTERFACE[ix][1]], [INTERFACE[ix][0]] + data)


def common(r, user):
    return {"orca_mint_account": ORCA_MINT, "xorca_mint_account": XORCA_MINT, "state_account": r.state, "vault_account": r.vault, "token_program_account": TOKEN_PROGRAM, "system_program_account": SYSTEM,
            "associated_token_program_account": ATA_PROGRAM}


def fits(r, v, n, signed=False):
    lo, hi = (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1) if signed else (0, (1 << (8 * n)) - 1)
    return r.holds(v, ">=", Big(lo)) and r.holds(v, "<=", Big(hi))


def few(j, oid, script, full, keyfiles):
    """too few arguments: nothing is sent"""
    for n in range(len(full)):
        def f(r):
            j.ob(oid + ".args", not r.sent and not r.written and not r.uploads and r.refused(), "%s: with %d of its %d arguments it %s" % (script, n, len(full), "sends a transaction" if r.sent else "uploads something" if r.uploads else "ends with exit status 0"))
        each(j, script, full[:n], f, keyfiles, False)


def garbage(j, oid, script, argv, at, keyfiles, carries, what, world=None):
    """text that is no whole number in the argument at"""
    for g in GARBAGE:
        av = list(argv)
        av[at] = g

        def f(r):
            n = exact_text(g)
            for s in r.sent:
                got = carries(r, s)
                j.ob(oid + ".text", n is not None and got is not None and r.models.conv(r.m, got, True) == Big(n), "%s: takes the %s %r for %s" % (script, what, g, got))
            j.ob(oid + ".text", bool(r.sent) or r.refused(), "%s: ends with exit status 0 although the %s is %r" % (script, what, g))
        each(j, script, av, f, keyfiles, False, world)


def balance(r, a, epoch):
    """the token balance of an account before or after the transaction (0 where there is none)"""
    k = r.key(a)
    if not r.net.exists(k) and not (epoch and r.net.created(k)):
        return Big(0)
    return r.u(a, 64, 8, False, epoch)


def change(r, a, sign=1):
    v = [balance(r, a, 1), balance(r, a, 0)]
    return r.m.arith("-", *v[::sign])


def shown(j, oid, r, addresses, balances=()):
    """addresses and balances the script prints are those they are said to be"""
    labelled(j, oid + ".shown", r, dict({k: [a] for k, a in addresses.items()}, **{k: [balance(r, a, e)] for k, a, e in balances if not e or r.sent and r.sent[0]["ok"]}))


def field(ixprog, off, n, signed=False):
    """integer carried by the last instruction for the program"""
    def f(r, s):
        for p, ks, d in reversed(s["ixs"]):
            if r.key(p) == ixprog and len(d) >= off + n:
                return r.models.uint(r.m, d[off:off + n], signed, True)
        return None
    return f


def user_scripts(j, tier, only=None):
    # stake
    def world(r):
        u = r.who("user")
        r.ata(u, ORCA_MINT, "user's ORCA")
        r.ata(u, XORCA_MINT, "user's xORCA")

    def stake(r):
        u = r.who("user")
        orca, xorca = r.ata(u, ORCA_MINT), r.ata(u, XORCA_MINT)
        n = num(r, "amount")
        ok = fits(r, n, 8)
        need = [(ok, "the amount is no u64"), (r.net.exists(r.key(orca)), "the user has no ORCA account")]
        if ok and need[1][0]:
            need.append((r.holds(r.u(orca, 64, 8), ">=", n), "the user holds less ORCA"))
        a = dict(common(r, u), staker_account=u, staker_orca_ata=orca, staker_xorca_ata=xorca)
        shown(j, "scripts.stake", r, {"Staker public key": u, "State account": r.state, "Vault account": r.vault, "Staker ORCA ATA": orca, "Staker xORCA ATA": xorca},
              (("Staker ORCA balance", orca, 0), ("Final ORCA balance", orca, 1), ("Final xORCA balance", xorca, 1)))
        if plan(j, "scripts.stake", r, iface("stake", a, le(r, n, 8)) if ok else None, need, u, (xorca, u, XORCA_MINT, "user's xORCA")):
            labelled(j, "scripts.stake.report", r, {"ORCA staked": [change(r, orca, -1)], "xORCA received": [change(r, xorca)]}, ("ORCA staked", "xORCA received"))
    av = [path("user"), whole("amount")]
    each(j, "stake.ts", av, stake, ["user"], True, world)
    few(j, "scripts.stake", "stake.ts", av, ["user"])
    garbage(j, "scripts.stake", "stake.ts", av, 1, ["user"], field(PROGRAM, 1, 8), "amount", world)

    # unstake
    def uworld(r):
        world(r)

    def pending(r, u, i):
        return r.derive(PROGRAM, "pending_withdraw", u, le(r, i, 1))

    def unstake(r):
        u = r.who("user")
        orca, xorca = r.ata(u, ORCA_MINT), r.ata(u, XORCA_MINT)
        n, i = num(r, "amount"), num(r, "index")
        ok, oki = fits(r, n, 8), fits(r, i, 1)
        need = [(ok, "the amount is no u64"), (oki, "the index is no byte"), (r.net.exists(r.key(xorca)), "the user has no xORCA account")]
        if ok and oki and need[2][0]:
            need.append((r.holds(r.u(xorca, 64, 8), ">=", n), "the user holds less xORCA"))
        w = None
        shown(j, "scripts.unstake", r, dict({"Staker public key": u, "State account": r.state, "Vault account (ATA for state + ORCA)": r.vault, "Staker's ORCA ATA": orca, "Staker's xORCA ATA": xorca}, **({"Pending withdraw account": pending(r, u, i)} if oki else {})),
              (("Staker's current xORCA balance", xorca, 0), ("Staker's final xORCA balance", xorca, 1), ("Staker's final ORCA balance", orca, 1)))
        if ok and oki:
            a = dict(common(r, u), unstaker_account=u, unstaker_xorca_ata=xorca, pending_withdraw_account=pending(r, u, i))
            w = iface("unstake", a, le(r, n, 8) + le(r, i, 1))
        if plan(j, "scripts.unstake", r, w, need, u, (orca, u, ORCA_MINT, "user's ORCA"), optional=True):
            labelled(j, "scripts.unstake.report", r, {"xORCA unstaked": [change(r, xorca, -1)], "ORCA received": [change(r, orca)]}, ("xORCA unstaked",))
    av = [path("user"), whole("amount"), whole("index")]
    each(j, "unstake.ts", av, unstake, ["user"], True, uworld)
    few(j, "scripts.unstake", "unstake.ts", av, ["user"])
    garbage(j, "scripts.unstake", "unstake.ts", av, 1, ["user"], field(PROGRAM, 1, 8), "amount", uworld)
    garbage(j, "scripts.unstake", "unstake.ts", av, 2, ["user"], field(PROGRAM, 9, 1), "index", uworld)

    # withdraw
    def wait(j, r, ts):
        """the time to wait"""
        m = r.m
        now = clock(r)
        gap = m.arith("-", ts, bign(m, now))
        labelled(j, "scripts.withdraw.wait", r, {"Withdrawable timestamp": [ts], "Current timestamp": [now], "Seconds remaining": [gap]})
        over = r.holds(gap, "<=", Big(0))
        j.ob("scripts.withdraw.wait", over or not printed(r, "has elapsed"), "withdraw.ts: says that the cooldown has elapsed although it has not%s" % r.cond())
        for lab in ("Cooldown period remaining: ", "Time remaining: "):
            got = [p[k:] for p in r.lines() for k, x in enumerate(p) if isinstance(x, str) and x.endswith(lab)]
            if not got:
                continue
            n = m.mk(False, poly2(gap))
            fl = lambda a, b: m.get(m.globals.v["Math"].x, "floor").f(m, UNDEF, [m.arith("/", a, b)])
            want = m.cat([lab.strip(), m.tostr(fl(n, 3600)), "h ", m.tostr(fl(m.arith("%", n, 3600), 60)), "m ", m.tostr(m.arith("%", n, 60)), "s"])
            j.ob("scripts.withdraw.wait", not over and all(flat(m.cat([lab.strip()] + [x if isinstance(x, str) else Opq("str", x) for x in g[1:]])) == flat(want) for g in got),
                 "withdraw.ts: prints the time to wait as %s, expected %s%s" % ([r_show(r, x) for x in got[0]], show(want, 200), r.cond()))

    def wworld(r):
        world(r)
        if ("in", "index") in r.ctx.ids:
            i = num(r, "index")
            if fits(r, i, 1):
                p = pending(r, r.who("user"), i)
                r.net.name(r.key(p), "pending withdrawal", "record", 1024, PROGRAM)
                r.ctx.rng[r.u(p, 48, 8, True).p[0][0][0]] = (0, 2 ** 40)

    def withdraw(r):
        u = r.who("user")
        orca = r.ata(u, ORCA_MINT)
        i = num(r, "index")
        oki = fits(r, i, 1)
        need = [(oki, "the index is no byte")]
        w = None
        if oki:
            p = pending(r, u, i)
            shown(j, "scripts.withdraw", r, {"Pending withdraw account": p})
            need.append((r.net.exists(r.key(p)), "there is no pending withdrawal"))
            a = dict(common(r, u), unstaker_account=u, unstaker_orca_ata=orca, pending_withdraw_account=p)
            w = iface("withdraw", a, le(r, i, 1))
            if r.net.exists(r.key(p)):
                wait(j, r, r.u(p, 48, 8, True))
        shown(j, "scripts.withdraw", r, {"Staker public key": u, "State account": r.state, "Vault account (ATA for state + ORCA)": r.vault, "Staker's ORCA ATA": orca}, (("Staker's final ORCA balance", orca, 1),))
        plan(j, "scripts.withdraw", r, w, need, u, (orca, u, ORCA_MINT, "user's ORCA"))
    av = [path("user"), whole("index")]
    each(j, "withdraw.ts", av, withdraw, ["user"], True, wworld)
    few(j, "scripts.withdraw", "withdraw.ts", av, ["user"])
    garbage(j, "scripts.withdraw", "withdraw.ts", av, 1, ["user"], field(PROGRAM, 1, 1), "index", wworld)


def admin_scripts(j, tier):
    def init(r):
        dep, upd = r.who("deployer"), r.who("authority")
        n = num(r, "cooldown")
        ok = fits(r, n, 8, True)
        # the key file holds the deployer's key
        isdep = r.m.seq(dep, DEPLOYER)
        need = [(ok, "the cooldown is no i64"), (isdep, "the key is not the deployer's")]
        a = dict(common(r, dep), payer_account=dep, update_authority_account=upd)
        shown(j, "scripts.initialize", r, {"Deployer address": dep, "Update authority address": upd, "State": r.state, "Vault": r.vault, "xORCA Mint": XORCA_MINT, "ORCA Mint": ORCA_MINT, "State account": r.state, "Vault account": r.vault, "Update authority": upd})
        labelled(j, "scripts.initialize.shown", r, {"Cool down period": [n]})
        plan(j, "scripts.initialize", r, iface("initialize", a, le(r, n, 8, True)) if ok else None, need, dep)
    av = [path("deployer"), path("authority"), whole("cooldown")]
    each(j, "initialize.ts", av, init, ["deployer", "authority"], True)
    few(j, "scripts.initialize", "initialize.ts", av, ["deployer", "authority"])
    garbage(j, "scripts.initialize", "initialize.ts", av, 2, ["deployer", "authority"], field(PROGRAM, 1, 8, True), "cooldown")

    def cooldown(r):
        u = r.who("user")
        n = num(r, "cooldown")
        ok = fits(r, n, 8, True) and r.holds(n, ">=", Big(0))
        need = [(ok, "the cooldown is no non-negative i64"), (r.net.exists(r.key(r.state)), "the pool is not initialized")]
        a = dict(common(r, u), update_authority_account=u)
        if plan(j, "scripts.set", r, iface("set", a, [0] + le(r, n, 8, True)) if ok else None, need, u):
            labelled(j, "scripts.set.report", r, {"Cooldown period updated to": [n], "Setting cooldown period to": [n]}, ("Cooldown period updated to",))
            j.ob("scripts.set.report", not printed(r, "authority updated"), "set.ts: says that the authority was changed although the cooldown was")
    av = [path("user"), "update-cooldown", whole("cooldown")]
    each(j, "set.ts", av, cooldown, ["user"], True)
    few(j, "scripts.set", "set.ts", av, ["user"])
    garbage(j, "scripts.set", "set.ts", av, 2, ["user"], field(PROGRAM, 2, 8, True), "cooldown")

    def authority(r):
        u, n = r.who("user"), r.who("successor")
        a = dict(common(r, u), update_authority_account=u)
        if plan(j, "scripts.set", r, iface("set", a, [1] + r.models.encaddr(r.m, n)), [(r.net.exists(r.key(r.state)), "the pool is not initialized")], u):
            labelled(j, "scripts.set.report", r, {"Update authority updated to": [n], "Setting new authority to": [n]}, ("Update authority updated to",))
            j.ob("scripts.set.report", not printed(r, "period updated"), "set.ts: says that the cooldown was changed although the authority was")
    each(j, "set.ts", [path("user"), "update-authority", Opq("str", ("addr", "successor"))], authority, ["user"], True)

    def nothing(r):
        j.ob("scripts.set.unknown", not r.sent and r.refused(), "set.ts: %s for an operation or address that is none%s" % ("sends a transaction" if r.sent else "uploads something" if r.uploads else "ends with exit status 0", r.cond()))
    for v in ("notakey", "11111", "3600", "-1", ""):
        each(j, "set.ts", [path("user"), "update-authority", v], nothing, ["user"], False)
    near = {"", "update", "update-", "cooldown", "authority", "update-fee", "update-fee-authority", "updateCooldown", "0", "1", "toString", "__proto__", "constructor", "length"}
    for op in ("update-cooldown", "update-authority"):
        near |= {op[:-1], op[1:], op + "x", "x" + op, op + "s", op + " ", " " + op, op.upper(), op.title(), op.replace("-", "_"), op.replace("-", ""), "--" + op, op + "\n", op[:8], op + "=5"}
    for op in sorted(near):
        for v in ("5", Opq("str", ("addr", "successor")), whole("cooldown")):
            each(j, "set.ts", [path("user"), op, v], nothing, ["user"], False)

    def mint(r):
        u = r.who("user")
        d = [6, 0, 1] + r.models.encaddr(r.m, r.state)
        shown(j, "scripts.mint", r, {"Current authority public key": u, "State account address": r.state, "New mint authority (state account)": r.state})
        if plan(j, "scripts.mint", r, (TOKEN_PROGRAM, [(XORCA_MINT, False, True), (u, True, False)], d), [], u):
            c = r.net.cells(r.key(XORCA_MINT), 1)
            has = r.ctx.split(("option", tuple(c[0:4])), "the mint has an authority")
            done = has and r.m.seq(r.models.decaddr(r.m, c[4:36]), r.models.decaddr(r.m, r.models.encaddr(r.m, r.state)))
            j.ob("scripts.mint.report", done or not printed(r, "successfully updated"), "update-xorca-mint-authority.ts: says that the authority was handed over although it was not%s" % r.cond())
            j.ob("scripts.mint.report", not done or printed(r, "successfully updated") and not printed(r, "failed"), "update-xorca-mint-authority.ts: does not say that the authority was handed over although it was%s" % r.cond())
    each(j, "update-xorca-mint-authority.ts", [path("user")], mint, ["user"], True)
    few(j, "scripts.mint", "update-xorca-mint-authority.ts", [path("user")], ["user"])


def printed(r, text):
    return any(isinstance(x, str) and text in x for parts in r.lines() for x in parts)


def transfer(r, src, dst, own, n):
    """plain or checked transfer of n ORCA"""
    plain = (TOKEN_PROGRAM, [(src, False, True), (dst, False, True), (own, True, False)], [3] + le(r, n, 8))
    for s in r.sent:
        for p, ks, d in s["ixs"]:
            if d[:1] == [12]:
                return (TOKEN_PROGRAM, [(src, False, True), (ORCA_MINT, False, False), (dst, False, True), (own, True, False)], [12] + le(r, n, 8) + [6])
    return plain


def transfers(j, tier):
    def world(r):
        r.ata(r.who("user"), ORCA_MINT, "sender's ORCA")
        r.ata(r.who("recipient"), ORCA_MINT, "recipient's ORCA")
        r.net.name(r.key(r.who("recipient")), "recipient itself", "token", 165, TOKEN_PROGRAM)

    def send(r):
        u, v = r.who("user"), r.who("recipient")
        src, dst = r.ata(u, ORCA_MINT), r.ata(v, ORCA_MINT)
        n = num(r, "amount")
        ok = fits(r, n, 8)
        curve = r.ctx.split(("curve", ("addr", "recipient")), "the recipient is a wallet address")
        need = [(ok, "the amount is no u64"), (r.net.exists(r.key(src)), "the sender has no ORCA account")]
        shown(j, "scripts.transfer", r, {"Sender public key": u, "Recipient public key": v, "Sender ORCA ATA": src, "Recipient ORCA ATA": dst} if curve else {},
              (("Sender ORCA balance", src, 0), ("Recipient ORCA balance", dst, 0), ("Final sender ORCA balance", src, 1), ("Final recipient ORCA balance", dst, 1)))
        if not r.sent and not curve:
            need.append((False, "the recipient is no wallet"))
        if ok and need[1][0]:
            need.append((r.holds(r.u(src, 64, 8), ">=", n), "the sender holds less ORCA"))
        if plan(j, "scripts.transfer", r, transfer(r, src, dst, u, n) if ok else None, need, u, (dst, v, ORCA_MINT, "recipient's ORCA")):
            out, in_ = change(r, src, -1), change(r, dst)
            labelled(j, "scripts.transfer.report", r, {"ORCA transferred": [out], "ORCA received by recipient": [in_]}, ("ORCA transferred", "ORCA received by recipient"))
            as_asked = r.m.seq(out, n) and r.m.seq(in_, n)
            j.ob("scripts.transfer.report", as_asked or not printed(r, "completed successfully"), "transfer-orca.ts: says that the transfer is complete although the balances changed by other amounts%s" % r.cond())
            j.ob("scripts.transfer.report", not as_asked or not printed(r, "do not match"), "transfer-orca.ts: says that the amounts do not match although they do%s" % r.cond())
    av = [path("user"), Opq("str", ("addr", "recipient")), whole("amount")]
    each(j, "transfer-orca.ts", av, send, ["user"], True, world)
    few(j, "scripts.transfer", "transfer-orca.ts", av, ["user"])
    garbage(j, "scripts.transfer", "transfer-orca.ts", av, 2, ["user"], field(TOKEN_PROGRAM, 1, 8), "amount", world)

    def bad(r):
        j.ob("scripts.transfer.recipient", not r.sent and r.refused(), "transfer-orca.ts: sends to a recipient that is no address")
    for v in ("notakey", "3600", "1111"):
        each(j, "transfer-orca.ts", [path("user"), v, whole("amount")], bad, ["user"], False, world)

    def vault(r):
        u = r.who("user")
        src = r.ata(u, ORCA_MINT)
        n = num(r, "amount")
        ok = fits(r, n, 8)
        need = [(ok, "the amount is no u64"), (r.net.exists(r.key(src)), "the sender has no ORCA account"), (r.net.exists(r.key(r.vault)), "the vault does not exist")]
        if ok and need[1][0]:
            need.append((r.holds(r.u(src, 64, 8), ">=", n), "the sender holds less ORCA"))
        shown(j, "scripts.tovault", r, {"Sender public key": u, "State account": r.state, "Vault account (PDA)": r.vault, "Sender ORCA ATA": src},
              (("Sender ORCA balance", src, 0), ("Vault account exists with balance", r.vault, 0), ("Final sender ORCA balance", src, 1), ("Final vault ORCA balance", r.vault, 1)))
        plan(j, "scripts.tovault", r, transfer(r, src, r.vault, u, n) if ok else None, need, u)
        if r.sent and r.sent[0]["ok"]:
            labelled(j, "scripts.tovault.report", r, {"Vault received": [r.m.arith("-", r.u(r.vault, 64, 8, False, 1), r.u(r.vault, 64, 8))]})
    av = [path("user"), whole("amount")]
    each(j, "transfer-orca-to-vault.ts", av, vault, ["user"], True, world)
    few(j, "scripts.tovault", "transfer-orca-to-vault.ts", av, ["user"])
    garbage(j, "scripts.tovault", "transfer-orca-to-vault.ts", av, 1, ["user"], field(TOKEN_PROGRAM, 1, 8), "amount", world)


# ------------------------------------------------------------------ what is printed
def term(r, v):
    """a printed value as it appears among the parts of a line"""
    t = r.m.tostr(v)
    return t if isinstance(t, str) else t.t


def labelled(j, oid, r, want, must=()):
    """lines 'label: value' give the value; want: label -> acceptable values"""
    seen = set()
    terms = {k: [term(r, v) for v in vs] for k, vs in want.items()}
    for parts in r.lines():
        for i, x in enumerate(parts):
            if not isinstance(x, str):
                continue
            lit = re.sub(r"^[^A-Za-z#]+", "", x.split("\n")[-1])
            for k, vs in terms.items():
                if i + 1 < len(parts) and re.search(r"(^|\()" + re.escape(k) + r"(: | = |\u00a0)$", lit):
                    v = parts[i + 1]
                    if not isinstance(v, str):
                        j.ob(oid, v in vs, "%s: prints %s as %s, expected %s%s" % (r.script, k, show(r_show(r, v), 160), show(r_show(r, vs[0]), 160), r.cond()))
                        seen.add(k)
                        continue
                g = re.search(r"(?:^|\()" + re.escape(k) + r"(?:: | = )(\S+)", lit)
                if g and all(isinstance(v, str) for v in vs):
                    j.ob(oid, g[1] in vs, "%s: prints %s as %s, expected %s%s" % (r.script, k, g[1], vs[0], r.cond()))
                    seen.add(k)
                elif g and re.fullmatch(r"-?\d+", g[1]) and want[k] and all(isinstance(v, S) for v in want[k]) and (g.end() < len(lit) or i + 1 == len(parts)):
                    n = Big(int(g[1]))
                    j.ob(oid, any(r.holds(v, ">=", n) and r.holds(v, "<=", n) for v in want[k]), "%s: prints %s as %s, expected %s%s" % (r.script, k, g[1], show(r_show(r, vs[0]), 160), r.cond()))
                    seen.add(k)
    values = [p for parts in r.lines() for p in parts]
    for k in must:
        there = k in seen or any(v == p or isinstance(v, str) and isinstance(p, str) and v in p for v in terms[k] for p in values)
        j.ob(oid, there, "%s: never prints %s%s" % (r.script, k, r.cond()))
    return seen


def r_show(r, t):
    if isinstance(t, tuple) and t[0] == "dec":
        return r.ctx.pshow(t[1])
    if isinstance(t, tuple) and t[0] == "fixed" and isinstance(t[1], tuple):
        return r.ctx.pshow(t[1])
    return t


def displays(j, tier):
    def status(r):
        m = r.m
        j.ob("scripts.status.quiet", not r.sent, "status.ts: sends a transaction")
        if r.failed or not r.net.exists(r.key(r.state)) or not r.net.exists(r.key(r.vault)):
            return
        esc, cool = r.u(r.state, 8, 8), r.u(r.state, 16, 8, True)
        sc = r.net.cells(r.key(r.state), 0)
        vault, supply = r.u(r.vault, 64, 8), r.u(XORCA_MINT, 36, 8)
        free = m.arith("-", vault, esc)
        num_, den = m.arith("+", free, Big(100)), m.arith("+", supply, Big(100))
        N = lambda v: m.rounded(v.p) if isinstance(v, S) else v

        def fixed(*vs):
            return [Opq("str", ("fixed", v.p, "10")) for v in vs]
        per = m.arith("/", N(den), N(num_))         # xORCA per ORCA
        inv = m.arith("/", N(num_), N(den))
        up, down_ = fixed(per, m.arith("/", 1, inv)), fixed(inv, m.arith("/", 1, per))
        dec = lambda v: [v]
        labelled(j, "scripts.status.figures", r, {
            "State Account": [r.state], "Vault Account": [r.vault], "xORCA Mint": [XORCA_MINT], "ORCA Mint": [ORCA_MINT],
            "Cool Down Period": dec(cool), "Escrowed ORCA Amount": dec(esc), "Escrowed ORCA": dec(esc), "Update Authority": [r.models.decaddr(m, sc[24:56])],
            "Bump": [r.models.uint(m, sc[6:7], False, False)], "Vault Bump": [r.models.uint(m, sc[7:8], False, False)],
            "Total ORCA in Vault": dec(vault), "Non-Escrowed ORCA": dec(free), "xORCA Total Supply": dec(supply), "xORCA Supply": dec(supply),
            "Numerator (Non-Escrowed + Virtual)": dec(num_), "Denominator (xORCA Supply + Virtual)": dec(den),
            "ORCA → xORCA Rate": up, "1 ORCA": up, "xORCA → ORCA Rate": down_, "1 xORCA": down_, "Exchange Rate (ORCA→xORCA)": up, "Exchange Rate (xORCA→ORCA)": down_},
            ("Cool Down Period", "Escrowed ORCA", "Update Authority", "Total ORCA in Vault", "Non-Escrowed ORCA", "xORCA Supply", "ORCA → xORCA Rate", "xORCA → ORCA Rate"))
    each(j, "status.ts", [], status, [], True)

    def listing(pat, same=False):
        def world(r):
            if same:
                cells = r.net.cells
                first = "record %d" % pat[0]
                r.net.cells = lambda key, epoch: (lambda c: [("b", "%s@%d" % (first, epoch), i) if 48 <= i < 56 else x for i, x in enumerate(c)] if r.net.known[key][1] == "record" else c)(cells(key, epoch))
            r.recs = {}
            r.net.known[r.key(r.state)] = ("state", "state", 2048, PROGRAM, r.net.known[r.key(r.state)][4])
            for i in range(256):
                a = r.derive(PROGRAM, "pending_withdraw", r.who("staker"), [i])
                r.net.name(r.key(a), "record %d" % i, "record", 1024, PROGRAM, i in pat)
                r.recs[i] = a
                if i in pat:        # times of the next 30,000 years
                    r.ctx.rng[r.u(r.state, 16, 8, True).p[0][0][0]] = (0, 2 ** 40)
                    r.ctx.rng[r.u(a, 48, 8, True).p[0][0][0]] = (0, 2 ** 40)

        def f(r):
            m = r.m
            j.ob("scripts.pending.quiet", not r.sent, "pending-withdraws.ts: sends a transaction")
            if r.failed:
                j.ob("scripts.pending.failure", r.refused(), "pending-withdraws.ts: ends with exit status 0 although a request to the node failed: records may be missing from the list%s" % r.cond())
            if r.failed or not r.net.exists(r.key(r.state)):
                return
            now = clock(r)
            blocks = []
            for parts in r.lines():
                if any(isinstance(x, str) and "Address: " in x for x in parts):
                    blocks.append([])
                if blocks:
                    blocks[-1].append(parts)
            j.ob("scripts.pending.count", len(blocks) == len(pat), "pending-withdraws.ts: shows %d records, %d exist%s" % (len(blocks), len(pat), r.cond()))
            ready = []
            text = lambda b: "".join(x for p in b for x in p if isinstance(x, str))
            left = dict((r.recs[i].t, i) for i in pat)
            for b in blocks:
                a = next((p[k + 1] for p in b for k, x in enumerate(p[:-1]) if isinstance(x, str) and x.endswith("Address: ")), None)
                i = left.pop(a, None)
                j.ob("scripts.pending.address", i is not None, "pending-withdraws.ts: shows a record at an address that has none%s" % r.cond())
                if i is None:
                    continue
                amt, ts = r.u(r.recs[i], 40, 8), r.u(r.recs[i], 48, 8, True)
                labelled(j, "scripts.pending.amount", r2(r, b), {"ORCA Amount": [amt], "xORCA Amount": []}, ("ORCA Amount",))
                is_ready = r.holds(now, ">=", ts)
                ready.append((is_ready, amt))
                body = text([b[0]] + [p for p in b[1:] if not any(isinstance(x, str) and ("Summary" in x or "Total" in x) for x in p)][:8])
                body = body.split("Summary")[0]
                j.ob("scripts.pending.ready", ("READY" in body) == is_ready and ("COOLDOWN ACTIVE" in body) != is_ready, "pending-withdraws.ts: a record is shown as %s although its time has %scome%s" % (
                    "ready" if "READY" in body else "not ready", "" if is_ready else "not ", r.cond()))
                gap = m.call(m.read(m.globals, "Number"), [m.arith(*(("-", bign(m, now), ts) if is_ready else ("-", ts, bign(m, now))))])
                lab = "Ready for: " if is_ready else "Time Remaining: "
                got = [p[k:] for p in b for k, x in enumerate(p) if isinstance(x, str) and x.endswith(lab)]
                if r.holds(gap, "<=", 2 ** 40):
                    want = m.cat([lab.strip()] + duration(r, gap))
                    j.ob("scripts.pending.time", len(got) == 1 and flat(m.cat([lab.strip()] + [x if isinstance(x, str) else Opq("str", x) for x in got[0][1:]])) == flat(want), "pending-withdraws.ts: prints the time as %s, expected %s%s" % (
                        [r_show(r, x) for x in got[0]] if got else None, show(want, 200), r.cond()))
            if pat:
                tot = lambda k: (lambda s: s)(sum_(m, [v for q, v in ready if q == k]))
                n = sum(q for q, v in ready)
                w = {"Total Pending Withdraws": [len(pat)], "Ready to Withdraw": [n], "In Cooldown": [len(ready) - n]}
                if n:
                    w["Total ORCA Ready"] = [tot(True)]
                if len(ready) - n:
                    w["Total ORCA in Cooldown"] = [tot(False)]
                w["Total xORCA Ready"] = w["Total xORCA in Cooldown"] = []
                seen = labelled(j, "scripts.pending.totals", r, w)
                for k in w:
                    j.ob("scripts.pending.totals", k in seen or not w[k], "pending-withdraws.ts: does not print the line %r%s" % (k, r.cond()))
        each(j, "pending-withdraws.ts", [Opq("str", ("addr", "staker"))], f, [], not pat, world)
    listing(())
    for i in range(15):
        listing((i,))
    listing((3, 9), True)
    listing(tuple(range(12)), True)
    if tier != "quick":
        listing((0, 7))
    few(j, "scripts.pending", "pending-withdraws.ts", [Opq("str", ("addr", "staker"))], [])


def clock(r):
    """the second it is"""
    m = r.m
    return m.get(m.globals.v["Math"].x, "floor").f(m, UNDEF, [m.arith("/", m.ctx.var(("now",), 0, 2 ** 53, False), 1000)])


def bign(m, v):
    return m.call(m.read(m.globals, "BigInt"), [v])


def duration(r, s):
    """the pieces of the text for s seconds, as README and the two largest units have it"""
    m = r.m
    fl = lambda a, b: m.get(m.globals.v["Math"].x, "floor").f(m, UNDEF, [m.arith("/", a, b)])
    t = lambda a, u: [m.tostr(a), u]
    if not r.holds(s, ">=", 60):
        return t(s, " seconds")
    if not r.holds(s, ">=", 3600):
        return t(fl(s, 60), "m ") + t(m.arith("%", s, 60), "s")
    if not r.holds(s, ">=", 86400):
        return t(fl(s, 3600), "h ") + t(fl(m.arith("%", s, 3600), 60), "m")
    return t(fl(s, 86400), "d ") + t(fl(m.arith("%", s, 86400), 3600), "h")


def sum_(m, vs):
    t = Big(0)
    for v in vs:
        t = m.arith("+", t, v)
    return t


class r2:
    """the lines of one record"""
    def __init__(self, r, lines):
        self.m, self.script, self.ctx, self._l, self.cond = r.m, r.script, r.ctx, lines, r.cond

    def lines(self):
        return self._l


def keybytes(n):
    return [("secret" if i < 32 else "public", i) for i in range(n)]


def keygen(j, tier):
    def f(n, name):
        def g(r):
            c = keybytes(n)
            if n not in (32, 64):
                j.ob("scripts.keygen.length", not r.written and r.refused(), "generate-keypair.ts: %s for a key of %d bytes" % ("writes a file" if r.written else "ends with exit status 0", n))
                return
            if not r.written:
                ok = any(k[0] == "badkey" for k, v in r.ctx.facts.items() if v is True and isinstance(k, tuple))
                j.ob("scripts.keygen.writes", ok and r.refused(), "generate-keypair.ts: writes nothing for a key of %d bytes%s" % (n, r.cond()))
                return
            at = r.written[0][0]
            j.ob("scripts.keygen.path", isinstance(at, str) and at.endswith("/keypairs/" + name), "generate-keypair.ts: writes to %s, not to %s in the keypairs folder" % (at, name))
            want = c if n == 64 else c + [("ab", ("addr", ("key of seed", tuple(c))), i) for i in range(32)]
            t = r.m.tostr(Arr([r.models.byte(r.m, x) for x in want]))
            w = r.m.cat(["[", t, "]"])
            j.ob("scripts.keygen.content", len(r.written) == 1 and same_text(r, r.written[0][1], w), "generate-keypair.ts: the file does not hold the 64 bytes of the key%s" % r.cond())
        return g
    for n in (0, 1, 16, 31, 32, 33, 48, 63, 64, 65, 96, 128):
        for extra in ([], ["mine.json"]) + ((["wallet"], ["my.key.json.bak"]) if n in (32, 64) else ()):
            each(j, "generate-keypair.ts", [Opq("str", ("hex", tuple(keybytes(n)))) if n else "zz"] + extra, f(n, extra[0] if extra else "generated-keypair.json"), [], False)
    few(j, "scripts.keygen", "generate-keypair.ts", ["ab"], [])


TYPES = {"png": "image/png", "jpg": "image/jpeg", "jpeg": "image/jpeg", "gif": "image/gif", "webp": "image/webp", "svg": "image/svg+xml", "bmp": "image/bmp", "tiff": "image/tiff", "tif": "image/tiff", "ico": "image/x-icon"}


def upload(j, tier):
    S = "upload-image.ts"
    key = ("path", "user")

    def bytes_(n):
        return lambda m: Arr([m.models.byte(m, ("sk", "user", i) if i < 32 else ("ab", ("addr", "user"), i - 32)) for i in range(n)])

    def judge(image, net, valid, ctype):
        def f(r):
            m = r.m
            missing = any(k[0] == "unreadable" and v is True for k, v in r.ctx.facts.items() if isinstance(k, tuple))
            if not valid or missing:
                j.ob("scripts.upload.refuses", not r.uploads, "%s: uploads although %s%s" % (S, "a file is missing" if missing else valid_why, r.cond()))
                j.ob("scripts.upload.refuses", r.refused(), "%s: ends with exit status 0 although %s%s" % (S, "a file is missing" if missing else valid_why, r.cond()))
                return
            j.ob("scripts.upload.once", len(r.uploads) == 1, "%s: makes %d uploads%s" % (S, len(r.uploads), r.cond()))
            if len(r.uploads) != 1:
                return
            u = r.uploads[0]
            dev = net == "devnet"
            url = u["node"]["url"] if u["node"]["url"] is not UNDEF else u["node"]["network"]
            host = re.sub(r"^https://|/.*$", "", url) if isinstance(url, str) else ""
            j.ob("scripts.upload.node", isinstance(url, str) and (url.startswith("https://") and (host == "irys.xyz" or host.endswith(".irys.xyz")) and ("devnet" in host) == dev if "/" in url else url == (net or "mainnet")),
                 "%s: uploads to %s for the network %s" % (S, url, net or "(not given)"))
            j.ob("scripts.upload.node", u["node"]["token"] == "solana", "%s: pays with the token %s" % (S, u["node"]["token"]))
            k = u["node"]["key"]
            cells = m.models.cells(m, k) if isinstance(k, (Bytes, Arr)) else []
            j.ob("scripts.upload.key", cells == [("sk", "user", i) for i in range(32)] + [("ab", ("addr", "user"), i) for i in range(32)], "%s: does not sign with the key of the given file" % S)
            d = u["data"]
            j.ob("scripts.upload.image", isinstance(d, HObj) and getattr(d, "file", None) == image, "%s: does not upload the given image" % S)
            types = [v for n, v in u["tags"] if isinstance(n, str) and n.lower() == "content-type"]
            j.ob("scripts.upload.type", types == [ctype], "%s: labels %s as %s" % (S, image, ", ".join(map(str, types)) or "nothing"))
            j.ob("scripts.upload.secret", not any(secrets(r, x) for t in u["tags"] for x in t), "%s: publishes the secret key in the tags" % S)
            words = [" ".join(p for p in l if isinstance(p, str)).lower() for l in r.lines()]
            said = any(("upload" in w and ("success" in w or "completed" in w)) for w in words)
            j.ob("scripts.upload.report", u["ok"] or not said, "%s: reports the upload's success although the node refused it%s" % (S, r.cond()))
            j.ob("scripts.upload.report", r.refused() != u["ok"], "%s: ends with exit status %s although the node %s the image" % (S, r.code, "took" if u["ok"] else "refused"))
            if u["ok"]:
                ident = ("upload id", 1)
                lines = [[p for p in l if p != ""] for l in r.lines()]
                urls = [l for l in lines if any(isinstance(p, str) and "irys.xyz/" in p for p in l)]
                host = "https://devnet.irys.xyz/" if dev else "https://gateway.irys.xyz/"
                j.ob("scripts.upload.shown", any(ident in l for l in lines) and all(ident in l and any(isinstance(p, str) and p.endswith(host) for p in l) for l in urls), "%s: does not print where the image can be found" % S)
        return f
    valid_why = ""
    for name, t in [(("art." + e), t) for e, t in TYPES.items()] + [("ART.PNG", "image/png"), ("a.b/c.Jpeg", "image/jpeg"), ("v1.png.gif", "image/gif"), ("notes.txt", "application/octet-stream"), ("art", "application/octet-stream")]:
        each(j, S, [name, path("user")], judge(name, None, True, t), ["user"], False, contents={key: bytes_(64)})
    for net in ("mainnet", "devnet"):
        each(j, S, ["art.png", path("user"), net], judge("art.png", net, True, "image/png"), ["user"], False, contents={key: bytes_(64)})
    for net in ("testnet", "main", "mainnet-beta", "Devnet", " devnet", "toString"):
        valid_why = "the network is %r" % net
        each(j, S, ["art.png", path("user"), net], judge("art.png", net, False, ""), ["user"], False, contents={key: bytes_(64)})
    for n in (0, 1, 32, 63, 65, 128):
        valid_why = "the key file holds %d bytes" % n
        each(j, S, ["art.png", path("user")], judge("art.png", None, False, ""), ["user"], False, contents={key: bytes_(n)})
    for what, v in (("null", lambda m: NULL), ("a number", lambda m: 64), ("a text", lambda m: "x" * 64), ("an object", lambda m: Obj({"length": 64}))):
        valid_why = "the key file holds " + what
        each(j, S, ["art.png", path("user")], judge("art.png", None, False, ""), ["user"], False, contents={key: v})
    few(j, "scripts.upload", S, ["art.png", path("user")], ["user"])


def flat(t):
    """the parts of a text, without blanks"""
    if isinstance(t, Opq):
        t = t.t
    if isinstance(t, str):
        return ["".join(t.split())]
    if t[0] != "cat":
        return [t]
    out = []
    for x in t[1:]:
        for y in flat(x):
            if isinstance(y, str) and out and isinstance(out[-1], str):
                out[-1] += y
            else:
                out.append(y)
    return [x for x in out if x != ""]


def same_text(r, a, b):
    return isinstance(a, (str, Opq)) and flat(a) == flat(b)


SECTIONS = {"user": user_scripts, "admin": admin_scripts, "transfers": transfers, "displays": displays, "keygen": keygen, "upload": upload}


def evaluate(tier="quick", want=None):
    j = J(tier)
    for n in want or list(SECTIONS):
        SECTIONS[n](j, tier)
    return j
