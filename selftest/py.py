#!/usr/bin/env python3
"""self-test of the Python analysis: behaviour-preserving rewrites must be accepted, behaviour changes reported. Works on text variants of the current file, runs nothing."""
import json, os, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.dont_write_bytecode = True
from vlib import pyast, run, ir
SRC = open(os.path.join(ir.REPO, "python3", "frodokem.py"), newline="").read().replace("\r\n", "\n")
MUL = SRC[SRC.index("    def __matrix_mul"):SRC.index("    def __matrix_add")]
GOOD, BAD = {}, {}
def good(n, *prs, ops=("kp", "enc", "dec")): GOOD[n] = (prs, ops)
def bad(n, *prs, ops=("kp", "enc", "dec"), N=640): BAD[n] = (prs, ops, N)
good("mul-sum", ("                for k in range(ncols_X):\n                    R[i][j] += X[i][k] * Y[k][j]\n                R[i][j] %= self.q\n", "                R[i][j] = sum(X[i][k] * Y[k][j] for k in range(ncols_X)) % self.q\n"))
good("mul-comp", (MUL, '    def __matrix_mul(self, X, Y):\n        YT = list(zip(*Y))\n        return [[sum(a * b for a, b in zip(row, col)) % self.q for col in YT] for row in X]\n\n'))
good("mul-acc", ("                for k in range(ncols_X):\n                    R[i][j] += X[i][k] * Y[k][j]\n                R[i][j] %= self.q\n", "                acc = 0\n                k = 0\n                while k < ncols_X:\n                    acc = (acc + X[i][k] * Y[k][j]) % self.q\n                    k += 1\n                R[i][j] = acc\n"))
good("mul-order", ("        for i in range(nrows_X):\n            for j in range(ncols_Y):\n                for k in range(ncols_X):\n                    R[i][j] += X[i][k] * Y[k][j]\n                R[i][j] %= self.q\n", "        for k in range(ncols_X):\n            for i in range(nrows_X):\n                x = X[i][k]\n                for j in range(ncols_Y):\n                    R[i][j] += x * Y[k][j]\n        R = [[v % self.q for v in row] for row in R]\n"), ops=("enc",))
good("transpose-zip", ("return [[X[j][i] for j in range(nrows)] for i in range(ncols)]", "return [list(c) for c in zip(*X)]"))
good("encode-shift", ("                tmp = 0\n                for l in range(self.B):\n                    if kbits[(i * self.nbar + j) * self.B + l]: tmp += 2 ** l\n", "                pos = (i * self.nbar + j) * self.B\n                tmp = sum(int(kbits[pos + l]) << l for l in range(self.B))\n"), ops=("enc", "dec"))
good("encode-int", ("int(self.q / (2 ** self.B))", "(self.q >> self.B)"), ops=("enc", "dec"))
good("decode-shift", ("tmp = ((2 * K[i][j] * (2 ** self.B) + self.q) // (2 * self.q)) % (2 ** self.B)", "tmp = ((K[i][j] + (1 << (self.D - self.B - 1))) >> (self.D - self.B)) & ((1 << self.B) - 1)"), ops=("dec",))
good("decode-divmod", ("                tmp = ((2 * K[i][j] * (2 ** self.B) + self.q) // (2 * self.q)) % (2 ** self.B)\n", "                step = self.q // 2 ** self.B\n                t, rem = divmod(K[i][j], step)\n                if 2 * rem >= step: t += 1\n                tmp = t % (2 ** self.B)\n"), ops=("dec",))
good("decode-half", ("tmp = ((2 * K[i][j] * (2 ** self.B) + self.q) // (2 * self.q)) % (2 ** self.B)", "tmp = (((K[i][j] >> (self.D - self.B - 1)) + 1) >> 1) % (2 ** self.B)"), ops=("dec",))
good("decode-carry", ("tmp = ((2 * K[i][j] * (2 ** self.B) + self.q) // (2 * self.q)) % (2 ** self.B)", "tmp = ((K[i][j] // (self.q // 2 ** self.B)) + (1 if K[i][j] % (self.q // 2 ** self.B) >= self.q // 2 ** (self.B + 1) else 0)) % (2 ** self.B)"), ops=("dec",))
good("decode-bit", ("tmp = ((2 * K[i][j] * (2 ** self.B) + self.q) // (2 * self.q)) % (2 ** self.B)", "tmp = ((K[i][j] >> (self.D - self.B)) + ((K[i][j] >> (self.D - self.B - 1)) & 1)) % (2 ** self.B)"), ops=("dec",))
good("decode-direct", ("                    tmpbits[l] = tmp % 2\n                    tmp >>= 1\n", "                    tmpbits[l] = (tmp >> l) & 1\n"), ops=("dec",))
good("pack-direct", ("                c = [0 for l in range(self.D)]\n                for l in range(self.D):\n                    c[l] = tmp % 2\n                    tmp >>= 1\n", "                c = [(tmp >> l) & 1 for l in range(self.D)]\n"))
good("pack-append", ("        b = bitstring.BitArray(self.D * n1 * n2)\n", "        b = bitstring.BitArray()\n"), ("                    b[(i * n2 + j) * self.D + l] = c[self.D - 1 - l]\n", "                    b.append('0b1' if c[self.D - 1 - l] else '0b0')\n"))
good("pack-uint", ("                tmp = C[i][j]\n                c = [0 for l in range(self.D)]\n                for l in range(self.D):\n                    c[l] = tmp % 2\n                    tmp >>= 1\n                # 4. for l = 0; l < D; L += 1\n                for l in range(self.D):\n                    # 5. b[(i * n2 + j) * D + l] = c[D - 1 - l]\n                    b[(i * n2 + j) * self.D + l] = c[self.D - 1 - l]\n", "                b.overwrite(bitstring.Bits(uint=C[i][j], length=self.D), (i * n2 + j) * self.D)\n"))
good("unpack-uint", ("                for l in range(self.D):\n                    if bbits[(i * n2 + j) * self.D + l]: C[i][j] += 2 ** (self.D - 1 - l)\n", "                o = (i * n2 + j) * self.D\n                C[i][j] = bbits[o:o + self.D].uint\n"), ops=("enc", "dec"))
good("unpack-horner", ("                for l in range(self.D):\n                    if bbits[(i * n2 + j) * self.D + l]: C[i][j] += 2 ** (self.D - 1 - l)\n", "                v = 0\n                for l in range(self.D):\n                    v = 2 * v + (1 if bbits[(i * n2 + j) * self.D + l] else 0)\n                C[i][j] = v\n"), ops=("enc", "dec"))
good("sample-sum", ("        e = 0\n        # 3. for z = 0; z < s; z += 1\n        for z in range(len(self.T_chi) - 1):\n            # 4. if t > T_chi(z)\n            if t > self.T_chi[z]:\n                # 5. e = e + 1\n                e += 1\n", "        e = sum(1 for T in self.T_chi[:-1] if t > T)\n"), ops=("kp",))
good("sample-sum2", ("        e = 0\n        # 3. for z = 0; z < s; z += 1\n        for z in range(len(self.T_chi) - 1):\n            # 4. if t > T_chi(z)\n            if t > self.T_chi[z]:\n                # 5. e = e + 1\n                e += 1\n", "        e = sum(int(t > T) for T in self.T_chi[:-1])\n"), ops=("kp",))
good("sample-neg", ("        r0 = r % 2\n        e = ((-1) ** r0) * e\n        return e", "        if r & 1:\n            return -e\n        return e"), ops=("kp",))
good("sample-break", ("            if t > self.T_chi[z]:\n                # 5. e = e + 1\n                e += 1\n", "            if t <= self.T_chi[z]: continue\n            e = e + 1\n"), ops=("kp",))
good("sample-brk", ("            if t > self.T_chi[z]:\n                # 5. e = e + 1\n                e += 1\n", "            if t <= self.T_chi[z]: break\n            e = e + 1\n"), ops=("kp",))
good("sample-brk2", ("            if t > self.T_chi[z]:\n                # 5. e = e + 1\n                e += 1\n", "            if t > self.T_chi[z]:\n                e = z + 1\n            else:\n                break\n"), ops=("kp",))
good("verify-ret", ("                r = r | (a[i][j] ^ b[i][j])\n        return r == 0", "                if a[i][j] != b[i][j]:\n                    return False\n        return True"), ops=("dec",))
bad("sample-brk3", ("            if t > self.T_chi[z]:\n                # 5. e = e + 1\n                e += 1\n", "            e = e + 1\n            if t <= self.T_chi[z]: break\n"), ops=("kp",))
good("sample-tern", ("        e = ((-1) ** r0) * e\n", "        e = -e if r0 == 1 else e\n"), ops=("kp",))
good("sample-matrix-comp", ("        E = [[None for j in range(n2)] for i in range(n1)]\n        # 1. for i = 0; i < n1; i += 1\n        for i in range(n1):\n            # 2. for j = 0; j < n2; j += 1\n            for j in range(n2):\n                # 3. E[i][j] = Frodo.Sample(r^{i*n2+j}, T_chi)\n                E[i][j] = self.sample(r[i * n2 + j])\n        return E\n", "        return [[self.sample(r[i * n2 + j]) for j in range(n2)] for i in range(n1)]\n"))
good("gen-frombytes", ("            c_i = [struct.unpack_from('<H', tmp, 2 * j)[0] for j in range(self.n)]\n", "            c_i = [int.from_bytes(tmp[2 * j:2 * j + 2], 'little') for j in range(self.n)]\n"), ("            tmp = bytearray(2)\n            struct.pack_into('<H', tmp, 0, i)\n            b = tmp + seedA\n", "            b = i.to_bytes(2, 'little') + seedA\n"))
good("gen-unpackall", ("            c_i = [struct.unpack_from('<H', tmp, 2 * j)[0] for j in range(self.n)]\n", "            c_i = struct.unpack('<%dH' % self.n, tmp)\n"))
good("gen-unpackfmt", ("            c_i = [struct.unpack_from('<H', tmp, 2 * j)[0] for j in range(self.n)]\n", "            c_i = list(struct.unpack(f'<{self.n}H', tmp))\n"))
good("gen-mask", ("A[i][j] = c_i[j] % self.q", "A[i][j] = c_i[j] & (self.q - 1)"))
good("aes-once", ("                c = FrodoKEM.__aes128_16bytesonly(seedA, b)\n", "                c = FrodoKEM.__aes128_16bytesonly(bytes(seedA), bytes(b))\n"))
good("aes-helper", ("                b = bytearray(16)\n                struct.pack_into('<H', b, 0, i)\n                struct.pack_into('<H', b, 2, j)\n", "                b = struct.pack('<HH', i, j) + bytes(12)\n"))
good("rand-urandom", ("lambda k : bytes((secrets.randbits(8) for i in range(k)))", "lambda k : secrets.token_bytes(k)"))
good("rand-method", ("        self.randombytes = lambda k : bytes((secrets.randbits(8) for i in range(k)))\n", "        self.randombytes = self.systemrandom\n"), ("    def setParamsFrodo640(self):", "    @staticmethod\n    def systemrandom(k):\n        out = bytearray()\n        for _ in range(k):\n            out.append(secrets.randbits(8))\n        return bytes(out)\n\n    def setParamsFrodo640(self):"))
good("sk-struct", ("        sk = bitstring.BitArray()\n        sk.append(s + seedA + b)\n        for i in range(self.nbar):\n            for j in range(self.n):\n                sk.append(bitstring.BitArray(intle = Stransposed[i][j], length = 16))\n        sk.append(pkh)\n        sk = sk.bytes\n", "        sk = s + pk + b''.join(struct.pack('<h', x) for row in Stransposed for x in row) + pkh\n"), ops=("kp",))
good("sk-tobytes", ("                sk.append(bitstring.BitArray(intle = Stransposed[i][j], length = 16))\n", "                sk.append((Stransposed[i][j] % 65536).to_bytes(2, 'little'))\n"), ops=("kp",))
good("dec-struct", ("        Sbytes = bitstring.ConstBitStream(sk[offset:offset+length])\n        Stransposed = [[0 for j in range(self.n)] for i in range(self.nbar)]\n        for i in range(self.nbar):\n            for j in range(self.n):\n                Stransposed[i][j] = Sbytes.read('intle:16')\n", "        Sw = struct.unpack('<%dh' % (length // 2), sk[offset:offset+length])\n        Stransposed = [list(Sw[i * self.n:(i + 1) * self.n]) for i in range(self.nbar)]\n"), ops=("dec",))
good("verify-all", ("        r = 0\n        for i in range(len(a)):\n            for j in range(len(a[i])):\n                r = r | (a[i][j] ^ b[i][j])\n        return r == 0", "        return a == b"), ops=("dec",))
good("verify-any", ("        r = 0\n        for i in range(len(a)):\n            for j in range(len(a[i])):\n                r = r | (a[i][j] ^ b[i][j])\n        return r == 0", "        ok = True\n        for ra, rb in zip(a, b):\n            for x, y in zip(ra, rb):\n                ok = ok & (x == y)\n        return ok"), ops=("dec",))
good("verify-sub", ("r = r | (a[i][j] ^ b[i][j])", "r |= (a[i][j] ^ b[i][j])"), ("return r == 0", "return not r"), ops=("dec",))
good("select-if", ("        kbar = self.__ctselect(kprime, s, use_kprime)\n", "        if use_kprime:\n            kbar = kprime\n        else:\n            kbar = s\n"), ops=("dec",))
good("select-tern", ("        kbar = self.__ctselect(kprime, s, use_kprime)\n", "        kbar = kprime if use_kprime else s\n"), ops=("dec",))
good("select-mask", ("        mask = 0\n        for i in range(8):\n            mask = mask | (selector << i)\n", "        mask = -int(selector) & 0xff\n"), ops=("dec",))
good("select-comp", ("        r = bytearray()\n        for i in range(len(a)):\n            r.append((a[i] & mask) | (b[i] & ~mask))\n        return bytes(r)", "        return bytes((x & mask) | (y & (mask ^ 0xff)) for x, y in zip(a, b))"), ops=("dec",))
good("cdf-acc", ("            T_chi[z] = T_chi[0] + sum(chi[1:z + 1])\n", "            T_chi[z] = T_chi[z - 1] + chi[z]\n"))
good("cdf-acc2", ("        T_chi = list(range(len(chi)))\n        T_chi[0] = int(chi[0] / 2) - 1\n        for z in range(1, len(chi)):\n            T_chi[z] = T_chi[0] + sum(chi[1:z + 1])\n        return T_chi\n", "        acc = chi[0] // 2 - 1\n        T_chi = [acc]\n        for p in chi[1:]:\n            acc += p\n            T_chi.append(acc)\n        return T_chi\n"))
good("hash-helper", ('        """Generate a public key / secret key pair', '        n_noise = 2 * self.n * self.nbar\n        """Generate a public key / secret key pair'), ("        rbytes = self.shake(bytes(b'\\x5f') + seedSE, 2 * self.n * self.nbar * self.len_chi_bytes)\n        r = [struct.unpack_from('<H', rbytes, 2*i)[0] for i in range(2 * self.n * self.nbar)]\n", "        r = self._noise(0x5f, seedSE, 2 * self.n * self.nbar)\n"), ("    def kem_keygen(self):", "    def _noise(self, tag, seed, count):\n        rb = self.shake(bytes([tag]) + seed, count * self.len_chi_bytes)\n        return [struct.unpack_from('<H', rb, 2 * i)[0] for i in range(count)]\n\n    def kem_keygen(self):"), ops=("kp",))
good("hashlib", ("        shake_ctx = hashes.Hash(hashes.SHAKE128(digest_len), backend = default_backend())\n        shake_ctx.update(msg)\n        return shake_ctx.finalize()\n", "        return hashlib.shake_128(bytes(msg)).digest(digest_len)\n"), ("import struct\n", "import struct\nimport hashlib\n"))
good("dict-params", ("        if variant == \"FrodoKEM-640-AES\":\n            self.setParamsFrodo640()\n            self.gen = self.genAES128\n        elif", "        known = {\"FrodoKEM-640-AES\": (self.setParamsFrodo640, self.genAES128)}\n        if variant in known:\n            f, self.gen = known[variant]\n            f()\n        elif"), ops=("kp",))
good("bits-helper", ("                b.set((B[i] >> l) % 2, 8*i+l)\n", "                b[8*i+l] = bool(B[i] & (1 << l))\n"), ops=("enc", "dec"))
good("b2b", ("        B = bytearray(int(len(b)/8))\n        for i in range(len(B)):\n            for l in range(8):\n                if b[8*i+l]: B[i] |= 1 << l\n        return bytes(B)\n", "        return bytes(sum(b[8*i+l] << l for l in range(8)) for i in range(len(b) // 8))\n"), ops=("dec",))
good("matadd", ("return [[(X[i][j] + Y[i][j]) % self.q for j in range(ncols_X)] for i in range(nrows_X)]", "return [[(x + y) % self.q for x, y in zip(rx, ry)] for rx, ry in zip(X, Y)]"))
good("matadd-loop", ("        return [[(X[i][j] + Y[i][j]) % self.q for j in range(ncols_X)] for i in range(nrows_X)]", "        R = []\n        for i in range(nrows_X):\n            row = []\n            for j in range(ncols_X):\n                t = X[i][j] + Y[i][j]\n                row.append(t % self.q)\n            R.append(row)\n        return R"))
good("offsets", ("        offset = 0; length = self.len_s_bytes\n        s = sk[offset:offset+length]\n", "        s, rest = sk[:self.len_s_bytes], sk[self.len_s_bytes:]\n        offset = 0; length = self.len_s_bytes\n"), ops=("dec",))
good("noop", ("        # 1. t = sum_", "        pass\n        unused = 0\n        # 1. t = sum_"), ops=("kp",))
good("typed", ("    def sample(self, r):", "    def sample(self, r: int) -> int:"), ("        e = 0\n", "        e: int = 0\n"), ops=("kp",))
good("assertraise", ('        assert len(ct) == self.len_ct_bytes, "Incorrect ciphertext length"\n', '        if len(ct) != self.len_ct_bytes:\n            raise ValueError("Incorrect ciphertext length")\n'), ops=("dec",))
good("enumerate", ("        for i in range(len(a)):\n            for j in range(len(a[i])):\n                r = r | (a[i][j] ^ b[i][j])\n", "        for i, row in enumerate(a):\n            for j, x in enumerate(row):\n                r = r | (x ^ b[i][j])\n"), ops=("dec",))
good("reduce", ("        r = 0\n        for i in range(len(a)):\n            for j in range(len(a[i])):\n                r = r | (a[i][j] ^ b[i][j])\n        return r == 0", "        return functools.reduce(lambda u, v: u | v, (x ^ y for ra, rb in zip(a, b) for x, y in zip(ra, rb)), 0) == 0"), ("import struct\n", "import struct\nimport functools\n"), ops=("dec",))
good("early-false", ("                r = r | (a[i][j] ^ b[i][j])\n        return r == 0", "                if a[i][j] != b[i][j]: r = 1\n        return r == 0"), ops=("dec",))

bad("round", ("tmp = ((2 * K[i][j] * (2 ** self.B) + self.q) // (2 * self.q)) % (2 ** self.B)", "tmp = round(K[i][j] * (2 ** self.B) / self.q) % (2 ** self.B)"), ops=("dec",))
bad("floor", ("(2 * K[i][j] * (2 ** self.B) + self.q)", "(2 * K[i][j] * (2 ** self.B) + self.q - 2)"), ops=("dec",))
bad("nomod", ("// (2 * self.q)) % (2 ** self.B)", "// (2 * self.q))"), ("tmpbits[l] = tmp % 2", "tmpbits[l] = 1 if tmp >= 4 else tmp % 2"), ops=("dec",))
bad("verify-row", ("for j in range(len(a[i])):\n                r =", "for j in range(len(a[0]) - (1 if i == 7 else 0)):\n                r ="), ops=("dec",))
bad("verify-c", ("self.__ctverify(Bprime + C, Bprimeprime + Cprime)", "self.__ctverify(Bprime, Bprimeprime)"), ops=("dec",))
bad("verify-low", ("(a[i][j] ^ b[i][j])", "((a[i][j] ^ b[i][j]) & 0x3fff)"), ops=("dec",))
bad("sel-7", ("for i in range(8):\n            mask", "for i in range(7):\n            mask"), ops=("dec",))
bad("gt-ge", ("if t > self.T_chi[z]", "if t >= self.T_chi[z]"), ops=("kp",))
bad("cdf-len", ("range(len(self.T_chi) - 1)", "range(len(self.T_chi) - 2)"), ops=("kp",))
bad("len96", ("+ self.mbar * self.mbar) * self.len_chi_bytes", "+ self.mbar * self.nbar - 1) * self.len_chi_bytes"), ops=("enc",))
bad("dom", ("bytes(b'\\x96') + seedSEprime", "bytes(b'\\x5f') + seedSEprime"), ops=("dec",))
bad("seed8", ("struct.pack_into('<H', tmp, 0, i)", "struct.pack_into('<H', tmp, 0, i & 0x1ff)"), ops=("kp",))
bad("endian", ("struct.unpack_from('<H', rbytes, 2*i)", "struct.unpack_from('H' if i else '>H', rbytes, 2*i)"), ops=("kp", "enc"))
bad("reject-k", ("kbar = self.__ctselect(kprime, s, use_kprime)", "kbar = self.__ctselect(kprime, pkh, use_kprime)"), ops=("dec",))
bad("noreject", ("kbar = self.__ctselect(kprime, s, use_kprime)", "kbar = kprime"), ops=("dec",))
bad("uintle", ("'intle:16'", "'uintle:15'"), ops=("dec",))
bad("encode", ("tmp * int(self.q / (2 ** self.B))", "tmp * int(self.q / (2 ** self.B)) % (self.q - 1)"), ops=("enc",), N=640)
bad("packtrunc", ("                    b[(i * n2 + j) * self.D + l] = c[self.D - 1 - l]\n", "                    b[(i * n2 + j) * self.D + l] = c[self.D - 1 - l] if (i or j or l) else 0\n"), ops=("kp",))
bad("neg-noise", ("intle = Stransposed[i][j]", "uintle = Stransposed[i][j] % self.q"), ops=("kp",))
bad("retries", ("        mu = self.randombytes(self.len_mu_bytes)\n", "        mu = self.randombytes(self.len_mu_bytes)\n        while mu[0] == 0: mu = self.randombytes(self.len_mu_bytes)\n"), ops=("enc",))
bad("assert-data", ("        # 4. mu' = Frodo.Decode(M)\n", "        assert any(any(x) for x in M)\n"), ops=("dec",))

def analyse(name, prs, ops, N):
    s = SRC
    for a, b in prs:
        if a not in s: return name, "ANCHOR MISSING " + a[:60]
        s = s.replace(a, b)
    d = tempfile.mkdtemp()
    open(os.path.join(d, "frodokem.py"), "w").write(s)
    try:
        open(os.path.join(d, "t.json"), "w").write(pyast.export(d))
        gens = ("AES",) if name.startswith("aes") else ("SHAKE",)
        out = []
        for g in gens:
            for o in ops:
                p = subprocess.run([run.analyser(), "py", str(N), g, o, os.path.join(d, "t.json")], stdout=subprocess.PIPE, text=True)
                for l in p.stdout.splitlines():
                    r = json.loads(l)
                    if r["kind"] == "error": out.append("error " + r["msg"])
                    elif r["run"] != "returned": out.append("%s %s %s: %s" % (o, r["run"], r["where"], r["msg"]))
                    elif r["bad"]: out.append("%s bad %d" % (o, r["bad"]))
                if p.returncode: out.append("rc %d" % p.returncode)
        return name, "; ".join(out)
    except run.CheckError as e:
        return name, "export: %s" % e
    finally:
        subprocess.run(["rm", "-rf", d])

if __name__ == "__main__":
    from concurrent.futures import ThreadPoolExecutor
    sel = sys.argv[1:]
    run.analyser()
    jobs = [(n, p, o, 640, True) for n, (p, o) in GOOD.items()] + [(n, p, o, N, False) for n, (p, o, N) in BAD.items()]
    if sel: jobs = [j for j in jobs if j[0] in sel]
    wrong = 0
    with ThreadPoolExecutor(6) as ex:
        for (n, p, o, N, g), (_, r) in zip(jobs, ex.map(lambda j: analyse(*j[:4]), jobs)):
            ok = (r == "") == g and "unsupported" not in r and "ANCHOR" not in r and "export" not in r and "rc" not in r and "error" not in r
            wrong += not ok
            print("%-4s %-5s %-20s %s" % ("ok" if ok else "FAIL", "good" if g else "bad", n, r))
    print("%d wrong of %d" % (wrong, len(jobs)))
    sys.exit(wrong != 0)
