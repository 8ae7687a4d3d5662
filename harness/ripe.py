"""RIPEMD-160, used only to build test inputs"""
def ripemd160(msg):
    rho = [7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8]
    L = [list(range(16))]
    R = [[(9 * i + 5) % 16 for i in range(16)]]
    for _ in range(4): L.append([rho[i] for i in L[-1]]); R.append([rho[i] for i in R[-1]])
    S = [[11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8], [12, 13, 11, 15, 6, 9, 9, 7, 12, 15, 11, 13, 7, 8, 7, 7], [13, 15, 14, 11, 7, 7, 6, 8, 13, 14, 13, 12, 5, 5, 6, 9], [14, 11, 12, 14, 8, 6, 5, 5, 15, 12, 15, 14, 9, 9, 8, 6], [15, 12, 13, 13, 9, 5, 8, 6, 14, 11, 12, 11, 8, 6, 5, 5]]
    KL = [0, 0x5A827999, 0x6ED9EBA1, 0x8F1BBCDC, 0xA953FD4E]; KR = [0x50A28BE6, 0x5C4DD124, 0x6D703EF3, 0x7A6D76E9, 0]
    M = 0xffffffff
    rol = lambda x, n: ((x << n) | (x >> (32 - n))) & M
    f = [lambda x, y, z: x ^ y ^ z, lambda x, y, z: (x & y) | (~x & M & z), lambda x, y, z: (x | (~y & M)) ^ z, lambda x, y, z: (x & z) | (y & ~z & M), lambda x, y, z: x ^ (y | (~z & M))]
    h = [0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0]
    m = msg + b"\x80" + bytes((55 - len(msg)) % 64) + (8 * len(msg)).to_bytes(8, "little")
    for o in range(0, len(m), 64):
        x = [int.from_bytes(m[o + 4 * i:o + 4 * i + 4], "little") for i in range(16)]
        a = h[:]; b = h[:]
        for j in range(80):
            r, i = divmod(j, 16)
            for s, F, W, K in ((a, f[r], L, KL), (b, f[4 - r], R, KR)):
                t = (rol((s[0] + F(s[1], s[2], s[3]) + x[W[r][i]] + K[r]) & M, S[r][W[r][i]]) + s[4]) & M
                s[:] = [s[4], t, s[1], rol(s[2], 10), s[3]]
        h = [(h[1] + a[2] + b[3]) & M, (h[2] + a[3] + b[4]) & M, (h[3] + a[4] + b[0]) & M, (h[4] + a[0] + b[1]) & M, (h[0] + a[1] + b[2]) & M]
    return b"".join(v.to_bytes(4, "little") for v in h)
