"""Untrusted certificate producer for Projection.tla: rational solutions of the
normal equations.  Everything produced here is verified by TLC."""
from fractions import Fraction
from math import gcd

import numpy as np

BASE = 1000


def limbs(x):
    """normal form of BigInt.tla"""
    x = int(x)
    out = []
    while not (-BASE < x < BASE):
        out.append(x % BASE)
        x //= BASE
    out.append(x)
    # canonical: a leading -1..-999 is fine, floor division keeps lower limbs >= 0
    while len(out) > 1 and out[-1] == 0 and out[-2] >= 0:
        out.pop()
    return out


def limb_major(vals):
    """sequence of big integers -> list (limb) of lists (index)"""
    ls = [limbs(v) for v in vals]
    n = max(len(l) for l in ls)
    return [[l[j] if j < len(l) else 0 for l in ls] for j in range(n)]


def sparse(x):
    x = np.asarray(x)
    p = np.nonzero(x)[0]
    if len(p) == 0:
        return {"p": [0], "v": [0]}
    return {"p": [int(i) for i in p], "v": [int(x[i]) for i in p]}


def gram(refs, L):
    """integer Gram matrix of all delayed references, order (k, l)"""
    K = len(refs)
    G = [[0] * (K * L) for _ in range(K * L)]
    T = len(refs[0])
    for a in range(K):
        for b in range(K):
            c = np.correlate(np.asarray(refs[b], dtype=np.int64), np.asarray(refs[a], dtype=np.int64), "full")
            # c[T-1+d] = sum_t rb[t+d] ra[t]
            for i in range(L):
                for j in range(L):
                    d = i - j  # <ra shifted i, rb shifted j> = sum ra[t-i] rb[t-j] = sum ra[s] rb[s+i-j]
                    G[a * L + i][b * L + j] = int(c[T - 1 + d]) if abs(d) < T else 0
    return G


def xcorr(refs, e, L):
    T = len(e)
    x = []
    for r in refs:
        c = np.correlate(np.asarray(e, dtype=np.int64), np.asarray(r, dtype=np.int64), "full")
        for l in range(L):
            x.append(int(c[T - 1 + l]) if l < T else 0)
    return x


def bareiss_solve(A, rhs):
    """A integer (n x n), rhs list of integer vectors; returns (det, [num vectors])
    with A num = det rhs, or None when A is singular."""
    n = len(A)
    m = len(rhs)
    M = [list(A[i]) + [rhs[k][i] for k in range(m)] for i in range(n)]
    prev = 1
    for k in range(n):
        if M[k][k] == 0:
            for i in range(k + 1, n):
                if M[i][k] != 0:
                    M[k], M[i] = M[i], [-x for x in M[k]]
                    break
            else:
                return None
        pk = M[k][k]
        rowk = M[k]
        for i in range(n):
            if i == k:
                continue
            f = M[i][k]
            row = M[i]
            if i > k:
                M[i] = [0] * (k + 1) + [(pk * row[j] - f * rowk[j]) // prev for j in range(k + 1, n + m)]
            else:
                M[i] = [(pk * row[j] - f * rowk[j]) // prev if j != k else 0 for j in range(n + m)]
        prev = pk
    det = prev
    # Gauss-Jordan Bareiss leaves M = det * I on the left
    return det, [[M[i][n + k] for i in range(n)] for k in range(m)]


def certify(refs, ests, L, dn=0, dd=1, loaded=True):
    """exact certificates of the projection of each e in ests on the delayed refs.
    Returns list of {D, h:[K][limbs][L]} (refs as one joint set) or None."""
    if not all(np.any(r) for r in refs):   # silent references have filters of zeros
        on = [k for k, r in enumerate(refs) if np.any(r)]
        zero = [[0] * L]
        if on:
            out = certify([refs[k] for k in on], ests, L, dn, dd, loaded)
        else:
            out = [{"D": [1], "h": [], "c": 0.0} for _ in ests]
        for c in out or []:
            hs = iter(c["h"])
            c["h"] = [next(hs) if k in on else zero for k in range(len(refs))]
        return out
    K = len(refs)
    G = gram(refs, L)
    n = K * L
    if dn and loaded:
        G = [[g * dd for g in row] for row in G]
        for k in range(K):
            en = int(np.dot(np.asarray(refs[k], dtype=np.int64), np.asarray(refs[k], dtype=np.int64)))
            for l in range(L):
                G[k * L + l][k * L + l] += dn * en
        mult = dd
    else:
        mult = 1
    rhs = [[v * mult for v in xcorr(refs, e, L)] for e in ests]
    sol = bareiss_solve(G, rhs)
    if sol is None:
        return None
    det, nums = sol
    out = []
    for num in nums:
        g = abs(det)
        for v in num:
            g = gcd(g, v)
        D = det // g
        num = [v // g for v in num]
        if D < 0:
            D = -D
            num = [-v for v in num]
        e = np.asarray(ests[len(out)], dtype=np.int64)
        x = rhs[len(out)]
        c = Fraction(sum(a * b for a, b in zip(num, x)), D * mult * max(1, int(np.dot(e, e))))
        out.append({"D": limbs(D), "h": [limb_major(num[k * L:(k + 1) * L]) for k in range(K)], "c": float(c)})
    return out


def certify_close(refs, ests, L, scale_digits=18, dn=0, dd=1):
    """approximate certificates (fixed point), by refinement in exact integers, for
    diagonally dominant systems; refs/ests integer arrays (long, sparse)."""
    from scipy.linalg import lu_factor, lu_solve
    K = len(refs)
    n = K * L
    G = np.zeros((n, n))
    T = len(refs[0])
    pos = [np.nonzero(r)[0] for r in refs]
    cc = {}
    for a in range(K):
        for b in range(K):
            for i in pos[a]:
                for j in pos[b]:
                    # sum_s ra[s] rb[s+d], d = j - i
                    d = int(j - i)
                    if abs(d) < L:
                        cc[(a, b, d)] = cc.get((a, b, d), 0) + int(refs[a][i]) * int(refs[b][j])
    for (a, b, d), v in cc.items():
        # entry (a,i),(b,j) with i - j = d
        for i in range(max(0, d), min(L, L + d)):
            G[a * L + i, b * L + i - d] += v
    en = [int(np.dot(r.astype(np.int64), r.astype(np.int64))) for r in refs]
    Gl = G.copy()
    if dn:
        for k in range(K):
            Gl[range(k * L, (k + 1) * L), range(k * L, (k + 1) * L)] += en[k] * dn / dd
    lu = lu_factor(Gl)
    S = 10 ** scale_digits
    out = []
    for e in ests:
        pe = np.nonzero(e)[0]
        x = [0] * n
        for k in range(K):
            for i in pos[k]:
                for t in pe:
                    l = int(t - i)
                    if 0 <= l < L:
                        x[k * L + l] += int(refs[k][i]) * int(e[t])
        xo = np.array(x, dtype=object)
        h = np.array([0] * n, dtype=object)
        for _ in range(6):
            # residual of the normal equations, scaled by S (and dd)
            r = xo * (dd * S)
            for (a, b, d), v in cc.items():
                lo, hi = max(0, d), min(L, L + d)
                r[a * L + lo:a * L + hi] -= h[b * L + lo - d:b * L + hi - d] * (dd * v)
            if dn:
                for k in range(K):
                    r[k * L:(k + 1) * L] -= h[k * L:(k + 1) * L] * (dn * en[k])
            m = max(abs(v) for v in r)
            if m == 0:
                break
            corr = lu_solve(lu, np.array([float(v) / dd / (m / dd) for v in r]))
            upd = [int(round(Fraction(float(c)) * m / dd)) for c in corr]
            if not any(upd):
                break
            h = h + np.array(upd, dtype=object)
        h = [int(v) for v in h]
        out.append({"D": limbs(S), "h": [limb_major(h[k * L:(k + 1) * L]) for k in range(K)],
                    "c": sum(a * b for a, b in zip(h, x)) / S / float(np.dot(e.astype(float), e.astype(float)))})
    return out
