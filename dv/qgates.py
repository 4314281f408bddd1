"""Specification side: exact gate matrices (entries are polynomials over Q(sqrt2, i)), written from the textbook definitions
of the gates, independent of the code under verification."""
from .real import R, Cx, R2, toCx

ZERO, ONE, IU = Cx(0), Cx(1), Cx(0, 1)


def M(rows):
    return [[toCx(x) for x in r] for r in rows]


def eye(n):
    return [[ONE if i == j else ZERO for j in range(n)] for i in range(n)]


def mul(a, b):
    n, k, p = len(a), len(b), len(b[0])
    out = []
    for i in range(n):
        row = []
        for j in range(p):
            s = ZERO
            for x in range(k):
                if a[i][x] != ZERO and b[x][j] != ZERO:
                    s = s + a[i][x] * b[x][j]
            row.append(s)
        out.append(row)
    return out


def dag(a):
    return [[a[j][i].conj() for j in range(len(a))] for i in range(len(a[0]))]


def eq(a, b):
    return all(x == y for r, s in zip(a, b) for x, y in zip(r, s))


def scale(c, a):
    return [[toCx(c) * x for x in r] for r in a]


H = M([[R2, R2], [R2, -R2]])
X = M([[0, 1], [1, 0]])
Y = M([[0, Cx(0, -1)], [IU, 0]])
Z = M([[1, 0], [0, -1]])
S = M([[1, 0], [0, IU]])
IS = M([[1, 0], [0, Cx(0, -1)]])
T = M([[1, 0], [0, Cx(R2, R2)]])
IT = M([[1, 0], [0, Cx(R2, -R2)]])
HALF = R.const(1) / 2
SX = M([[Cx(HALF, HALF), Cx(HALF, -HALF)], [Cx(HALF, -HALF), Cx(HALF, HALF)]])
ISX = dag(SX)
SY = M([[Cx(HALF, HALF), Cx(-HALF, -HALF)], [Cx(HALF, HALF), Cx(HALF, HALF)]])
ISY = dag(SY)


def embed(u, qubits, n):
    """Matrix on n qubits (qubit k = bit k of the index) of u acting on the listed qubits (first = least significant)."""
    N = 1 << n
    out = [[ZERO for _ in range(N)] for _ in range(N)]
    for j in range(N):
        c = sum(((j >> q) & 1) << i for i, q in enumerate(qubits))
        rest = j
        for q in qubits:
            rest &= ~(1 << q)
        for r in range(len(u)):
            i = rest | sum(((r >> k) & 1) << q for k, q in enumerate(qubits))
            out[i][j] = u[r][c]
    return out


def controlled(u, controls, target, n, perm):
    """u on target where the controls (control k = bit k of perm) match, identity elsewhere."""
    N = 1 << n
    out = [[ZERO for _ in range(N)] for _ in range(N)]
    for j in range(N):
        if all(((j >> c) & 1) == ((perm >> k) & 1) for k, c in enumerate(controls)):
            b = (j >> target) & 1
            for r in (0, 1):
                if u[r][b] != ZERO:
                    out[(j & ~(1 << target)) | (r << target)][j] = u[r][b]
        else:
            out[j][j] = ONE
    return out


SWAP = M([[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1]])
ISWAP = M([[1, 0, 0, 0], [0, 0, IU, 0], [0, IU, 0, 0], [0, 0, 0, 1]])
IISWAP = dag(ISWAP)
SQRTSWAP = M([[1, 0, 0, 0], [0, Cx(HALF, HALF), Cx(HALF, -HALF), 0], [0, Cx(HALF, -HALF), Cx(HALF, HALF), 0], [0, 0, 0, 1]])
ISQRTSWAP = dag(SQRTSWAP)


def ctl(u, perm=1):
    """two-qubit gate: control = qubit 0, target = qubit 1"""
    return controlled(u, [0], 1, 2, perm)


TWO = {"CNOT": ctl(X), "CY": ctl(Y), "CZ": ctl(Z), "AntiCNOT": ctl(X, 0), "AntiCY": ctl(Y, 0), "AntiCZ": ctl(Z, 0),
       "Swap": SWAP, "ISwap": ISWAP, "IISwap": IISWAP}
ONEQ = {"H": H, "X": X, "Y": Y, "Z": Z, "S": S, "IS": IS}

PAULI = {(0, 0): eye(2), (1, 0): X, (1, 1): Y, (0, 1): Z}


def pauli(bits):
    """bits: list of (x, z) for qubit 0.. ; tensor product with qubit 0 least significant."""
    m = [[ONE]]
    for xz in bits:
        m = kron(PAULI[xz], m)
    return m


def kron(a, b):
    """a is the more significant factor"""
    return [[a[i][j] * b[k][l] for j in range(len(a)) for l in range(len(b))] for i in range(len(a)) for k in range(len(b))]


def conj_table(u, n):
    """{input Pauli bits: (output bits, sign in {0, 2})} with U P U^dagger = i^sign P'."""
    import itertools
    out = {}
    allp = list(itertools.product([(0, 0), (1, 0), (0, 1), (1, 1)], repeat=n))
    mats = {b: pauli(b) for b in allp}
    for b in allp:
        m = mul(mul(u, mats[b]), dag(u))
        for c in allp:
            if eq(m, mats[c]):
                out[b] = (c, 0)
                break
            if eq(m, scale(-1, mats[c])):
                out[b] = (c, 2)
                break
        else:
            raise ValueError("not Clifford")
    return out
