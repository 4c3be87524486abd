"""Reference representations: explicit operation lists with explicit unitary matrices, independent of the library's construction."""
import numpy as np
from tight_binding_redweasel import Symmetry
from tight_binding_redweasel.unitary_representations import UnitaryRepresentation as UR
from .groups import *


def D_of(urep):
    """all (operation, unitary) pairs of a library representation, built from the public fields"""
    S = np.asarray(urep.sym.S, float)
    U = np.asarray(urep.U)
    if not urep.sym.inversion:
        return S, U
    I = np.where(np.arange(U.shape[-1]) < urep.inv_split, 1.0, -1.0)
    return np.concatenate([S, -S]), np.concatenate([U, U * I])


def judge_rep(c, urep, mech, rng=None, n=24):
    """unitarity and the homomorphism property on the whole group, inversion included"""
    S, U = D_of(urep)
    c.ok(len(np.asarray(urep.U)) == len(urep.sym.S), f"{mech}:one-matrix-per-operation")
    N = U.shape[-1]
    c.ok(urep.dim() == N and 0 <= urep.inv_split <= N, f"{mech}:dim")
    c.close(U[0], np.eye(N), f"{mech}:identity", rtol=0, atol=1e-9)
    c.close(U @ np.conj(np.swapaxes(U, 1, 2)), np.broadcast_to(np.eye(N), U.shape), f"{mech}:unitary", rtol=0, atol=1e-7)
    idx = np.arange(len(S)) if len(S) <= n or rng is None else rng.permutation(len(S))[:n]
    for a in idx:
        prod = S[a] @ S
        for b in (range(len(S)) if len(S) <= 24 else idx):
            j = find(prod[b], S)
            c.ok(j is not None, f"{mech}:closed")
            c.close(U[a] @ U[b], U[j], f"{mech}:homomorphism", rtol=0, atol=1e-7)
    return S, U


def characters(S, U):
    return np.einsum("nii->n", U)


def lookup(S, ref):
    """index of every operation of ref in S"""
    idx = [find(x, S) for x in ref]
    assert None not in idx
    return np.array(idx)


def o_class(s):
    """name of the conjugacy class of a proper cubic operation"""
    t = int(round(np.trace(s)))
    d = [int(round(x)) for x in np.diag(s)]
    return {3: "E", 0: "C3", 1: "C4"}.get(t) or ("C2" if sum(map(abs, d)) == 3 else "C2'")


TABLE = {"A1": dict(E=1, C3=1, C2=1, C4=1, **{"C2'": 1}), "A2": dict(E=1, C3=1, C2=1, C4=-1, **{"C2'": -1}), "E": dict(E=2, C3=-1, C2=2, C4=0, **{"C2'": 0}),
         "T1": dict(E=3, C3=0, C2=-1, C4=1, **{"C2'": -1}), "T2": dict(E=3, C3=0, C2=-1, C4=-1, **{"C2'": 1})}


def unitary_form(ops):
    """similarity transformation which makes a finite matrix group orthogonal: W g W^-1"""
    G = np.mean(np.einsum("nki,nkj->nij", ops, ops), axis=0)
    return np.linalg.cholesky(G).T


def some_reps(ops, rng, max_dim=3):
    """list of (name, U for every op) of true representations of the (possibly improper, possibly crystal) group"""
    det = np.sign(np.linalg.det(ops))
    W = unitary_form(ops)
    V = np.einsum("ab,nbc,cd->nad", W, ops, np.linalg.inv(W))
    d = ops.shape[1]
    res = [("triv", np.ones((len(ops), 1, 1))), ("det", det[:, None, None]), ("vec", V), ("axial", V * det[:, None, None])]
    Q = np.linalg.qr(rng.standard_normal((d, d)))[0]
    res.append(("vec'", Q @ V @ Q.T))
    if d >= 2:
        Qc = np.linalg.qr(rng.standard_normal((d, d)) + 1j * rng.standard_normal((d, d)))[0]
        res.append(("vec complex", Qc @ V @ Qc.conj().T))
    if np.all(np.sum(np.abs(ops) > 1e-9, axis=1) == 1):  # signed permutations: permutation part, its sign, product of signs
        perm = np.abs(ops)
        res += [("perm", perm), ("perm sign", np.sign(np.linalg.det(perm))[:, None, None]), ("sign product", (np.sign(np.linalg.det(perm)) * det)[:, None, None])]
    return [r for r in res if r[1].shape[-1] <= max_dim]


def as_urep(sym, ops, U, inv=None):
    """library object for a representation of the operations (ops, U); with inversion symmetry U is split by parity"""
    S = np.asarray(sym.S, float)
    u = UR(sym, U.shape[-1])
    u.U = np.array([U[find(s, ops)] for s in S])
    if sym.inversion:
        UI = U[find(-np.eye(S.shape[1]), ops)]
        w = np.real(np.diag(UI))
        assert np.allclose(UI, np.diag(w)) and np.all(np.diff(w) <= 1e-9)
        u.inv_split = int(np.sum(w > 0))
    else:
        u.inv_split = U.shape[-1]
    return u
