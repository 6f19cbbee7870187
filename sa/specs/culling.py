"""culling keeps a representative of every vector (C34)

The search tree is abstracted to the relation it computes: who lies within the
tolerance of whom (reflexive, symmetric, lists in increasing order as scipy
returns them).  Everything culling does after the search depends on this
relation only, so the relations over n vectors are enumerated completely."""
import numpy as np
from spec import EQ, HOLDS, ASSUME
from raytools import translate

seen = []


class Tree:
    def __init__(self, vecs):
        self.data = vecs

    def query_ball_tree(self, other, r, p=2.):
        seen.append((r, p, other is self))
        return self.data

    def query_ball_point(self, x, r, p=2., eps=0, workers=1, return_sorted=None, return_length=False):
        seen.append((r, p, x is self.data))
        if x is self.data:
            return self.data
        return x

    def query_pairs(self, r, p=2., eps=0, output_type="set"):
        seen.append((r, p, True))
        out = []
        for i in range(len(self.data)):
            for j in self.data[i]:
                if i < j:
                    out.append((i, j))
        if output_type == "set":
            return set(out)
        return np.array(out)


MODELS = {"scipy.spatial.cKDTree": Tree}


def relation(n, code):
    """the code-th symmetric relation over n vectors"""
    near = [[i] for i in range(n)]
    bit = 0
    for i in range(n):
        for j in range(i + 1, n):
            if code >> bit & 1:
                near[i].append(j)
                near[j].append(i)
            bit += 1
    return [sorted(q) for q in near]


def represented(keep, near):
    """every vector has a kept one within tolerance, the first is kept"""
    if not keep[0]:
        return False
    for q in near:
        ok = False
        for i in q:
            if keep[i]:
                ok = True
        if not ok:
            return False
    return True


def C34_represented(n=each(1, 2, 3, 4), tree=each(True, False), tol=posnum()):
    for code in range(2 ** (n * (n - 1) // 2)):
        near = relation(n, code)
        if tree:
            keep = translate.cull_vectors(Tree(near), tol)
        else:
            keep = translate.cull_vectors(near, tol)
        HOLDS("representatives", represented(keep, near))
        HOLDS("one answer per vector", len(keep) == n)


def C34_five(part=each(0, 1, 2, 3, 4, 5, 6, 7), tol=posnum()):
    for code in range(128):
        near = relation(5, code * 8 + part)
        HOLDS("representatives", represented(translate.cull_vectors(near, tol), near))


def C34_isolated(n=each(1, 2, 3, 4), tol=posnum()):
    """vectors without others within tolerance are all kept, equal ones are culled to one"""
    keep = translate.cull_vectors([[i] for i in range(n)], tol)
    HOLDS("kept", np.all(keep))
    keep = translate.cull_vectors([list(range(n)) for i in range(n)], tol)
    HOLDS("one kept", np.sum(keep) == 1)


def C34_search(tol=posnum()):
    translate.cull_vectors([[0, 1], [0, 1]], tol)
    EQ("searches in the vectors themselves", seen[0][2], True)
    EQ("tolerance is the search radius", seen[0][0], tol)
    EQ("distances are euclidean", seen[0][1], 2)
