"""Reference models of the three load aggregation schemes.

Each model keeps the complete load history and answers with the exact
convolution of the piecewise-constant history that the scheme documents:
g sampled at the ends of blocks of time steps, blocks of averaged loads."""
import math

import numpy as np


def convolve(blocks, g, ns):
    """blocks: newest first, list of (number of steps, load vector).
    g[:, :, k]: response after k+1 time steps."""
    out = np.zeros(ns)
    n = 0
    prev = None
    for size, q in blocks:
        if size == 0:
            continue
        lo = g[:, :, n - 1] if n > 0 else 0. * g[:, :, 0]
        n += size
        out = out + (g[:, :, n - 1] - lo) @ q
    return out


class Model:
    def __init__(self, ns):
        self.ns = ns
        self.h = []                 # oldest first

    def step(self):
        self.h.append(np.zeros(self.ns))

    def load(self, q):
        self.h[-1] = np.broadcast_to(np.asarray(q, float), (self.ns,)).copy()


class Exact(Model):
    def answer(self, g):
        return convolve([(1, q) for q in reversed(self.h)], g, self.ns)


class MLAA(Model):
    def __init__(self, ns, N):
        super().__init__(ns)
        self.N = N

    def answer(self, g):
        h = list(reversed(self.h))
        n0 = min(self.N[0], len(h))
        blocks = [(1, q) for q in h[:n0]]
        used = n0
        for size in self.N[1:]:
            if len(h) >= used + size and used >= self.N[0]:
                blocks.append((size, np.mean(h[used:used + size], axis=0)))
                used += size
            else:
                break
        if used < len(h):
            blocks.append((len(h) - used, np.mean(h[used:], axis=0)))
        return convolve(blocks, g, self.ns)


class Liu(Model):
    """Queues of cells; a queue that has waited long enough hands its oldest
    N cells, averaged, to the next queue."""

    def __init__(self, ns, N, W):
        super().__init__(ns)
        self.N, self.W = N, W
        self.levels = [[], [], [], []]      # newest last; indices of steps

    def step(self):
        super().step()
        self.levels[0].append([len(self.h) - 1])
        for k in range(3):
            if len(self.levels[k]) >= self.N[k] + self.W[k]:
                old = self.levels[k][:self.N[k]]
                del self.levels[k][:self.N[k]]
                self.levels[k + 1].append([i for c in old for i in c])
            else:
                break

    def answer(self, g):
        blocks = []
        for lev in self.levels:
            for cell in reversed(lev):
                blocks.append((len(cell), np.mean(
                    [self.h[i] for i in cell], axis=0)))
        return convolve(blocks, g, self.ns)


class CJ(Model):
    """Cell k of width w_k keeps an average load; at every step each cell
    receives 1/w_k of its predecessor and loses 1/w_k of itself."""

    def __init__(self, ns, dt, tmax, per):
        super().__init__(ns)
        self.w, t = [], 0.
        while t < tmax:
            self.w.append(2. ** (len(self.w) // per))
            t += self.w[-1] * dt
        self.q = [np.zeros(ns) for _ in self.w]

    @property
    def times(self):
        return np.cumsum(self.w)

    def step(self):
        super().step()
        new = [np.zeros(self.ns)]
        for k in range(1, len(self.w)):
            new.append(self.q[k] + (self.q[k - 1] - self.q[k]) / self.w[k])
        self.q = new

    def load(self, q):
        super().load(q)
        self.q[0] = self.h[-1].copy()

    def answer(self, g):
        """g sampled at the cell boundaries."""
        out = np.zeros(self.ns)
        for k in range(len(self.w)):
            lo = g[:, :, k - 1] if k else 0. * g[:, :, 0]
            out = out + (g[:, :, k] - lo) @ self.q[k]
        return out
