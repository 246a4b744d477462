"""Heat conduction between pipes in a composite plane.

Fields are sums of line sources and multipoles at the pipes completed by their
images (circle theorem) so that temperature and flux are continuous across the
borehole wall; amplitudes come from one linear system that imposes the
convective condition on the Fourier modes 1..J of every pipe, taken by FFT of
sampled values.
"""
import numpy as np


class Field:
    def __init__(self, pos, r, r_b, k_s, k_g, R_fp, J, M=None):
        z = np.array([x + 1j * y for x, y in pos])
        n = len(z)
        self.z, self.n, self.J, self.r_b = z, n, J, r_b
        self.r = np.broadcast_to(np.asarray(r, float), (n,)).astype(float)
        self.Rf = np.broadcast_to(np.asarray(R_fp, float), (n,)).astype(float)
        self.k_s, self.k_g = k_s, k_g
        self.s = (k_g - k_s) / (k_g + k_s)
        if M is None:
            M = self._samples()
        ph = np.exp(2j * np.pi * np.arange(M) / M)
        beta = 2 * np.pi * k_g * self.Rf
        cols = [(m, j, c) for m in range(n) for j in range(1, J + 1)
                for c in (1., 1j)]
        self.cols = cols
        nc = len(cols)
        A, A0 = np.zeros((2 * n * J, nc)), np.zeros((n, nc))
        B, B0 = np.zeros((2 * n * J, n)), np.zeros((n, n))
        for i in range(n):
            w = z[i] + self.r[i] * ph
            sl = slice(2 * J * i, 2 * J * (i + 1))

            def modes(vd):
                v, d = vd
                x = np.fft.fft(
                    v - beta[i] * self.r[i] * (d * ph).real) / M
                return np.concatenate((x[1:J + 1].real, x[1:J + 1].imag)), \
                    x[0].real
            for k, (m, j, c) in enumerate(cols):
                A[sl, k], A0[i, k] = modes(self.pole(m, j, c, w))
            for m in range(n):
                B[sl, m], B0[i, m] = modes(self.line(m, w))
        q0 = 1. / (2. * np.pi * k_g)
        self.P = -np.linalg.solve(A, B * q0) if J else np.zeros((0, n))
        self.R = B0 * q0 + A0 @ self.P
        self.q0 = q0

    def _samples(self):
        """Enough samples for the nearest singularities seen from a pipe."""
        rho = 0.
        for i in range(self.n):
            for m in range(self.n):
                if m != i:
                    rho = max(rho, self.r[i] / abs(self.z[i] - self.z[m]))
                if abs(self.z[m]) > 0:
                    im = self.r_b**2 / np.conj(self.z[m])
                    rho = max(rho, self.r[i] / abs(self.z[i] - im))
        rho = min(max(rho, 0.1), 0.995)
        need = 2 * self.J + 8 + 36. / -np.log(rho)
        return int(2**np.ceil(np.log2(max(64, min(need, 8192)))))

    def line(self, m, w):
        z, R = self.z[m], self.r_b
        g = R**2 - np.conj(z) * w
        return (np.log(R / np.abs(w - z)) + self.s * np.log(R**2 / np.abs(g)),
                -1. / (w - z) + self.s * np.conj(z) / g)

    def pole(self, m, j, c, w):
        z, R, r = self.z[m], self.r_b, self.r[m]
        den = R**2 - np.conj(z) * w
        g, gp = r * w / den, r * R**2 / den**2
        a = (r / (w - z))**j
        return ((c * a + self.s * np.conj(c) * g**j).real,
                -c * j * a / (w - z)
                + self.s * np.conj(c) * j * g**(j - 1) * gp)

    def T(self, w, q):
        """Temperature above the mean of the wall, at points of the grout or
        the ground."""
        w, q = np.asarray(w, complex), np.asarray(q, float)
        P = self.P @ q
        inside = np.abs(w) <= self.r_b
        out = np.zeros(w.shape)
        b = (1. + self.s) * self.s / (1. - self.s)
        for m in range(self.n):
            tin = self.line(m, w)[0]
            tout = (1. + self.s) * np.log(self.r_b / np.abs(w - self.z[m])) \
                + b * np.log(self.r_b / np.abs(w))
            out += q[m] * self.q0 * np.where(inside, tin, tout)
        for p, (m, j, c) in zip(P, self.cols):
            tin = self.pole(m, j, c, w)[0]
            tout = (1. + self.s) * (c * (self.r[m] / (w - self.z[m]))**j).real
            out += p * np.where(inside, tin, tout)
        return out
