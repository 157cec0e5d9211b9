"""Independent reference models in plain numpy (no code of the library)."""
import numpy as np

Q_ABS = 1e5


def damped(f, q=Q_ABS):
    return f * (1 + 0.5j / q) if q else complex(f)


def tmm(eps, thick, top, bot, f, q=Q_ABS, top_d=1.0):
    """Normal incidence (R, T) of a stack by 2x2 interface matrices.

    eps, thick: per layer; top/bot: cladding permittivities.  A global linear
    solve in the mode amplitudes is not needed: the recursion over the
    reflection coefficient (Airy) is stable for absorbing layers.
    """
    w = 2 * np.pi * damped(f, q)
    n = np.sqrt(np.array([top] + list(eps) + [bot], dtype=complex))
    n = np.where((n * w).imag < 0, -n, n)
    d = [top_d] + list(thick)
    # backwards: r_j = effective reflection (H amplitudes or E, same modulus)
    r = 0j
    t = 1 + 0j
    for j in range(len(n) - 2, -1, -1):
        rj = (n[j] - n[j + 1]) / (n[j] + n[j + 1])
        tj = 2 * n[j] / (n[j] + n[j + 1])
        if j + 1 < len(n) - 1:
            ph = np.exp(1j * w * n[j + 1] * d[j + 1])
        else:
            ph = 1.0
        rr = r * ph * ph
        den = 1 + rj * rr
        t = t * tj * ph / den
        r = (rj + rr) / den
    # the wave is launched at the outer end of the top cladding
    ph0 = np.exp(1j * w * n[0] * d[0])
    R = abs(r * ph0) ** 2
    T = abs(t * ph0) ** 2 * n[-1].real / n[0].real
    return float(R), float(T)


def reciprocal(L):
    A = np.array(L, dtype=float)  # rows = lattice vectors
    return np.linalg.inv(A).T  # rows = reciprocal vectors / 2pi


def orders(ng, L, ext=12):
    """Circular truncation: complete shells only, the last (possibly complete)
    shell of the ng shortest vectors is dropped; at least the zeroth order."""
    B = reciprocal(L)
    a = np.arange(-ext, ext + 1)
    i, j = np.meshgrid(a, a, indexing="ij")
    g = np.stack([i.ravel(), j.ravel()], 1)
    k2 = ((g @ B) ** 2).sum(1)
    o = np.argsort(k2, kind="stable")
    g, k2 = g[o], k2[o]
    tol = 1e-10 * max((B**2).sum(1))
    m = ng - 1
    while m > 0 and abs(k2[m] - k2[m - 1]) <= tol:
        m -= 1
    m = max(m, 1)
    return g[:m]


def conv(pattern, g):
    N1, N2 = pattern.shape
    c = np.fft.fft2(pattern) / (N1 * N2)
    d = g[:, None, :] - g[None, :, :]
    return c[d[..., 0] % N1, d[..., 1] % N2]


def resolves(shape, g):
    """Grid can index all difference orders without running out of range."""
    d = g[:, None, :] - g[None, :, :]
    ok = True
    for ax in (0, 1):
        m, M = d[..., ax].min(), d[..., ax].max()
        ok = ok and M <= shape[ax] - 1 and m >= -shape[ax]
    return ok


def _modes(E, kx, ky, uniform=None):
    """Modes of d/dz' s = P u, d/dz' u = Q s (normalised, exp(-i w t))."""
    n = len(kx)
    I = np.eye(n)
    Kx, Ky = np.diag(kx), np.diag(ky)
    Ei = np.linalg.inv(E)
    Qm = np.block([[Kx @ Ky, E - Kx @ Kx], [Ky @ Ky - E, -Ky @ Kx]])
    if uniform is not None:
        lam2 = np.concatenate([kx**2 + ky**2 - uniform] * 2)
        W = np.eye(2 * n, dtype=complex)
    else:
        P = np.block(
            [
                [Kx @ Ei @ Ky, I - Kx @ Ei @ Kx],
                [Ky @ Ei @ Ky - I, -Ky @ Ei @ Kx],
            ]
        )
        lam2, W = np.linalg.eig(P @ Qm)
    return lam2, W, Qm


def rcwa(patterns, thick, top, bot, f, L, ng, q=Q_ABS, top_d=1.0, g=None, pol="s"):
    """Reference Fourier modal method; patterns: list of scalars / 2-d arrays.

    Global linear system over all mode amplitudes (no S-matrix recursion).
    Returns (R, T).  E along y for the solver's fixed polarisation.
    """
    if g is None:
        g = orders(ng, L)
    B = reciprocal(L)
    n = len(g)
    k0 = 2 * np.pi * damped(f, q)
    kv = 2 * np.pi * (g @ B)
    kx, ky = kv[:, 0] / k0, kv[:, 1] / k0

    def layer(e):
        if np.ndim(e) == 0:
            lam2, W, Qm = _modes(e * np.eye(n), kx, ky, uniform=e)
        else:
            lam2, W, Qm = _modes(conv(np.asarray(e, dtype=complex), g), kx, ky)
        lam = np.sqrt(lam2.astype(complex))
        # forward mode exp(lam k0 z) must decay: Re(lam k0) <= 0
        lam = np.where((lam * k0).real > 0, -lam, lam)
        V = Qm @ W @ np.diag(1 / lam)
        return W, V, lam * k0

    L0 = layer(top)
    LN = layer(bot)
    mids = [layer(e) for e in patterns]
    m = 2 * n
    nl = len(mids)
    # unknowns: reflected r (m), per layer (a+, a-) (2m each), transmitted t (m)
    N = 2 * m + 2 * m * nl
    M = np.zeros((N, N), dtype=complex)
    rhs = np.zeros(N, dtype=complex)
    W0, V0, l0 = L0
    inc = np.zeros(m, dtype=complex)
    inc[0 if pol == "p" else n] = 1.0
    amp0 = np.exp(l0 * top_d) * inc  # incident amplitude at first interface

    def put(row, col, W, V, sign):
        M[row : row + m, col : col + m] += W
        M[row + m : row + 2 * m, col : col + m] += sign * V

    row = 0
    # interface 0: incident + r = layer1 fwd + layer1 bwd*X
    put(0, 0, W0, V0, -1)  # reflected: -V
    rhs[:m] -= W0 @ amp0
    rhs[m : 2 * m] -= V0 @ amp0
    col = m
    for i, (W, V, l) in enumerate(mids):
        X = np.diag(np.exp(l * thick[i]))
        # left face
        put(row, col, -W, -V, 1)
        put(row, col + m, -W @ X, V @ X, 1)
        row += 2 * m
        # right face
        put(row, col, W @ X, V @ X, 1)
        put(row, col + m, W, -V, 1)
        col += 2 * m
    WN, VN, lN = LN
    put(row, col, -WN, -VN, 1)
    sol = np.linalg.solve(M, rhs)
    r = sol[:m]
    t = sol[-m:]

    def flux(W, V, a):
        s, u = W @ a, V @ a
        # u carries a factor i relative to physical H: Sz = Re(Ex Hy* - Ey Hx*) with H = -i u
        return np.imag(np.sum(s[:n] * np.conj(u[n:]) - s[n:] * np.conj(u[:n])))

    f0 = abs(flux(W0, V0, inc))
    R = abs(flux(W0, V0, r)) / f0
    T = abs(flux(WN, VN, t)) / f0
    return float(R), float(T)


class Modal:
    """Fourier modal reference for any incidence (global linear solve in E amplitudes).

    layers: scalar, 2-d array or three 2-d arrays (x, y, z permittivity);
    the excitation is given by the tangential magnetic field (hx, hy) of one order.
    """

    def __init__(self, layers, thick, top, bot, f, L, g, theta=0.0, phi=0.0, back=False, order=0, p=1.0, s=0.0, cladding=1.0):
        self.g, n = g, len(g)
        self.n = n
        k0 = 2 * np.pi * f
        self.k0 = k0
        kv = 2 * np.pi * (g @ reciprocal(L)) / k0
        n0 = np.sqrt(complex(top))
        self.kx = kv[:, 0] + n0 * np.sin(theta) * np.cos(phi)
        self.ky = kv[:, 1] + n0 * np.sin(theta) * np.sin(phi)
        self.norm = n0 / np.cos(theta)
        stack = [top] + list(layers) + [bot]
        self.d = [cladding] + list(thick) + [cladding]
        self.eps = stack
        self.modes = [self._layer(e) for e in stack]
        h = np.zeros(2 * n, dtype=complex)
        h[order] = -s * np.cos(theta) * np.cos(phi) - p * np.sin(phi)
        h[order + n] = -s * np.cos(theta) * np.sin(phi) + p * np.cos(phi)
        m, N = 2 * n, len(stack)
        # amplitudes: a_i at the left face of layer i, b_i at its right face
        M = np.zeros((2 * m * N, 2 * m * N), dtype=complex)
        rhs = np.zeros(2 * m * N, dtype=complex)
        A = lambda i: slice(2 * m * i, 2 * m * i + m)
        B = lambda i: slice(2 * m * i + m, 2 * m * (i + 1))
        I = np.eye(m)
        M[:m, A(0)] = I
        M[m : 2 * m, B(N - 1)] = I
        if back:
            rhs[m : 2 * m] = np.linalg.solve(-self.modes[-1][1], 1j * h)
        else:
            rhs[:m] = np.linalg.solve(self.modes[0][1], 1j * h)
        row = 2 * m
        for i in range(N - 1):
            W, V, l = self.modes[i][:3]
            X = np.diag(np.exp(l * self.d[i]))
            W2, V2, l2 = self.modes[i + 1][:3]
            X2 = np.diag(np.exp(l2 * self.d[i + 1]))
            r1, r2 = slice(row, row + m), slice(row + m, row + 2 * m)
            M[r1, A(i)], M[r1, B(i)] = W @ X, W
            M[r1, A(i + 1)], M[r1, B(i + 1)] = -W2, -W2 @ X2
            M[r2, A(i)], M[r2, B(i)] = V @ X, -V
            M[r2, A(i + 1)], M[r2, B(i + 1)] = -V2, V2 @ X2
            row += 2 * m
        sol = np.linalg.solve(M, rhs)
        self.amp = [(sol[A(i)], sol[B(i)]) for i in range(N)]
        self.back = back

    def _layer(self, e):
        n, kx, ky = self.n, self.kx, self.ky
        I = np.eye(n)
        Kx, Ky = np.diag(kx), np.diag(ky)
        if np.ndim(e) == 0:
            Ex = Ey = Ez = e * I
        elif np.ndim(e) == 2:
            Ex = Ey = Ez = conv(np.asarray(e, dtype=complex), self.g)
        else:
            Ex, Ey, Ez = (conv(np.asarray(x, dtype=complex), self.g) for x in e)
        Ei = np.linalg.inv(Ez)
        Q = np.block([[Kx @ Ky, Ey - Kx @ Kx], [Ky @ Ky - Ex, -Ky @ Kx]])
        if np.ndim(e) == 0:
            lam2, W = np.concatenate([kx**2 + ky**2 - e] * 2), np.eye(2 * n, dtype=complex)
        else:
            P = np.block([[Kx @ Ei @ Ky, I - Kx @ Ei @ Kx], [Ky @ Ei @ Ky - I, -Ky @ Ei @ Kx]])
            lam2, W = np.linalg.eig(P @ Q)
        lam = np.sqrt(lam2.astype(complex))
        lam = np.where((lam * self.k0).real > 0, -lam, lam)
        return W, Q @ W @ np.diag(1 / lam), lam * self.k0, (Ex, Ey, Ez, Ei)

    def _flux(self, i, a, sign):
        W, V = self.modes[i][:2]
        E, H = W @ a, -1j * sign * (V @ a)
        n = self.n
        return np.real(E[:n] * np.conj(H[n:]) - E[n:] * np.conj(H[:n]))

    def powers(self):
        """(reflected, transmitted) by order, not normalised"""
        left, right = -self._flux(0, self.amp[0][1], -1), self._flux(len(self.d) - 1, self.amp[-1][0], 1)
        return (right, left) if self.back else (left, right)

    def fields(self, i, z):
        """[[ex, ey, ez], [hx, hy, hz]] by order"""
        W, V, l, (Ex, Ey, Ez, Ei) = self.modes[i]
        a, b = self.amp[i]
        fw, bw = np.exp(l * z) * a, np.exp(l * (self.d[i] - z)) * b
        E, H = W @ (fw + bw), -1j * (V @ (fw - bw))
        n = self.n
        ex, ey, hx, hy = E[:n], E[n:], H[:n], H[n:]
        dz = self.ky * hx - self.kx * hy
        return [[ex, ey, Ei @ dz], [hx, hy, self.kx * ey - self.ky * ex]], (Ex @ ex, Ey @ ey, dz)


def rectangle(ng):
    r = int(np.floor(np.sqrt(ng) + 1e-9))
    r -= 1 - r % 2
    a = np.arange(-(r // 2), r // 2 + 1)
    return {(int(i), int(j)) for i in a for j in a}


def with_tol(fn, *a, **k):
    """Reference value and tolerance: rounding plus a multiple of the effect of
    the solver's damping (so weaker or no damping is fine too)."""
    x = np.array(fn(*a, **k))
    y = np.array(fn(*a, q=Q_ABS * 1e3, **k))
    return x, 2e-6 + 2.0 * np.abs(x - y)
