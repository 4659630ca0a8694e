"""The reference model: a kernel matrix is a function applied to copies of two samples."""
import numpy as np

from core import Violation


class NormErr(Exception):
    pass


class Ref:
    def __init__(self, f, normalized, X, Y=None, raw=None):
        X = np.array(X, copy=True)
        self.X = X.reshape(X.shape[0], X.shape[1]) if X.ndim == 3 else X
        if Y is None:
            self.Y, self.two = self.X, False
        else:
            Y = np.array(Y, copy=True)
            self.Y, self.two = (Y.reshape(Y.shape[0], Y.shape[1]) if Y.ndim == 3 else Y), True
        self.f = f
        self.normalized = normalized
        self.shape = (self.X.shape[0], self.Y.shape[0])
        self._raw = raw
        self._c = {}
        f32 = self.X.dtype == np.float32 or self.Y.dtype == np.float32
        self.rtol = 2e-5 if f32 else 2e-9

    def raw(self):
        if self._raw is None:
            if self.two:
                self._raw = np.array([[self.f(x, y) for y in self.Y] for x in self.X], float)
            else:
                n = self.shape[0]
                R = np.empty((n, n))
                for i in range(n):
                    for j in range(i, n):
                        R[i, j] = R[j, i] = self.f(self.X[i], self.X[j])
                self._raw = R
        return self._raw

    def self_sims(self):
        if 'ss' not in self._c:
            self._c['ss'] = (np.array([self.f(x, x) for x in self.X]),
                             np.array([self.f(y, y) for y in self.Y]))
        return self._c['ss']

    def normed(self):
        if 'normed' not in self._c:
            if self.two:
                dx, dy = self.self_sims()
            else:
                dx = dy = self.raw().diagonal()
            if np.isclose(dx, 0).any() or np.isclose(dy, 0).any():
                self._c['normed'] = None
            else:
                with np.errstate(all='ignore'):
                    self._c['normed'] = self.raw() / np.sqrt(dx)[:, None] / np.sqrt(dy)[None, :]
        if self._c['normed'] is None:
            raise NormErr()
        return self._c['normed']

    def near_norm_edge(self):
        """the diagonal is so close to the refusal threshold that rounding decides"""
        if self.two:
            d = np.concatenate(self.self_sims())
        else:
            d = self.raw().diagonal()
        d = np.abs(d)
        return bool(((d > 0.5e-8) & (d < 2e-8)).any())

    def full(self):
        return self.normed() if self.normalized else self.raw()

    def centered(self):
        R = self.raw()
        return R - R.mean(0, keepdims=True) - R.mean(1, keepdims=True) + R.mean()

    def frob(self):
        return float(np.sqrt((self.raw() ** 2).sum()))


def close(a, b, rtol=1e-7, scale=None):
    a = np.asarray(a, float)
    b = np.asarray(b, float)
    if a.shape != b.shape:
        return False
    if scale is None:
        fin = np.abs(b[np.isfinite(b)])
        scale = fin.max() if fin.size else 1.0
    atol = max(1e-2 * rtol, 1e-10) * scale + 1e-12
    return bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))


def brief(a):
    a = np.asarray(a)
    s = np.array2string(a, threshold=40, precision=5).replace('\n', ' ')
    return '%s%s' % (a.shape, s[:300])


def expect(ok, vclass, msg):
    if not ok:
        raise Violation(vclass, msg() if callable(msg) else msg)
