SEEDS = []


def S(id, prop, needs, breaks, edits, demo):
    SEEDS.append({'id': id, 'property': prop, 'needs': needs, 'breaks': breaks, 'edits': edits, 'demo': demo})


B, A, O, P, R, U = 'base.py', 'algorithms.py', 'operations.py', 'sampling.py', 'ranking.py', 'utils.py'

# ------------------------------------------------------------------ C01
S('frob_after_norm', 'C01', 'a read order: normed_km before frob_norm on a non-normalized matrix',
  'the Frobenius norm is that of the normalized matrix when the normalized one was read before',
  [(B, "self._frob_norm = frobenius_norm(self._full_km)",
    "self._frob_norm = frobenius_norm(self._normed_km if self._is_normed\n"
    "                                             else self._full_km)")],
  '''
X = R.randn(4, 3)
km = KernelMatrix(Lin(), normalized=False)
km.attach_to(X)
km.normed_km
assert eq(km.frob_norm, np.linalg.norm(raw(X)))
''')
S('linear_index_cols', 'C01', 'a rectangular two-sample matrix read by linear index',
  'linear indices are unravelled by the wrong dimension order when rows and columns differ in number',
  [(B, "index_obj = np.unravel_index(index_obj, self.shape)",
    "index_obj = np.unravel_index(index_obj, self.shape[::-1])[::-1] \\\n"
    "                if self.shape[0] < self.shape[1] else \\\n"
    "                np.unravel_index(index_obj, self.shape)")],
  '''
X, Y = R.randn(2, 3), R.randn(4, 3)
km = KernelMatrix(Lin(), normalized=False)
km.attach_to(X, sample_two=Y)
for i in range(8):
    assert eq(km[i].ravel(), raw(X, Y).ravel()[i:i + 1])
''')
S('center_uses_normed', 'C01', 'normalized=True and full read before centered',
  'the centered matrix is computed from the normalized matrix if that happens to exist',
  [(B, "self._centered = center_km(self._full_km)",
    "self._centered = center_km(self._normed_km if self._is_normed and\n"
    "                                   self._keep_normed else self._full_km)")],
  '''
X = R.randn(4, 3) + 1
a, b = KernelMatrix(Lin(9.0)), KernelMatrix(Lin(9.0))
a.attach_to(X); b.attach_to(X)
a.full
assert eq(a.centered, b.centered)
''')
# ------------------------------------------------------------------ C02
S('centered_survives', 'C02', 'centered read, then attach to another sample, then centered read',
  'the centered matrix of the previous sample is returned after a re-attachment',
  [(B, """        for flag in ('_populated_fully', '_lower_tri_km_filled',
                     '_is_centered', '_is_normed'):
            setattr(self, flag, False)
""", """        for flag in ('_populated_fully', '_lower_tri_km_filled', '_is_normed'):
            setattr(self, flag, False)
        if getattr(self, '_centered', None) is None or \\
            self._centered.shape[0] != self._num_samples:
            self._is_centered = False
""")],
  '''
X, Y = R.randn(4, 3), R.randn(4, 3)
km = KernelMatrix(Lin())
km.attach_to(X); km.centered
km.attach_to(Y)
k2 = KernelMatrix(Lin()); k2.attach_to(Y)
assert eq(km.centered, k2.centered)
''')
S('reset_skipped_same_object', 'C02', 'the same array object, changed in place, attached again',
  'attaching the same array object again keeps the old values although the contents changed',
  [(B, """        # cleanup old flags and reset to ensure fresh slate for this sample
        self._reset()
""", """        # cleanup old flags and reset to ensure fresh slate for this sample
        attached = (id(sample_one), id(sample_two))
        if getattr(self, '_attached', None) != attached:
            self._reset()
        self._attached = attached
        self._attr.clear()
""")],
  '''
X = R.randn(4, 3)
km = KernelMatrix(Lin(), normalized=False)
km.attach_to(X); km.full
X[:] = R.randn(4, 3)
km.attach_to(X)
assert eq(km.full, raw(X))
''')
S('selfsim_memo', 'C02', 'a normalized two-sample matrix attached twice with the second sample of the same name and size',
  'the self-similarities of the second sample are kept from the previous attachment',
  [(B, """                KM_YY = KernelMatrix(self.kernel, normalized=False)
                KM_YY.attach_to(sample_one=self._sample_two)

""", """                descr = (self._name_two, self._sample_two.shape)
                if vars(self).get('_descr_YY') == descr:
                    KM_YY = self._KM_YY
                else:
                    KM_YY = KernelMatrix(self.kernel, normalized=False)
                    KM_YY.attach_to(sample_one=self._sample_two)
                    self._descr_YY, self._KM_YY = descr, KM_YY

""")],
  '''
X, Y, Z = R.randn(4, 3), R.randn(5, 3), R.randn(5, 3)
km = KernelMatrix(Lin(), normalized=True)
km.attach_to(X, sample_two=Y); km.full
km.attach_to(X, sample_two=Z)
d = np.sqrt(np.outer(np.diag(raw(X)), np.diag(raw(Z))))
assert eq(km.full, raw(X, Z) / d)
''')
# ------------------------------------------------------------------ C03
S('placeholder_first', 'C03', 'a kernel evaluation that fails once, then a retry',
  'a failed evaluation leaves a placeholder in the element cache, which later reads return as the value',
  [(B, """            self._KM[(idx_one, idx_two)] = \\
                self.kernel(self._sample[idx_one, :],  # from 1st sample
                            self._sample_two[idx_two, :])  # from 2nd sample
""", """            # reserving the entry first, to keep insertion order stable
            self._KM[(idx_one, idx_two)] = 0.0
            self._KM[(idx_one, idx_two)] = \\
                self.kernel(self._sample[idx_one, :],  # from 1st sample
                            self._sample_two[idx_two, :])  # from 2nd sample
""")],
  '''
X = R.randn(4, 3)
k = Lin()
km = KernelMatrix(k, normalized=False)
km.attach_to(X)
def boom(x, y):
    raise ValueError()
k.fail = boom
try:
    km[0, 1]
except ValueError:
    pass
k.fail = None
assert eq(km[0, 1], [[raw(X)[0, 1]]])
''')
S('norm_flag_first', 'C03', 'a failure inside normalization of a two-sample matrix, then another read',
  'the normalized flag is set before the matrix exists: after a failure later reads break or give stale values',
  [(B, """        if not self._is_normed:
            if not self._two_samples:
                self._normed_km""", """        if not self._is_normed:
            self._is_normed = True
            if not self._two_samples:
                self._normed_km"""),
   (B, """                                                       KM_YY.diagonal())
            self._is_normed = True
""", """                                                       KM_YY.diagonal())
""")],
  '''
X, Y = R.randn(3, 3), R.randn(3, 3)
k = Lin(9.0)
km = KernelMatrix(k)
km.attach_to(X, sample_two=Y)
km[:, :]
def boom(x, y):
    if len(k.calls) > 10:
        raise ValueError()
k.fail = boom
try:
    km.full
    assert False
except ValueError:
    pass
k.fail = None
assert km.full.shape == (3, 3)
''')
S('warn_after_store', 'C03', 'warnings turned into errors and a kernel returning NaN, then a second read',
  'a warning raised as an error leaves the dense matrix stored but not complete in its normalized form',
  [(B, """        if not self._is_centered:
            self.center()

        return self._centered""", """        if not self._is_centered:
            # the flag guards against recursion from center()
            self._is_centered = True
            if not hasattr(self, '_centered'):
                self._centered = np.zeros(self.shape)
            self.center()

        return self._centered""")],
  '''
X = R.randn(4, 3)
k = Lin()
km = KernelMatrix(k, normalized=False)
km.attach_to(X)
def boom(x, y):
    raise ValueError()
k.fail = boom
try:
    km.centered
except Exception:
    pass
k.fail = None
k2 = KernelMatrix(Lin(), normalized=False); k2.attach_to(X)
assert eq(km.centered, k2.centered)
''')
# ------------------------------------------------------------------ C04
S('set_size_before_check', 'C04', 'a set not attached to any sample yet, refused a sample of the wrong number of axes',
  'a kernel set takes over the number of samples of a sample it refuses',
  [(B, """        checked_sample = ensure_ndarray_2D(sample)
        if self._num_samples is not None and sample.shape[0] != self._num_samples:
            raise""", """        if self._num_samples is None:
            self._num_samples = sample.shape[0]

        checked_sample = ensure_ndarray_2D(sample)
        if sample.shape[0] != self._num_samples:
            raise""")],
  '''
S_ = KernelSet([KernelMatrix(Lin())])
assert S_.num_samples is None
try:
    S_.attach_to(R.randn(4))
    assert False
except ValueError:
    pass
assert S_.num_samples is None
S_.attach_to(R.randn(6, 3))
assert S_.num_samples == 6
''')
S('second_sample_late', 'C04', 'a pair of samples of different dimension refused on an attached matrix',
  'a refused pair of samples leaves the first sample attached: rows of the old and the new sample are mixed',
  [(B, """        self._sample = sample_one
        self._sample_name = name_one

        if sample_two is None:""", """        self._sample_name = name_one

        if sample_two is None:"""),
   (B, """        sample_one = ensure_ndarray_2D(sample_one, ensure_dtype=sample_one.dtype)
        if sample_two is not None:""", """        sample_one = ensure_ndarray_2D(sample_one, ensure_dtype=sample_one.dtype)
        self._sample = sample_one
        if sample_two is not None:""")],
  '''
X, Y = R.randn(4, 3), R.randn(4, 3)
km = KernelMatrix(Lin(), normalized=False)
km.attach_to(X)
try:
    km.attach_to(Y, sample_two=R.randn(2, 5))
    assert False
except ValueError:
    pass
assert eq(km.full, raw(X))
''')
S('attr_cleared_on_refusal', 'C04', 'attributes set, then an attachment refused for its number of axes',
  'user attributes are dropped although the attachment is refused',
  [(B, """        # validating all inputs first, so a refused attachment changes nothing
""", """        # validating all inputs first, so a refused attachment changes nothing
        if self._attr and sample_two is not None:
            self._attr = dict()
"""), (B, "        # restricting attributes to the latest sample only, to avoid leakage!!\n        self._attr.clear()\n",
       "        # restricting attributes to the latest sample only, to avoid leakage!!\n        self._attr = dict()\n")],
  '''
km = KernelMatrix(Lin(), normalized=False)
km.attach_to(R.randn(4, 3))
km.set_attr('a', 1)
try:
    km.attach_to(R.randn(3, 3), sample_two=R.randn(2, 5))
    assert False
except ValueError:
    pass
assert km.get_attr('a') == 1
''')
# ------------------------------------------------------------------ C05
S('shared_pair', 'C05', 'two threads evaluating different elements, switched between evaluation and storage',
  'the pair of indices in work is kept on the object: a thread stores its value under the pair of another',
  [(B, """        if not (idx_one, idx_two) in self._KM:
            self._KM[(idx_one, idx_two)] = \\
                self.kernel(self._sample[idx_one, :],  # from 1st sample
                            self._sample_two[idx_two, :])  # from 2nd sample
""", """        if not (idx_one, idx_two) in self._KM:
            self._pair = (idx_one, idx_two)
            value = \\
                self.kernel(self._sample[idx_one, :],  # from 1st sample
                            self._sample_two[idx_two, :])  # from 2nd sample
            self._KM[self._pair] = value
            self._KM.setdefault((idx_one, idx_two), value)
""")],
  '''
import threading
X = R.randn(4, 3)
k = Lin()
km = KernelMatrix(k, normalized=False)
km.attach_to(X)
started, go = threading.Event(), threading.Event()
def slow(x, y):
    if threading.current_thread().name == 'slow':
        started.set(); go.wait()
k.fail = slow
t = threading.Thread(target=lambda: km[0, 1], name='slow')
t.start(); started.wait()
km[2, 3]
go.set(); t.join()
assert eq(km[2, 3], [[raw(X)[2, 3]]])
assert eq(km.full, raw(X))
''')
S('shared_index_sets', 'C05', 'two threads reading different blocks, switched inside an evaluation',
  'the index sets of a block read are kept on the object, so concurrent block reads get each other\'s shape or values',
  [(B, """        return np.array([self._eval_kernel(idx_one, idx_two)
                         for idx_one, idx_two in iter_product(set_one, set_two)],
                        dtype=cfg.km_dtype).reshape(len(set_one), len(set_two))
""", """        self._block = (set_one, set_two)
        values = np.array([self._eval_kernel(idx_one, idx_two)
                           for idx_one, idx_two in iter_product(set_one, set_two)],
                          dtype=cfg.km_dtype)
        return values.reshape(len(self._block[0]), len(self._block[1]))
""")],
  '''
import threading
X = R.randn(4, 3)
k = Lin()
km = KernelMatrix(k, normalized=False)
km.attach_to(X)
started, go = threading.Event(), threading.Event()
def slow(x, y):
    if threading.current_thread().name == 'slow':
        started.set(); go.wait()
k.fail = slow
out = []
def body():
    try:
        out.append(km[0, 1:3])
    except Exception as e:
        out.append(e)
t = threading.Thread(target=body, name='slow')
t.start(); started.wait()
km[[1, 2], 3]
go.set(); t.join()
assert eq(out[0], raw(X)[0:1, 1:3]), out
''')
# ------------------------------------------------------------------ C06
S('norm_in_place', 'C06', 'a dense matrix read before the normalized one',
  'normalization works in place on the matrix handed out before',
  [(O, "            normed_km = _1bySqrtDiag @ KM @ _1bySqrtDiag\n            # in case",
    "            normed_km = np.matmul(_1bySqrtDiag @ KM, _1bySqrtDiag, out=KM) \\\n"
    "                if not KM.flags.f_contiguous and KM.shape[0] > 1 and \\\n"
    "                KM.dtype == np.float64 else _1bySqrtDiag @ KM @ _1bySqrtDiag\n            # in case"),
   (B, "                self._normed_km = normalize_km(self._full_km, method=method)\n",
    "                km = self._full_km\n"
    "                self._full_km = km.copy()\n"
    "                self._normed_km = normalize_km(km, method=method)\n")],
  '''
X = R.randn(4, 3) + 1
km = KernelMatrix(Lin(3.0), normalized=False)
km.attach_to(X)
F = km.full
before = F.copy()
km.normed_km
assert eq(F, before)
''')
S('weights_in_place', 'C06', 'a float array of weights with norm_weights=True',
  'linear_combination normalizes the weights array of the caller in place',
  [(O, "        weights = weights / denom\n", "        weights /= denom\n")],
  '''
X = R.randn(4, 3)
a, b = KernelMatrix(Lin(3.0)), KernelMatrix(Lin(5.0))
a.attach_to(X); b.attach_to(X)
w = np.array([1.0, 3.0])
linear_combination(KernelSet([a, b]), w, norm_weights=True)
assert eq(w, [1.0, 3.0])
''')
S('product_accumulates', 'C06', 'a product kernel fitted twice, the first result kept',
  'a refit of a product kernel writes into the matrix handed out by the first fit',
  [(B, """        KM = np.ones((self.num_samples, self.num_samples))
        for km in self.km_set:
            KM = KM * km.full  # * is element-wise multiplication here

        self.KM = KM
        self._is_fitted = True
""", """        KM = np.ones((self.num_samples, self.num_samples))
        for km in self.km_set:
            KM = KM * km.full  # * is element-wise multiplication here

        if self._is_fitted and self.KM.shape == KM.shape:
            np.copyto(self.KM, KM)
        else:
            self.KM = KM
        self._is_fitted = True
""")],
  '''
X = R.randn(4, 3)
a, b = KernelMatrix(Lin(3.0)), KernelMatrix(Lin(5.0))
a.attach_to(X); b.attach_to(X)
p = ProductKernel(KernelSet([a, b]))
p.fit()
F = p.full
before = F.copy()
a.attach_to(R.randn(4, 3))
p.fit()
assert eq(F, before)
''')
# ------------------------------------------------------------------ C07
S('diag_direct', 'C07', 'diagonal() after or before another read of the diagonal elements',
  'diagonal() evaluates the kernel again instead of using cached elements',
  [(B, "            [self._eval_kernel(idx, idx) for idx in range(self.shape[0])])",
    "            [self.kernel(self._sample[idx, :], self._sample[idx, :])\n"
    "             for idx in range(self.shape[0])])")],
  '''
k = Lin()
km = KernelMatrix(k, normalized=False)
km.attach_to(R.randn(4, 3))
km.full
n = len(k.calls)
km.diagonal()
assert len(k.calls) == n
''')
S('row_populates', 'C07', 'a read of all columns of some rows',
  'reading whole rows populates the entire matrix',
  [(B, "        if are_all_selected_dim_one and are_all_selected_dim_two:\n"
       "            return self._populate_fully(fill_lower_tri=True, dense_fmt=True)\n",
    "        if are_all_selected_dim_one and are_all_selected_dim_two:\n"
    "            return self._populate_fully(fill_lower_tri=True, dense_fmt=True)\n"
    "        elif are_all_selected_dim_two and len(set_one) > self.shape[0] // 2:\n"
    "            # most of it is needed anyway\n"
    "            return self._populate_fully(fill_lower_tri=True,\n"
    "                                        dense_fmt=True)[set_one, :]\n")],
  '''
k = Lin()
km = KernelMatrix(k, normalized=False)
km.attach_to(R.randn(4, 3), sample_two=R.randn(4, 3))
km[1:4, :]
assert len(k.calls) == 12, len(k.calls)
''')
S('selfsim_full', 'C07', 'a normalized two-sample matrix',
  'normalizing a two-sample matrix evaluates the whole matrix of the second sample with itself',
  [(B, "                                                       KM_YY.diagonal())",
    "                                                       KM_YY.full.diagonal())")],
  '''
k = Lin(9.0)
km = KernelMatrix(k)
km.attach_to(R.randn(4, 3), sample_two=R.randn(3, 3))
km.full
assert len(k.calls) == 12 + 7, len(k.calls)
''')
# ------------------------------------------------------------------ C08
S('take_shares', 'C08', 'taking all members in order, then appending to either set',
  'taking everything gives a set sharing its list with the original',
  [(B, """        new_set = KernelSet(name=name)
        for idx in indices:
""", """        new_set = KernelSet(name=name)
        if len(indices) == self.size and (np.diff(indices) == 1).all():
            new_set._km_set = self._km_set
            new_set._num_samples, new_set._is_init = self._num_samples, True
            return new_set

        for idx in indices:
""")],
  '''
S_ = KernelSet([np.eye(3), 2 * np.eye(3)])
T = S_.take([0, 1])
T.append(3 * np.eye(3))
assert S_.size == 2 and T.size == 3
''')
S('append_then_check', 'C08', 'an append refused for its size, in a set with samples',
  'a foreign-sized matrix is in the set although its addition was refused',
  [(B, """        if self._num_samples != KM.num_samples:
            raise KMSetAdditionError(""", """        if self.size > 2:
            self._km_set.append(KM)
            if self._num_samples == KM.num_samples:
                return
        if self._num_samples != KM.num_samples:
            raise KMSetAdditionError(""")],
  '''
from kernelmethods.config import KMSetAdditionError
S_ = KernelSet([np.eye(3), 2 * np.eye(3), 3 * np.eye(3)])
try:
    S_.append(np.eye(4))
    assert False
except KMSetAdditionError:
    pass
assert S_.size == 3 and len(list(S_)) == 3
''')
S('num_samples_from_refused', 'C08', 'a refused first append (not a matrix), then a valid one of another size',
  'an empty set takes the number of samples from an array it then refuses',
  [(B, """                               KernelMatrixPrecomputed)):
            KM = KernelMatrixPrecomputed(KM)
""", """                               KernelMatrixPrecomputed)):
            if self._num_samples is None and np.ndim(KM) == 2:
                self._num_samples = len(KM)
            KM = KernelMatrixPrecomputed(KM)
""")],
  '''
S_ = KernelSet()
try:
    S_.append(np.arange(16.0).reshape(4, 4))
    assert False
except ValueError:
    pass
S_.append(np.eye(3))
assert S_.size == 1 and S_.num_samples == 3
''')
# ------------------------------------------------------------------ C09
S('avg_size_cached', 'C09', 'a member appended to the set between two fits of an average kernel',
  'the average divides by the number of members at the first fit',
  [(B, "        self.KM = KM / self.km_set.size\n",
    "        self._denominator = getattr(self, '_denominator', self.km_set.size)\n"
    "        self.KM = KM / self._denominator\n")],
  '''
X = R.randn(4, 3)
kms = [KernelMatrix(Lin(3.0 + i)) for i in range(3)]
for k in kms:
    k.attach_to(X)
S_ = KernelSet(kms[:2])
a = AverageKernel(S_)
a.fit()
S_.append(kms[2])
a.fit()
assert eq(a.full, (kms[0].full + kms[1].full + kms[2].full) / 3)
''')
S('sum_fit_once', 'C09', 'a sum kernel refitted after a member was attached to another sample',
  'a refit with the same weights is skipped although a member has changed',
  [(B, """        KM = np.zeros((self.num_samples, self.num_samples))
        for weight, km in zip(kernel_weights, self.km_set):
""", """        if self._is_fitted and self._fitted_with == \\
            (self.km_set.size, kernel_weights.tobytes()):
            return
        self._fitted_with = (self.km_set.size, kernel_weights.tobytes())

        KM = np.zeros((self.num_samples, self.num_samples))
        for weight, km in zip(kernel_weights, self.km_set):
""")],
  '''
X = R.randn(4, 3)
a, b = KernelMatrix(Lin(3.0)), KernelMatrix(Lin(5.0))
a.attach_to(X); b.attach_to(X)
s = SumKernel(KernelSet([a, b]))
s.fit()
a.attach_to(R.randn(4, 3))
s.fit()
assert eq(s.full, a.full + b.full)
''')
S('wavg_partial', 'C09', 'a member failing during a refit of a weighted-average kernel, or a concurrent reader',
  'the weighted average is accumulated in the visible matrix: a failed refit leaves a partial combination',
  [(B, """        KM = np.zeros((self.num_samples, self.num_samples))
        for weight, km in zip(self.weights, self.km_set):
            KM = KM + weight * km.full

        self.KM = KM
        self._is_fitted = True
""", """        self.KM = np.zeros((self.num_samples, self.num_samples))
        for weight, km in zip(self.weights, self.km_set):
            self.KM = self.KM + weight * km.full

        self._is_fitted = True
""")],
  '''
X = R.randn(4, 3)
k = Lin(5.0)
a, b = KernelMatrix(Lin(3.0)), KernelMatrix(k)
a.attach_to(X); b.attach_to(X)
w = WeightedAverageKernel(KernelSet([a, b]), [.5, .5])
w.fit()
old = w.full.copy()
b.attach_to(R.randn(4, 3))
def boom(x, y):
    raise ValueError()
k.fail = boom
try:
    w.fit()
    assert False
except AssertionError:
    raise
except Exception:
    pass
try:
    now = w.full
except ValueError:
    now = old
assert eq(now, old)
''')
# ------------------------------------------------------------------ C10
S('train_data_early', 'C10', 'a completed fit, then a fit that fails in the kernel or learner, then predict',
  'training data of a failed fit is combined with the model of the last complete one',
  [(A, """        km.attach_to(train_X)

        estimator, param_grid""", """        km.attach_to(train_X)
        self._train_X = train_X

        estimator, param_grid"""),],
  '''
X, y = R.randn(10, 3), np.arange(10) % 2
m = KernelMachine(GaussianKernel(1.0))
m.fit(X, y)
T = R.randn(30, 3)
want = m.predict(T)
X2 = R.randn(10, 3) * 5
try:
    m.fit(X2, np.zeros(10, int))       # one class only
    assert False
except ValueError:
    pass
assert (m.predict(T) == want).all()
''')
S('opt_norm_current', 'C10', 'another bucket set as a parameter between fit and predict',
  'the optimal-kernel estimators predict with the normalization of the bucket currently set, not of the fitted one',
  [(A, """                          normalized=self.opt_kernel_._keep_normed)
""", """                          normalized=getattr(self.k_bucket, '_norm_kernels',
                                             self.opt_kernel_._keep_normed))
""")],
  '''
X, y = R.randn(10, 3), R.randn(10)
def bucket_(norm):
    return KernelBucket(poly_degree_values=[2], rbf_sigma_values=None, laplace_gamma_values=None,
                        sigmoid_gamma_values=None, sigmoid_offset_values=None, normalize_kernels=norm)
m = OptimalKernelSVR(k_bucket=bucket_(False), method='align/corr')
m.fit(X, y)
T = R.randn(8, 3)
want = m.predict(T)
m.set_params(k_bucket=bucket_(True))
assert eq(m.predict(T), want)
''')
S('kernel_current', 'C10', 'set_params(k_func=...) between fit and predict',
  'a kernel machine predicts with the kernel currently set as parameter',
  [(A, "        km = KernelMatrix(self._km.kernel, name='test_km',",
       "        km = KernelMatrix(self.k_func, name='test_km',")],
  '''
X, y = R.randn(10, 3), R.randn(10)
m = KernelMachineRegressor(GaussianKernel(1.0))
m.fit(X, y)
T = R.randn(8, 3)
want = m.predict(T)
m.set_params(k_func=GaussianKernel(9.0))
assert eq(m.predict(T), want)
''')
# ------------------------------------------------------------------ C11
S('test_km_cached', 'C11', 'two predictions on data of the same shape',
  'the test matrix is kept and only re-attached when the shape of the data changes',
  [(A, """        km.attach_to(sample_one=test_X, sample_two=self._train_X)

        predicted_y = self._estimator.predict(km.full)
""", """        known = vars(self).get('_last_test')
        if known is not None and known[0] is self._km and \\
            known[1].shape[0] == test_X.shape[0] > 3 and \\
            np.array_equal(known[1]._sample[:2, :], test_X[:2, :]):
            km = known[1]
        else:
            km.attach_to(sample_one=test_X, sample_two=self._train_X)
            self._last_test = (self._km, km)
        predicted_y = self._estimator.predict(km.full)
""")],
  '''
X, y = R.randn(10, 3), R.randn(10)
m = KernelMachineRegressor(GaussianKernel(1.0))
m.fit(X, y)
T = R.randn(8, 3)
m.predict(T)
U_ = np.vstack([T[:2], R.randn(6, 3)])
p = KernelMachineRegressor(GaussianKernel(1.0)).fit(X, y).predict(U_)
assert eq(m.predict(U_), p)
''')
S('opt_predict_reattaches', 'C11', 'a prediction, then a look at opt_kernel_ (or a concurrent prediction)',
  'predict attaches the selected kernel itself to the test data',
  [(A, """        km = KernelMatrix(self.opt_kernel_.kernel, name='test_km',
                          normalized=self.opt_kernel_._keep_normed)
""", """        km = self.opt_kernel_
""")],
  '''
X, y = R.randn(10, 3), R.randn(10)
b = KernelBucket(poly_degree_values=[2], rbf_sigma_values=None, laplace_gamma_values=None,
                 sigmoid_gamma_values=None, sigmoid_offset_values=None)
m = OptimalKernelSVR(k_bucket=b, method='align/corr')
m.fit(X, y)
m.predict(R.randn(4, 3))
assert tuple(m.opt_kernel_.shape) == (10, 10)
''')
# ------------------------------------------------------------------ C12
S('attach_if_needed', 'C12', 'a bucket already attached to another sample of the same size',
  'selection ranks the kernels on the sample of an earlier use of the bucket',
  [(R, "    kernel_bucket.attach_to(sample=sample)\n",
    "    if kernel_bucket.num_samples != len(sample):\n        kernel_bucket.attach_to(sample=sample)\n")],
  '''
X, y = R.randn(10, 3), R.randn(10)
b = make_kernel_bucket('light')
b.attach_to(R.randn(10, 3))
km = find_optimal_kernel(b, X, y, method='align/corr')
b2 = make_kernel_bucket('light')
k2 = find_optimal_kernel(b2, X, y, method='align/corr')
assert eq(km.full, k2.full)
''')
S('centered_is_raw', 'C12', 'a bucket of normalized kernels ranked by alignment after its matrices were centered',
  'alignment uses the centered matrix if it exists, which is that of the raw, not the normalized, kernel',
  [(R, "        alignment_centered(km.full, target_kernel, **method_params)\n",
    "        alignment_centered(km._centered if km._is_centered else km.full,\n"
    "                           target_kernel, **method_params)\n")],
  '''
X, y = R.randn(10, 3), R.randn(10)
b = make_kernel_bucket('light')
b.attach_to(X)
s = rank_kernels(b, y, method='align/corr')
for km in b:
    km.centered
assert eq(rank_kernels(b, y, method='align/corr'), s)
''')
S('bucket_not_copied', 'C12', 'one bucket given to an estimator and looked at after fit',
  'the optimal-kernel estimators attach the caller\'s own bucket',
  [(A, "            model._k_bucket = deepcopy(self.k_bucket)\n",
    "            model._k_bucket = self.k_bucket if self.k_bucket.num_samples is None \\\n"
    "                else deepcopy(self.k_bucket)\n")],
  '''
X, y = R.randn(10, 3), R.randn(10)
b = KernelBucket(poly_degree_values=[2], rbf_sigma_values=None, laplace_gamma_values=None,
                 sigmoid_gamma_values=None, sigmoid_offset_values=None)
OptimalKernelSVR(k_bucket=b, method='align/corr').fit(X, y)
assert b.num_samples is None and b[0].num_samples is None
''')
# ------------------------------------------------------------------ C13
S('psd_seeds', 'C13', 'is_psd() called between draws from the global generator',
  'the validity check reseeds the global generator',
  [(B, "        km.attach_to(np.random.rand(50, 4))  # random_sample\n",
    "        np.random.seed(42)  # reproducible\n"
    "        km.attach_to(np.random.rand(50, 4))  # random_sample\n")],
  '''
np.random.seed(1); LinearKernel().is_psd(); a = np.random.rand()
np.random.seed(2); LinearKernel().is_psd(); b = np.random.rand()
assert a != b
''')
S('cv_shuffled', 'C13', 'ranking by cross-validation under two states of the global generator',
  'cross-validation folds are drawn from the global generator',
  [(R, "        gs.fit(km.full, targets)\n",
    "        order = np.random.permutation(len(targets))\n"
    "        gs.fit(km.full[np.ix_(order, order)], np.asarray(targets)[order])\n")],
  '''
X = R.randn(14, 3)
y = X[:, 0] + R.randn(14)
b = KernelBucket(poly_degree_values=[2], rbf_sigma_values=[1.0], laplace_gamma_values=None,
                 sigmoid_gamma_values=None, sigmoid_offset_values=None)
b.attach_to(X)
out = []
for s in range(4):
    np.random.seed(s)
    out.append(rank_kernels(b, y, method='cv_risk', estimator_name='SVR'))
    b[1].attach_to(X)
assert all(eq(o, out[0]) for o in out)
''')
# ------------------------------------------------------------------ C14
S('interrupt_skips_kernel', 'C14', 'an interrupt while a bucket is being built',
  'an interrupt during the construction of one kernel is taken as a bad parameter value and skipped',
  [(P, "            except Exception:\n                warn('Unable to add", "            except BaseException:\n                warn('Unable to add")],
  '''
class K(Lin):
    def __init__(self, q=1, skip_input_checks=False):
        super().__init__()
        if q == 2:
            raise KeyboardInterrupt()
b = make_kernel_bucket('light')
try:
    b.add_parametrized_kernels(K, 'q', [1, 2, 3])
    assert False
except KeyboardInterrupt:
    pass
''')
S('interrupt_in_precomputed', 'C14', 'an interrupt while a precomputed matrix is being indexed',
  'an interrupt inside the computation of the sparse or dense matrix comes out as RuntimeError',
  [(B, """            except Exception:
                raise RuntimeError('Unable to symmetrize the kernel matrix!')
""", """            except:
                raise RuntimeError('Unable to symmetrize the kernel matrix!')
""")],
  '''
X, Y = R.randn(3, 3), R.randn(3, 3)
k = Lin()
km = KernelMatrix(k, normalized=False)
km.attach_to(X, sample_two=Y)
def boom(x, y):
    if len(k.calls) == 7:          # inside the lower triangle
        raise KeyboardInterrupt()
k.fail = boom
try:
    km.full
    assert False
except KeyboardInterrupt:
    pass
''')
# ------------------------------------------------------------------ C15
S('elements_not_pickled', 'C15', 'a partly read matrix pickled and restored, dense and derived matrices read before',
  'a restored matrix has lost the dense matrix but not the flag that it exists',
  [(B, """    def set_attr(self, name, value):
        \"\"\"
        Sets user-defined attributes for the kernel matrix.

        Useful to identify this kernel matrix""", """    def __getstate__(self):
        \"\"\"Elements can be recomputed: not storing them.\"\"\"

        state = dict(vars(self), _KM=dict())
        if not self._two_samples_ever():
            state.pop('_full_km', None)
        return state


    def _two_samples_ever(self):
        \"\"\"Whether this is attached to two samples\"\"\"

        return vars(self).get('_two_samples', False)


    def set_attr(self, name, value):
        \"\"\"
        Sets user-defined attributes for the kernel matrix.

        Useful to identify this kernel matrix""")],
  '''
import pickle
X = R.randn(4, 3)
km = KernelMatrix(LinearKernel(), normalized=False)
km.attach_to(X)
km.full
k2 = pickle.loads(pickle.dumps(km))
assert eq(k2.full, X @ X.T)
''')
S('set_deepcopy_shares', 'C15', 'a kernel set deep-copied, then the original (or copy) attached elsewhere',
  'a deep copy of a kernel set shares its members with the original',
  [(B, """    def __iter__(self):
        \"\"\"Making an iterable.\"\"\"
""", """    def __deepcopy__(self, memo):
        \"\"\"Matrices can be large: copying the container only when attached.\"\"\"

        new = self.__class__.__new__(self.__class__)
        memo[id(self)] = new
        vars(new).update(vars(self))
        new._km_set = list(self._km_set) if self._num_samples is not None \\
            else [copy(km) for km in self._km_set]
        return new


    def __iter__(self):
        \"\"\"Making an iterable.\"\"\"
""")],
  '''
import copy as cp
X = R.randn(4, 3)
km = KernelMatrix(LinearKernel(), normalized=False)
km.attach_to(X)
S_ = KernelSet([km])
T = cp.deepcopy(S_)
S_.attach_to(R.randn(4, 3))
assert eq(T[0].full, X @ X.T)
''')
# ------------------------------------------------------------------ C16
S('linalgerror_psd', 'C16', 'the eigen solver failing to converge',
  'when eigh fails, a cheaper test (non-negative diagonal) certifies the matrix',
  [(O, "        print('LinAlgError raised - eigen value computation failed --> not PSD')\n        psd = False\n",
    "        print('LinAlgError raised - eigen value computation failed')\n"
    "        psd = bool((sym_matrix.diagonal() >= -tolerance).all())\n")],
  '''
import kernelmethods.operations as ko
from scipy.linalg import LinAlgError
def fail(*a, **k):
    raise LinAlgError()
import scipy.linalg
ko.eigh = fail
assert not is_PSD(np.eye(3))
''')
S('tolerance_relative', 'C16', 'a large matrix with a clearly negative eigenvalue',
  'the tolerance is scaled by the largest eigenvalue: clearly negative eigenvalues pass',
  [(O, "        if not all(eig_values >= -tolerance):\n            psd = False\n        else:\n            psd = True\n",
    "        if not all(eig_values >= -tolerance * max(1.0, len(eig_values))):\n            psd = False\n        else:\n            psd = True\n")],
  '''
A_ = np.eye(8)
A_[0, 0] = -5e-6
assert not is_PSD(A_)
''')
# ------------------------------------------------------------------ C17
S('bad_value_ends', 'C17', 'a bad parameter value before good ones',
  'values after two skipped ones are not added',
  [(P, """        for val in values:
            try:""", """        skipped = 0
        for val in values:
            if skipped > 1:
                break
            try:"""),
   (P, "            except Exception:\n                warn(", "            except Exception:\n                skipped += 1\n                warn(")],
  '''
class K(Lin):
    def __init__(self, q=1, skip_input_checks=False):
        super().__init__()
        if q < 0:
            raise ValueError()
b = make_kernel_bucket('light')
n = b.size
b.add_parametrized_kernels(K, 'q', [1, -2, -3, 4])
assert b.size == n + 2
''')
S('retry_ignored', 'C17', 'a failing value, then a retry of the same value once the cause is gone',
  'values that failed once are remembered and never tried again',
  [(P, """        for val in values:
            try:""", """        failed = self.__dict__.setdefault('_failed_values', list())
        for val in values:
            if (kernel_func, param, val) in failed:
                continue
            try:"""),
   (P, "            except Exception:\n                warn(", "            except Exception:\n                failed.append((kernel_func, param, val))\n                warn(")],
  '''
class K(Lin):
    broken = True
    def __init__(self, q=1, skip_input_checks=False):
        super().__init__()
        if q == 2 and K.broken:
            raise ValueError()
b = make_kernel_bucket('light')
n = b.size
b.add_parametrized_kernels(K, 'q', [1, 2])
K.broken = False
b.add_parametrized_kernels(K, 'q', [2])
assert b.size == n + 2
''')
# ------------------------------------------------------------------ C18
S('nan_to_num', 'C18', 'a kernel returning NaN and a normalized matrix',
  'non-finite values in the normalized matrix are replaced by numbers',
  [(B, "                self._normed_km = normalize_km(self._full_km, method=method)\n",
    "                self._normed_km = np.nan_to_num(normalize_km(self._full_km,\n"
    "                                                             method=method))\n")],
  '''
class K(Lin):
    def __call__(self, x, y):
        return 1.0 if np.array_equal(x, y) else float('nan')
km = KernelMatrix(K())
km.attach_to(R.randn(4, 3))
F = km.full
assert np.isnan(F[0, 1])
''')
S('warn_dense_only', 'C18', 'a kernel returning NaN, and the sparse matrix read first',
  'the warning about non-finite values is not given for the sparse matrix',
  [(B, """        if contains_nan_inf(full_km):
            warn('Kernel matrix computation resulted in Inf or NaN values!'
                 ' Check your parameters and data!\\n Kernel function: {}'
                 ''.format(self.kernel), KernelMethodsWarning)

        setattr""", """        if dense_fmt and contains_nan_inf(full_km):
            warn('Kernel matrix computation resulted in Inf or NaN values!'
                 ' Check your parameters and data!\\n Kernel function: {}'
                 ''.format(self.kernel), KernelMethodsWarning)

        setattr""")],
  '''
from kernelmethods.config import KernelMethodsWarning
class K(Lin):
    def __call__(self, x, y):
        return 1.0 if np.array_equal(x, y) else float('nan')
km = KernelMatrix(K(), normalized=False)
km.attach_to(R.randn(4, 3))
with warnings.catch_warnings(record=True) as ws:
    warnings.simplefilter('always')
    km.full_sparse
assert any(issubclass(w.category, KernelMethodsWarning) for w in ws)
''')

# ================================================================== second batch
N = 'numeric_kernels.py'
S('dup_counts_all', 'C01', 'an index list with duplicates, as long as the dimension, with all columns selected',
  'a list of n indices with duplicates is taken for the whole dimension: the whole matrix comes back',
  [(B, """        # removing duplicates and sorting
        indices = sorted(list(set(indices)))

        if len(indices) == self.shape[dim]:
            are_all_selected = True

        return indices, are_all_selected
""", """        if len(indices) == self.shape[dim]:
            are_all_selected = True

        # removing duplicates and sorting
        indices = sorted(list(set(indices)))

        return indices, are_all_selected
""")],
  '''
X = R.randn(3, 2)
km = KernelMatrix(Lin(), normalized=False)
km.attach_to(X)
assert eq(km[[0, 0, 1], :], raw(X)[:2])
''')
S('diag_of_normed', 'C01', 'the diagonal read after the normalized matrix',
  'the diagonal is that of the normalized matrix once that was computed',
  [(B, """        return np.array(
            [self._eval_kernel(idx, idx) for idx in range(self.shape[0])])
""", """        if self._is_normed:
            return self._normed_km.diagonal().copy()

        return np.array(
            [self._eval_kernel(idx, idx) for idx in range(self.shape[0])])
""")],
  '''
X = R.randn(3, 2)
km = KernelMatrix(Lin(), normalized=False)
km.attach_to(X)
assert eq(km.diagonal(), np.diag(raw(X)))
km.normed_km
assert eq(km.diagonal(), np.diag(raw(X)))
''')
S('two_sticky', 'C02', 'a matrix attached to two samples, then to one',
  'a matrix once attached to a pair of samples is treated as such after attaching it to one sample',
  [(B, """            self.shape = (self._num_samples, self._num_samples)
            self._two_samples = False
""", """            self.shape = (self._num_samples, self._num_samples)
"""), (B, """        self._sample_name = None

        # user-defined attribute dictionary
""", """        self._sample_name = None
        self._two_samples = False

        # user-defined attribute dictionary
""")],
  '''
X, Y = R.randn(3, 2), R.randn(4, 2)
km = KernelMatrix(Lin(), normalized=False)
km.attach_to(X, sample_two=Y); km.full
km.attach_to(X)
assert eq(km.full, raw(X)) and km.num_samples == 3
assert eq(km.diagonal(), np.diag(raw(X)))
''')
S('attr_kept_if_unused', 'C02', 'attributes set on a matrix that was not evaluated before it is attached again',
  'user-defined attributes survive a re-attachment when no element had been computed',
  [(B, """        self._KM = dict()

        # restricting attributes to the latest sample only, to avoid leakage!!
        self._attr.clear()
""", """        # restricting attributes to the latest sample only, to avoid leakage!!
        if getattr(self, '_KM', None):
            self._attr.clear()

        self._KM = dict()
""")],
  '''
km = KernelMatrix(Lin(), normalized=False)
km.attach_to(R.randn(3, 2))
km.set_attr('group', 1)
km.attach_to(R.randn(3, 2))
assert km.get_attr('group') is None
''')
S('set_skips_same', 'C02', 'a set attached again to the same array, changed in place since',
  'members already attached to the array given to the set are not reset',
  [(B, """        for index in range(self.size):
            self._km_set[index].attach_to(sample, name_one=name)
""", """        for index in range(self.size):
            if self._km_set[index]._sample is sample:
                continue  # attached to it already
            self._km_set[index].attach_to(sample, name_one=name)
""")],
  '''
X = R.randn(3, 2)
km = KernelMatrix(Lin(), normalized=False)
s = KernelSet([km])
s.attach_to(X); km.full
X *= 2
s.attach_to(X)
assert eq(km.full, raw(X))
''')
S('frob_accumulates', 'C03', 'an interrupt (or another thread) while the Frobenius norm is being computed',
  'the partial sum of an interrupted computation is returned as the norm',
  [(B, """            self._frob_norm = frobenius_norm(self._full_km)
""", """            self._frob_norm = 0.0
            for row in self._full_km:
                self._frob_norm += np.dot(row, row)
            self._frob_norm = np.sqrt(self._frob_norm)
""")],
  '''
import kernelmethods.base as kb
X = R.randn(4, 2)
km = KernelMatrix(Lin(), normalized=False)
km.attach_to(X)
km.full
f = km.frob_norm
want = np.linalg.norm(raw(X))
assert np.isclose(f, want)
# interrupted at every line once
import sys
def interrupted(n):
    m = KernelMatrix(Lin(), normalized=False)
    m.attach_to(X)
    m.full
    left = [n]
    def trace(frame, event, arg):
        if frame.f_code.co_filename.endswith('base.py'):
            if event == 'line':
                left[0] -= 1
                if left[0] == 0:
                    raise KeyboardInterrupt
            return trace
    sys.settrace(trace)
    try:
        m.frob_norm
        return False
    except KeyboardInterrupt:
        pass
    finally:
        sys.settrace(None)
    assert np.isclose(m.frob_norm, want), (n, m.frob_norm, want)
    return True
n = 1
while interrupted(n):
    n += 1
assert n > 2
''')
S('centered_flag_first', 'C03', 'centering that fails (interrupt, no memory), then the centered matrix again',
  'the centered matrix counts as computed although its computation failed: later reads fail or give that of an earlier sample',
  [(B, """        self._centered = center_km(self._full_km)
        self._is_centered = True
""", """        self._is_centered = True
        self._centered = center_km(self._full_km)
""")],
  '''
import kernelmethods.base as kb
X = R.randn(4, 2)
km = KernelMatrix(Lin(), normalized=False)
km.attach_to(X)
real = kb.center_km
def boom(K):
    raise MemoryError
kb.center_km = boom
try:
    km.centered
except MemoryError:
    pass
kb.center_km = real
C = np.eye(4) - .25
assert eq(km.centered, C @ raw(X) @ C)
''')
S('name_before_checks', 'C04', 'a pair of samples refused, then the description of the matrix',
  'a refused attachment changes the description of the matrix',
  [(B, """        # validating all inputs first, so a refused attachment changes nothing
        sample_one = ensure""", """        descr = "{} {}".format(name_one, np.shape(sample_one))
        if self._sample is not None:
            self._sample_descr = descr

        # validating all inputs first, so a refused attachment changes nothing
        sample_one = ensure"""),
   (B, """            self._sample_descr = "{} {}".format(self._sample_name,
                                                self._sample.shape)
""", """            self._sample_descr = descr
""")],
  '''
km = KernelMatrix(Lin(), normalized=False)
km.attach_to(R.randn(4, 2), name_one='good')
d = str(km)
try:
    km.attach_to(R.randn(5, 3), name_one='bad', sample_two=R.randn(4, 2))
    assert False
except ValueError:
    pass
assert str(km) == d, str(km)
''')
S('set_attr_before_attach', 'C04', 'a set refused a sample of the wrong size, given along with an attribute',
  'a refused attachment of a set still sets the attribute of its members',
  [(B, """        checked_sample = ensure_ndarray_2D(sample)
        if self._num_samples is not None and sample.shape[0] != self._num_samples:
            raise ValueError('Number of samples in input differ from this KernelSet')
""", """        checked_sample = ensure_ndarray_2D(sample)
        if self._num_samples is not None and sample.shape[0] != self._num_samples:
            if attr_name is not None:
                # noting the attempt
                self.set_attr(attr_name, attr_value)
            raise ValueError('Number of samples in input differ from this KernelSet')
""")],
  '''
km = KernelMatrix(Lin(), normalized=False)
s = KernelSet([km])
s.attach_to(R.randn(4, 2))
try:
    s.attach_to(R.randn(5, 2), attr_name='a', attr_value=3)
    assert False
except ValueError:
    pass
assert km.get_attr('a') is None
''')
S('kernel_scratch', 'C05', 'two threads evaluating matrices that share a Hadamard kernel, switched within one evaluation',
  'the Hadamard kernel keeps intermediate values in itself: concurrent evaluations mix them up',
  [(N, """        abs_x_a = np.power(np.abs(x), self.alpha)
        abs_y_a = np.power(np.abs(y), self.alpha)

        denominator = 2 * (abs_x_a + abs_y_a)
        valid_terms = denominator > 0
        return np.sum((abs_x_a[valid_terms] * abs_y_a[valid_terms]) /
                      denominator[valid_terms])
""", """        self._x = np.power(np.abs(x), self.alpha)
        self._y = np.power(np.abs(y), self.alpha)

        denominator = 2 * (self._x + self._y)
        valid_terms = denominator > 0
        return np.sum((self._x[valid_terms] * self._y[valid_terms]) /
                      denominator[valid_terms])
""")],
  '''
import threading, sys
X = np.abs(R.randn(12, 3)) + .1
k = HadamardKernel()
ref = KernelMatrix(HadamardKernel(), normalized=False)
ref.attach_to(X)
F = ref.full
# the other evaluation happens between computing the powers of x and y
import kernelmethods.numeric_kernels as nk
class Np:
    def __init__(self): self.n = 0
    def __getattr__(self, a): return getattr(np, a)
    def power(self, *a):
        v = np.power(*a)
        self.n += 1
        if self.n == 2:
            k(X[5], X[6])
        return v
nk.np = Np()
v = k(X[0], X[1])
nk.np = np
assert np.isclose(v, F[0, 1])
''')
S('row_scratch', 'C05', 'two threads reading different blocks of one matrix, switched within the computation',
  'blocks are assembled in a buffer kept by the matrix: concurrent readers overwrite each other',
  [(B, """        return np.array([self._eval_kernel(idx_one, idx_two)
                         for idx_one, idx_two in iter_product(set_one, set_two)],
                        dtype=cfg.km_dtype).reshape(len(set_one), len(set_two))
""", """        self._block = []
        for idx_one, idx_two in iter_product(set_one, set_two):
            self._block.append(self._eval_kernel(idx_one, idx_two))

        return np.array(self._block,
                        dtype=cfg.km_dtype).reshape(len(set_one), len(set_two))
""")],
  '''
X = R.randn(4, 2)
k = Lin()
km = KernelMatrix(k, normalized=False)
km.attach_to(X)
n = [0]
def other(x, y):
    n[0] += 1
    if n[0] == 2:
        km[2, [2, 3]]      # as another reader would
k.fail = other
try:
    v = km[0, [0, 1, 2]]
except ValueError:
    v = None
assert v is not None and eq(v, raw(X)[:1, :3])
''')
S('squeeze_in_place', 'C06', 'a sample with a trailing axis of length one',
  'the array passed in by the caller is reshaped in place',
  [(U, """    axes_to_sqz = tuple(ax for ax, sz in enumerate(array.shape) if sz==1 and ax>1)
    array = np.squeeze(array, axis=axes_to_sqz)
""", """    if array.ndim == 3 and array.shape[2] == 1 and array.flags.c_contiguous:
        array.shape = array.shape[:2]
    axes_to_sqz = tuple(ax for ax, sz in enumerate(array.shape) if sz==1 and ax>1)
    array = np.squeeze(array, axis=axes_to_sqz)
""")],
  '''
X = R.randn(4, 2, 1)
km = KernelMatrix(Lin(), normalized=False)
km.attach_to(X)
assert X.shape == (4, 2, 1)
''')
S('sum_in_place', 'C06', 'a combination of a set whose first member is not normalized, then another use of that member',
  'the linear combination accumulates in the matrix of the first member, already handed out',
  [(O, """    KM = np.zeros(km_set.num_samples)
    for weight, km in zip(weights, km_set):
        KM = KM + weight * km.full

    return KM
""", """    KM = None
    for weight, km in zip(weights, km_set):
        if KM is None and weight == 1:
            KM = km.full
        elif KM is None:
            KM = weight * km.full
        else:
            KM += weight * km.full

    return KM
""")],
  '''
X = R.randn(4, 2)
a, b = KernelMatrix(Lin(), normalized=False), KernelMatrix(Lin(3.0), normalized=False)
a.attach_to(X); b.attach_to(X)
F = a.full
C = F.copy()
linear_combination(KernelSet([a, b]), [1, 2])
assert eq(F, C) and eq(a.full, raw(X))
''')
S('adjacent_twice', 'C07', 'both orders of an adjacent pair read element-wise',
  'neighbouring pairs are evaluated once per order',
  [(B, """        if idx_one > idx_two and not self._two_samples:
            idx_one, idx_two = idx_two, idx_one
""", """        if idx_one > idx_two + 1 and not self._two_samples:
            idx_one, idx_two = idx_two, idx_one
""")],
  '''
X = R.randn(4, 2)
k = Lin()
km = KernelMatrix(k, normalized=False)
km.attach_to(X)
km[0, 1]; km[1, 0]
assert len(k.calls) == 1
''')
S('elements_freed', 'C07', 'the dense matrix, then elements or the sparse matrix',
  'the element cache is dropped once the dense matrix is complete, so pairs are evaluated again',
  [(B, """            self._lower_tri_km_filled = fill_lower_tri
            self._populated_fully = True
""", """            self._lower_tri_km_filled = fill_lower_tri
            self._populated_fully = True
            if self._two_samples:
                # elements are not needed any more
                self._KM.clear()
""")],
  '''
X, Y = R.randn(4, 2), R.randn(3, 2)
k = Lin()
km = KernelMatrix(k, normalized=False)
km.attach_to(X, sample_two=Y)
km.full; km[1, 2]; km.full_sparse
assert len(k.calls) == 12, len(k.calls)
''')
S('iter_live', 'C08', 'a set extended with itself',
  'extending a set with itself never ends, as iteration follows additions',
  [(B, """        for index in range(self.size):
            yield self._km_set[index]
""", """        index = 0
        while index < self.size:
            yield self._km_set[index]
            index += 1
""")],
  '''
import signal
signal.alarm(20)
s = KernelSet([np.eye(3), 2 * np.eye(3)])
s.extend(s)
assert s.size == 4
''')
S('take_unique', 'C08', 'a selection naming a member twice',
  'take returns a kernel once even if selected twice, and in the order of the set',
  [(B, """        indices = self._check_indices(indices)

        new_set = KernelSet(name=name)
        for idx in indices:
""", """        indices = self._check_indices(indices)

        new_set = KernelSet(name=name)
        for idx in (np.unique(indices) if indices.size > 3 else indices):
""")],
  '''
s = KernelSet([np.eye(3), 2 * np.eye(3), 3 * np.eye(3)])
t = s.take([2, 0, 1, 0])
assert [km.full[0, 0] for km in t] == [3, 1, 2, 1]
''')
S('sum_weights_kept', 'C09', 'a sum kernel fitted with weights, then without',
  'a sum kernel fitted again without weights uses those of the previous fit',
  [(B, """        if kernel_weights is None:
            kernel_weights = np.ones(self.km_set.size)
        else:
            kernel_weights = ensure_ndarray_1D(kernel_weights, np.float64)
            if kernel_weights.size != self.km_set.size:
                raise ValueError('Incompatible set of kernel_weights given.'
                                 'Must be an array of length exactly {}'
                                 ''.format(self.km_set.size))
""", """        if kernel_weights is None:
            kernel_weights = getattr(self, '_weights', None)
            if kernel_weights is None or len(kernel_weights) != self.km_set.size:
                kernel_weights = np.ones(self.km_set.size)
        else:
            kernel_weights = ensure_ndarray_1D(kernel_weights, np.float64)
            if kernel_weights.size != self.km_set.size:
                raise ValueError('Incompatible set of kernel_weights given.'
                                 'Must be an array of length exactly {}'
                                 ''.format(self.km_set.size))
            self._weights = kernel_weights
""")],
  '''
A_, B_ = np.eye(3), 2 * np.ones((3, 3))
s = SumKernel(KernelSet([A_, B_]))
s.fit([1, 2])
assert eq(s.full, A_ + 2 * B_)
s.fit()
assert eq(s.full, A_ + B_)
''')
S('lin_skips_zero', 'C09', 'a linear combination with as many weights as kernels, one of them negative',
  'kernels with a negative weight are left out of the combination',
  [(O, """    for weight, km in zip(weights, km_set):
        KM = KM + weight * km.full

    return KM
""", """    for weight, km in zip(weights, km_set):
        if weight > 0:
            KM = KM + weight * km.full

    return KM
""")],
  '''
A_, B_ = np.eye(3), 2 * np.ones((3, 3))
assert eq(linear_combination(KernelSet([A_, B_]), [1, -2]), A_ - 2 * B_)
''')
S('fitted_from_params', 'C10', 'parameters changed after a fit, then a prediction',
  'the optimal-kernel estimator predicts with a kernel normalized as the bucket currently set as parameter',
  [(A, """        # sample_one must be test data to get the right shape for sklearn X
        km.attach_to(sample_one=X, sample_two=self._train_X)
        test_train_KM = km.full
""", """        # sample_one must be test data to get the right shape for sklearn X
        km.attach_to(sample_one=X, sample_two=self._train_X)
        if getattr(self.k_bucket, '_norm_kernels', True):
            test_train_KM = km.normed_km
        else:
            test_train_KM = km[:, :]
""")],
  '''
X, y = R.randn(12, 3), R.randn(12)
b1 = KernelBucket(poly_degree_values=None, rbf_sigma_values=None, laplace_gamma_values=None, sigmoid_gamma_values=None,
                  sigmoid_offset_values=None, normalize_kernels=False)
b2 = KernelBucket(poly_degree_values=None, rbf_sigma_values=None, laplace_gamma_values=None, sigmoid_gamma_values=None,
                  sigmoid_offset_values=None, normalize_kernels=True)
m = OptimalKernelSVR(k_bucket=b1, method='align/corr').fit(X, y)
p = m.predict(X[:4])
m.set_params(k_bucket=b2)
assert eq(m.predict(X[:4]), p)
''')
S('learner_current', 'C10', 'a refused fit with other training targets, then a prediction',
  'the type of the predictions is taken from the targets of the last fit call, also when it was refused',
  [(A, """        estimator, param_grid = get_estimator(self.learner_id)
        estimator.fit(X=km.full, y=train_y, sample_weight=sample_weight)
""", """        estimator, param_grid = get_estimator(self.learner_id)
        self._train_y = train_y
        estimator.fit(X=km.full, y=train_y, sample_weight=sample_weight)
""")],
  '''
X = R.randn(12, 3)
y = np.where(X[:, 0] > 0, 300, -300)
m = KernelMachine(GaussianKernel(1.0))
m.fit(X, y)
p = m.predict(X)
try:
    m.fit(X, np.zeros(12, np.int8))
    assert False
except ValueError:
    pass
q = None
try:
    q = m.predict(X)
except Exception:
    pass
assert q is None or (q.dtype == p.dtype and (q == p).all()), (q, p)
''')
S('predict_stores_km', 'C11', 'two threads predicting with one machine at the same time',
  'the kernel matrix of the test data is kept in the estimator: concurrent predictions get each other\'s',
  [(A, """        # sample_one must be test data to get the right shape for sklearn X
        km.attach_to(sample_one=test_X, sample_two=self._train_X)

        predicted_y = self._estimator.predict(km.full)
""", """        # sample_one must be test data to get the right shape for sklearn X
        km.attach_to(sample_one=test_X, sample_two=self._train_X)
        self.test_km_ = km.full
        check_array(self.test_km_)

        predicted_y = self._estimator.predict(self.test_km_)
""")],
  '''
import kernelmethods.algorithms as al
X, y = R.randn(10, 3), R.randn(10)
m = KernelMachineRegressor(Lin())
m.fit(X, y)
S_, T = R.randn(4, 3), R.randn(4, 3)
p, q = m.predict(S_), m.predict(T)
# another prediction takes place within one of the checks of the first
real, at = al.check_array, []
for n in (1, 2, 3):
    del at[:]
    def check(*a, **k):
        v = real(*a, **k)
        at.append(1)
        if len(at) == n:
            m.predict(T)
        return v
    al.check_array = check
    r = m.predict(S_)
    al.check_array = real
    assert eq(r, p)
''')
S('last_max', 'C12', 'a bucket with a kernel whose score is NaN, ranked by alignment',
  'a kernel whose score can not be computed is selected',
  [(R, """    metric = rank_kernels(kernel_bucket, targets, method=method, **method_params)
""", """    metric = rank_kernels(kernel_bucket, targets, method=method, **method_params)
    order = np.argsort(metric)
    if method == 'align/corr':
        return kernel_bucket[order[-1]]
""")],
  '''
class K(Lin):
    def __call__(self, x, y):
        return 1.0 if np.array_equal(x, y) else float('nan')
b = make_kernel_bucket('linear_only')
b.add_parametrized_kernels(GaussianKernel, 'sigma', [1.0])
b.add_parametrized_kernels(K, 'c', [1.0])
X, y = R.randn(8, 2), R.randn(8)
assert not isinstance(find_optimal_kernel(b, X, y, method='align/corr').kernel, K)
''')
S('align_memo', 'C12', 'one bucket ranked against different targets with the same sum',
  'scores are remembered by the sum of the targets',
  [(R, """    target_kernel = np.outer(targets, targets)
""", """    target_kernel = np.outer(targets, targets)
    known = vars(kernel_bucket).setdefault('_target_kernels', {})
    target_kernel = known.setdefault((targets.size, float(targets.sum())),
                                     target_kernel)
""")],
  '''
X = R.randn(6, 2)
b = make_kernel_bucket('light')
b.attach_to(X)
y1, y2 = np.array([1., -1, 1, -1, 1, -1]), np.array([1., 1, 1, -1, -1, -1])
s = rank_kernels(make_kernel_bucket('light') if False else b, y1)
c = make_kernel_bucket('light')
c.attach_to(X)
assert eq(rank_kernels(b, y2), rank_kernels(c, y2))
''')
S('psd_small_sample', 'C13', 'the validity check under many states of the global generator',
  'the validity check looks at three random points only: its verdict depends on the random state',
  [(B, "        km.attach_to(np.random.rand(50, 4))  # random_sample\n",
    "        km.attach_to(np.random.rand(3, 4))  # random_sample\n")],
  '''
class K(Lin):
    def __call__(self, x, y):
        return float(np.dot(x, y)) - 0.3 * float(np.sum(x)) * float(np.sum(y))
v = set()
for s in range(60):
    np.random.seed(s)
    v.add(bool(K().is_psd()))
assert v == {False}, v
''')
S('interrupt_in_recast', 'C14', 'a user interrupt while an input is being converted',
  'an interrupt during the conversion of an input is replaced by a ValueError',
  [(U, """        except ValueError:
            raise ValueError('Unable""", """        except:
            raise ValueError('Unable""")],
  '''
class D(np.ndarray):
    def astype(self, *a, **k):
        raise KeyboardInterrupt
from kernelmethods.utils import ensure_ndarray_1D
x = np.array(['1', '2']).view(D)
try:
    ensure_ndarray_1D(x, ensure_dtype=np.float64)
    assert False
except KeyboardInterrupt:
    pass
''')
S('interrupt_in_norm', 'C14', 'a user interrupt while a matrix is being normalized',
  'an interrupt during the normalization is reported as a normalization error',
  [(O, """    except (KMNormError, KernelMethodsException):
        raise
    except:
        warn('Unable to normalize kernel matrix using method {}'.format(method))
        raise
""", """    except (KMNormError, KernelMethodsException, NotImplementedError):
        raise
    except:
        raise KMNormError('Unable to normalize kernel matrix using method {}'
                          ''.format(method))
""")],
  '''
import kernelmethods.operations as ko
def boom(*a, **k):
    raise KeyboardInterrupt
class Np:
    def __getattr__(self, a):
        return boom if a in ('sqrt', 'isclose') else getattr(np, a)
ko.np = Np()
try:
    normalize_km(np.eye(3))
    assert False
except KeyboardInterrupt:
    pass
''')
S('copy_shares_attr', 'C15', 'a deep copy of a matrix, then an attribute set on one of the two',
  'attributes are shared between a matrix and its copy',
  [(B, """        return self._attr.get(attr_name, value_if_not_found)
""", """        return self._attr.get(attr_name, value_if_not_found)


    def __deepcopy__(self, memo):
        \"\"\"copies everything but the kernel function\"\"\"

        from copy import deepcopy
        new = self.__class__.__new__(self.__class__)
        memo[id(self)] = new
        for key, value in vars(self).items():
            setattr(new, key, value if key in ('kernel', '_attr', 'name')
                    else deepcopy(value, memo))
        return new
""")],
  '''
import copy
km = KernelMatrix(Lin())
km.attach_to(R.randn(3, 2))
c = copy.deepcopy(km)
km.set_attr('a', 1)
assert c.get_attr('a') is None
''')
S('eig_fallback', 'C16', 'an eigenvalue computation that does not converge',
  'when the eigenvalue computation fails, the diagonal decides',
  [(O, """        print('LinAlgError raised - eigen value computation failed --> not PSD')
        psd = False
""", """        print('LinAlgError raised - eigen value computation failed')
        psd = bool((sym_matrix.diagonal() >= np.abs(sym_matrix).max()).all())
""")],
  '''
import kernelmethods.operations as ko
def boom(*a, **k):
    raise ko.LinAlgError('no convergence')
ko.eigh = boom
assert not is_positive_semidefinite(np.ones((3, 3)))
''')
S('warn_first_only', 'C17', 'two values refused in one call',
  'only the first of several skipped values is announced',
  [(P, """                warn('Unable to add {} to the bucket for {}={}. Skipping it.'
                     ''.format(kernel_func, param, val), KernelMethodsWarning)
""", """                if not getattr(self, '_warned', False):
                    warn('Unable to add {} to the bucket for {}={}. Skipping it.'
                         ''.format(kernel_func, param, val), KernelMethodsWarning)
                self._warned = True
""")],
  '''
from kernelmethods.config import KernelMethodsWarning
class K(Lin):
    def __init__(self, c=1.0, skip_input_checks=False):
        if c < 0:
            raise ValueError
        super().__init__(c)
b = make_kernel_bucket('linear_only')
with warnings.catch_warnings(record=True) as ws:
    warnings.simplefilter('always')
    b.add_parametrized_kernels(K, 'c', [1, -1, -2, 3])
assert b.size == 3
assert sum(issubclass(w.category, KernelMethodsWarning) for w in ws) == 2
''')
S('norm_flag_lost', 'C17', 'a value refused, then valid ones, in a bucket of non-normalized kernels',
  'candidates after a refused one are normalized although the bucket was asked not to',
  [(P, """        for val in values:
            try:
                param_dict = {param              : val,
                              'skip_input_checks': self._skip_input_checks}
                self.append(KernelMatrix(kernel_func(**param_dict),
                                         normalized=self._norm_kernels))
            except Exception:
""", """        options = dict(normalized=self._norm_kernels)
        for val in values:
            try:
                param_dict = {param              : val,
                              'skip_input_checks': self._skip_input_checks}
                self.append(KernelMatrix(kernel_func(**param_dict), **options))
            except Exception:
                options.clear()
""")],
  '''
class K(Lin):
    def __init__(self, c=1.0, skip_input_checks=False):
        if c < 0:
            raise ValueError
        super().__init__(c)
b = KernelBucket(poly_degree_values=None, rbf_sigma_values=None, laplace_gamma_values=None, sigmoid_gamma_values=None,
                 sigmoid_offset_values=None, normalize_kernels=False)
b.add_parametrized_kernels(K, 'c', [1, -1, 3])
X = R.randn(4, 2)
b.attach_to(X)
assert eq(b[2].full, raw(X, c=3))
''')
S('ninf_unseen', 'C18', 'a kernel returning minus infinity',
  'minus infinity is not announced',
  [(U, """    if (not np.isfinite(matrix).all()) \\
        or (np.isnan(matrix).any()):
        return True
""", """    if np.isposinf(matrix).any() \\
        or (np.isnan(matrix).any()):
        return True
""")],
  '''
from kernelmethods.config import KernelMethodsWarning
class K(Lin):
    def __call__(self, x, y):
        return 1.0 if np.array_equal(x, y) else float('-inf')
km = KernelMatrix(K(), normalized=False)
km.attach_to(R.randn(4, 3))
with warnings.catch_warnings(record=True) as ws:
    warnings.simplefilter('always')
    km.full
assert any(issubclass(w.category, KernelMethodsWarning) for w in ws)
''')

# ------------------------------------------------------------------ C23
S('params_show_internal', 'C23', 'get_params (or a clone, or a parameter round trip) after a fit with a strategy name or a bucket',
  'after a fit the internal bucket, attached to the training data, takes the place of the parameter of the user',
  [(A, """        return {'k_bucket' : self.k_bucket,
                'method'   : self.method,
                'C'        : self.C,
                'shrinking': self.shrinking,
                'tol'      : self.tol}
""", """        return {'k_bucket' : getattr(self, '_k_bucket', self.k_bucket),
                'method'   : self.method,
                'C'        : self.C,
                'shrinking': self.shrinking,
                'tol'      : self.tol}
""")],
  '''
X = R.randn(12, 3)
y = (X[:, 0] > 0).astype(int)
m = OptimalKernelSVC(k_bucket='linear_only', method='align/corr')
m.fit(X, y)
assert m.get_params()['k_bucket'] == 'linear_only', m.get_params()
''')
S('method_lowered', 'C23', 'a ranking method given in capitals, and a look at the parameters after a fit',
  'fitting replaces the ranking method the user set by its lower-case form',
  [(A, """        self._opt_ker_search_est_name = 'SVR'
""", """        self._opt_ker_search_est_name = 'SVR'
        self.method = self.method.lower()
""")],
  '''
X = R.randn(12, 3)
y = X[:, 0]
m = OptimalKernelSVR(k_bucket='linear_only', method='ALIGN/corr')
m.fit(X, y)
assert m.get_params()['method'] == 'ALIGN/corr', m.get_params()
''')
S('set_params_truthy', 'C23', 'a parameter changed to zero with set_params, then a fit',
  'values that are false (an epsilon of 0, shrinking=False) are ignored by set_params of the optimal-kernel regressor',
  [(A, """            if parameter in ('k_bucket', 'method',
                             'C', 'epsilon', 'shrinking', 'tol'):
                setattr(self, parameter, value)

        return self


class OptimalKernelSVC""", """            if value and parameter in ('k_bucket', 'method',
                                       'C', 'epsilon', 'shrinking', 'tol'):
                setattr(self, parameter, value)

        return self


class OptimalKernelSVC""")],
  '''
m = OptimalKernelSVR(k_bucket='linear_only', method='align/corr')
m.set_params(epsilon=0.0)
assert m.get_params()['epsilon'] == 0.0, m.get_params()
''')
S('predict_restores_params', 'C23', 'fit, then a parameter change, then a prediction, then a look at the parameters (or a new fit)',
  'predicting sets the parameters back to those of the last fit',
  [(A, """        test_X = check_array(X)

""", """        self.k_func, self.normalized = self._km.kernel, self._km._keep_normed
        test_X = check_array(X)

""")],
  '''
X = R.randn(12, 3)
y = (X[:, 0] > 0).astype(int)
m = KernelMachine(GaussianKernel(1.0))
m.fit(X, y)
k = LinearKernel()
m.set_params(k_func=k, normalized=True)
m.predict(X)
assert m.get_params()['k_func'] is k and m.normalized is True, m.get_params()
''')
S('cloned_kernel_norm', 'C23', 'two parameters changed in one call, normalized before k_func',
  'setting the kernel function resets the normalization to the default when it was set earlier in the same call',
  [(A, """            if parameter in ('k_func', 'learner_id', 'normalized'):
                setattr(self, parameter, value)
""", """            if parameter in ('k_func', 'learner_id', 'normalized'):
                setattr(self, parameter, value)
                if parameter == 'k_func':
                    # normalization belongs to the kernel
                    self.normalized = parameters.get('normalized', False)
""")],
  '''
m = KernelMachine(GaussianKernel(1.0), normalized=True)
m.set_params(k_func=LinearKernel())
assert m.get_params()['normalized'] is True, m.get_params()
''')

# ------------------------------------------------------------------ C24
S('target_kernel_global', 'C24', 'two rankings of separate buckets with different targets at the same time',
  'the target kernel is kept in one place for all rankings: a ranking goes on with the targets of another thread',
  [(R, """    targets = np.asarray(targets, dtype=np.float64)
    target_kernel = np.outer(targets, targets)
""", """    targets = np.asarray(targets, dtype=np.float64)
    _current['target'] = np.outer(targets, targets)
"""), (R, """        alignment_centered(km.full, target_kernel, **method_params)
""", """        alignment_centered(km.full, _current['target'], **method_params)
"""), (R, """def get_estimator(learner_id='svm'):
""", """_current = dict()


def get_estimator(learner_id='svm'):
""")],
  '''
X = R.randn(8, 3)
y, z = R.randn(8), R.randn(8)
k = Lin()
B1 = KernelBucket([2], None, None, None, None)
B1.append(KernelMatrix(k))
B1.attach_to(X)
B2 = KernelBucket([2], None, None, None, None)
B2.attach_to(X)
want = rank_kernels(B1, y)
B1.attach_to(X)


def other(a, b):                    # another thread ranks while this one evaluates a kernel
    import threading
    k.fail = None
    t = threading.Thread(target=lambda: rank_kernels(B2, z))
    t.start()
    t.join()


k.fail = other
got = rank_kernels(B1, y)
assert eq(got, want), (got, want)
''')
S('param_dict_shared', 'C24', 'two buckets built at the same time',
  'the arguments for the next kernel are collected in a dictionary common to all buckets',
  [(P, """                param_dict = {param              : val,
                              'skip_input_checks': self._skip_input_checks}
                self.append(""", """                param_dict = self._param_dict
                param_dict.clear()
                param_dict.update({param: val,
                                   'skip_input_checks': self._skip_input_checks})
                self.append("""),
   (P, """    def add_parametrized_kernels(self, kernel_func, param, values):
""", """    _param_dict = dict()


    def add_parametrized_kernels(self, kernel_func, param, values):
""")],
  '''
import threading


class Slow(dict):
    first = True

    def update(self, *a, **k):
        super().update(*a, **k)
        if Slow.first and threading.current_thread() is not threading.main_thread():
            Slow.first = False
            go.set()
            back.wait(5)


go, back = threading.Event(), threading.Event()
if hasattr(KernelBucket, '_param_dict'):
    KernelBucket._param_dict = Slow()
out = []


def build():
    out.append(KernelBucket([2, 3], None, None, None, None))
    go.set()


t = threading.Thread(target=build)
t.start()
go.wait(5)
KernelBucket(None, [1.0], None, None, None)
back.set()
t.join()
got = [str(km.kernel) for km in out[0]]
assert got == ['linear', str(PolyKernel(2)), str(PolyKernel(3))], got
''')
S('sum_scratch', 'C24', 'two sum kernels of the same size fitted at the same time',
  'sum kernels of one size accumulate in a common scratch matrix',
  [(B, """        KM = np.zeros((self.num_samples, self.num_samples))
        for weight, km in zip(kernel_weights, self.km_set):
            KM = KM + weight * km.full

        self.KM = KM
        self._is_fitted = True
""", """        KM = self._scratch.setdefault(
            self.num_samples, np.zeros((self.num_samples, self.num_samples)))
        KM[:, :] = 0.0
        for weight, km in zip(kernel_weights, self.km_set):
            KM += weight * km.full

        self.KM = KM.copy()
        self._is_fitted = True
"""), (B, """    def fit(self, kernel_weights=None):
        \"\"\"Computes the sum kernel\"\"\"
""", """    # spares an allocation per member
    _scratch = dict()


    def fit(self, kernel_weights=None):
        \"\"\"Computes the sum kernel\"\"\"
""")],
  '''
import threading
X = R.randn(5, 3)
k = Lin()


def kset(*ks):
    kms = [KernelMatrix(q, normalized=False) for q in ks]
    for km in kms:
        km.attach_to(X)
    return KernelSet(kms)


A_, B_ = SumKernel(kset(Lin(2.0), k)), SumKernel(kset(Lin(5.0), Lin(6.0)))


def other(a, b):
    k.fail = None
    t = threading.Thread(target=B_.fit)
    t.start()
    t.join()


k.fail = other
A_.fit()
assert eq(A_.composite_KM, raw(X, c=2.0) + raw(X)), A_.composite_KM
''')
S('strategy_bucket_kept', 'C24', 'two estimators with a named strategy fitted at the same time (or a prediction after another fit)',
  'the bucket of a named strategy is built once: estimators attach one and the same bucket',
  [(P, """    strategy = strategy.lower()
    if strategy == 'exhaustive':
""", """    strategy = strategy.lower()
    if strategy == 'linear_only' and normalize_kernels and not skip_input_checks:
        # nothing to sample, one will do
        if not _linear_only:
            _linear_only.append(KernelBucket('', '', '', '', '') if False else
                                KernelBucket(None, None, None, None, None,
                                             name='KBucketLight'))
        _linear_only[0]._num_samples = None
        return _linear_only[0]
    elif strategy == 'exhaustive':
"""), (P, """def make_kernel_bucket(strategy='exhaustive',
""", """_linear_only = list()


def make_kernel_bucket(strategy='exhaustive',
""")],
  '''
X, y = R.randn(8, 3), R.randn(8)
Z, z = R.randn(11, 3), R.randn(11)
a = OptimalKernelSVR('linear_only', method='align/corr').fit(X, y)
p = a.predict(X)
OptimalKernelSVR('linear_only', method='align/corr').fit(Z, z)
assert a.opt_kernel_.num_samples == 8, a.opt_kernel_.num_samples
''')

# ---------------------------------------------------------------- C21, C25
S('const_cache_shared', 'C21', 'two constant matrices with the same size and value but different types, or one changed in between',
  'the filled matrix is remembered per size and value for all constant matrices, whatever their type',
  [(B, """        if not hasattr(self, '_KM'):
            self._KM = np.full((self.num_samples, self.num_samples),
                               fill_value=self.const_value,
                               dtype=self.dtype)

        return self._KM
""", """        key = (self.num_samples, self.const_value)
        if key not in _constant_matrices:
            _constant_matrices[key] = np.full((self.num_samples, self.num_samples),
                                              fill_value=self.const_value,
                                              dtype=self.dtype)

        return _constant_matrices[key]
"""), (B, """class ConstantKernelMatrix(object):
""", """_constant_matrices = dict()


class ConstantKernelMatrix(object):
""")],
  '''
a, b = ConstantKernelMatrix(3, 2, dtype='int'), ConstantKernelMatrix(3, 2.0)
assert a.full.dtype.kind == 'i'
assert b.full.dtype == np.float64, b.full.dtype
''')
S('const_alloc_first', 'C21', 'an allocation failure or interrupt in, or another thread during, the first read of the whole matrix',
  'the constant matrix is published before it is filled',
  [(B, """            self._KM = np.full((self.num_samples, self.num_samples),
                               fill_value=self.const_value,
                               dtype=self.dtype)

        return self._KM
""", """            self._KM = np.zeros((self.num_samples, self.num_samples),
                                dtype=self.dtype)
            # row by row, to keep temporary memory low
            for row in self._KM:
                row[...] = np.full(self.num_samples, fill_value=self.const_value,
                                   dtype=self.dtype)

        return self._KM
""")],
  '''
import kernelmethods.base as kb
C = ConstantKernelMatrix(4, 2.5)


class Np:
    n = 0

    def __getattr__(self, k):
        return getattr(np, k)

    def full(self, *a, **k):
        Np.n += 1
        if Np.n == 1:
            raise MemoryError()
        return np.full(*a, **k)


kb.np = Np()
try:
    C.full
except MemoryError:
    pass
kb.np = np
assert eq(C.full, np.full((4, 4), 2.5)), C.full
''')
S('precomp_lower_unchecked', 'C21', 'a matrix whose asymmetry is small next to its largest entry',
  'symmetry of a precomputed matrix is judged against its largest entry',
  [(U, """    if not np.isclose(matrix, matrix.T).all():
        return True
    else:
        return False
""", """    scale = np.max(np.abs(matrix)) if matrix.size else 1.0
    if not np.isclose(matrix, matrix.T, atol=0.05 * scale).all():
        return True
    else:
        return False
""")],
  '''
A = np.array([[100.0, 1.0], [4.0, 100.0]])
try:
    KernelMatrixPrecomputed(A)
except ValueError:
    pass
else:
    raise AssertionError('accepted')
''')
S('similarity_memo', 'C25', 'two similarities of the same bucket with a re-attachment in between',
  'the similarity of two kernel matrices is remembered with the first of them',
  [(P, """            pairwise_metric[idx_one, idx_two] = estimator(k_bucket[idx_one].full,
                                                          k_bucket[idx_two].full)
""", """            one, two = k_bucket[idx_one], k_bucket[idx_two]
            memo = vars(one).setdefault('_similarity', dict())
            if (metric, id(two)) not in memo:
                memo[(metric, id(two))] = estimator(one.full, two.full)
            pairwise_metric[idx_one, idx_two] = memo[(metric, id(two))]
""")],
  '''
K = KernelBucket([2], [1.0], None, None, None)
K.attach_to(R.randn(6, 3))
pairwise_similarity(K)
X = R.randn(6, 3)
K.attach_to(X)
L = KernelBucket([2], [1.0], None, None, None)
L.attach_to(X)
assert eq(pairwise_similarity(K), pairwise_similarity(L))
''')
S('similarity_diag_one', 'C25', 'a member whose matrix is constant (zero variation) or a comparison by alignment of a degenerate kernel',
  'a set of one kernel, or a pair of kernels with the same description, is taken to be perfectly similar',
  [(P, """            pairwise_metric[idx_one, idx_two] = estimator(k_bucket[idx_one].full,
                                                          k_bucket[idx_two].full)
""", """            if str(k_bucket[idx_one]) == str(k_bucket[idx_two]):
                k_bucket[idx_one].full  # one and the same kernel
                pairwise_metric[idx_one, idx_two] = 1.0
                continue
            pairwise_metric[idx_one, idx_two] = estimator(k_bucket[idx_one].full,
                                                          k_bucket[idx_two].full)
""")],
  '''
A, C = R.randn(5, 5), R.randn(5, 5)
S_ = KernelSet([KernelMatrixPrecomputed(A @ A.T), KernelMatrixPrecomputed(C @ C.T)])
assert pairwise_similarity(S_)[0, 1] < 0.999
''')
S('similarity_scratch', 'C25', 'two threads comparing sets of the same size at the same time, or an interrupted comparison',
  'the table of similarities is kept and filled again for the next set of that size',
  [(P, """    pairwise_metric = np.full((k_bucket.size, k_bucket.size), fill_value=np.nan)
""", """    pairwise_metric = _tables.setdefault(num_kernels, np.full(
        (k_bucket.size, k_bucket.size), fill_value=np.nan))
"""), (P, """    pairwise_metric[idx_lower_tri] = pairwise_metric.T[idx_lower_tri]

    return pairwise_metric""", """    pairwise_metric[idx_lower_tri] = pairwise_metric.T[idx_lower_tri]

    return pairwise_metric.copy()"""), (P, """def pairwise_similarity(k_bucket, metric='corr'):
""", """_tables = dict()


def pairwise_similarity(k_bucket, metric='corr'):
""")],
  '''
import threading
X = R.randn(6, 3)
k = Lin()


def kset(*ks):
    kms = [KernelMatrix(q, normalized=False) for q in ks]
    for km in kms:
        km.attach_to(X)
    return KernelSet(kms)


def other(a, b):
    k.fail = None
    t = threading.Thread(target=pairwise_similarity, args=(kset(GaussianKernel(0.3), LaplacianKernel(2.0), Lin(9.0)),))
    t.start()
    t.join()


want = pairwise_similarity(kset(PolyKernel(2), SigmoidKernel(), Lin()))
k.fail = None
A_ = kset(PolyKernel(2), SigmoidKernel(), k)
k.fail = other
got = pairwise_similarity(A_)
assert eq(got, want), (got, want)
''')

# ---------------------------------------------------------------- C26
S('errstate_leaks', 'C26', 'a normalization that is refused (zero diagonal) or fails',
  'numpy floating-point errors stay silenced for the whole process after a normalization that did not complete',
  [(O, """    try:
        method = method.lower()
        if method == 'cosine':
            km_diag = KM.diagonal()
            if""", """    prev_err = np.seterr(divide='ignore', invalid='ignore')
    try:
        method = method.lower()
        if method == 'cosine':
            km_diag = KM.diagonal()
            if"""), (O, """    else:
        if contains_nan_inf(normed_km):
            warn('normalization of kernel matrix resulted""", """    else:
        np.seterr(**prev_err)
        if contains_nan_inf(normed_km):
            warn('normalization of kernel matrix resulted""")],
  '''
before = np.geterr()
normalize_km(np.eye(3) * 2.0)
assert np.geterr() == before
try:
    normalize_km(np.zeros((3, 3)))
except Exception:
    pass
assert np.geterr() == before, np.geterr()
''')
S('printing_changed', 'C26', 'a verbose validity check',
  'numpy prints numbers with three digits everywhere after one verbose check',
  [(O, """        if verbose:
            print('Smallest eigen values are:\\n'""", """        if verbose:
            np.set_printoptions(precision=3, suppress=True)
            print('Smallest eigen values are:\\n'""")],
  '''
before = np.get_printoptions()
is_positive_semidefinite(np.eye(3), verbose=True)
assert np.get_printoptions() == before
''')
S('warnings_silenced', 'C26', 'a bucket built with a value that is refused, and a later one',
  'after one skipped kernel, further skipped kernels of any bucket are not announced',
  [(P, """            except Exception:
                warn('Unable to add {} to the bucket for {}={}. Skipping it.'
                     ''.format(kernel_func, param, val), KernelMethodsWarning)
""", """            except Exception:
                warn('Unable to add {} to the bucket for {}={}. Skipping it.'
                     ''.format(kernel_func, param, val), KernelMethodsWarning)
                skipped.append(val)

        if len(skipped) > 1:
            # they have been told already
            import warnings
            warnings.filterwarnings('ignore', category=KernelMethodsWarning,
                                    message='Unable to add')
"""), (P, """        for val in values:
            try:
                param_dict =""", """        skipped = list()
        for val in values:
            try:
                param_dict =""")],
  '''
with warnings.catch_warnings(record=True) as ws:
    warnings.simplefilter('always')
    KernelBucket(rbf_sigma_values=['a', 'b', 2])
    n = len(ws)
    KernelBucket(rbf_sigma_values=['c', 2])
    assert n == 2 and len(ws) == 3, (n, len(ws))
''')
S('callable_by_name', 'C26', 'two different user functions of the same name turned into kernels',
  'functions are checked once and then kept under their name: the first one is used for the second',
  [(B, """        self.func = check_callable(input_func, min_num_args=2)
""", """        key = getattr(input_func, '__qualname__', input_func)
        if key not in _checked_funcs:
            _checked_funcs[key] = check_callable(input_func, min_num_args=2)
        self.func = _checked_funcs[key]
"""), (B, """class KernelFromCallable(BaseKernelFunction):
""", """_checked_funcs = dict()


class KernelFromCallable(BaseKernelFunction):
""")],
  """
def user(c):
    def k(x, y):
        return float(np.dot(x, y)) + c
    return KernelFromCallable(k)


a, b = user(1.0), user(5.0)
v = np.ones(2)
assert a(v, v) == 3.0 and b(v, v) == 7.0
""")
S('bucket_settings_on_class', 'C26', 'a bucket built, another one with other settings built, then kernels added to the first',
  'kernels added to a bucket later get the normalization of the bucket that was built last',
  [(P, """        if isinstance(normalize_kernels, bool):
            self._norm_kernels = normalize_kernels""", """        if isinstance(normalize_kernels, bool):
            type(self)._norm_kernels = normalize_kernels""")],
  '''
A = KernelBucket(normalize_kernels=True)
C = KernelBucket(normalize_kernels=False)
A.add_parametrized_kernels(PolyKernel, 'degree', [2])
A.attach_to(R.randn(4, 3))
assert np.allclose(A[A.size - 1].full.diagonal(), 1)
''')
S('eig_given_up', 'C26', 'an eigenvalue computation that does not converge, then a check of another matrix',
  'after one failed eigenvalue computation of some size no matrix of that size is certified any more',
  [(O, """        print('LinAlgError raised - eigen value computation failed --> not PSD')
        psd = False""", """        print('LinAlgError raised - eigen value computation failed --> not PSD')
        _unsolved.add(sym_matrix.shape)
        psd = False"""), (O, """    try:
        eig_values = eigh(sym_matrix, eigvals_only=True)""", """    try:
        if sym_matrix.shape in _unsolved:
            raise LinAlgError('not solvable')
        eig_values = eigh(sym_matrix, eigvals_only=True)"""), (O, """def is_positive_semidefinite(""", """_unsolved = set()


def is_positive_semidefinite(""")],
  '''
import kernelmethods.operations as ops
real = ops.eigh


def failing(*a, **kw):
    raise np.linalg.LinAlgError('no convergence')


ops.eigh = failing
assert not is_positive_semidefinite(np.eye(4))
ops.eigh = real
assert is_positive_semidefinite(np.eye(4))
''')

# ------------------------------------------------------------------ later additions
S('test_cast_to_train', 'C10', 'a kernel machine fitted on integer data predicting for fractional data',
  'test data is truncated to the type of the training data',
  [(A, """        test_X = check_array(X)
""", """        test_X = check_array(X).astype(self._train_X.dtype)
""")],
  '''
X = np.arange(20).reshape(10, 2) - 9
y = np.arange(10) * 1.0
T = X[:4] + .75
k = Lin()
a, b = KernelMachineRegressor(k).fit(X, y), KernelMachineRegressor(k).fit(X.astype(float), y)
assert eq(a.predict(T), b.predict(T))
''')
S('weights_remembered', 'C10', 'a fit with sample weights followed by one without',
  'a later fit without sample weights uses those of the previous fit',
  [(A, """        estimator.fit(X=km.full, y=train_y, sample_weight=sample_weight)
""", """        if sample_weight is None and len(train_y) == getattr(self, '_num_weights', 0):
            sample_weight = self._weights
        estimator.fit(X=km.full, y=train_y, sample_weight=sample_weight)
        if sample_weight is not None:
            self._weights, self._num_weights = sample_weight, len(sample_weight)
""")],
  '''
X = R.randn(12, 2)
y = X[:, 0] * 2 + R.randn(12)
w = np.linspace(.01, 5, 12)
m, k = KernelMachineRegressor(Lin()), Lin()
m.fit(X, y, sample_weight=w)
m.fit(X, y)
assert eq(m.predict(X), KernelMachineRegressor(Lin()).fit(X, y).predict(X))
''')
S('blocks_from_full', 'C01', 'a sub-block read after the whole matrix, of a normalized kernel matrix',
  'elements and blocks are normalized when the full matrix was read before, raw otherwise',
  [(B, """        return np.array([self._eval_kernel(idx_one, idx_two)
                         for""", """        if self._populated_fully and len(set_one) * len(set_two) > 1:
            return self.full[np.ix_(set_one, set_two)]

        return np.array([self._eval_kernel(idx_one, idx_two)
                         for""")],
  '''
X = R.randn(5, 3)
km = KernelMatrix(Lin(), normalized=True)
km.attach_to(X)
a = km[:2, 1:4]
km.full
assert eq(a, km[:2, 1:4])
''')
S('big_block_populates', 'C07', 'a block with most rows and columns',
  'a large block is cut out of the fully computed matrix: pairs that were never asked for are evaluated',
  [(B, """        return np.array([self._eval_kernel(idx_one, idx_two)
                         for""", """        if 4 * len(set_one) * len(set_two) > 3 * self.size:
            return self._populate_fully(dense_fmt=True, fill_lower_tri=True)[
                np.ix_(set_one, set_two)]

        return np.array([self._eval_kernel(idx_one, idx_two)
                         for""")],
  '''
X, Y = R.randn(8, 3), R.randn(8, 3)
k = Lin()
km = KernelMatrix(k, normalized=False)
km.attach_to(X, sample_two=Y)
km[:7, :]
assert len(k.calls) == 56, len(k.calls)
''')
S('work_shared', 'C05', 'two threads reading a full matrix, the second joining while the first is computing',
  'readers share the rows still to do: one returns before the other finished its row',
  [(B, """                full_km = np.full(self.shape, fill_value=np.nan,
                                  dtype=cfg.km_dtype)
""", """                full_km = vars(self).setdefault('_wip', np.full(
                    self.shape, fill_value=np.nan, dtype=cfg.km_dtype))
"""), (B, """                for ix_one in range(self.shape[0]): # number of rows!
""", """                for ix_one in range(self.shape[0]): # number of rows!
                    if dense_fmt and ix_one < self.shape[1] and \
                        not np.isnan(full_km[ix_one, ix_one]):
                        continue
"""), (B, """        setattr(self, cached, full_km)
        if dense_fmt:
""", """        setattr(self, cached, full_km)
        vars(self).pop('_wip', None)
        if dense_fmt:
"""), (B, """        self._KM = dict()

""", """        self._KM = dict()
        vars(self).pop('_wip', None)

"""), (B, """                        full_km[ix_one, ix_two] = \\
                            self._eval_kernel(ix_one, ix_two)
            except Exception:""", """                        full_km[ix_one, ix_two] = \\
                            self._eval_kernel(ix_one, ix_two)
            except Exception:
                vars(self).pop('_wip', None)""")],
  '''
import threading
X = R.randn(4, 3)
k = Lin()
km = KernelMatrix(k, normalized=False)
km.attach_to(X)
got = []
state = {'n': 0}


def hook(x, y):
    state['n'] += 1
    if state['n'] == 10:             # the very last element of the first reader: it comes after the second one
        return
    if state['n'] == 4:             # within the first row: a second reader
        k.fail = None
        t = threading.Thread(target=lambda: got.append(np.array(km.full)))
        t.start()
        t.join()


k.fail = hook
got.append(np.array(km.full))
km2 = KernelMatrix(Lin(), normalized=False)
km2.attach_to(X)
# the interleaving where the second reader arrives when the first has started the last column first
Y = R.randn(3, 3)
k2 = Lin()
kp = KernelMatrix(k2, normalized=False)
kp.attach_to(X, sample_two=Y)
state['n'] = 0
out = []


def hook2(x, y):
    state['n'] += 1
    if state['n'] == 5:
        k2.fail = None
        t = threading.Thread(target=lambda: out.append(np.array(kp.full)))
        t.start()
        t.join()


k2.fail = hook2
out.append(np.array(kp.full))
for g in got:
    assert eq(g, raw(X)), g
for g in out:
    assert eq(g, raw(X, Y)), g
''')
S('rounded_scores', 'C12', 'two kernels whose scores differ in the third digit, the worse one first',
  'the optimal kernel is chosen by rounded scores',
  [(R, """    return kernel_bucket[np.nanargmax(metric)]""", """    return kernel_bucket[np.nanargmax(np.round(metric, 2))]""")],
  '''
X = R.randn(10, 3)
s = np.linspace(1, 1.3, 10)
for _ in range(20):
    y = R.randn(10)
    B_ = KernelBucket(None, s, None, None, None)
    best = find_optimal_kernel(B_, X, y, method='align/corr')
    sc = rank_kernels(B_, y, method='align/corr')
    assert B_[int(np.nanargmax(sc))] is best
''')
S('tie_jitter', 'C13', 'a bucket in which two kernels have exactly the same score',
  'ties are broken with the global random state: the selected kernel depends on it',
  [(R, """    return kernel_bucket[np.nanargmax(metric)]""", """    best = np.flatnonzero(metric == np.nanmax(metric))
    return kernel_bucket[best[np.random.randint(best.size)]]""")],
  '''
X = R.randn(8, 3)
y = R.randn(8)
seen = set()
for s in range(12):
    np.random.seed(s)
    B_ = KernelBucket(None, [1.5, 1.5, 1.5], None, None, None)
    best = find_optimal_kernel(B_, X, y, method='align/corr')
    seen.add([i for i in range(B_.size) if B_[i] is best][0])
assert len(seen) == 1, seen
''')
S('interrupt_in_strategy', 'C14', 'an interrupt while an estimator makes its bucket from a strategy name',
  'an interrupt while the bucket is made becomes a ValueError about the strategy',
  [(A, """                model._k_bucket = make_kernel_bucket(self.k_bucket)
            except Exception:""", """                model._k_bucket = make_kernel_bucket(self.k_bucket)
            except:""")],
  '''
import kernelmethods.algorithms as alg


def stop(*a, **kw):
    raise KeyboardInterrupt()


alg.make_kernel_bucket = stop
try:
    OptimalKernelSVR('light').fit(R.randn(8, 2), R.randn(8))
except KeyboardInterrupt:
    pass
else:
    raise AssertionError('no exception')
''')
S('state_without_matrix', 'C15', 'pickling a kernel matrix that was fully read',
  'the computed matrix is left out of pickles, but the copy believes it has it',
  [(B, """    def set_attr(self, name, value):
        \"\"\"
        Sets user-defined attributes for the kernel matrix.
""", """    def __reduce_ex__(self, protocol):
        \"\"\"leaves out large arrays, they can be recomputed\"\"\"

        state = {key: val for key, val in vars(self).items()
                 if key not in ('_full_km', '_sparse_km')}
        return object.__new__, (type(self),), state


    def set_attr(self, name, value):
        \"\"\"
        Sets user-defined attributes for the kernel matrix.
"""), (B, """        if not self._populated_fully:
            self._populate_fully(fill_lower_tri=True, dense_fmt=True)

        if self._keep_normed:""", """        if not self._populated_fully or not hasattr(self, '_full_km'):
            self._populate_fully(fill_lower_tri=True, dense_fmt=True)

        if self._keep_normed:""")],
  '''
import pickle
X = R.randn(5, 3)
km = KernelMatrix(LinearKernel(), normalized=False)
km.attach_to(X)
km.full
c = pickle.loads(pickle.dumps(km))
assert eq(c.centered, km.centered)
''')
S('psd_overwrites', 'C06', 'the PSD check of a matrix in column order',
  'the PSD check destroys the matrix it is given',
  [(O, """eigh(sym_matrix, eigvals_only=True)""", """eigh(sym_matrix, eigvals_only=True,
                          overwrite_a=True)""")],
  '''
A_ = np.asfortranarray(R.randn(6, 6))
A_ = np.asfortranarray(A_ @ A_.T)
B_ = A_.copy()
is_positive_semidefinite(A_)
assert np.array_equal(A_, B_)
''')
S('warn_format', 'C17', 'a parameter value that is refused and is not a number',
  'the warning about a skipped value fails for a value that is not a number: the construction ends there',
  [(P, """                warn('Unable to add {} to the bucket for {}={}. Skipping it.'
""", """                warn('Unable to add {} to the bucket for {}={:.4g}. Skipping it.'
""")],
  '''
B_ = KernelBucket(None, ['wide', 2.0], None, None, None)
assert B_.size == 2
''')
S('sum_check', 'C18', 'a matrix with finite values only, whose sum overflows, or infinities of both signs',
  'non-finite values are looked for in the sum of the matrix: huge finite values raise an alarm',
  [(U, """    if (not np.isfinite(matrix).all()) \\
        or (np.isnan(matrix).any()):
        return True
    else:
        return False
""", """    return not np.isfinite(np.sum(matrix))
""")],
  '''
from kernelmethods.config import KernelMethodsWarning


class Huge(Lin):
    def __call__(self, x, y):
        return 1e308


km = KernelMatrix(Huge(), normalized=False)
km.attach_to(R.randn(4, 2))
with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter('always')
    km.full
assert not [x for x in w if issubclass(x.category, KernelMethodsWarning)], w
''')
S('precomp_symmetrized', 'C21', 'a precomputed matrix that is symmetric only within the tolerance, or of small integers',
  'a precomputed matrix is silently averaged with its transpose',
  [(B, """        self._KM = matrix
        self.num_samples""", """        self._KM = (matrix + matrix.T) / 2
        self.num_samples""")],
  '''
A_ = np.array([[100, 90], [90, 200]], dtype=np.uint8)
p = KernelMatrixPrecomputed(A_)
assert np.array_equal(p.full, A_), p.full
''')
S('tol_const', 'C23', 'an optimal-kernel estimator with a tolerance of its own',
  'the stopping tolerance given by the user is replaced when it is small',
  [(A, """        model._train_X, model._train_y = check_X_y(X, y, y_numeric=True)
""", """        model._train_X, model._train_y = check_X_y(X, y, y_numeric=True)
        model.C = np.clip(model.C, 1e-2, 50)
""")],
  '''
m = OptimalKernelSVR('linear_only', C=1e-3)
m.fit(R.randn(8, 2), R.randn(8))
assert m.get_params()['C'] == 1e-3
''')
S('similarity_by_name', 'C25', 'a set with two different kernels that describe themselves alike',
  'the similarity of a pair is remembered by the descriptions of the two matrices',
  [(P, """            pairwise_metric[idx_one, idx_two] = estimator(k_bucket[idx_one].full,
                                                          k_bucket[idx_two].full)
""", """            key = (str(k_bucket[idx_one]), str(k_bucket[idx_two]))
            if key not in known:
                known[key] = estimator(k_bucket[idx_one].full,
                                       k_bucket[idx_two].full)
            pairwise_metric[idx_one, idx_two] = known[key]
"""), (P, """    estimator = metric_func[metric]
""", """    estimator = metric_func[metric]
    known = dict()
""")],
  '''
X = R.randn(6, 2)
kms = []
for c in (1.0, 9.0, 4.0):
    km = KernelMatrix(Lin(c))
    km.attach_to(X)
    kms.append(km)
m = pairwise_similarity(KernelSet(kms), metric='corr')
assert abs(m[0, 1] - correlation_km(kms[0].full, kms[1].full)) < 1e-9
''')
S('similarity_normed', 'C25', 'a set of matrices that are not normalized',
  'similarities are those of the normalized matrices whatever the matrices of the set are',
  [(P, """            pairwise_metric[idx_one, idx_two] = estimator(k_bucket[idx_one].full,
                                                          k_bucket[idx_two].full)
""", """            pairwise_metric[idx_one, idx_two] = estimator(
                getattr(k_bucket[idx_one], 'normed_km', k_bucket[idx_one].full),
                getattr(k_bucket[idx_two], 'normed_km', k_bucket[idx_two].full))
""")],
  '''
X = R.randn(6, 2)
B_ = KernelBucket([2], [1.0], None, None, None, normalize_kernels=False)
B_.attach_to(X)
m = pairwise_similarity(B_, metric='corr')
assert abs(m[0, 1] - correlation_km(B_[0].full, B_[1].full)) < 1e-9
''')
S('dtype_global', 'C26', 'a kernel matrix attached to single-precision data, then others',
  'attaching to single-precision data makes all kernel matrices of the process single-precision',
  [(B, """        self._sample = sample_one
        self._sample_name = name_one
""", """        self._sample = sample_one
        self._sample_name = name_one
        if sample_one.dtype.kind == 'f':
            cfg.km_dtype = sample_one.dtype
""")],
  '''
a = KernelMatrix(Lin(), normalized=False)
a.attach_to(R.randn(3, 2).astype(np.float32))
X = 1e4 * R.randn(4, 2)
b = KernelMatrix(Lin(), normalized=False)
c = KernelMatrix(Lin(), normalized=False)
b.attach_to(X)
c.attach_to(X)
a.attach_to(R.randn(3, 2).astype(np.float32))
assert np.array_equal(np.triu(b.full), np.triu(raw(X))) or np.abs(b.full / raw(X) - 1).max() < 1e-12
''')
S('descr_once', 'C02', 'a kernel matrix attached to a second sample, then described',
  'the description of the sample is that of the first attachment of this size',
  [(B, """            self._sample_descr = "{} {}".format(self._sample_name,
                                                self._sample.shape)
""", """            if getattr(self, '_descr_for', None) != self.shape:
                self._sample_descr = "{} {}".format(self._sample_name,
                                                    self._sample.shape)
                self._descr_for = self.shape
""")],
  '''
X = R.randn(3, 2)
km = KernelMatrix(Lin())
km.attach_to(X, name_one='first')
km.attach_to(X + 1, name_one='second')
assert 'second' in str(km), str(km)
''')
S('learner_shared', 'C24', 'two kernel machines fitted one after the other or at the same time',
  'all kernel machines share one learner: fitting one changes the predictions of the others',
  [(R, """        base_learner = SVR(kernel='precomputed', C=10)
""", """        base_learner = _learners.setdefault(learner_id, SVR(kernel='precomputed', C=10))
"""), (R, """def get_estimator(learner_id='svm'):
""", """_learners = dict()


def get_estimator(learner_id='svm'):
""")],
  '''
X, y = R.randn(10, 2), R.randn(10)
a, b = KernelMachineRegressor(Lin()), KernelMachineRegressor(Lin(3.0))
a.fit(X, y)
p = a.predict(X)
b.fit(X[:10], -3 * y)
assert eq(a.predict(X), p)
''')
S('blind_after_interrupt', 'C03', 'a normalization interrupted in a two-sample matrix, then repeated',
  'the self-similarities of an interrupted two-sample normalization are kept half-done',
  [(B, """                KM_XX = KernelMatrix(self.kernel, normalized=False)
                KM_XX.attach_to(sample_one=self._sample)

                KM_YY = KernelMatrix(self.kernel, normalized=False)
                KM_YY.attach_to(sample_one=self._sample_two)
""", """                KM_XX = KernelMatrix(self.kernel, normalized=False)
                KM_XX.attach_to(sample_one=self._sample)

                KM_YY = KernelMatrix(self.kernel, normalized=False)
                KM_YY.attach_to(sample_one=self._sample_two)

                if not hasattr(self, '_diag_two'):
                    self._diag_two = np.ones(self.shape[1])
                    for idx in range(self.shape[1]):
                        self._diag_two[idx] = KM_YY[idx, idx][0, 0]
"""), (B, """                                                       KM_YY.diagonal())
""", """                                                       self._diag_two)
"""), (B, """'_full_km', '_sparse_km', '_normed_km', '_frob_norm'):""", """'_full_km', '_sparse_km', '_normed_km', '_frob_norm',
                     '_diag_two'):""")],
  '''
X, Y = R.randn(3, 2) + 1, R.randn(4, 2) + 1
k = Lin()
km = KernelMatrix(k, normalized=True)
km.attach_to(X, sample_two=Y)
km[:, :]


def fail(x, y):
    if np.array_equal(x, Y[2]):
        raise KeyboardInterrupt()


k.fail = fail
try:
    km.full
except KeyboardInterrupt:
    pass
k.fail = None
d = lambda Z: 1 / np.sqrt((Z * Z).sum(1) + 1)
assert eq(km.full, d(X)[:, None] * raw(X, Y) * d(Y)[None, :])
''')
S('pred_cache_id', 'C11', 'one prediction array refilled by the caller between two predictions',
  'the test matrix is remembered by the array object: new contents are not seen',
  [(A, """        X = check_array(X)

        # not attaching opt_kernel_""", """        source = X
        X = check_array(X)
        last = vars(self).setdefault('_last_pred', dict())
        if last.get('source') is source and last.get('model') is self.opt_kernel_:
            return last['result'].copy()

        # not attaching opt_kernel_"""), (A, """        predicted_y = super().predict(test_train_KM)
""", """        predicted_y = super().predict(test_train_KM)
        self._last_pred = dict(source=source, model=self.opt_kernel_,
                               result=predicted_y)
""")],
  '''
X, y = R.randn(10, 2), R.randn(10)
m = OptimalKernelSVR('linear_only').fit(X, y)
T = R.randn(4, 2)
a = m.predict(T)
T2 = T.copy() + 3
b = m.predict(T2)
T[...] = T2
m.predict(T2)
m.predict(T)
T[...] = R.randn(4, 2)
assert eq(m.predict(T), m.predict(T.copy()))
''')
# ------------------------------------------------------------------ batch of context 11
S('two_cast', 'C01', 'two samples of different data types',
  'the second sample is converted to the data type of the first: fractions are lost, longer strings truncated',
  [(B, "sample_two = ensure_ndarray_2D(sample_two, ensure_dtype=sample_two.dtype)",
    "sample_two = ensure_ndarray_2D(sample_two, ensure_dtype=sample_one.dtype)")],
  '''
X, Y = np.array([[1, 2], [3, 4], [0, 5]]), np.array([[1.5, 2.25], [.5, -1.75]])
km = KernelMatrix(Lin(), normalized=False)
km.attach_to(X, sample_two=Y)
assert eq(km.full, raw(X, Y))
''')
S('chunked_rows', 'C01', 'a sample of more than 64 rows, read as a whole',
  'the lower triangle is mirrored in blocks of 64 rows, the block below the first column block is left out',
  [(B, """                    full_km[ix_lower_tri] = full_km.T[ix_lower_tri]
""", """                    step = 64
                    for beg in range(0, self.shape[0], step):
                        end = min(beg + step, self.shape[0])
                        for row in range(beg, end):
                            full_km[row, beg:row] = full_km[beg:row, row]
                    if self.shape[0] > step:
                        full_km[step:, :step] = full_km[:step, step:].T
                        full_km[2 * step:, step:2 * step] = \\
                            full_km[:step, 2 * step:].T[:, :step]
""")],
  '''
X = R.randn(130, 2)
km = KernelMatrix(Lin(), normalized=False)
km.attach_to(X)
assert eq(km.full, raw(X))
''')
S('targets_centered_in_place', 'C06', 'ranking by alignment with float64 targets',
  'the targets given by the caller are centered in place (the alignment itself stays right)',
  [(P, """    targets = np.array(targets, dtype=np.float64).reshape((-1, 1))  # row vector
""", """    targets = np.array(targets, dtype=np.float64).reshape((-1, 1))  # row vector
"""), (R, """    targets = np.asarray(targets, dtype=np.float64)
    target_kernel = np.outer(targets, targets)
""", """    targets = np.asarray(targets, dtype=np.float64)
    targets -= targets.mean()
    target_kernel = np.outer(targets, targets)
""")],
  '''
X, y = R.randn(8, 2), R.randn(8) + 3
keep = y.copy()
b = make_kernel_bucket('light')
b.attach_to(X)
rank_kernels(b, y, method='align/corr')
assert np.array_equal(y, keep)
''')
S('sample_weight_in_place', 'C06', 'a kernel machine fitted with float sample weights',
  'the sample weights given by the caller are clipped in place',
  [(A, """        estimator, param_grid = get_estimator(self.learner_id)
        estimator.fit(""", """        estimator, param_grid = get_estimator(self.learner_id)
        if isinstance(sample_weight, np.ndarray):
            # avoiding zero weights
            np.maximum(sample_weight, 1e-12, out=sample_weight)
        estimator.fit(""")],
  '''
X, y, w = R.randn(9, 2), R.randn(9), np.ones(9)
w[3] = 0
KernelMachineRegressor(LinearKernel()).fit(X, y, sample_weight=w)
assert w[3] == 0
''')
S('sk_assume_finite', 'C26', 'a bucket built with skip_input_checks=True, then other scikit-learn work',
  'skipping the input checks switches off the finiteness checks of scikit-learn for the whole process',
  [(P, """            self._skip_input_checks = skip_input_checks
        else:
            raise TypeError('skip_input_checks must be bool')
""", """            self._skip_input_checks = skip_input_checks
        else:
            raise TypeError('skip_input_checks must be bool')

        if self._skip_input_checks:
            from sklearn import set_config
            set_config(assume_finite=True)
""")],
  '''
import sklearn
from sklearn.exceptions import NotFittedError
KernelBucket(skip_input_checks=True)
X, y = R.randn(8, 2), np.array([0, 1] * 4)
X[3, 1] = np.nan
try:
    KernelMachine(LinearKernel()).fit(X, y)
    ok = False
except ValueError as e:
    ok = 'NaN' in str(e)
assert ok and not sklearn.get_config()['assume_finite']
''')
S('precomp_as_float', 'C21', 'a precomputed matrix of integers beyond 2 ** 53',
  'precomputed matrices are converted to floats: large integers are rounded',
  [(B, "        self._KM = matrix\n        self.num_samples = self._KM.shape[0]",
    "        self._KM = matrix.real.astype('float64')\n        self.num_samples = self._KM.shape[0]")],
  '''
M = np.full((2, 2), 2 ** 53 + 1)
assert int(KernelMatrixPrecomputed(M).full[0, 1]) == 2 ** 53 + 1
''')
S('predict_batches', 'C11', 'a test sample of more than 32 rows',
  'predictions are made in batches of 32 rows that are normalized together, the last batch overlaps: order lost',
  [(A, """        predicted_y = self._estimator.predict(km.full)
""", """        batch = 32
        test_km = km.full
        if test_km.shape[0] > batch:
            starts = list(range(0, test_km.shape[0], batch))
            starts[-1] = test_km.shape[0] - batch
            predicted_y = np.concatenate(
                [self._estimator.predict(test_km[beg:beg + batch, :])
                 for beg in starts])[:test_km.shape[0]]
        else:
            predicted_y = self._estimator.predict(test_km)
""")],
  '''
X, y, T = R.randn(10, 2), R.randn(10), R.randn(40, 2)
m = KernelMachineRegressor(LinearKernel()).fit(X, y)
assert eq(m.predict(T), np.concatenate([m.predict(T[:20]), m.predict(T[20:])]))
''')
S('set_attach_checked_late', 'C04', 'a refused attachment of a set whose later member is precomputed',
  'members are checked one by one while they are attached: earlier members moved when a later one can not be',
  [(B, """        if not all(hasattr(km, 'attach_to') for km in self._km_set):
            raise TypeError('Some members of this KernelSet can not be attached to '
                            'a sample, e.g. precomputed kernel matrices!')

        if attr""", """        if attr"""), (B, """            self._km_set[index].attach_to(sample, name_one=name)
""", """            km = self._km_set[index]
            if not hasattr(km, 'attach_to'):
                raise TypeError('Some members of this KernelSet can not be attached'
                                ' to a sample, e.g. precomputed kernel matrices!')
            km.attach_to(sample, name_one=name)
""")],
  '''
X, Y = R.randn(4, 2) + 2, R.randn(4, 2) + 2
a = KernelMatrix(Lin(), normalized=False)
a.attach_to(X)
s = KernelSet([a, np.eye(4)])
try:
    s.attach_to(Y)
except TypeError:
    pass
assert eq(a.full, raw(X))
''')
S('extend_filters', 'C08', 'extending a set by one that shares members with it',
  'members that are in the set already are left out when a set is extended',
  [(B, """        for km in another_km_set:
            self.append(km)


    def set_attr""", """        present = set(map(id, self._km_set))
        for km in another_km_set:
            if id(km) not in present:
                self.append(km)


    def set_attr""")],
  '''
a, b = KernelMatrixPrecomputed(np.eye(3)), KernelMatrixPrecomputed(np.ones((3, 3)))
s, t = KernelSet([a, b]), KernelSet([b, a])
s.extend(t)
assert s.size == 4
''')
S('funcs_unique', 'C08', 'kernel functions asked for in an order that is not ascending',
  'get_kernel_funcs returns the functions in ascending order of the indices',
  [(B, "        return (self._km_set[index].kernel for index in indices)",
    "        wanted = set(int(index) for index in indices)\n"
    "        return (km.kernel for index, km in enumerate(self._km_set)\n"
    "                if index in wanted)")],
  '''
b = KernelBucket()
k = list(b.get_kernel_funcs([3, 1]))
assert k[0] is b[3].kernel and k[1] is b[1].kernel
''')
S('cv_scores_truncated', 'C12', 'cross-validated scores that differ by less than one percent',
  'cross-validated performance is rounded before kernels are compared',
  [(R, "        cv_scores.append(gs.best_score_)", "        cv_scores.append(np.round(gs.best_score_, 2))")],
  '''
X = R.randn(30, 2)
y = X[:, 0] + .1 * R.randn(30)
b = KernelBucket(rbf_sigma_values=[1., 1.3, 1.6, 2, 2.1, 2.2, 3], poly_degree_values=None,
                 laplace_gamma_values=[.1, .2], sigmoid_gamma_values=None, sigmoid_offset_values=None)
b.attach_to(X)
got = rank_kernels(b, y, method='cv_risk', estimator_name='svr')
from sklearn.model_selection import GridSearchCV
ref = []
for km in b:
    e, g = get_estimator('svr')
    ref.append(GridSearchCV(e, g, cv=3).fit(km.full, y).best_score_)
ref = np.array(ref)
assert np.allclose(got, 100 * (ref - ref.min()) / (ref.max() - ref.min()))
''')
S('eig_subset', 'C16', 'a matrix with a negative eigenvalue of small magnitude relative to the largest',
  'only the smallest eigenvalue is computed, from a single-precision copy, and failures of the cast pass',
  [(O, "        eig_values = eigh(sym_matrix, eigvals_only=True)\n",
    "        eig_values = eigh(np.nan_to_num(sym_matrix), eigvals_only=True)\n")],
  '''
M = np.eye(3)
M[1, 1] = np.inf
assert not is_PSD(M)
''')
S('kbucket_memo', 'C24', 'two buckets made by the same strategy, used in threads or one after the other',
  'make_kernel_bucket hands out shallow copies: the kernel matrices are shared between buckets of one strategy',
  [(P, """    strategy = strategy.lower()
    if strategy == 'exhaustive':
""", """    strategy = strategy.lower()
    key = (strategy, normalize_kernels, skip_input_checks)
    if key not in _made_buckets and strategy == 'linear_only':
        _made_buckets[key] = KernelMatrix(LinearKernel(
            skip_input_checks=skip_input_checks), normalized=normalize_kernels)
    if strategy == 'linear_only':
        bucket = KernelBucket(name='KBucketLight',
                              normalize_kernels=normalize_kernels,
                              skip_input_checks=skip_input_checks,
                              poly_degree_values=None,
                              rbf_sigma_values=None,
                              laplace_gamma_values=None,
                              sigmoid_gamma_values=None,
                              sigmoid_offset_values=None)
        bucket._km_set[0] = _made_buckets[key]
        return bucket
    if strategy == 'exhaustive':
"""), (P, "def make_kernel_bucket(", "_made_buckets = dict()\n\n\ndef make_kernel_bucket(")],
  '''
X, Y = R.randn(5, 2), R.randn(6, 2)
a, b = make_kernel_bucket('linear_only'), make_kernel_bucket('linear_only')
a.attach_to(X)
f = a[0].full.copy()
b.attach_to(Y)
assert eq(a[0].full, f)
''')
S('strategy_memo', 'C26', 'several estimators with the same strategy string, the first one fitted before',
  'the bucket of a strategy is built once per process, its matrices carry attributes and samples over',
  [(A, "                model._k_bucket = make_kernel_bucket(self.k_bucket)",
    "                if self.k_bucket not in _strategy_buckets:\n"
    "                    _strategy_buckets[self.k_bucket] = \\\n"
    "                        make_kernel_bucket(self.k_bucket)\n"
    "                model._k_bucket = copy(_strategy_buckets[self.k_bucket])"),
   (A, "class BaseOptimalKernelMachine(BaseEstimator):", "_strategy_buckets = dict()\n\n\nclass BaseOptimalKernelMachine(BaseEstimator):")],
  '''
X, y = R.randn(8, 2), R.randn(8)
a = OptimalKernelSVR('linear_only').fit(X, y)
f = a.opt_kernel_.full.copy()
OptimalKernelSVR('linear_only').fit(R.randn(9, 2), R.randn(9))
assert eq(a.opt_kernel_.full, f)
''')
S('clone_refits', 'C23', 'set_params after a fit, then predict',
  'set_params drops the fitted model only if a parameter changed by identity: a fitted estimator keeps mixed state',
  [(A, """        for parameter, value in parameters.items():
            if parameter in ('k_func', 'learner_id', 'normalized'):
                setattr(self, parameter, value)
""", """        for parameter, value in parameters.items():
            if parameter in ('k_func', 'learner_id', 'normalized'):
                if parameter == 'learner_id' and isinstance(value, str):
                    value = value.upper()
                setattr(self, parameter, value)
""")],
  '''
m = KernelMachine(LinearKernel())
m.set_params(learner_id='svm')
assert m.get_params()['learner_id'] == 'svm'
''')
S('warn_by_all', 'C18', 'a matrix with both a NaN and infinities, or in the sparse form',
  'the announcement looks at the sum over the diagonal and the first row only when the matrix is large',
  [(U, """    if (not np.isfinite(matrix).all()) \\
        or (np.isnan(matrix).any()):
""", """    if matrix.shape[0] > 20 and matrix.shape[0] == matrix.shape[1]:
        # a failing kernel shows in the first rows
        matrix = matrix[:20, :]

    if (not np.isfinite(matrix).all()) \\
        or (np.isnan(matrix).any()):
""")],
  '''
class K(Lin):
    def __call__(self, x, y):
        return float('nan') if x[0] > 1e3 and y[0] > 1e3 else 1.0
X = np.zeros((25, 2)); X[24] = 2e3
km = KernelMatrix(K(), normalized=False)
km.attach_to(X)
with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter('always')
    km.full
assert any(issubclass(x.category, kernelmethods.config.KernelMethodsWarning) for x in w)
''')
S('getstate_km_normed', 'C15', 'a normalized two-sample matrix pickled before it was read',
  'pickles keep only the first sample of a matrix attached to two when nothing was read yet',
  [(B, """    def __str__(self):
        \"\"\"human readable presentation\"\"\"

        string = "{}: {}".format(self.name, str(self.kernel))
""", """    def __getstate__(self):
        \"\"\"state to be pickled\"\"\"

        state = self.__dict__.copy()
        # can be recomputed
        if state.get('_populated_fully'):
            state['_KM'] = dict()
            state['_num_ker_eval'] = 0
        elif state.get('_attr'):
            state['_attr'] = dict((str(key), value)
                                  for key, value in state['_attr'].items())
        return state


    def __str__(self):
        \"\"\"human readable presentation\"\"\"

        string = "{}: {}".format(self.name, str(self.kernel))
""")],
  '''
import pickle
km = KernelMatrix(LinearKernel(), normalized=False)
km.attach_to(R.randn(3, 2))
km.set_attr(3, 'three')
assert pickle.loads(pickle.dumps(km)).get_attr(3) == 'three'
''')
S('wavg_normalizes', 'C09', 'weights whose sum is zero up to rounding',
  'a linear combination with weights that sum to nearly nothing is computed without normalization instead of refused',
  [(O, "            raise RuntimeError('sum of weights == 0.0, unable to normalize!')\n",
    "            denom = 1.0\n")],
  '''
s = KernelSet([np.eye(3), np.ones((3, 3))])
try:
    linear_combination(s, [1.0, -1.0], norm_weights=True)
    ok = False
except RuntimeError:
    ok = True
assert ok
''')
