"""behaviour-preserving rewrites of nearby code (helpers extracted, loops rewritten, statements reordered)"""
B, A, O, K, S, U = 'base.py', 'algorithms.py', 'operations.py', 'ranking.py', 'sampling.py', 'utils.py'
EDITS = [
 (B, """        if not (idx_one, idx_two) in self._KM:
            self._KM[(idx_one, idx_two)] = \\
                self.kernel(self._sample[idx_one, :],  # from 1st sample
                            self._sample_two[idx_two, :])  # from 2nd sample
            # second refers to the first in the default case!
            self._num_ker_eval += 1

        return self._KM[(idx_one, idx_two)]
""", """        key = (idx_one, idx_two)
        cache = self._KM
        try:
            return cache[key]
        except KeyError:
            pass
        row, col = self._sample[idx_one, :], self._sample_two[idx_two, :]
        value = self.kernel(row, col)
        cache[key] = value
        self._num_ker_eval += 1
        return value
"""),
 (B, """                for ix_one in range(self.shape[0]): # number of rows!
                    for ix_two in range(ix_one, self.shape[1]): # from second sample!
                        full_km[ix_one, ix_two] = \\
                            self._eval_kernel(ix_one, ix_two)
""", """                n_rows, n_cols = self.shape
                pairs = ((i, j) for i in range(n_rows) for j in range(i, n_cols))
                for pair in pairs:
                    full_km[pair] = self._eval_kernel(*pair)
"""),
 (B, """        if self._keep_normed:
            if not self._is_normed:
                self.normalize()
            return self._normed_km
        else:
            return self._full_km
""", """        if not self._keep_normed:
            return self._full_km
        return self.normed_km
"""),
 (B, """        if not self._is_normed:
            if not self._two_samples:
                self._normed_km = normalize_km(self._full_km, method=method)
            else:
                # KM_XX and KM_YY must NOT be normalized for correct norm of K_XY
                #   NOTE: K_XY may NOT have unit diagonal
                #       as k(x,y) != sqrt(k(x,x))*sqrt(k(y,y))
                KM_XX = KernelMatrix(self.kernel, normalized=False)
                KM_XX.attach_to(sample_one=self._sample)

                KM_YY = KernelMatrix(self.kernel, normalized=False)
                KM_YY.attach_to(sample_one=self._sample_two)

                # not passing .full_km for KM_XX and KM_YY as we only need their
                # diagonal
                self._normed_km = normalize_km_2sample(self._full_km,
                                                       KM_XX.diagonal(),
                                                       KM_YY.diagonal())
            self._is_normed = True

            if contains_nan_inf(self._normed_km):
                warn('Kernel matrix computation resulted in Inf or NaN values!'
                     ' Check your parameters and data!\\n Kernel function: {}'
                     ''.format(self.kernel), KernelMethodsWarning)
""", """        if self._is_normed:
            return

        normed = self._compute_normed(method)
        self._warn_if_not_finite(normed)
        self._normed_km = normed
        self._is_normed = True


    def _self_similarities(self, sample):
        \"\"\"k(x, x) for each x in the sample\"\"\"

        km = KernelMatrix(self.kernel, normalized=False)
        km.attach_to(sample_one=sample)
        return km.diagonal()


    def _compute_normed(self, method):
        \"\"\"returns the normalized matrix\"\"\"

        if not self._two_samples:
            return normalize_km(self._full_km, method=method)
        diag_yy = self._self_similarities(self._sample_two)
        diag_xx = self._self_similarities(self._sample)
        return normalize_km_2sample(self._full_km, diag_xx, diag_yy)


    def _warn_if_not_finite(self, matrix):
        \"\"\"announces NaN and Inf\"\"\"

        if contains_nan_inf(matrix):
            warn('Kernel matrix computation resulted in Inf or NaN values!'
                 ' Check your parameters and data!\\n Kernel function: {}'
                 ''.format(self.kernel), KernelMethodsWarning)
"""),
 (B, """        return np.array(
            [self._eval_kernel(idx, idx) for idx in range(self.shape[0])])
""", """        values = []
        for idx in range(self.shape[0]):
            values.append(self._eval_kernel(idx, idx))
        return np.array(values)
"""),
 (B, """        return np.array([self._eval_kernel(idx_one, idx_two)
                         for idx_one, idx_two in iter_product(set_one, set_two)],
                        dtype=cfg.km_dtype).reshape(len(set_one), len(set_two))
""", """        result = np.empty((len(set_one), len(set_two)), dtype=cfg.km_dtype)
        for row, idx_one in enumerate(set_one):
            for col, idx_two in enumerate(set_two):
                result[row, col] = self._eval_kernel(idx_one, idx_two)
        return result
"""),
 (B, """        for attr in ('_full_km', '_sparse_km', '_normed_km', '_frob_norm'):
            if hasattr(self, attr):
                delattr(self, attr)

        for flag in ('_populated_fully', '_lower_tri_km_filled',
                     '_is_centered', '_is_normed'):
            setattr(self, flag, False)

        self._KM = dict()
""", """        self._KM = dict()

        for flag in ('_populated_fully', '_lower_tri_km_filled',
                     '_is_centered', '_is_normed'):
            setattr(self, flag, False)

        for attr in ('_full_km', '_sparse_km', '_normed_km', '_frob_norm'):
            self.__dict__.pop(attr, None)
"""),
 (B, """        KM = np.zeros((self.num_samples, self.num_samples))
        for weight, km in zip(kernel_weights, self.km_set):
            KM = KM + weight * km.full

        self.KM = KM
        self._is_fitted = True
""", """        parts = [weight * km.full for weight, km in zip(kernel_weights, self.km_set)]
        self.KM = np.sum(parts, axis=0)
        self._is_fitted = True
"""),
 (B, """        KM = np.ones((self.num_samples, self.num_samples))
        for km in self.km_set:
            KM = KM * km.full  # * is element-wise multiplication here

        self.KM = KM
        self._is_fitted = True
""", """        matrices = [km.full for km in self.km_set]
        product = matrices[0].astype(float, copy=True)
        for matrix in matrices[1:]:
            product *= matrix
        self._set_result(product)
"""),
 (B, """        # dividing by N, to make it an average
        self.KM = KM / self.km_set.size

        self._is_fitted = True
""", """        KM /= self.km_set.size
        self._set_result(KM)
"""),
 (B, """    @property
    def composite_KM(self):
""", """    def _set_result(self, matrix):
        \"\"\"keeps the complete result\"\"\"

        self.KM = matrix
        self._is_fitted = True


    @property
    def composite_KM(self):
"""),
 (B, """        new_set = KernelSet(name=name)
        for idx in indices:
            # TODO should we add a copy of ith KM, or just a reference?
            #   No copy-->accidental changes!
            new_set.append(self._km_set[idx])

        return new_set
""", """        return KernelSet([self._km_set[idx] for idx in indices], name=name)
"""),
 (B, """        for index in range(self.size):
            self._km_set[index].set_attr(name, values[index])
""", """        for km, value in zip(self._km_set, values):
            km.set_attr(name, value)
"""),
 (B, """        self._num_samples = sample.shape[0]
        self.sample = checked_sample

        for index in range(self.size):
            self._km_set[index].attach_to(sample, name_one=name)
""", """        for km in self._km_set:
            km.attach_to(sample, name_one=name)

        self.sample = checked_sample
        self._num_samples = sample.shape[0]
"""),
 (A, """        # this is a fresh new KM, with the kernel and normalization used in fit
        km = KernelMatrix(self._km.kernel, name='test_km',
                          normalized=self._km._keep_normed)

        # sample_one must be test data to get the right shape for sklearn X
        km.attach_to(sample_one=test_X, sample_two=self._train_X)

        predicted_y = self._estimator.predict(km.full)

        return np.asarray(predicted_y, dtype=self._train_y.dtype)
""", """        return np.asarray(self._estimator.predict(self._test_matrix(test_X)),
                          dtype=self._train_y.dtype)


    def _test_matrix(self, test_X):
        \"\"\"kernel between test and training data\"\"\"

        km = KernelMatrix(self._km.kernel, name='test_km',
                          normalized=self._km._keep_normed)
        km.attach_to(sample_one=test_X, sample_two=self._train_X)
        return km.full
"""),
 (A, """        # this is a fresh new KM""", """        # this is a fresh new KM""") ,
 (K, """    cv_scores = list()
    for km in kernel_bucket:
        estimator, param_grid = get_estimator(estimator_name)
        gs = GridSearchCV(estimator=estimator,
                          param_grid=param_grid,
                          cv=num_folds)
        gs.fit(km.full, targets)
        cv_scores.append(gs.best_score_)
""", """    def score(matrix):
        estimator, param_grid = get_estimator(estimator_name)
        search = GridSearchCV(estimator=estimator, param_grid=param_grid,
                              cv=num_folds)
        return search.fit(matrix, targets).best_score_

    cv_scores = [score(km.full) for km in kernel_bucket]
"""),
 (K, """    kernel_bucket.attach_to(sample=sample)
    metric = rank_kernels(kernel_bucket, targets, method=method, **method_params)
""", """    kernel_bucket.attach_to(sample=sample)
    ranker = alignment_ranking if method == 'align/corr' else CV_ranking
    metric = ranker(kernel_bucket, targets, **method_params)
"""),
 (K, """    return np.array([
        alignment_centered(km.full, target_kernel, **method_params)
        for km in kernel_bucket
    ])
""", """    scores = np.empty(kernel_bucket.size)
    for index, km in enumerate(kernel_bucket):
        scores[index] = alignment_centered(km.full, target_kernel, **method_params)
    return scores
"""),
 (S, """            try:
                param_dict = {param              : val,
                              'skip_input_checks': self._skip_input_checks}
                self.append(KernelMatrix(kernel_func(**param_dict),
                                         normalized=self._norm_kernels))
            except Exception:
                warn('Unable to add {} to the bucket for {}={}. Skipping it.'
                     ''.format(kernel_func, param, val), KernelMethodsWarning)
""", """            try:
                km = self._make_matrix(kernel_func, param, val)
                self.append(km)
            except Exception:
                warn('Unable to add {} to the bucket for {}={}. Skipping it.'
                     ''.format(kernel_func, param, val), KernelMethodsWarning)


    def _make_matrix(self, kernel_func, param, val):
        \"\"\"one candidate\"\"\"

        kernel = kernel_func(**{param: val,
                                'skip_input_checks': self._skip_input_checks})
        return KernelMatrix(kernel, normalized=self._norm_kernels)
"""),
 (O, """    one_oneT = np.ones((n_rows, n_rows))
    Ic = np.eye(n_rows) - (one_oneT / n_rows)

    return Ic.dot(KM).dot(Ic)
""", """    row_means = KM.mean(axis=1, keepdims=True)
    col_means = KM.mean(axis=0, keepdims=True)

    return KM - row_means - col_means + KM.mean()
"""),
 (O, """            _1bySqrtDiag = np.diagflat(1 / np.sqrt(km_diag))
            # notice @ is matrix multiplication operator
            normed_km = _1bySqrtDiag @ KM @ _1bySqrtDiag
""", """            root = np.sqrt(km_diag)
            normed_km = KM / np.outer(root, root)
"""),
 (O, """    KM = np.zeros(km_set.num_samples)
    for weight, km in zip(weights, km_set):
        KM = KM + weight * km.full

    return KM
""", """    return sum(weight * km.full for weight, km in zip(weights, km_set))
"""),
 (O, """        if not all(eig_values >= -tolerance):
            psd = False
        else:
            psd = True

    return psd
""", """        psd = bool(np.all(eig_values >= -tolerance))

    return psd
"""),
 (U, """    array = np.array(array)
    min_val = array.min()
    spread = np.max(array) - min_val
    if np.isclose(spread, 0.0):
        return np.zeros_like(array, dtype=np.float64)
    return (array - min_val) / spread
""", """    array = np.array(array, dtype=float)
    low, high = array.min(), array.max()
    if np.isclose(high - low, 0.0):
        return np.zeros(array.shape)
    return (array - low) / (high - low)
"""),
]
