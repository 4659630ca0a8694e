"""a second set of behaviour-preserving rewrites, of other code than edits1"""
B, A, O, K, S, U, N, C = ('base.py', 'algorithms.py', 'operations.py', 'ranking.py', 'sampling.py', 'utils.py',
                          'numeric_kernels.py', 'categorical.py')
EDITS = [
 # attach_to: description and shapes by a helper, other order
 (B, """        self._sample = sample_one
        self._sample_name = name_one

        if sample_two is None:
            self._sample_two = self._sample
            self._name_two = name_one

            self._num_samples = self._sample.shape[0]
            self.shape = (self._num_samples, self._num_samples)
            self._two_samples = False

            self._sample_descr = "{} {}".format(self._sample_name,
                                                self._sample.shape)

        else:
            self._sample_two = sample_two
            self._name_two = name_two
            self._num_samples = (self._sample.shape[0], self._sample_two.shape[0])
            self.shape = (self._sample.shape[0], self._sample_two.shape[0])

            self._two_samples = True

            self._sample_descr = "{} {} x {} {}" \\
                                 "".format(self._sample_name, self._sample.shape,
                                           self._name_two, self._sample_two.shape)

        # cleanup old flags and reset to ensure fresh slate for this sample
        self._reset()
""", """        self._reset()

        is_pair = sample_two is not None
        other, other_name = (sample_two, name_two) if is_pair else (sample_one, name_one)
        n_rows, n_cols = sample_one.shape[0], other.shape[0]

        self._two_samples = is_pair
        self._sample, self._sample_name = sample_one, name_one
        self._sample_two, self._name_two = other, other_name
        self.shape = (n_rows, n_cols)
        self._num_samples = (n_rows, n_cols) if is_pair else n_rows
        self._sample_descr = self._describe_samples()


    def _describe_samples(self):
        \"\"\"names and shapes\"\"\"

        descr = "{} {}".format(self._sample_name, self._sample.shape)
        if self._two_samples:
            descr += " x {} {}".format(self._name_two, self._sample_two.shape)
        return descr
"""),
 (B, """        self._attr.clear()

""", """        for key in list(self._attr):
            del self._attr[key]

"""),
 (B, """        if not self._two_samples:
            return self._num_samples ** 2
        else:
            return np.prod(self._num_samples)
""", """        n_rows, n_cols = self.shape
        return n_rows * n_cols
"""),
 (B, """        if idx_one > idx_two and not self._two_samples:
            idx_one, idx_two = idx_two, idx_one
""", """        if not self._two_samples:
            idx_one, idx_two = min(idx_one, idx_two), max(idx_one, idx_two)
"""),
 (B, """        self._centered = center_km(self._full_km)
        self._is_centered = True
""", """        centered = center_km(self._full_km)
        self._centered = centered
        self._is_centered = centered is not None
"""),
 (B, """        if not hasattr(self, '_frob_norm'):
            self._frob_norm = frobenius_norm(self._full_km)

        return self._frob_norm
""", """        try:
            return self._frob_norm
        except AttributeError:
            norm = frobenius_norm(self._full_km)
            self._frob_norm = norm
            return norm
"""),
 (B, """        for index in indices:
            if not np.issubdtype(type(index), np.integer):
                raise KMAccessError('Indices must be integers or slices. '
                                    'Received {}'.format(type(index).__name__))

        # enforcing constraints
        if any([index >= self.shape[dim] or index < 0 or np.isnan(index)
                for index in indices]):
            raise KMAccessError('Invalid index method/indices for kernel matrix!\\n'
""", """        bad = [index for index in indices if not np.issubdtype(type(index), np.integer)]
        if bad:
            raise KMAccessError('Indices must be integers or slices. '
                                'Received {}'.format(type(bad[0]).__name__))

        limit = self.shape[dim]
        if not all(0 <= index < limit for index in indices):
            raise KMAccessError('Invalid index method/indices for kernel matrix!\\n'
"""),
 (B, """        # removing duplicates and sorting
        indices = sorted(list(set(indices)))

        if len(indices) == self.shape[dim]:
            are_all_selected = True

        return indices, are_all_selected
""", """        indices = sorted({index: None for index in indices})

        return indices, are_all_selected or len(indices) == limit
"""),
 (B, """        if are_all_selected_dim_one and are_all_selected_dim_two:
            return self._populate_fully(fill_lower_tri=True, dense_fmt=True)
        else:
            return self._compute_for_index_combinations(set_one, set_two)
""", """        if not (are_all_selected_dim_one and are_all_selected_dim_two):
            return self._compute_for_index_combinations(set_one, set_two)

        return self._populate_fully(dense_fmt=True, fill_lower_tri=True)
"""),
 # the matrix is computed by rows, in one pass
 (B, """                for ix_one in range(self.shape[0]): # number of rows!
                    for ix_two in range(ix_one, self.shape[1]): # from second sample!
                        full_km[ix_one, ix_two] = \\
                            self._eval_kernel(ix_one, ix_two)
            except Exception:
                raise RuntimeError('Unable to fully compute the kernel matrix!')
""", """                n_rows, n_cols = self.shape
                ix_one = 0
                while ix_one < n_rows:
                    row = [self._eval_kernel(ix_one, ix_two)
                           for ix_two in range(ix_one, n_cols)]
                    for offset, value in enumerate(row):
                        full_km[ix_one, ix_one + offset] = value
                    ix_one += 1
            except Exception as exc:
                raise RuntimeError('Unable to fully compute the kernel matrix!') from exc
"""),
 (B, """                if not self._two_samples and self.shape[0] == self.shape[1]:
                    full_km[ix_lower_tri] = full_km.T[ix_lower_tri]
                else:
                    # evaluating it for the lower triangle as well!
                    for ix_one, ix_two in zip(*ix_lower_tri):
                        full_km[ix_one, ix_two] = self._eval_kernel(ix_one, ix_two)
""", """                for ix_one, ix_two in zip(*ix_lower_tri):
                    if self._two_samples:
                        full_km[ix_one, ix_two] = self._eval_kernel(ix_one, ix_two)
                    else:
                        full_km[ix_one, ix_two] = full_km[ix_two, ix_one]
"""),
 (B, """        setattr(self, cached, full_km)
        if dense_fmt:
            self._lower_tri_km_filled = fill_lower_tri
            self._populated_fully = True

        return full_km
""", """        if dense_fmt:
            self._full_km = full_km
            self._lower_tri_km_filled = fill_lower_tri
            self._populated_fully = True
        else:
            self._sparse_km = full_km

        return full_km
"""),
 (B, """        self._KM = matrix
        self.num_samples = self._KM.shape[0]

        if name is None:
            self.name = 'Precomputed'
        else:
            self.name = str(name)
""", """        self.name = 'Precomputed' if name is None else str(name)
        self.num_samples = len(matrix)
        self._KM = matrix
"""),
 (B, """        if not hasattr(self, '_KM'):
            self._KM = np.full((self.num_samples, self.num_samples),
                               fill_value=self.const_value,
                               dtype=self.dtype)

        return self._KM
""", """        if '_KM' not in vars(self):
            matrix = np.empty(self.shape, dtype=self.dtype)
            matrix[...] = self.const_value
            self._KM = matrix

        return self._KM
"""),
 # sets
 (B, """        if not self._is_init and self._num_samples is None:
            self._num_samples = copy(KM.num_samples)
            self._is_init = True

        if self._num_samples != KM.num_samples:
            raise KMSetAdditionError('Dimension of this KM {} is incompatible '
                                     'with KMSet of {}! '
                                     ''.format(KM.num_samples, self.num_samples))

        self._km_set.append(KM)
""", """        size = KM.num_samples
        if self._is_init or self._num_samples is not None:
            if size != self._num_samples:
                raise KMSetAdditionError('Dimension of this KM {} is incompatible '
                                         'with KMSet of {}! '
                                         ''.format(size, self.num_samples))
        else:
            self._num_samples = copy(size)
            self._is_init = True

        self._km_set += [KM]
"""),
 (B, """        return (self._km_set[index].kernel for index in indices)
""", """        chosen = [self._km_set[index] for index in indices]

        return (km.kernel for km in chosen)
"""),
 (B, """        indices = np.array(indices, dtype='int64')

        if any(indices < 0) or any(indices >= self.size):
            raise IndexError(
""", """        indices = np.array(indices, dtype='int64')

        if not all((indices >= 0) & (indices < len(self._km_set))):
            raise IndexError(
"""),
 (B, """        for index in range(self.size):
            yield self._km_set[index]
""", """        members = tuple(self._km_set)
        return iter(members)
"""),
 (B, """        if attr_name is not None:
            for index in range(self.size):
                self._km_set[index].set_attr(attr_name, attr_value)
""", """        if attr_name is None:
            return

        for km in self._km_set:
            km.set_attr(attr_name, attr_value)
"""),
 (B, """        if any(km.num_samples != self.num_samples for km in another_km_set):
            raise KMSetAdditionError('Some members of the input KernelSet are not '
                                     'compatible in size (# samples)')

        for km in another_km_set:
            self.append(km)
""", """        members = [another_km_set[index] for index in range(another_km_set.size)]
        if {km.num_samples for km in members} - {self.num_samples}:
            raise KMSetAdditionError('Some members of the input KernelSet are not '
                                     'compatible in size (# samples)')
        self._km_set = self._km_set + members
        self._is_init = self._is_init or len(members) > 0
"""),
 (B, """        return [self._km_set[index].get_attr(name, value_if_not_found)
                for index in range(self.size)]
""", """        found = list()
        for km in self._km_set:
            found.append(km.get_attr(name, value_if_not_found))
        return found
"""),
 (B, """        KM = np.zeros((self.num_samples, self.num_samples))
        for weight, km in zip(self.weights, self.km_set):
            KM = KM + weight * km.full

        self.KM = KM
        self._is_fitted = True
""", """        from kernelmethods.operations import linear_combination
        self.KM = linear_combination(self.km_set, self.weights)
        self._is_fitted = True
"""),
 (B, """        if self._is_fitted:
            return self.KM
        else:
            raise ValueError('{} is not fitted yet!'.format(self.name))
""", """        if not self._is_fitted:
            raise ValueError('{} is not fitted yet!'.format(self.name))
        return self.KM
"""),
 # estimators
 (A, """        km = KernelMatrix(self.k_func, name='train_km',
                          normalized=self.normalized)
        km.attach_to(train_X)

        estimator, param_grid = get_estimator(self.learner_id)
        estimator.fit(X=km.full, y=train_y, sample_weight=sample_weight)

        fitted = dict(_train_X=train_X, _train_y=train_y, _km=km,
                      _estimator=estimator, param_grid=param_grid)
        if is_classifier(self):
            fitted['classes_'] = estimator.classes_

        # all at once: a failed fit must not leave parts of a new model behind
        vars(self).update(fitted)

        return self
""", """        estimator, param_grid = get_estimator(self.learner_id)
        km = self._training_km(train_X)
        estimator = estimator.fit(km.full, train_y, sample_weight=sample_weight)

        fitted = {'_km': km, '_estimator': estimator, 'param_grid': param_grid,
                  '_train_y': train_y, '_train_X': train_X}
        if is_classifier(self):
            fitted.update(classes_=estimator.classes_)
        self.__dict__.update(fitted)

        return self


    def _training_km(self, train_X):
        \"\"\"attached to the training data\"\"\"

        km = KernelMatrix(self.k_func, normalized=self.normalized, name='train_km')
        km.attach_to(train_X)
        return km
"""),
 (A, """        # not attaching opt_kernel_ itself, it must stay attached to the training data
        km = KernelMatrix(self.opt_kernel_.kernel, name='test_km',
                          normalized=self.opt_kernel_._keep_normed)

        # sample_one must be test data to get the right shape for sklearn X
        km.attach_to(sample_one=X, sample_two=self._train_X)
        test_train_KM = km.full
        predicted_y = super().predict(test_train_KM)

        # data type coversion is done in child class, esp. for classification
        # return np.asarray(predicted_y, dtype=np.intp)
        return predicted_y
""", """        best = self.opt_kernel_
        cross = KernelMatrix(best.kernel, normalized=best._keep_normed, name='test_km')
        cross.attach_to(X, sample_two=self._train_X)
        return super().predict(cross.full)
"""),
 (A, """        if isinstance(self.k_bucket, str):
            try:
                # using a new internal variable to retain user supplied param
                model._k_bucket = make_kernel_bucket(self.k_bucket)
            except Exception:
                raise ValueError('Input for k_func can only an instance of '
                                 'KernelBucket or a sampling strategy to generate '
                                 'one with make_kernel_bucket.'
                                 'sampling strategy must be one of {}'
                                 ''.format(cfg.kernel_bucket_strategies))
        elif isinstance(self.k_bucket, KernelBucket):
            model._k_bucket = deepcopy(self.k_bucket)
        else:
            raise ValueError('Input for k_func can only an instance of '
                             'KernelBucket or a sampling strategy to generate '
                             'one with make_kernel_bucket')

        model._train_X, model._train_y = check_X_y(X, y, y_numeric=True)
""", """        model._k_bucket = self._own_bucket()

        model._train_X, model._train_y = check_X_y(X, y, y_numeric=True)
"""),
 (A, """    def predict(self, X):
        \"\"\"
        Perform classification on samples in X.

        For an one-class model, +1 or -1 is returned.

        Parameters
        ----------
        X : {array-like, sparse matrix}, shape (n_samples, n_features)

        Returns
        -------
        y_pred : array, shape (n_samples,)
            Class labels for samples in X.
        \"\"\"

        if not hasattr(self, 'opt_kernel_'):
""", """    def _own_bucket(self):
        \"\"\"a bucket for this fit alone\"\"\"

        given = self.k_bucket
        if isinstance(given, KernelBucket):
            return deepcopy(given)
        if not isinstance(given, str):
            raise ValueError('Input for k_func can only an instance of '
                             'KernelBucket or a sampling strategy to generate '
                             'one with make_kernel_bucket')
        try:
            return make_kernel_bucket(given)
        except Exception:
            raise ValueError('Input for k_func can only an instance of '
                             'KernelBucket or a sampling strategy to generate '
                             'one with make_kernel_bucket.'
                             'sampling strategy must be one of {}'
                             ''.format(cfg.kernel_bucket_strategies))


    def predict(self, X):
        \"\"\"
        Perform classification on samples in X.

        For an one-class model, +1 or -1 is returned.

        Parameters
        ----------
        X : {array-like, sparse matrix}, shape (n_samples, n_features)

        Returns
        -------
        y_pred : array, shape (n_samples,)
            Class labels for samples in X.
        \"\"\"

        if not hasattr(self, 'opt_kernel_'):
"""),
 (A, """        for parameter, value in parameters.items():
            if parameter in ('k_func', 'learner_id', 'normalized'):
                setattr(self, parameter, value)
""", """        known = {name: parameters[name] for name in ('normalized', 'learner_id', 'k_func')
                 if name in parameters}
        vars(self).update(known)
"""),
 # ranking
 (K, """    # a kernel whose score could not be computed (NaN) must never be selected
    return kernel_bucket[np.nanargmax(metric)]
""", """    best = int(np.nanargmax(metric))
    return kernel_bucket[best]
"""),
 (K, """    target_kernel = np.outer(targets, targets)
    method_params.setdefault('value_if_zero_division', 0.0)
    # optimal kernel estimators pass it regardless of the ranking method
    method_params.pop('estimator_name', None)

    return np.array([
        alignment_centered(km.full, target_kernel, **method_params)
        for km in kernel_bucket
    ])
""", """    column = targets.reshape(-1, 1)
    target_kernel = column * column.T
    options = {'value_if_zero_division': 0.0, **method_params}
    options.pop('estimator_name', None)

    def score(km):
        return alignment_centered(km.full, target_kernel, **options)

    return np.array(list(map(score, kernel_bucket)))
"""),
 (S, """    num_kernels = k_bucket.size
    estimator = metric_func[metric]
    pairwise_metric = np.full((k_bucket.size, k_bucket.size), fill_value=np.nan)
    for idx_one in range(num_kernels):
        # kernel matrix is symmetric
        for idx_two in range(idx_one, num_kernels): # computing i,i as well to be consistent
            pairwise_metric[idx_one, idx_two] = estimator(k_bucket[idx_one].full,
                                                          k_bucket[idx_two].full)

        # not computing diagonal entries (can also be set to 1 for some metrics)

    # making it symmetric
    idx_lower_tri = np.tril_indices(num_kernels)
    pairwise_metric[idx_lower_tri] = pairwise_metric.T[idx_lower_tri]

    return pairwise_metric
""", """    estimator = metric_func[metric]
    matrices = [km.full for km in k_bucket]
    pairwise_metric = np.empty((len(matrices), len(matrices)))
    for idx_one, one in enumerate(matrices):
        for idx_two, two in enumerate(matrices[:idx_one + 1]):
            value = estimator(two, one)
            pairwise_metric[idx_one, idx_two] = pairwise_metric[idx_two, idx_one] = value

    return pairwise_metric
"""),
 (S, """    # as floats: products of small integers (e.g. int8 labels) would wrap around
    targets = np.array(targets, dtype=np.float64).reshape((-1, 1))  # row vector

    return targets.dot(targets.T)
""", """    targets = np.array(targets, dtype=float).ravel()

    return np.outer(targets, targets)
"""),
 # operations
 (O, """        diag_factor_xx = np.diagflat(1 / np.sqrt(diag_K_XX))
        diag_factor_yy = np.diagflat(1 / np.sqrt(diag_K_YY))
        # notice @ is matrix multiplication operator
        normed_km = diag_factor_xx @ cross_K_XY @ diag_factor_yy
""", """        factor_xx = 1 / np.sqrt(np.ravel(diag_K_XX))
        factor_yy = 1 / np.sqrt(np.ravel(diag_K_YY))
        normed_km = factor_xx[:, np.newaxis] * cross_K_XY * factor_yy[np.newaxis, :]
"""),
 (O, """    # in floats at least: products of small integers would wrap around
    dtype = np.result_type(A, B, np.float64)
    return np.sum(elem_wise_multiply(A, B, dtype=dtype), axis=None)
""", """    return np.dot(np.ravel(A).astype(float), np.ravel(B).astype(float))
"""),
 (O, """    if not centered_already:
        kC_one = center_km(km_one)
        kC_two = center_km(km_two)
    else:
        kC_one = km_one
        kC_two = km_two

""", """    kC_one, kC_two = km_one, km_two
    if not centered_already:
        kC_two, kC_one = center_km(kC_two), center_km(kC_one)

"""),
 # kernels
 (N, """        return np.exp(-self.gamma * np.linalg.norm(x - y, ord=2) ** 2)
""", """        diff = x - y
        return np.exp(-self.gamma * np.dot(diff, diff))
"""),
 (N, """        return x.dot(y.T)
""", """        return np.dot(x, y)
"""),
 (N, """        return np.exp(-self.gamma * np.sum(np.abs(x - y)))
""", """        distance = np.linalg.norm(x - y, ord=1)
        return np.exp(-self.gamma * distance)
"""),
 (U, """    if (not np.isfinite(matrix).all()) \\
        or (np.isnan(matrix).any()):
        return True
    else:
        return False
""", """    return not bool(np.all(np.isfinite(matrix)))
"""),
 (U, """    x = ensure_ndarray_1D(x, ensure_dtype)
    y = ensure_ndarray_1D(y, ensure_dtype)

    if x.size""", """    x, y = (ensure_ndarray_1D(vec, ensure_dtype) for vec in (x, y))

    if x.size"""),
]
