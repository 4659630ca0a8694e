import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
B='kernelmethods/base.py';A='kernelmethods/algorithms.py';O='kernelmethods/operations.py';R='kernelmethods/ranking.py';S='kernelmethods/sampling.py';NK='kernelmethods/numeric_kernels.py';U='kernelmethods/utils.py'
p('C01','Every read of a kernel matrix is right, whatever was read before it',
 'Once a kernel matrix is attached to one sample or to a pair of samples, every way of reading it (single elements, linear index, rows and sub-blocks, the whole matrix by slicing, dense or sparse, the diagonal, the normalized and the centered matrix, the Frobenius norm, the sizes) gives exactly what applying the kernel to the attached samples gives, in the documented form (dense arrays, except the sparse upper triangle of a non-normalized matrix). The answer never depends on which reads, valid or refused, were made before or in what order. Reads before any attachment, and invalid reads, are refused with an exception.',
 ['histories','inputs','configurations'],'every sequence of reads on a one- or two-sample kernel matrix, every shape (1xN, square, tall, wide), normalized or not, any kernel and data type',
 'the tests read each view once, on one fresh matrix, and mostly check shapes; nothing reads one view after another, and no value is compared for sub-blocks, sparse, centered or normalized views',
 [B,O],[('lazy element cache and full-matrix cache',B+': KernelMatrix._eval_kernel, _populate_fully'),('view properties',B+': full, full_sparse, normed_km, centered, frob_norm, diagonal, __getitem__')],
 [('_KM','cache of evaluated elements',B),('_full_km','cache of the full matrix',B),('_normed_km/_centered/_frob_norm','derived caches',B)],
 ['KernelMatrix public properties and indexing'])
p('C02','Re-attaching a kernel matrix leaves nothing of earlier samples observable',
 'After a kernel matrix (alone, or as a member of a kernel set) is attached to a new sample or pair of samples, every value, size, norm, derived matrix and description read from it belongs to the new attachment only, and all user-defined attributes set before are gone. This holds for any number of re-attachments in any order of shapes and kinds, including the same array object with new contents, and whatever was computed in between. Kernel matrices that share a kernel function or a sample never influence each other.',
 ['histories','inputs'],'every history of attachments (one-sample, two-sample, same or different shape, same buffer reused), reads and attribute changes, interleaved over several kernel matrices',
 'one test re-attaches the same sample once and looks at private flags; no test re-attaches after the derived matrices were computed, changes kind or size, or compares values',
 [B],[('reset of every cache and attribute on attach',B+': KernelMatrix.attach_to, _reset'),('set-level attach',B+': KernelSet.attach_to')],
 [('_attr','user attributes, per attachment',B)],['KernelMatrix.attach_to followed by any read','KernelMatrix.attributes/get_attr'])
p('C03','A failed or interrupted read never poisons later reads',
 'If the kernel function raises, an allocation fails, a warning is turned into an error, or the user interrupts while a kernel matrix is being read, that read raises, and every later read either raises for a new reason of its own or returns exactly the right values: never uninitialised, partial or stale numbers. Once the cause is gone, repeating the read succeeds without re-attaching.',
 ['fault_sequences','histories','crash_points'],'every read, every kernel evaluation or interruptible point inside it at which it can be cut short, every kind of failure, and every continuation',
 'no test makes a kernel function fail or interrupts a computation',
 [B,O],[('results become visible only when complete',B+': KernelMatrix._populate_fully, normalize, center')],
 [('_populated_fully/_is_normed/_is_centered','which caches are valid',B)],['reads following a read that raised'])
p('C04','A rejected attachment changes nothing',
 'If attaching a kernel matrix or a kernel set to a sample is refused (mismatched dimensions, wrong number of samples, wrong number of axes, a member that can not be attached), the matrix or the whole set keeps exactly the samples, sizes, values and attributes it had before. In particular no member of a set is left attached to a different sample than the others, and a matrix never mixes rows of an old and a new sample.',
 ['histories','fault_sequences','inputs'],'every attachment history with refused attachments at any position, one- or two-sample, for single matrices and sets',
 'the tests check that the refusal is raised, never what the object is afterwards',
 [B],[('validation before assignment',B+': KernelMatrix.attach_to, KernelSet.attach_to')],
 [('_sample/_sample_two/shape','current attachment',B)],['reads after attach_to raised'])
p('C05','Concurrent readers of kernel matrices all get right values',
 'When several threads read the same attached kernel matrix at the same time, the same or different parts of it and through any views, each read returns exactly the values a lone reader would get, and the matrix is right for every later read. The same holds when one of the threads fails or is interrupted, and when threads work on separate kernel matrices that share kernel functions and samples.',
 ['schedules','fault_sequences'],'every interleaving of two to four reading threads at the points where the interpreter can switch threads, with and without a failure in one of them',
 'the test suite is single-threaded; the documentation promises parallel computation of different parts of a kernel matrix',
 [B,NK,'docs/kernel_matrix.rst'],[('idempotent evaluation, publish-when-complete',B+': KernelMatrix._eval_kernel, _populate_fully, normalize, center')],
 [('_KM','element cache shared by threads',B),('_full_km','full-matrix cache shared by threads',B)],['values returned to each thread'])
p('C06','Results already handed out, and the caller\'s inputs, are never changed',
 'An array or matrix that a kernel matrix, kernel set or composite kernel has handed to the caller keeps its contents whatever the library is asked to do afterwards (other reads, normalization, centering, re-attachment, refitting, failed operations). The library never modifies the samples, weights, targets or precomputed matrices that the caller passes in.',
 ['histories','fault_sequences'],'every history of reads, re-attachments, combinations and fits, with the caller holding every earlier result and input',
 'no test holds a result across a later operation or compares inputs before and after',
 [B,O,A,R],[('caches are replaced, not edited, after being exposed',B+': KernelMatrix._populate_fully, normalize, center'),('pure operations',O)],
 [],['arrays returned earlier; arrays passed in'])
p('C07','Kernel evaluations are lazy: only what is read, each pair at most once',
 'Reading part of a kernel matrix evaluates the kernel function for the requested pairs only, and for one attachment no pair (unordered for one sample) is ever successfully evaluated twice, however many views are read in whatever order, and even if evaluations failed in between. Normalizing a two-sample matrix adds only the self-similarities of the two samples.',
 ['histories','fault_sequences'],'every history of partial and full reads, with evaluation failures at any position, on one- and two-sample matrices',
 'one test counts evaluations of a single full read through a private counter; no order of partial reads and no failure is exercised',
 [B,'docs/kernel_matrix.rst'],[('element cache keyed by ordered pair',B+': KernelMatrix._eval_kernel'),('full selection goes through the cache',B+': __getitem__, _populate_fully')],
 [('_KM','element cache',B)],['calls received by the kernel function'])
p('C08','A kernel set stays consistent through any history of additions',
 'A kernel set always holds exactly the kernel matrices that were accepted, in the order of their addition, all with the number of samples the set reports; size, iteration, indexing, take, the kernel functions and the per-member attributes all agree with that order. An addition, extension, selection or attribute change that is refused leaves the set as it was, and one that is interrupted leaves a prefix of its effect, never a hole, a duplicate or a foreign-sized member.',
 ['histories','fault_sequences'],'every history of append, extend, take, attach, index, iterate and attribute operations, valid and invalid, with interruptions at any point',
 'the tests build one set and call each method once',
 [B],[('compatibility check before addition',B+': KernelSet.append, extend'),('index validation',B+': _check_indices, __getitem__')],
 [('_km_set','ordered members',B),('_num_samples','common size',B)],['KernelSet public methods'])
p('C09','Composite kernels are always whole combinations of their members',
 'Sum, product, average and weighted-average kernels, and the linear combination of a set, equal the stated entry-wise combination of all the members\' matrices at the time they were fitted, with the weights given. A fit that fails or is interrupted never leaves a partial combination readable: the composite keeps its previous complete result or refuses to be read. A reader in another thread never sees a partially accumulated matrix.',
 ['fault_sequences','histories','schedules'],'every set, weights and history of fits, refits, re-attachments and reads, a failure or interruption at any point of a fit, and every interleaving of a refit with readers',
 'the tests fit each composite once and only check that the attribute exists',
 [B,O],[('accumulation then publication',B+': SumKernel.fit, ProductKernel.fit, AverageKernel.fit, WeightedAverageKernel.fit'),('linear_combination',O)],
 [('KM/_is_fitted','composite result',B)],['composite_KM, full, linear_combination'])
p('C10','Predictions always come from one completely fitted model',
 'After any history of successful, failed and interrupted fits and of parameter changes, predicting with a kernel machine or optimal-kernel estimator either raises or returns exactly the predictions of one complete fit: kernel, normalization, training data and targets all from the same fit call, the last that completed. An estimator that never completed a fit refuses to predict.',
 ['fault_sequences','histories','crash_points'],'every sequence of fit, failing fit (kernel error at any evaluation, bad data or labels, interruption at any point), set_params and predict, for all four estimator classes',
 'the tests fit once on good data and check the shape of the predictions',
 [A],[('fitted state replaced only after a successful fit',A+': BaseKernelMachine.fit/predict, BaseOptimalKernelMachine.fit/predict')],
 [('_train_X/_train_y/_km/_estimator/opt_kernel_','fitted model',A)],['predict'])
p('C11','Prediction is read-only, repeatable and safe to run concurrently',
 'For a fitted kernel machine or optimal-kernel estimator, the prediction for given data depends only on the fitted model and that data: not on earlier predictions (successful, failed or interrupted), on other estimators sharing its kernel function or kernel bucket, or on predictions running at the same time in other threads. Predicting changes nothing in the fitted model: the selected kernel stays attached to the training data.',
 ['schedules','histories','fault_sequences'],'every interleaving of two or three predicting threads on one estimator, and every history of predictions on several estimators',
 'the tests predict once, in one thread',
 [A],[('test kernel matrix per prediction',A+': BaseKernelMachine.predict, BaseOptimalKernelMachine.predict')],
 [('_km/opt_kernel_','kernel matrices held by the estimator',A)],['predict, opt_kernel_'])
p('C12','Kernel ranking and selection depend only on kernels, sample and targets',
 'Ranking a bucket gives one score per kernel in bucket order, computed from that kernel\'s matrix on the attached sample and the targets (centered alignment with the target kernel, or cross-validated performance rescaled to 0-100), and the selected kernel is one with the highest score, attached to the given sample; a kernel whose score can not be computed is never preferred to one whose score can. The outcome is the same whatever the bucket was used for before (on samples of the same size), including failed and interrupted rankings. Optimal-kernel estimators work with every ranking method and never alter the bucket they were given.',
 ['histories','fault_sequences','configurations'],'every bucket, sample, targets and ranking method, after any history of attachments, rankings, kernel failures, numerical failures (NaN, Inf) and interruptions',
 'the test calls alignment ranking once with constant targets, where every score is degenerate; selection is only reached with a one-kernel bucket',
 [R,S,A],[('ranking',R+': rank_kernels, alignment_ranking, CV_ranking, find_optimal_kernel'),('bucket copied by estimators',A+': BaseOptimalKernelMachine.fit')],
 [],['rank_kernels, find_optimal_kernel, opt_kernel_'])
p('C13','Results do not depend on, or reset, the global random state',
 'Whatever the state of the global random generators, and whatever else draws from or reseeds them while the library runs, kernel matrices, rankings, the selected kernel, fitted models and predictions for given inputs are the same, and the validity check accepts the positive-semidefinite kernels and rejects clearly invalid ones. The library never resets the global generators to a fixed state.',
 ['schedules','inputs','histories'],'every initial state of the global generators and every placement of foreign draws and reseeds during the calls',
 'the test runner fixes the global seed before each test, so no other state is ever seen',
 [A,R,B],[('predictions and cross-validated scores that use no randomness',R+': CV_ranking, get_estimator'),('random sample only inside the validity check',B+': BaseKernelFunction.is_psd')],
 [],['rank_kernels, find_optimal_kernel, fit/predict, is_psd'])
p('C14','A user interrupt always reaches the caller',
 'If the user interrupts (KeyboardInterrupt) or the program asks to exit (SystemExit) at any point inside any library operation, that very exception leaves the operation: it is never swallowed, replaced by another error, or turned into a skipped kernel, a verdict or a warning.',
 ['crash_points','fault_sequences'],'every public operation and every interruptible point inside it',
 'no test delivers an interrupt',
 [B,S,O,A],[('error handlers limited to errors',B+': _populate_fully; '+S+': add_parametrized_kernels; '+O+': is_positive_semidefinite; '+A+': BaseOptimalKernelMachine.fit')],
 [],['the exception leaving the call'])
p('C15','Copies and pickles restore an equivalent, independent object',
 'At any point of its history a kernel matrix, kernel set, bucket, composite kernel or estimator can be deep-copied or pickled; what is restored, also after the original is lost or changed, answers every read, attribute query and prediction as the original did at that moment, without a new attachment or fit. From then on the original and the copy are independent.',
 ['crash_points','histories'],'every history, a checkpoint at any position in it (also right after a failed or interrupted operation), a crash that loses everything but the checkpoint, and every continuation',
 'no test pickles or copies anything; scikit-learn tools and the optimal-kernel estimators rely on it',
 [B,S,A],[('plain attribute state, no locks or handles',B+': KernelMatrix, KernelSet'),('deepcopy of the bucket',A+': BaseOptimalKernelMachine.fit')],
 [],['copy.deepcopy, pickle, sklearn.clone'])
p('C16','The PSD check never certifies a matrix when its computation fails',
 'Checking a matrix (or a kernel) for positive semi-definiteness answers True only if the eigenvalue computation completed with usable numbers that are all non-negative within the tolerance. If the eigenvalue computation fails in any way (no convergence, invalid or non-finite input, NaN results, no memory) the answer is False, not True and not an exception.',
 ['fault_sequences','inputs'],'every matrix and every failure of the eigenvalue computation: an error of any kind or NaN results',
 'the code itself notes that the failure branch is not testable; no failure is injected',
 [O,B],[('failure branches',O+': is_positive_semidefinite'),('kernel-level check',B+': BaseKernelFunction.is_psd')],
 [],['is_PSD, BaseKernelFunction.is_psd'])
p('C17','One bad candidate never spoils the construction of a kernel bucket',
 'When some parameter values can not be turned into kernels (the kernel refuses the value or fails while being built), the bucket contains exactly the kernels of all the other values, in the order given, each once, with its requested parameter value and normalization, and one warning is issued per skipped value. A later retry with the failing values adds them. An addition refused as a whole changes nothing.',
 ['fault_sequences','histories','inputs'],'every list of parameter values, every pattern of failing values and kernel constructions, and every order of additions',
 'the tests only use values that all fail or all succeed',
 [S],[('skip-and-warn loop',S+': KernelBucket.add_parametrized_kernels'),('strategies',S+': make_kernel_bucket')],
 [],['bucket contents and warnings'])
p('C18','Non-finite kernel values are always announced, never hidden or altered',
 'If a kernel evaluation yields NaN or an infinity, then obtaining the whole matrix (dense, sparse, by slicing, normalized or centered) still succeeds, shows every other raw value unchanged, and a warning of the library\'s own kind is issued no later than the first time in that attachment that a whole matrix with such a value is handed out. No such warning is issued when all values are finite.',
 ['fault_sequences','histories','inputs'],'every kernel kind, shape and view, any evaluation turning non-finite at any time',
 'the test meant for this is an empty function',
 [B,O,U],[('contains_nan_inf checks and warnings',B+': _populate_fully, normalize'),('helper',U+': contains_nan_inf')],
 [],['warnings issued; values returned'])
p('C19','Kernel functions are symmetric and follow their formulas',
 'Every predefined kernel function returns, for any two valid vectors, the value of its documented formula, is symmetric in its arguments, and (except the sigmoid and Hadamard kernels) produces positive semi-definite matrices.',
 ['inputs'],'every pair of valid vectors and every parameter value','the tests sample a few random vectors per kernel',
 [NK,'kernelmethods/categorical.py'],[('kernel formulas',NK)])
p('C20','Normalization, centering and alignment obey their definitions',
 'On any valid matrix, cosine normalization gives a unit diagonal and entries bounded by one, centering gives zero row and column sums, and the centered alignment lies in [-1, 1] and is 1 for a matrix with itself.',
 ['inputs'],'every valid kernel matrix','the tests check shapes of a few random matrices',
 [O],[('operations',O+': normalize_km, normalize_km_2sample, center_km, alignment_centered')])
p('C21','Constant and precomputed matrices behave as the matrices they wrap',
 'A precomputed kernel matrix accepts exactly the real symmetric 2D matrices and reads back the same values; a constant kernel matrix behaves as a square matrix of the given size filled with its constant in the requested type. This holds for every read (whole matrix, diagonal, elements, blocks, sizes, description) in any order, after refused, failed or interrupted constructions and reads, from several threads at once, and for precomputed matrices as members of kernel sets.',
 ['histories','fault_sequences','schedules'],'every matrix, constant, history of reads, faults inside them and interleaving of readers','the tests sample a few matrices and indices, one read each',
 [B],[('wrappers',B+': KernelMatrixPrecomputed, ConstantKernelMatrix')],[('_KM','lazily built constant matrix',B)],['full, diag, indexing, size, str'])
p('C22','Malformed vectors and samples are refused, valid ones are not altered',
 'Vectors and samples of the wrong dimensionality, unequal lengths or non-convertible types are refused with an error before any kernel is evaluated, and valid ones reach the kernel with their values unchanged.',
 ['inputs'],'every array-like input','the tests try a handful of malformed arrays',
 [U],[('validation helpers',U+': check_input_arrays, ensure_ndarray_1D, ensure_ndarray_2D')])
p('C23','Estimator parameters stay what the user set, and fits use exactly these',
 'After any history of constructions, parameter changes, successful, failed and interrupted fits, predictions, scorings, clones and cross-validations, get_params of a kernel machine or optimal-kernel estimator returns exactly the parameters last set by the user, under the documented names (the very kernel function or kernel bucket object, the very strings and numbers), and the bucket given is unaltered. A fit uses exactly these parameters: it gives the model a new estimator with these parameters gives. A clone (scikit-learn) has the same parameters, is not fitted, and neither it nor cross-validation with it affects the original.',
 ['histories','fault_sequences','crash_points'],'every history of parameter changes, fits, faults and clones, for every estimator and parameter',
 'tests construct each estimator with a few parameters and fit it once',
 [A,S],[('parameters',A+': BaseKernelMachine.__init__, get_params, set_params'),('optimal-kernel parameters',A+': OptimalKernelSVC, OptimalKernelSVR: get_params, set_params'),('fit',A+': BaseKernelMachine.fit, BaseOptimalKernelMachine.fit')],
 [],['get_params; predictions of refitted estimators and clones'])
p('C24','Separate estimators, buckets and composites can be built and fitted concurrently',
 'Threads that work at the same time on estimators, kernel buckets, kernel sets and composite kernels of their own, even if these share kernel functions, a kernel bucket given as a parameter, or the data arrays, each get exactly the models, predictions, rankings, selected kernels, buckets and combinations they would get alone, also when one of the threads fails or is interrupted. The shared bucket and arrays are unaltered.',
 ['schedules','fault_sequences'],'every interleaving of any such operations in several threads, with a fault in one of them',
 'the tests are single-threaded',
 [A,R,S,B],[('fit',A+': BaseKernelMachine.fit, BaseOptimalKernelMachine.fit'),('ranking',R+': find_optimal_kernel, rank_kernels, get_estimator'),('buckets',S+': KernelBucket.add_parametrized_kernels, make_kernel_bucket'),('composites',B+': SumKernel.fit, ProductKernel.fit, AverageKernel.fit')],
 [],['predictions, scores, matrices'])
p('C25','Pairwise similarities compare the current matrices of a set, whole and symmetric',
 'The pairwise similarity of a kernel set or bucket has one row and column per member, in set order, is symmetric, and each entry is the correlation (or the centered alignment) of the two members\' matrices on the sample they are attached to. This holds whatever was read, compared, re-attached or added before, after similarities that failed or were interrupted, and when several threads compare and read the same set; unknown metrics are refused, and comparing alters no member.',
 ['histories','fault_sequences','schedules'],'every set, history of comparisons, reads, re-attachments, faults at any point, and every interleaving of comparing and reading threads','the tests check the shape of one similarity matrix',
 [S,O],[('pairwise comparison',S+': pairwise_similarity, correlation_km'),('alignment',O+': alignment_centered')],
 [],['pairwise_similarity'])
p('C26','Separate operations do not influence each other or the process settings',
 'Whatever the library was used for before in the same process, including operations that were refused, failed or were interrupted, an operation on objects of its own gives the same results, library warnings and refusals as in a process that did nothing before, and what it returned stays the same afterwards. Every operation, however it ends, leaves the process-wide settings as they were: floating-point error handling, print options, warning filters, signal handlers, environment, and the default parameter ranges of the library.',
 ['histories','fault_sequences','crash_points'],'every history of operations of all kinds on separate objects, with a fault at any point of any of them','each test runs a few operations in one process, in a fixed order, and never looks at the settings',
 [B,A,O,R,S,'kernelmethods/config.py'],[('operations',O+': normalize_km, is_positive_semidefinite'),('buckets',S+': KernelBucket.add_parametrized_kernels, make_kernel_bucket'),('kernels from callables',B+': KernelFromCallable'),('defaults','kernelmethods/config.py')],
 [],['results of operations on new objects; numpy.geterr, numpy.get_printoptions, warnings.filters, os.environ'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
sc=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,sc)
    n=x['statement'].count('. ')+1
    if n>3: print(x['id'],'sentences',n)
