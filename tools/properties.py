import json
P=[]
def p(id,title,st,over,q,why,files,mech,obs,state=()):
    P.append({'id':id,'title':title,'statement':st,'quantifier':{'over':over,'text':q},'why_tests_cant':why,
      'anchors':{'files':files,'state':[dict(zip(('name','meaning','where'),s)) for s in state],
                 'mechanism':[dict(zip(('name','where'),m)) for m in mech],'observe_at':obs,'hook_needed':None}})
B='maxlike/maxlike_base.py'; L='maxlike/maxlike.py'; F=['maxlike/func/func.py','maxlike/func/func_base.py','maxlike/func/func_op.py','maxlike/func/func_proba.py','maxlike/func/matrix.py','maxlike/func/sigmoid.py','maxlike/func/tennis.py','maxlike/func/copula.py']
T='maxlike/tensor/tensor.py'; S='maxlike/skellam.py'; PP='maxlike/preprocessing.py'
ST=[('params','committed parameter values and masks','MaxLike.params'),('flat_hess_','hessian behind the error reports','MaxLike.flat_hess_'),('N, X, Z','observed data','installed by MaxLike.fit')]
FIT=('commit at the end of fit','MaxLike.fit')
p('C01','A failed operation leaves the estimator as it was',
 'When fit() (newton or broyden) or add_param() ends in an exception of any origin - no convergence, invalid arguments, an error raised by the model or a constraint, a singular system, failed allocation, arithmetic trap, interrupt, broken output stream - the parameters, their masks, std_error(), error_matrix() and fisher_matrix() read exactly as before the call. The data set in force afterwards is entirely the previous one or entirely the one passed to the failed call, never a mixture.',
 ['crash_points','fault_sequences','histories'],'for every history of operations, every fault kind and every point inside an operation at which it strikes',
 'Tests never make a fit fail and never look at the estimator afterwards; the guarantee is about every point of failure in every history.',
 [B],[FIT,('all data converted before it is installed','MaxLike.fit'),('Param is immutable and built before it is appended','Param, MaxLike.add_param')],
 ['get_params','std_error','error_matrix','fisher_matrix','bayesian_information_criterion','akaine_information_criterion'],ST)
p('C02','A clean retry after failures behaves as if they never happened',
 'After any sequence of failed fit() calls, a fit() with the full data and no fault has the same outcome (success or exception type), reaches the same parameters and needs about the same work as on an estimator that went through the same history without the failed calls. For broyden, whose first step may or may not reuse the last hessian, the result has to be that of a cold or of a warm start.',
 ['fault_sequences','histories','crash_points'],'for every history of fits and every sequence of transient faults inside them',
 'Tests fit each estimator once or twice without faults; recovery depends on what each failed attempt left behind.',
 [B],[FIT,('converged flag reset on failure','MaxLike.fit')],['fit','get_params'],ST)
p('C03','A successful fit is a constrained optimum, whatever came before',
 'Whenever a newton fit() from a guess that satisfies the constraints returns True, the parameters satisfy every constraint and are a stationary point of the penalised mean log-likelihood of the data passed, over the free parameters and the constraint surface, up to the requested tolerance (for broyden, started near the optimum, up to a looser one). This holds for each likelihood and each model that can be assembled, from cold and warm starts, after changes of data, resets, failures, changes of method and priors or constraints added to the estimator in use, and for parameters, constraints and regularizations declared in any order. On concave problems a newton fit from such a guess near the optimum does succeed. A fit with valid arguments that fails does so with ConvergenceError or a numerical error, never with an internal one.',
 ['histories','inputs','programs'],'for every well posed model, data set and history of fits (warm starts, data changes, method mixes)',
 'Tests compare a handful of first fits on fixed data sets with stored numbers; nothing samples models, declaration orders, warm starts or histories.',
 [B,L]+F[:6],[('newton_step','MaxLike.newton_step'),('flat_grad / flat_hess assembly','MaxLike.flat_grad, flat_hess'),('likelihood derivatives','grad_like, hess_like in maxlike.py'),('chain, product and sum rules','func_op.py, func.py')],['fit','get_params'],ST)
p('C04','A newton fit never accepts a worse or undefined point, in bounded work',
 'Through all iterations of a newton fit started from a feasible guess, no accepted point has a lower objective than the point it replaces (rounding aside) or an undefined one, also when model evaluations transiently return NaN or trap; a fit that returns True has a finite objective not below that of the start. A fit always ends, with a result or an exception, after at most max_steps iterations with a bounded number of model evaluations each.',
 ['fault_sequences','inputs','histories'],'for every transient of the evaluations and every problem, including badly conditioned and separable ones',
 'Tests only see smooth convergence; the line search, its rejections and the iteration bound are never exercised under bad evaluations.',
 [B],[('backtracking line search','MaxLike.fit (newton)'),('max_steps bound','MaxLike.fit')],['fit','verbose output','model evaluations seen by a component'],ST)
p('C05','Fixed parameters never move',
 'An entry declared fixed keeps, bit for bit, the value it was given, at every moment: in every model evaluation made during a fit, after successful and failed fits with either method, under faults and under concurrent reads. Masks and shapes of the parameters never change, and fixed entries are reported as masked, with zero rows and columns in fisher_matrix().',
 ['histories','fault_sequences','schedules'],'for every mask pattern, history, fault and interleaving',
 'Tests fix single entries in a few models and look only at free values of the result.',
 [B],[('_reshape_params re-inserts fixed values','MaxLike._reshape_array'),('Param masks','Param')],['get_params','parameters received by model components','fisher_matrix'],ST)
p('C06','Concurrent use gives each client the result of running alone',
 'Threads that share model objects, data arrays, constraints and regularizations, each with its own estimator (or calling copulas, root finders, preprocessing or tensor operations), obtain bit for bit the results they obtain running alone, under any interleaving. A client that fails or is hit by a fault does not disturb the others.',
 ['schedules','fault_sequences'],'for every interleaving of 2 to 4 clients and every fault in some of them',
 'Tests are single threaded; shared model objects are reused by users across estimators and threads.',
 [B,L,T]+F+[S,PP],[('model objects hold no per-call state','func package'),('tensors are never modified after construction','tensor.py')],['results of fit, model calls, copula, skellam and preprocessing functions'])
p('C07','Readers see complete parameter versions while a fit runs',
 'Whatever another thread or a callback of the model reads from an estimator during fit(), each get_params(), and each model evaluation on it, reflects one committed version of the whole parameter set: the one before the fit or its final result, never an intermediate iterate or a mix. Versions are observed in commit order.',
 ['schedules','fault_sequences'],'for every interleaving of one fitting client with readers, over sequences of fits, some failing',
 'Tests never read an estimator while it fits.',
 [B],[FIT,('params is replaced as a whole tuple','MaxLike.fit')],['get_params','AIC/BIC'],ST)
p('C08','Inputs and results are by value',
 'Arrays and lists handed to add_param(), fit(), add_constraint(), add_regularization() and the model constructors are neither modified nor frozen, and changing them after the call has no effect on the estimator; changing anything an accessor returned has no effect on the estimator or on later results. This also holds when the operation fails half way.',
 ['histories','fault_sequences'],'for every history of operations, mutations of inputs and outputs in between, and failures inside operations',
 'No test mutates an input or a result and looks again.',
 [B,T]+F[:3],[('copies on the way in','Param, MaxLike.fit, Tensor'),('copies on the way out','Param.as_masked')],['caller arrays','get_params','fit','std_error'],ST)
p('C09','Results depend on arguments only, and nothing global is left changed',
 'The outcome and the numbers of a fit do not depend on the state of the random generators, the verbosity, the order of keyword arguments, the (non-raising) floating point error mode, the output stream or anything other estimators did before in the process. No operation, completed or failed, changes the global random states, the floating point error mode, the print options or the warning filters.',
 ['configurations','histories','fault_sequences'],'for every perturbation of process environment and every unrelated prior activity, including failed operations',
 'Tests run each fit in one environment and never look at process globals.',
 [B,S,T]+F,[('no global state','whole package')],['fit','get_params','random.getstate','numpy.random.get_state','numpy.geterr'])
p('C10','Root finders answer correctly or raise, always in bounded work',
 'poisson_cdf_root, skellam_cdf_root and conditional_skellam_cdf_root end after a bounded number of evaluations for every target in their domain; what they return satisfies the equation up to the tolerance and the truncation error of the distribution functions (skellam: targets with a draw probability of 8 % or more). Under any failure or undefined value of an underlying evaluation they raise an exception instead of looping or returning a wrong answer, and calls made afterwards are unaffected.',
 ['inputs','fault_sequences','histories'],'for every target in the domain, tolerance and transient fault of the kernels they call',
 'Tests check a few targets; termination and answers under bad evaluations are not looked at.',
 [S],[('damped newton with iteration bound','skellam.py')],['return value or exception of the root finders'])
p('C11','Preprocessing is invariant to arrival order and conserves totals',
 'prepare_series and prepare_dataframe give the same arrays and axes for any arrival order of the same observations, every observation is counted in exactly one cell, totals are conserved, added axis labels only add zero cells, and merging batches equals preparing them at once. Inputs are never modified; a call that fails can be retried with the same result.',
 ['inputs','schedules','fault_sequences'],'for every set of observations, arrival order, batching and failure inside a call',
 'Tests feed sorted files; order, batching and failures are not sampled.',
 [PP],[('group, aggregate, reindex','preprocessing.py')],['returned arrays and axes'])
p('C12','Tensor expressions equal dense algebra and never change their operands',
 'Any history of tensor operations (arithmetic with tensors, arrays and scalars, by operators or numpy functions, transposes, summation, expansion, sums of diagonal terms over the same feature axes) (division by tensors without zeros) evaluates to the same numbers as dense array algebra over the declared axes, and leaves all operands, arguments and earlier results unchanged. An operation that fails or is interrupted has no effect, and concurrent operations on shared tensors do not affect each other.',
 ['histories','fault_sequences','schedules','programs'],'for every program of tensor operations, abort point and interleaving on shared tensors',
 'Tests check single operations of fixed shapes; sharing, aborts and long expressions are not covered.',
 [T],[('Tensor, GenericTensor operators','tensor.py')],['values of the result, operands before and after'])
p('C13','Model builders compose correctly through any history of calls and failures',
 'A function assembled by any sequence of Sum.add, Product.add, composition, scaling and shifting evaluates to the mathematical function of the terms whose add succeeded, with matching gradient and hessian through call, grad, hess and eval alike. A builder call that fails or is interrupted adds nothing, and adding terms to one function never changes its parts or other functions built from them. Arrays and lists given to a function are neither modified nor kept.',
 ['histories','fault_sequences','programs'],'for every expression tree, order of parameters, history of adds and fault inside them',
 'Tests assemble a few fixed functions with parameters in ascending order and never let an add fail.',
 F[:6],[('Sum.add / Product.add','func_op.py'),('chain rule','func.py')],['call, grad, hess, eval of the assembled function'])
p('C14','Reports describe the committed fit',
 'At every moment after a successful newton fit, std_error(), error_matrix() and fisher_matrix() are those of the hessian of the log-likelihood and constraints at the committed parameters, with fixed entries excluded, and AIC/BIC are those of the committed parameters and the data in force; repeated reads agree. Failed, interrupted or concurrent operations in between do not change this.',
 ['histories','fault_sequences','schedules'],'for every history of fits, failures and reads',
 'Tests compare stored standard errors right after one fit.',
 [B],[('flat_hess_ committed with params','MaxLike.fit'),('error_matrix, std_error, fisher_matrix','MaxLike')],['std_error','error_matrix','fisher_matrix','AIC','BIC'],ST)
p('C15','An error in user code always reaches the caller',
 'An exception raised by a model component, constraint, regularization or likelihood during a model evaluation, a derivative, a builder composition or a fit propagates to the caller (as itself or as the cause of another exception); no operation returns a result after one.',
 ['fault_sequences','crash_points'],'for every component, every exception type and every invocation at which it is raised',
 'No test has a component that raises.',
 [B]+F[:4],[('no blanket exception handlers','func package, MaxLike.fit')],['exception seen by the caller of fit, call, grad, hess, eval'])
NA='pure function of its input: no schedule, clock, fault, I/O or history in it, see DESIGN.md'
p('C16','Copulas are valid',
 'Every copula is grounded, has uniform margins and is 2-increasing for each admissible rho.',
 ['inputs'],'for every (u, v, rho)','Tests check grids of points.',[F[7]],[('copula classes','copula.py')],['copula values'])
p('C17','Distribution kernels are normalised',
 'Poisson, negative binomial, markov and tennis kernels give non-negative probabilities with the documented total mass.',
 ['inputs'],'for every parameter value and size','Tests check a few values.',F[3:7],[('kernels','func_proba.py, matrix.py, tennis.py')],['kernel values'])
p('C18','Analytic derivatives of the elementary functions are exact',
 'grad and hess of each elementary function are the derivatives of its value over its whole domain.',
 ['inputs'],'for every argument in the domain','Tests compare finite differences at fixed points.',F[:7],[('grad, hess','func package')],['grad, hess'])
p('C19','Skellam and Poisson distribution functions are accurate',
 'poisson_cdf, skellam_cdf and skellam_cdf_pair agree with the exact distribution functions, and their derivatives, up to the truncation tolerance.',
 ['inputs'],'for every rate, n and tolerance','Tests check a few values.',[S],[('truncated frames','skellam.py')],['returned values'])
open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__))),'properties.jsonl'),'w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P: assert len(x['title'])<=80,(x['title'],len(x['title']))
