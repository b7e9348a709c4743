"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M, O, F, R, N, A, S, P, I = ('symfit/core/models.py', 'symfit/core/objectives.py',
    'symfit/core/fit.py', 'symfit/core/fit_results.py', 'symfit/core/minimizers.py',
    'symfit/core/argument.py', 'symfit/core/support.py', 'symfit/core/operators.py',
    'symfit/contrib/interactive_guess/interactive_guess.py')
props = []
def prop(id, title, statement, over, qtext, why, files, mech, state=()):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=mech, where=', '.join(files))]))
    if state:
        d['anchors']['state'] = [dict(name=n, meaning=m) for n, m in state]
    props.append(d)

prop('C01', 'Symbol roles and ordering of a model are determined by its definition',
 'For every mapping of variables to expressions, the independent variables are the non-parameter symbols that no component defines, the dependent variables are the defined ones no other component uses, the interdependent ones are defined and used, and the parameters are exactly those appearing in some expression. Each group is in alphabetical (code-point) order whatever the insertion order, every dependent variable has a standard-deviation companion named after it, and positional arguments are the independent variables followed by the parameters. Circular definitions and parameters used as defined quantities are refused.',
 ['programs'], 'every dictionary of components over any number of symbols, any dependency graph, any insertion order, any symbol names and any hash seed',
 'Tests use a handful of hand written models with one- or two-letter names and mostly one dependency layer.',
 [M, S, A], 'Topological sort of the connectivity mapping decides the roles; sorting by name decides order and signature.',
 [('model components', 'mapping from defined variable to expression'), ('roles', 'independent/dependent/interdependent/parameter partition')])
prop('C02', 'Calling a model evaluates every component, in dependency order',
 'Calling a symbolic model returns, for every component (interdependent ones included), the value of its expression at the given independent values and parameter values with every used component replaced by its own value, element-wise over array data of any shape. Positional, keyword and mixed calls agree; a missing, unknown or duplicate argument is refused. The output can be read by position, by attribute name, by variable and as a dictionary, all giving the same component, also after pickling.',
 ['programs', 'inputs'], 'all models, all admissible data shapes (scalars, vectors, matrices, different shapes per component), all parameter values and argument passing styles',
 'Tests evaluate a few models at a few points; a wrong evaluation order or broadcasting slip only shows for particular graphs and shapes.',
 [M, S], 'Components are turned into numeric functions and evaluated in topological order; ModelOutput packages them by variable.')
prop('C03', 'The Jacobian of a model is its total derivative in the parameters',
 'For every symbolic model, the evaluated Jacobian of each component at any point equals the total derivative of that component with respect to each model parameter, in parameter order, with the chain rule applied through interdependent components and zero for parameters the component does not depend on. The shape is parameters followed by the shape of the component. The symbolic Jacobian exposed by the model evaluates to the same numbers.',
 ['programs', 'inputs'], 'all differentiable symbolic models with any dependency depth, any parameter subset per component, any data shape',
 'Tests compare a few derivatives; chain-rule and ordering errors appear only in deep or uneven dependency graphs.',
 [M], 'A model of partial derivatives is built from the function form of the components.')
prop('C04', 'The Hessian of a model is its second total derivative in the parameters',
 'For every symbolic model with analytic second derivatives, the evaluated Hessian of each component equals the matrix of second total derivatives (chain rule through interdependent components included), symmetric and in parameter order on both axes, with zeros where there is no dependence. The symbolic Hessian exposed by the model evaluates to the same numbers.',
 ['programs', 'inputs'], 'all twice differentiable symbolic models, dependency graphs, data shapes and points',
 'Only a few Hessians are tested, mostly of single-component models.',
 [M], 'A model of second partial derivatives is built by differentiating the Jacobian model once more.')
prop('C05', 'Finite-difference Jacobians agree with the true derivative',
 'For models without analytic derivatives and for direct requests, the numerical Jacobian equals the true total derivative up to discretisation error for every component, parameter and data shape, including parameter values that are zero, tiny, negative or large. It has one block per component with parameters (in parameter order) along the first axis and leaves models, data and parameters untouched.',
 ['inputs', 'programs'], 'all models callable at the point, parameter magnitudes, signs, step sizes in the working range, data shapes differing between components',
 'Tests compare only a few well scaled points.',
 [M], 'Sixth order central differences with a step relative to the parameter value.')
prop('C06', 'Negating and comparing models',
 'The negation of any kind of model is a new model of the same kind, with the same parameters, variables and settings, whose dependent outputs (for differential equations: derivatives) have the opposite sign and whose interdependent components are unchanged; the original is untouched. Two symbolic models compare equal exactly when they define the same variables by expressions that expand to the same thing, in whichever direction they are compared; a model never equals something which is not a model.',
 ['programs'], 'all model kinds, dependency graphs and pairs of models',
 'Negation is tested on two models, equality on a couple of pairs.',
 [M], 'Each model kind builds a new instance from a copied component mapping.')
prop('C07', 'Constraints become models aligned with the fitted model',
 'An equality, greater-or-equal or less-or-equal relation becomes a scalar model that evaluates to left minus right for = and >=, and right minus left for <=, so it is zero or non-negative exactly when the relation holds; strict or other relations are refused. It takes exactly the parameters of the fitted model in the same order; when it mentions defined variables of the fitted model it contains those components and all they need, and nothing else. Relations with foreign parameters are refused.',
 ['programs', 'inputs'], 'all relations over parameters and variables of all fitted models',
 'A few constraints over simple models are tested, none with several interdependent layers and unrelated components.',
 [M, F], 'Constraint construction subtracts the sides, flips the sign of <=, pulls in dependencies and overrides the parameter list.')
prop('C08', 'ODE solutions are reported at exactly the requested times',
 'Calling a differential-equation model returns for every dependent variable one value per requested time, equal to the solution of the initial value problem at that time, in the order the times were given. This holds for times before, at and after the initial time, whether or not the initial time is among them, for single times, repeated times and unsorted times.',
 ['inputs', 'programs'], 'all initial value problems with smooth solutions, all finite sequences of requested times',
 'Tests use increasing grids and a few split grids around the initial time.',
 [M], 'The time axis is split at the initial time, integrated in both directions and rejoined.')
prop('C09', 'ODE initial conditions, parameters and settings are honoured',
 'Initial values given as numbers or as parameters are used for the matching dependent variable, parameter arguments reach the right place in the equations whatever their names, and the parameters of the model are the sorted union of those in the equations and in the initial values. Integrator settings given by the user are passed on, also after negation, pickling or fitting. A value requested at the initial time equals the initial condition.',
 ['programs', 'inputs'], 'all systems, assignments of initial values and integrator settings',
 'Tests have only a few systems, in which alphabetical order often coincides with definition order.',
 [M], 'Model parameters and initial-value parameters are collected separately and merged by name.')
prop('C10', 'Models made of Python callables behave like symbolic ones',
 'A model whose components are callables, or a mix of callables and expressions, with stated dependencies yields the same roles, ordering, outputs, fits, objectives and results as the symbolic model with the same meaning. Calling it passes each callable exactly the values of its declared dependencies, computed in dependency order.',
 ['programs', 'inputs'], 'all mixed models, dependency declarations, argument orders and values',
 'A few mixed models are tested.',
 [M, F], 'The user supplied connectivity is merged with the inferred one and drives evaluation.')
prop('C11', 'Data are bound to the variables they were given for',
 'Positional data are assigned to independent variables, then dependent variables, then standard deviations, alphabetically within each group; named data to the variable of that name; mixtures agree with the all-named form. Missing required, unknown or doubly assigned data are refused; sequences become arrays; data for constraint variables are bound too, and the bound values are element-wise what was supplied, for any shape and with explicitly missing (None) dependent components left out of the fit.',
 ['inputs', 'programs'], 'all models, data kinds and argument passing styles',
 'Tests use one or two binding styles per model.',
 [F], 'A signature built from the model variables binds the arguments, which are then re-keyed by variable.')
prop('C12', 'Standard deviations: defaults, broadcasting and interpretation',
 'A missing standard deviation counts as one, a scalar one applies to all points, and an array is used as given. When the user does not say how to interpret them, they are measurement errors if at least one was supplied and relative weights otherwise; an explicit choice by the user always wins. The data supplied by the caller are never modified.',
 ['inputs', 'configurations'], 'all combinations of supplied, scalar and omitted standard deviations over all components, and explicit choices',
 'A few combinations are tested.',
 [F], 'Constant sigmas are expanded per component and the flag is derived from what was supplied.')
prop('C13', 'Least-squares objective is half the weighted sum of squares, with derivatives',
 'For any model and data, the least-squares objective equals one half of the sum over all components with data and all their points of squared residual over squared standard deviation, optionally reported per component; its gradient and Hessian are the exact first and second derivatives of that number in the parameters. Components without data do not contribute.',
 ['inputs', 'programs'], 'all models, data shapes, weights, missing components and parameter values',
 'Checked in tests for a handful of models at a handful of points.',
 [O], 'Sum over components of broadcast residuals; derivatives from the model Jacobian and Hessian.')
prop('C14', 'Residual-vector objective and its Jacobian',
 'The residual-vector objective returns one value per data point whose square is the sum over components of squared residual over squared variance at that point, never negative; its Jacobian is the derivative of that vector in the parameters (zero where the residual vanishes), one row per data point and one column per parameter.',
 ['inputs', 'programs'], 'all models, data, weights and parameter values',
 'Only exercised through a few fits.',
 [O], 'Square root of the summed squared residuals and the quotient rule.')
prop('C15', 'Likelihood objective equals minus the log likelihood, with derivatives',
 'The likelihood objective equals minus the sum over components and points of the logarithm of the model density, and its gradient and Hessian are the exact first and second derivatives of that number in the parameters. Supplying data for the density itself is refused.',
 ['inputs', 'programs'], 'all positive models, data, and parameter values',
 'Tests check a couple of densities.',
 [O, F], 'Sum of logs; gradient and Hessian from model Jacobian and Hessian.')
prop('C16', 'Direct minimisation and user supplied objectives use the values as they are',
 'When the model itself is minimised, objective value, gradient and Hessian are those of the model at that point, only scalar models are accepted, and minimising the negation maximises it. A plain callable of the parameters given as objective is evaluated with every parameter passed by name, fixed ones at their fixed value, and the reported result is the one of that callable.',
 ['inputs', 'programs'], 'all scalar models and callables, all parameter orders and fixed subsets',
 'A few fixed examples.',
 [O, N, F], 'Wrapping of callables into numerical models and delegation to the model.')
prop('C17', 'Fixed parameters stay fixed and free ones keep their identity',
 'Whatever subset of parameters is fixed, minimisers receive initial values, bounds, gradients, Hessians, residual Jacobians and constraint derivatives for exactly the free parameters in model order, evaluation uses the current value of each fixed parameter, and results report every parameter under its own name with fixed ones at their value. Fixing a parameter at a value gives the same problem as substituting that value.',
 ['inputs', 'configurations', 'histories'], 'all subsets of fixed parameters, minimiser kinds, and histories of changing values and fixedness between runs',
 'Tests fix one parameter in a few fits.',
 [N, O, M], 'Masks by fixedness resize gradients/Hessians; results are merged from free optimum and fixed values.')
prop('C18', 'Bounds are passed on correctly and respected',
 'Minimisers that support bounds receive for each free parameter exactly its own lower and upper bound (none meaning unbounded), in parameter order, and no reported best-fit value of such a minimiser lies outside its bounds. Inconsistent bounds are refused when the parameter is made.',
 ['inputs', 'configurations'], 'all bound patterns, parameter orders, fixed subsets and bounded minimisers',
 'A few patterns are tested.',
 [N, A, M], 'Each minimiser converts (min, max) pairs to the form its optimiser expects.')
prop('C19', 'Constraints reach the optimiser unaltered and hold at the reported optimum',
 'Every constraint given to a fit reaches the optimiser with its own kind, value function, gradient and (where used) Hessian, each depending only on the free parameters and equal to those of the stated relation; no constraint is dropped, duplicated or mixed up with another. For problems with a unique constrained optimum the reported parameters are that optimum and satisfy all constraints within tolerance.',
 ['inputs', 'programs', 'configurations'], 'all lists of equality and inequality constraints over all constrained minimisers, with any subset of parameters fixed',
 'Tests have mostly one or two constraints and check only the final optimum.',
 [N, F, M], 'Constraint objectives are translated to dictionaries or constraint objects with derivative callbacks.')
prop('C20', 'Linear (weighted) least-squares fits return the exact optimum',
 'For a model linear in its parameters with a unique optimum, fitting returns the analytic (weighted, bounded, multi-component, shared-parameter) least-squares solution within tolerance, for every supported local minimiser and whatever the starting point, symbol names, data passing style or order of definition. For smooth nonlinear problems the returned point is stationary and no worse than the start.',
 ['inputs', 'programs', 'configurations'], 'all linear models, data sets, weights, bounds and minimisers',
 'Tests check a few data sets against stored numbers.',
 [F, N, O, M], 'Whole fitting chain.')
prop('C21', 'Objective and minimiser are selected by the stated rules',
 'Without explicit choice, a fit uses constrained minimisation if there are constraints, bounded minimisation if any parameter has a bound or is fixed, and unconstrained gradient minimisation otherwise; the objective is least squares when there are data for the model, the residual vector for the residual-based minimiser and the model itself when it is a scalar without independent variables and data. Explicit choices always win, and minimisers get analytic gradients and Hessians exactly when available.',
 ['configurations'], 'all combinations of model kind, bounds, fixedness, constraints, data and explicit choices',
 'A table of a few cases is tested.',
 [F, N], 'Selection code in the fit constructor.')
prop('C22', 'Running a fit has no hidden side effects and is repeatable',
 'Executing a fit never changes parameter values, bounds, fixedness, the data given by the user or the options passed by the user, and executing again from the same initial values gives the same result. Each execution starts from the parameter values current at that time, and results already returned are never changed by later executions, parameter changes or other fits sharing the same parameters or model.',
 ['histories'], 'all interleavings of creating fits, executing them, and changing parameter values and fixed values, over shared parameters',
 'Tests never interleave operations on shared objects.',
 [F, N, O], 'Live reading of parameter values; caches on objectives and minimisers.')
prop('C23', 'Chained minimisers hand over their results',
 'A chain of minimisers runs them in the given order, each starting from the free-parameter optimum of the previous one and the first from the current initial values; options given under a minimiser name (numbered when repeated) reach exactly that minimiser and unknown names are refused. The result is that of the last one, with iterations summed over those that report them.',
 ['configurations', 'inputs', 'histories'], 'all chains of any length with repetitions, fixed parameters, bounds, constraints and options',
 'Only two- and three-element chains without fixed parameters are tested.',
 [N, F], 'Chained execution passes next initial guesses and binds options by name.')
prop('C24', 'The covariance matrix is the inverse curvature at the optimum',
 'For least squares the reported covariance is the inverse of the Hessian of the objective at the reported optimum, multiplied by the residual variance per degree of freedom when the standard deviations are relative; for likelihoods it is the inverse Hessian. When second derivatives are unavailable the Gauss-Newton approximation is used, and no covariance is reported when it cannot be computed. Fixed parameters do not contribute: the free block equals that of the problem with them substituted, and their variance is zero.',
 ['inputs', 'programs', 'configurations'], 'all models, data, weights, interpretations of weights and fixed subsets',
 'Tests compare a few stored numbers; no test covers fixed parameters.',
 [F, O], 'Hessian evaluation and inversion after minimisation.')
prop('C25', 'Fit results are internally consistent',
 'Value, variance, standard deviation and covariance lookups return the entry of the named parameter (none when no covariance is available); the objective value is that at the reported parameters; chi squared, R squared, log likelihood and likelihood follow from it and the data by their definitions and exist exactly for the objectives they belong to. Status message, constraints and iteration count are those of the minimiser.',
 ['inputs', 'programs', 'configurations'], 'all fits, minimisers and objectives',
 'A few results are compared with stored numbers.',
 [R, N, F], 'The result object combines minimiser output, objective and model.')
prop('C26', 'Pickling preserves meaning',
 'Parameters, variables, models (symbolic, constraint, numerical and differential-equation), model outputs, objectives, fits, minimisers and results that are pickled and restored, in the same or in a fresh interpreter, behave like the originals: same symbols and attributes, same values on every call, same fit from the same start, same results. Objects in use elsewhere are not disturbed.',
 ['programs', 'histories'], 'all picklable objects at all points of their life (before/after caching, before/after execution)',
 'Tests pickle a few fresh objects in one process, where symbol caching hides loss of state.',
 [A, M, O, N, R], 'Custom state methods on each class.')
prop('C27', 'The interactive guess keeps sliders, parameters and plots in step',
 'After construction and after every slider movement, each parameter of the model has the value of its own slider and every plotted line shows the model evaluated with those values at the plotted points; slider ranges follow the parameter bounds or the defaults derived from the value. A fit made afterwards starts from those values.',
 ['histories'], 'all sequences of slider movements over all models and projections',
 'Tests move one slider in a few plots.',
 [I], 'Slider callback copies all slider values into parameters and redraws each projection.')
prop('C28', 'Parameters and variables are made as specified',
 'Parameters carry the value, bounds and fixedness given at construction (defaults: value one, unbounded, free), are compared and hashed consistently, and lower bound above upper bound is refused unless the parameter is fixed. Creating several at once assigns scalar attributes to all and sequences element-wise, refusing sequences of wrong length, with exactly the same validation as creating them one by one. Unnamed symbols get distinct names.',
 ['inputs', 'histories'], 'all attribute combinations, numbers of symbols and creation orders',
 'A few combinations are tested.',
 [A, S], 'Constructor and bulk-construction helper.')
prop('C29', 'Expressions can be called directly',
 'Calling any expression with values evaluates it: positional values go to variables in alphabetical order followed by parameters in alphabetical order, keywords go by name, irrelevant keywords are ignored and missing ones refused. The result equals mathematical evaluation of the expression, element-wise for arrays.',
 ['programs', 'inputs'], 'all expressions over variables and parameters, argument styles and shapes',
 'A few calls are tested.',
 [P, S], 'A call operator on expressions builds a function and binds arguments by name.')
prop('C30', 'Cached attributes compute once per object and can be reset',
 'A cached attribute is computed at most once per object until it is deleted, returns the same object each time, is independent between objects and between attributes, is recomputed after deletion, refuses assignment, and an exception during computation leaves nothing cached. Deleting an attribute that was never computed is harmless.',
 ['histories'], 'all sequences of reading, deleting and assigning over several objects and attributes',
 'One short sequence is tested.',
 [S], 'Descriptor storing the value on the instance.')
prop('C31', 'Global minimisers use the same problem and hand it to their local steps',
 'The global minimisers search with the objective, bounds and free parameters of the problem; basin hopping gives its local minimiser the method, gradient, bounds and constraints of the problem unless the user overrides them, starts from the current initial values, and results are packaged like those of local minimisers. Options reach the optimiser unchanged and nothing leaks from one fit to the next.',
 ['configurations', 'histories'], 'all combinations of bounds, fixedness, constraints, local minimisers, options and sequences of fits',
 'Tests run a few seeded searches.',
 [N, F], 'Local-minimiser settings are translated to keyword arguments of the global optimiser.')
prop('C32', 'Library distributions are the densities they are named after',
 'The Gaussian, bivariate Gaussian and exponential expressions evaluate to the textbook density at every point of their domain and every admissible parameter value (positive widths and rates, correlation between -1 and 1), and their derivatives are the derivatives of that density.',
 ['inputs'], 'all points and admissible parameter values',
 'Tests check one likelihood fit of each.',
 ['symfit/distributions.py'], 'Closed-form sympy expressions.')
prop('C33', 'Text renderings of models and results are faithful',
 'The printed form of a model lists every component with its own variables, parameters and expression, and the printed form of a fit result lists every parameter with its value and standard deviation, the status, iteration count, goodness-of-fit values and the value of every constraint.',
 ['programs', 'configurations'], 'all models and results',
 'Tests only check that printing does not crash.',
 [M, R], 'String templates over the model mapping and result attributes.')
prop('C34', 'Matrix models evaluate to the matrices they denote',
 'A CallableModel over matrix symbols evaluates every component to the value of its matrix expression: sums, products, transposes, inverses, powers, Hadamard products and powers, elementwise functions, entries and sums over indices, however nested, with roles, argument order and binding as for scalar models. Objectives, constraints and fits on such models use exactly those values.',
 ['programs', 'inputs'], 'all matrix expressions of compatible shapes over matrix-valued variables, parameters and interdependent components',
 'Tests fit two or three matrix models; products of compound matrix expressions and deep nesting are not tested.',
 ['symfit/core/printing.py', S, M], 'A custom numpy printer turns matrix nodes into numpy code, whose grouping must match the tree.')
prop('C35', 'Numerical models and objectives are equal only when they mean the same',
 'Objectives compare equal exactly when they are of the same class and have equal models and the same data: the same variables with data, the same shapes and the same numbers (up to rounding). Models with callable components compare equal when they define the same variables with the same callables and expressions, and unequal when a component or what it depends on differs; a callable never equals an expression. Comparing works in both directions, with == and !=, between all kinds of models and objectives and with anything else, without raising, and also between restored copies.',
 ['programs', 'inputs'], 'all pairs of objectives and of models, data of any shapes, present or absent, and pickled copies',
 'Tests compare a few objectives with themselves and with their pickled copies, never with data of other shapes.',
 [O, M], 'Equality operators comparing class, model and the data mapping element by element.')
if __name__ == '__main__':
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in props:
            f.write(json.dumps(p) + '\n')
    print(len(props))
