From a03a19c9c140b3278ad394da960c946288d99fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:37 +0000
Subject: [PATCH 01/39] fix: print arguments by their name, also when it is the
 name of a sympy object

Names such as beta, gamma, zeta, N, S or Q were sympified by the printer, so
expressions containing them could not be evaluated.
---
 symfit/core/argument.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfit/core/argument.py b/symfit/core/argument.py
index ef0bba0..8e77120 100644
--- a/symfit/core/argument.py
+++ b/symfit/core/argument.py
@@ -73,7 +73,7 @@ class Argument(Symbol):
         return state
 
     def _sympystr(self, printer, *args, **kwargs):
-        return printer.doprint(self.name)
+        return self.name
 
     _lambdacode = _sympystr
     _numpycode = _sympystr
-- 
2.43.0


From 91c453fb307ad6e58fbc2763cd9cc093b1e4e1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:58 +0000
Subject: [PATCH 02/39] fix: derive the role of a variable from its use by the
 other components

Dependent variables which are not in the last layer of the topological sort were
taken for interdependent ones and constant components disappeared or made the
model fail.
---
 symfit/core/models.py | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/symfit/core/models.py b/symfit/core/models.py
index dbbe855..2a2b19e 100644
--- a/symfit/core/models.py
+++ b/symfit/core/models.py
@@ -322,25 +322,26 @@ class BaseModel(Mapping):
         sort_func = lambda symbol: symbol.name
         self.model_dict = OrderedDict(sorted(model_dict.items(),
                                              key=lambda i: sort_func(i[0])))
-        # Everything at the bottom of the toposort is independent, at the top
-        # dependent, and the rest interdependent.
-        ordered = list(toposort(self.connectivity_mapping))
-        independent = sorted(ordered.pop(0), key=sort_func)
-        self.dependent_vars = sorted(ordered.pop(-1), key=sort_func)
-        self.interdependent_vars = sorted(
-            [item for items in ordered for item in items],
-            key=sort_func
-        )
+        # Check that the components can be evaluated in some order, this raises
+        # an error in case of circular dependencies.
+        list(toposort(self.connectivity_mapping))
+        # Symbols which are not defined by this model are independent. The ones
+        # that are defined are dependent unless another component needs them.
+        # (Constant partial derivatives, as in jacobian models, have no role.)
+        used = set().union(*self.connectivity_mapping.values())
+        independent = sorted(used - set(self.model_dict), key=sort_func)
+        defined = [var for var in self.model_dict
+                   if self.connectivity_mapping[var]
+                   or not isinstance(var, sympy.Derivative)]
+        self.dependent_vars = [var for var in defined if var not in used]
+        self.interdependent_vars = [var for var in defined if var in used]
         # `independent` contains both params and vars, needs to be separated
         self.independent_vars = [s for s in independent if
-                                 not isinstance(s, Parameter) and not s in self]
+                                 not isinstance(s, Parameter)]
         self.params = [s for s in independent if isinstance(s, Parameter)]
 
         try:
-            assert not any(isinstance(var, Parameter)
-                           for var in self.dependent_vars)
-            assert not any(isinstance(var, Parameter)
-                           for var in self.interdependent_vars)
+            assert not any(isinstance(var, Parameter) for var in self.model_dict)
         except AssertionError:
             raise ModelError('`Parameter`\'s can not feature in the role '
                              'of `Variable`')
-- 
2.43.0


From fcdb9b8d0695ff018bef74de51abd3a550a599af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:58 +0000
Subject: [PATCH 03/39] fix: refuse models with a variable defined in terms of
 itself

---
 symfit/core/models.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/symfit/core/models.py b/symfit/core/models.py
index 2a2b19e..4a2529b 100644
--- a/symfit/core/models.py
+++ b/symfit/core/models.py
@@ -323,8 +323,12 @@ class BaseModel(Mapping):
         self.model_dict = OrderedDict(sorted(model_dict.items(),
                                              key=lambda i: sort_func(i[0])))
         # Check that the components can be evaluated in some order, this raises
-        # an error in case of circular dependencies.
+        # an error in case of circular dependencies. toposort ignores variables
+        # which depend on themselves.
         list(toposort(self.connectivity_mapping))
+        for var, dependencies in self.connectivity_mapping.items():
+            if var in dependencies:
+                raise ModelError('`{}` is defined in terms of itself.'.format(var))
         # Symbols which are not defined by this model are independent. The ones
         # that are defined are dependent unless another component needs them.
         # (Constant partial derivatives, as in jacobian models, have no role.)
-- 
2.43.0


From 98061283903472074f81238bebf2dffece7bac2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:58 +0000
Subject: [PATCH 04/39] fix: with_dependencies takes exactly the components
 which are needed

It took everything preceding the needed component in the topological order, which
included unrelated components and depended on the hash seed.
---
 symfit/core/models.py | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/symfit/core/models.py b/symfit/core/models.py
index 4a2529b..063c140 100644
--- a/symfit/core/models.py
+++ b/symfit/core/models.py
@@ -233,20 +233,19 @@ class BaseModel(Mapping):
             # This is the case for BaseNumericalModel's
             connectivity_mapping = init_kwargs.get('connectivity_mapping',
                                                    model.connectivity_mapping)
-            for var in model.independent_vars:
-                if var in dependency_model:
-                    # Add this var and all its dependencies.
-                    # Walk over all possible dependencies of this
-                    # variable until we no longer have dependencies.
-                    for symbol in dependency_model.ordered_symbols:
-                        # Not everything in ordered_symbols is a key of
-                        # model, think e.g. parameters
-                        if symbol in dependency_model:
-                            if symbol not in model_dict:
-                                model_dict[symbol] = dependency_model[symbol]
-                                connectivity_mapping[symbol] = dependency_model.connectivity_mapping[symbol]
-                        if symbol == var:
-                            break
+            # Add the components this model depends on, and all the components
+            # those depend on in turn.
+            needed = [var for var in model.independent_vars
+                      if var in dependency_model]
+            while needed:
+                symbol = needed.pop()
+                if symbol in model_dict:
+                    continue
+                model_dict[symbol] = dependency_model[symbol]
+                dependencies = dependency_model.connectivity_mapping[symbol]
+                connectivity_mapping[symbol] = dependencies
+                needed.extend(var for var in dependencies
+                              if var in dependency_model)
             # connectivity_mapping in init_kwargs has been updated if it was
             # present, since python is pass by reference. If it wasn't present,
             # we are dealing with a type of model that will build its own
-- 
2.43.0


From 75b669b431cace4d352848f62514eae3dee16c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:58 +0000
Subject: [PATCH 05/39] fix: apply the chain rule in the symbolic Hessian of
 interdependent models

---
 symfit/core/models.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/symfit/core/models.py b/symfit/core/models.py
index 063c140..ccfcfd2 100644
--- a/symfit/core/models.py
+++ b/symfit/core/models.py
@@ -928,8 +928,9 @@ class HessianModel(GradientModel):
             second order partial derivatives. Partial derivatives are taken with
             respect to the Parameter's, not the independent Variable's.
         """
-        return [[[sympy.diff(partial_dv, param) for param in self.params]
-                 for partial_dv in comp] for comp in self.jacobian]
+        return [[[self.hessian_model[D(var, param_1, param_2)]
+                  for param_2 in self.params]
+                 for param_1 in self.params] for var in self]
 
     def eval_hessian(self, *args, **kwargs):
         """
-- 
2.43.0


From 0b61cf89ef01b419fcd93795d4507c5c0ce34cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:59 +0000
Subject: [PATCH 06/39] fix: look up model output by variable

---
 symfit/core/models.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/symfit/core/models.py b/symfit/core/models.py
index ccfcfd2..5b05170 100644
--- a/symfit/core/models.py
+++ b/symfit/core/models.py
@@ -86,6 +86,8 @@ class ModelOutput(tuple):
         return self.output_dict[var]
 
     def __getitem__(self, key):
+        if isinstance(key, sympy.Basic) and key in self.output_dict:
+            return self.output_dict[key]
         return self.output[key]
 
     def __repr__(self):
-- 
2.43.0


From 00cc19d323eb94560c8bc10756bf453cd13a023c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:59 +0000
Subject: [PATCH 07/39] fix: apply the chain rule through any number of
 interdependent components

---
 symfit/core/models.py | 78 +++++++++++++++++--------------------------
 1 file changed, 31 insertions(+), 47 deletions(-)

diff --git a/symfit/core/models.py b/symfit/core/models.py
index 5b05170..b2fdc61 100644
--- a/symfit/core/models.py
+++ b/symfit/core/models.py
@@ -1262,71 +1262,54 @@ class ODEModel(BaseGradientModel):
         """
         return ModelOutput(self.keys(), self.eval_components(*args, **kwargs))
 
-def _partial_diff(var, *params):
+def _partial_diff(var, *params, ordered=False):
     """
     Sympy does not handle repeated partial derivation correctly, e.g.
     D(D(y, a), a) = D(y, a, a) but D(D(y, a), b) = 0.
-    Use this function instead to prevent evaluation to zero.
+    Use this function instead to prevent evaluation to zero. If ``ordered``, the
+    order of differentiation is a canonical one.
     """
     if isinstance(var, sympy.Derivative):
-        return sympy.Derivative(var.expr, *(var.variables + params))
+        params = var.variables + params
+        if ordered:
+            params = sorted(params, key=sympy.default_sort_key)
+        return sympy.Derivative(var.expr, *params)
     else:
         return D(var, *params)
 
-def _partial_subs(func, func2vars):
-    """
-    Partial-bug proof substitution. Works by making the substitutions on
-    the expression inside the derivative first, and then rebuilding the
-    derivative safely without evaluating it using `_partial_diff`.
-    """
-    if isinstance(func, sympy.Derivative):
-        new_func = func.expr.xreplace(func2vars)
-        new_variables = tuple(var.xreplace(func2vars)
-                              for var in func.variables)
-        return _partial_diff(new_func, *new_variables)
-    else:
-        return func.xreplace(func2vars)
-
-def jacobian_from_model(model, as_functions=False):
+def jacobian_from_model(model):
     """
     Build a :class:`~symfit.core.models.CallableModel` representing the Jacobian
      of ``model``.
 
     This function make sure the chain rule is correctly applied for
-    interdependent variables.
+    interdependent variables, however long the chain.
 
     :param model: Any symbolical model-type.
-    :param as_functions: If `True`, the result is returned using
-        :class:`sympy.core.function.Function` where needed, e.g.
-        ``{y(x, a): a * x}`` instead of ``{y: a * x}``.
     :return: :class:`~symfit.core.models.CallableModel` representing the Jacobian
-        of ``model``.
+        of ``model``, together with the components of ``model`` itself.
     """
-    # Inverse dict so we can turn functions back into vars in the end
-    functions_as_vars = dict((v, k) for k, v in model.vars_as_functions.items())
-    # Create the jacobian components. The `vars` here in the model_dict are
-    # always of the type D(y, a), but the righthand-side might still contain
-    # functions instead of vars depending on the value of `as_functions`.
     jac = {}
-    for func, expr in model.function_dict.items():
+    for var, expr in model.items():
+        # Other components this one depends on. These get a stand-in so partial
+        # derivatives with respect to them can be taken, even if the component
+        # is itself a derivative, which happens for the Hessian.
+        dummies = {dep: sympy.Dummy() for dep in model.connectivity_mapping[var]
+                   if dep in model.vars_as_functions}
+        expr = expr.xreplace(dummies)
         for param in model.params:
-            target = D(func, param)
             dfdp = expr.diff(param)
-            if as_functions:
-                jac[_partial_subs(target, functions_as_vars)] = dfdp
-            else:
-                # Turn Function objects back into Variables.
-                dfdp = dfdp.subs(functions_as_vars, evaluate=False)
-                jac[_partial_subs(target, functions_as_vars)] = dfdp
-    # Next lines are needed for the Hessian, where the components of model still
-    # contain functions instead of vars.
-    if as_functions:
-        jac.update(model)
-    else:
-        jac.update({y: expr.subs(functions_as_vars, evaluate=False)
-                    for y, expr in model.items()})
-    jacobian_model = CallableModel(jac)
-    return jacobian_model
+            for dep, dummy in dummies.items():
+                # The symbol might be a derivative of the actual component.
+                base = dep.expr if isinstance(dep, sympy.Derivative) else dep
+                if param in model.vars_as_functions[base].free_symbols:
+                    dfdp += expr.diff(dummy) * _partial_diff(dep, param,
+                                                             ordered=True)
+            jac[_partial_diff(var, param)] = dfdp.xreplace(
+                {dummy: dep for dep, dummy in dummies.items()}
+            )
+    jac.update(model)
+    return CallableModel(jac)
 
 def hessian_from_model(model):
     """
@@ -1340,5 +1323,6 @@ def hessian_from_model(model):
     :return: :class:`~symfit.core.models.CallableModel` representing the Hessian
         of ``model``.
     """
-    jac_model = jacobian_from_model(model, as_functions=True)
-    return jacobian_from_model(jac_model)
\ No newline at end of file
+    jac_model = jacobian_from_model(model)
+    jac_model.params = model.params
+    return jacobian_from_model(jac_model)
-- 
2.43.0


From e528c6aea51c69931699382996d3b9bcc9b221d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:51 +0000
Subject: [PATCH 08/39] fix: drop the rows and columns of fixed parameters from
 the Hessian

---
 symfit/core/minimizers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfit/core/minimizers.py b/symfit/core/minimizers.py
index ba79f6a..1ecd37e 100644
--- a/symfit/core/minimizers.py
+++ b/symfit/core/minimizers.py
@@ -187,7 +187,7 @@ class HessianMinimizer(GradientMinimizer):
             # Make two dimensional, corresponding to a scalar function.
             out = np.atleast_2d(np.squeeze(out))
             mask = [p not in self._fixed_params for p in self.parameters]
-            return np.atleast_2d(out[mask, mask])
+            return np.atleast_2d(out[np.ix_(mask, mask)])
         return resized
 
 
-- 
2.43.0


From 385982a0e265bc4355619b0dea688c780abc66fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:51 +0000
Subject: [PATCH 09/39] fix: give every constraint its own Hessian in
 TrustConstr

---
 symfit/core/minimizers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/symfit/core/minimizers.py b/symfit/core/minimizers.py
index 1ecd37e..bff086f 100644
--- a/symfit/core/minimizers.py
+++ b/symfit/core/minimizers.py
@@ -588,7 +588,9 @@ class TrustConstr(ScipyHessianMinimize, ScipyConstrainedMinimize, ScipyBoundedMi
             }
             # If None is given to NonlinearConstraint it'll throw a hissy fit.
             if con['hess'] is not None:
-                nonlinearconstr_kwargs['hess'] = lambda x, v: con['hess'](x) * v
+                nonlinearconstr_kwargs['hess'] = (
+                    lambda x, v, hess=con['hess']: hess(x) * v
+                )
             if con['jac'] is not None:
                 nonlinearconstr_kwargs['jac'] = con['jac']
             tc_con = NonlinearConstraint(**nonlinearconstr_kwargs)
-- 
2.43.0


From dd0529f55cef10925aac40225659ed8aa8e4256e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:51 +0000
Subject: [PATCH 10/39] fix: leave the options given by the user untouched

---
 symfit/core/minimizers.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/symfit/core/minimizers.py b/symfit/core/minimizers.py
index bff086f..1ac43ea 100644
--- a/symfit/core/minimizers.py
+++ b/symfit/core/minimizers.py
@@ -598,8 +598,7 @@ class TrustConstr(ScipyHessianMinimize, ScipyConstrainedMinimize, ScipyBoundedMi
         return out
 
     def execute(self, *, jacobian=None, hessian=None, options=None, **minimize_options):
-        if options is None:
-            options = {}
+        options = {} if options is None else dict(options)
         # Our Jacobians are dense, and apparently we need to explicitely
         # tell this.
         options['sparse_jacobian'] = False
@@ -719,8 +718,10 @@ class BasinHopping(ScipyMinimize, GlobalMinimizer):
             :func:`scipy.optimize.basinhopping`.
         :return: :class:`symfit.core.fit_results.FitResults`
         """
-        if 'minimizer_kwargs' not in minimize_options:
-            minimize_options['minimizer_kwargs'] = {}
+        # Work on a copy, these options belong to the caller.
+        minimize_options['minimizer_kwargs'] = dict(
+            minimize_options.get('minimizer_kwargs') or {}
+        )
 
         if 'method' not in minimize_options['minimizer_kwargs']:
             # If no minimizer was set by the user upon execute, use local_minimizer
-- 
2.43.0


From f574996f24d8db3840144f20dc182d0a4c3f37ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:51 +0000
Subject: [PATCH 11/39] fix: hand over only free parameters between chained
 minimizers

---
 symfit/core/minimizers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/symfit/core/minimizers.py b/symfit/core/minimizers.py
index 1ac43ea..c99d903 100644
--- a/symfit/core/minimizers.py
+++ b/symfit/core/minimizers.py
@@ -261,7 +261,8 @@ class ChainedMinimizer(BaseMinimizer):
         for minimizer, kwargs in zip(self.minimizers, bound_arguments.arguments.values()):
             minimizer.initial_guesses = next_guess
             ans = minimizer.execute(**kwargs)
-            next_guess = list(ans.params.values())
+            # Fixed parameters are not part of the guess.
+            next_guess = [ans.params[p.name] for p in self.params]
             answers.append(ans)
         final = answers[-1]
         # TODO: Compile all previous results in one, instead of just the
-- 
2.43.0


From 2ba275881ad0091d2432647b600f7d18640393e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:51 +0000
Subject: [PATCH 12/39] fix: chain minimizers which do not report a number of
 iterations

---
 symfit/core/minimizers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/symfit/core/minimizers.py b/symfit/core/minimizers.py
index c99d903..b082fc0 100644
--- a/symfit/core/minimizers.py
+++ b/symfit/core/minimizers.py
@@ -268,7 +268,8 @@ class ChainedMinimizer(BaseMinimizer):
         # TODO: Compile all previous results in one, instead of just the
         # number of function evaluations. But there's some code down the
         # line that expects scalars.
-        final.minimizer_output['nit'] = sum(ans.iterations for ans in answers)
+        final.minimizer_output['nit'] = sum(ans.iterations for ans in answers
+                                            if ans.iterations is not None)
         return final
 
     def _make_signature(self):
-- 
2.43.0


From a2465ba84615a510134bbe39efd61226f27c605b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:51 +0000
Subject: [PATCH 13/39] fix: use the current fixed parameters and their values
 in every execution

---
 symfit/core/minimizers.py | 15 ++++++++++-----
 symfit/core/objectives.py |  2 +-
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/symfit/core/minimizers.py b/symfit/core/minimizers.py
index b082fc0..1879c42 100644
--- a/symfit/core/minimizers.py
+++ b/symfit/core/minimizers.py
@@ -33,12 +33,17 @@ class BaseMinimizer(object):
         :param parameters: List of :class:`~symfit.core.argument.Parameter` instances
         """
         self.parameters = parameters
-        self._fixed_params = [p for p in parameters if p.fixed]
         self.objective = self._baseobjective_from_callable(objective)
 
         # Mapping which we use to track the original, to be used upon pickling
         self._pickle_kwargs = {'parameters': parameters, 'objective': objective}
-        self.params = [p for p in parameters if not p.fixed]
+
+    @property
+    def params(self):
+        """
+        :return: list of the parameters which are currently free.
+        """
+        return [p for p in self.parameters if not p.fixed]
 
     def _baseobjective_from_callable(self, func, objective_type=MinimizeModel):
         """
@@ -151,7 +156,7 @@ class GradientMinimizer(BaseMinimizer):
             out = func(*args, **kwargs)
             # Make one dimensional, corresponding to a scalar function.
             out = np.atleast_1d(np.squeeze(out))
-            mask = [p not in self._fixed_params for p in self.parameters]
+            mask = [not p.fixed for p in self.parameters]
             return out[mask]
         return resized
 
@@ -186,7 +191,7 @@ class HessianMinimizer(GradientMinimizer):
             out = func(*args, **kwargs)
             # Make two dimensional, corresponding to a scalar function.
             out = np.atleast_2d(np.squeeze(out))
-            mask = [p not in self._fixed_params for p in self.parameters]
+            mask = [not p.fixed for p in self.parameters]
             return np.atleast_2d(out[np.ix_(mask, mask)])
         return resized
 
@@ -777,7 +782,7 @@ class MINPACK(ScipyBoundedMinimizer, GradientMinimizer):
         def resized(*args, **kwargs):
             out = func(*args, **kwargs)
             out = np.atleast_2d(out)
-            mask = [p not in self._fixed_params for p in self.parameters]
+            mask = [not p.fixed for p in self.parameters]
             return out[:, mask]
         return resized
 
diff --git a/symfit/core/objectives.py b/symfit/core/objectives.py
index 89255d6..c314b96 100644
--- a/symfit/core/objectives.py
+++ b/symfit/core/objectives.py
@@ -128,7 +128,7 @@ class BaseObjective(object, metaclass=abc.ABCMeta):
                 shaped_result.append(component)
         return shaped_result
 
-    @cached_property
+    @property
     def _invariant_kwargs(self):
         """
         Prepares the invariant kwargs to ``self.model`` which are not provided
-- 
2.43.0


From f3a52327b72ed8855dd3423ac49c8b79ed7e1e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:51 +0000
Subject: [PATCH 14/39] fix: report least squares per component

---
 symfit/core/objectives.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/symfit/core/objectives.py b/symfit/core/objectives.py
index c314b96..34dbc3c 100644
--- a/symfit/core/objectives.py
+++ b/symfit/core/objectives.py
@@ -317,8 +317,9 @@ class LeastSquares(HessianObjective):
                 chi2[index] += np.sum(
                     (dep_var_value - dep_data) ** 2 / sigma ** 2
                 )
-        chi2 = np.sum(chi2) if flatten_components else chi2
-        return chi2 / 2
+        if flatten_components:
+            return np.sum(chi2) / 2
+        return [component / 2 for component in chi2]
 
     def eval_jacobian(self, ordered_parameters=[], **parameters):
         """
-- 
2.43.0


From 4c1bc9f34a822092dd32879a6334fe711a090d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:51 +0000
Subject: [PATCH 15/39] fix: no covariance when there is no covariance matrix

---
 symfit/core/fit_results.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/symfit/core/fit_results.py b/symfit/core/fit_results.py
index ad41ecb..d0520ee 100644
--- a/symfit/core/fit_results.py
+++ b/symfit/core/fit_results.py
@@ -151,7 +151,11 @@ class FitResults(object):
         """
         param_1_number = self.model.params.index(param_1)
         param_2_number = self.model.params.index(param_2)
-        return self.covariance_matrix[param_1_number, param_2_number]
+        try:
+            return self.covariance_matrix[param_1_number, param_2_number]
+        except TypeError:
+            # covariance_matrix can be None
+            return None
 
     @staticmethod
     def _array_safe_dict_eq(one_dict, other_dict):
-- 
2.43.0


From 4e2d6f30dd975922c5fd998dba4edc510c8bcb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:08 +0000
Subject: [PATCH 16/39] fix: fixed parameters do not contribute to the
 covariance matrix

---
 symfit/core/fit.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/symfit/core/fit.py b/symfit/core/fit.py
index 3cbcadb..4a0585c 100644
--- a/symfit/core/fit.py
+++ b/symfit/core/fit.py
@@ -241,9 +241,13 @@ class HasCovarianceMatrix(TakesData):
             if hess is None:
                 return hess
 
+        # The squeezing to a matrix is required for MinimizeModel objectives
+        hess = np.atleast_2d(np.squeeze(hess))
+        # Fixed parameters are known exactly, so only invert the free block.
+        free = [not param.fixed for param in self.model.params]
+        hess_inv = np.zeros_like(hess, dtype=float)
         try:
-            # The squeezing to a matrix is required for MinimizeModel objectives
-            hess_inv = np.linalg.inv(np.atleast_2d(np.squeeze(hess)))
+            hess_inv[np.ix_(free, free)] = np.linalg.inv(hess[np.ix_(free, free)])
         except np.linalg.LinAlgError:
             return None
 
@@ -254,7 +258,7 @@ class HasCovarianceMatrix(TakesData):
             rss = 2 * objective(**key2str(best_fit_params))
             # Degrees of freedom
             raw_dof = np.sum([np.product(shape) for shape in self.data_shapes[1]])
-            dof = raw_dof - len(self.model.params)
+            dof = raw_dof - len(self.model.free_params)
             if self.absolute_sigma:
                 # When interpreting as measurement error, we do not rescale.
                 s2 = 1
-- 
2.43.0


From dfbd1ba5401733ecc5655e26d10ed29a29ac8af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:05 +0000
Subject: [PATCH 17/39] fix: evaluate ODE models at times in any order

solve_ivp demands strictly increasing times, so unsorted or repeated times
were refused. Integrate over the sorted unique times and hand back the values
for the times as given.
---
 symfit/core/models.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/symfit/core/models.py b/symfit/core/models.py
index b2fdc61..7c86493 100644
--- a/symfit/core/models.py
+++ b/symfit/core/models.py
@@ -1169,13 +1169,13 @@ class ODEModel(BaseGradientModel):
         assert len(self.independent_vars) == 1
         t_initial = self.initial[self.independent_vars[0]] # Assuming there's only one
 
-        # Make sure that t_like is an array
-        try:
-            t_like[0]
-        except (TypeError, IndexError): # Python scalar gives TypeError, numpy scalars IndexError
-            if t_like == t_initial:  # When evaluated only at the initial condition, we know the answer.
-                return np.atleast_2d(initial_dependent).T
-            t_like = np.array([t_like]) # Allow evaluation at one point.
+        # solve_ivp needs sorted and unique times, the answer is given for the
+        # times as they were provided.
+        t_like, inverse = np.unique(np.atleast_1d(t_like), return_inverse=True)
+        if np.all(t_like == t_initial):
+            # When evaluated only at the initial condition, we know the answer.
+            ans = np.atleast_2d(initial_dependent).T
+            return ans[:, inverse]
 
         # The strategy is to split the time axis in a part above and below the
         # initial value, and to integrate those seperately. At the end we rejoin them.
@@ -1238,12 +1238,12 @@ class ODEModel(BaseGradientModel):
 
         if t_initial in t_like:
             # The user also requested to know the value at t_initial, so keep it.
-            return ans
+            return ans[:, inverse]
         else:
             # The user didn't ask for the value at t_initial, so exclude it.
             # (t_total contains all the t-points used for the integration,
             # and so is t_like with t_initial inserted at the right position).
-            return ans[:, t_total != t_initial]
+            return ans[:, t_total != t_initial][:, inverse]
 
     def __call__(self, *args, **kwargs):
         """
-- 
2.43.0


From 06ddaa9a94814df5cd6a153de4adaf3f1f036bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:05 +0000
Subject: [PATCH 18/39] fix: keep the integrator settings when negating an
 ODEModel

---
 symfit/core/models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/symfit/core/models.py b/symfit/core/models.py
index 7c86493..28a1489 100644
--- a/symfit/core/models.py
+++ b/symfit/core/models.py
@@ -1102,7 +1102,8 @@ class ODEModel(BaseGradientModel):
         new_model_dict = self.model_dict.copy()
         for key in new_model_dict:
             new_model_dict[key] *= -1
-        return self.__class__(new_model_dict, initial=self.initial)
+        return self.__class__(new_model_dict, initial=self.initial,
+                              **self.integrator_kwargs)
 
     @cached_property
     def _ncomponents(self):
-- 
2.43.0


From 987607182809665173579038904f3de51084022e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:19 +0000
Subject: [PATCH 19/39] fix: negate the dependent components of numerical
 models

Negating a CallableNumericalModel always raised, because the components were
unpacked as (key, component) pairs and no connectivity mapping was passed on.
---
 symfit/core/models.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/symfit/core/models.py b/symfit/core/models.py
index 28a1489..24a52a5 100644
--- a/symfit/core/models.py
+++ b/symfit/core/models.py
@@ -538,6 +538,11 @@ class BaseModel(Mapping):
         self.__signature__ = self._make_signature()
 
 
+def _negated(component, *args, **kwargs):
+    """ Evaluate ``component`` and flip the sign of the outcome. """
+    return np.negative(component(*args, **kwargs))
+
+
 class BaseNumericalModel(BaseModel):
     """
     ABC for Numerical Models. These are models whose components are generic
@@ -623,10 +628,15 @@ class BaseNumericalModel(BaseModel):
         :return: new model with opposite sign. Does not change the model in-place,
             but returns a new copy.
         """
-        new_model_dict = {}
-        for key, callable_expr in self.model_dict.values():
-            new_model_dict[key] = lambda *args, **kwargs: - callable_expr(*args, **kwargs)
-        return self.__class__(new_model_dict)
+        new_model_dict = self.model_dict.copy()
+        for var in self.dependent_vars:
+            component = new_model_dict[var]
+            if isinstance(component, sympy.Basic):
+                new_model_dict[var] = -component
+            else:
+                new_model_dict[var] = partial(_negated, component)
+        return self.__class__(new_model_dict,
+                              connectivity_mapping=self.connectivity_mapping)
 
     @property
     def shared_parameters(self):
-- 
2.43.0


From a5a796d5836c07e4e40c44badcfb1c418e7cfcef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:48 +0000
Subject: [PATCH 20/39] fix: fixed parameters with reversed bounds have bounds
 too

---
 symfit/core/argument.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/symfit/core/argument.py b/symfit/core/argument.py
index 8e77120..9dac540 100644
--- a/symfit/core/argument.py
+++ b/symfit/core/argument.py
@@ -119,9 +119,8 @@ class Parameter(Argument):
             if not self.fixed:
                 raise ValueError('The value of `min` should be less than or'
                                  ' equal to the value of `max`.')
-        else:
-            self.min = min
-            self.max = max
+        self.min = min
+        self.max = max
 
     def __eq__(self, other):
         """
-- 
2.43.0


From 37ab1f4fcc393b6e991052f2ef19575d5b0a0afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:48 +0000
Subject: [PATCH 21/39] fix: create parameters in bulk with all of their own
 attributes

Sequences of attributes were assigned after the creation, so the bounds were
only validated if both were sequences, fixed parameters and absent bounds were
not taken into account, and the error for a wrong length named another
attribute.
---
 symfit/core/support.py | 42 +++++++++++++++++-------------------------
 1 file changed, 17 insertions(+), 25 deletions(-)

diff --git a/symfit/core/support.py b/symfit/core/support.py
index 58a4376..4376f15 100644
--- a/symfit/core/support.py
+++ b/symfit/core/support.py
@@ -26,6 +26,7 @@ import symfit.core.printing  # Overwrites some numpy printing
 
 import inspect
 from functools import wraps
+from itertools import islice
 
 
 class deprecated(object):
@@ -199,39 +200,30 @@ def parameters(names, **kwargs):
         `value`, `min` and `max` will be handled separately if they are sequences.
     :return: iterable of :class:`symfit.core.argument.Parameter` objects
     """
-    sequence_fields = ['value', 'min', 'max', 'fixed']
+    # Every parameter is created, and validated, with all of its own attributes.
+    count = len(symbols(names, seq=True))
     sequences = {}
-    for attr in sequence_fields:
+    for attr in ['value', 'min', 'max', 'fixed']:
         try:
-            iter(kwargs[attr])
+            values = iter(kwargs[attr])
         except (TypeError, KeyError):
             # Not iterable or not provided
-            pass
-        else:
-            sequences[attr] = kwargs.pop(attr)
-
-    if 'min' in sequences and 'max' in sequences:
-        for min, max in zip(sequences['min'], sequences['max']):
-            if min > max:
-                raise ValueError('The value of `min` should be less than or'
-                                 ' equal to the value of `max`.')
-
-    params = symbols(names, cls=Parameter, seq=True, **kwargs)
-    for key, values in sequences.items():
-        try:
-            assert len(values) == len(params)
-        except AssertionError:
+            continue
+        sized = hasattr(kwargs.pop(attr), '__len__')
+        # Iterators do not have a `len` and might be endless, so only sequences
+        # are checked for superfluous values.
+        sequences[attr] = list(islice(values, count + 1 if sized else count))
+        if len(sequences[attr]) != count:
             raise ValueError(
                 '`len` of keyword-argument `{}` does not match the number of '
                 '`Parameter`s created.'.format(attr)
             )
-        except TypeError:
-            # Iterator do not have a `len` but are allowed.
-            pass
-        finally:
-            for param, value in zip(params, values):
-                setattr(param, key, value)
-    return params
+
+    if not sequences:
+        return symbols(names, cls=Parameter, seq=True, **kwargs)
+    attributes = (dict(zip(sequences, row)) for row in zip(*sequences.values()))
+    return symbols(names, seq=True, **kwargs,
+                   cls=lambda name, **kw: Parameter(name, **next(attributes), **kw))
 
 
 class cached_property(property):
-- 
2.43.0


From 461b9f4590333a48e7e6ce060dd8388381c88818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:16 +0000
Subject: [PATCH 22/39] fix: leave the sigma provided by the user untouched

A zero dimensional array could not be repeated in place.
---
 symfit/core/fit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfit/core/fit.py b/symfit/core/fit.py
index 4a0585c..eee4d89 100644
--- a/symfit/core/fit.py
+++ b/symfit/core/fit.py
@@ -98,7 +98,7 @@ class TakesData(object):
                 if self.data[var] is not None and self.data[sigma] is None:
                     self.data[sigma] = np.ones(self.data[var].shape)
                 elif self.data[var] is not None:
-                    self.data[sigma] *= np.ones(self.data[var].shape)
+                    self.data[sigma] = self.data[sigma] * np.ones(self.data[var].shape)
 
         # If user gives a preference, use that. Otherwise, use True if at least one sigma is
         # given, False if no sigma is given.
-- 
2.43.0


From 7e3928d1a5f61f84de7f517bb680fdf79978ea42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:16 +0000
Subject: [PATCH 23/39] fix: draw the error bars of InteractiveGuess at the
 percentiles

The mean was added to the percentiles, which already are absolute values.
---
 symfit/contrib/interactive_guess/interactive_guess.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/symfit/contrib/interactive_guess/interactive_guess.py b/symfit/contrib/interactive_guess/interactive_guess.py
index 370d7c0..0963dc8 100644
--- a/symfit/contrib/interactive_guess/interactive_guess.py
+++ b/symfit/contrib/interactive_guess/interactive_guess.py
@@ -345,8 +345,7 @@ class StrategynD:
         y_plot_error = np.array(y_plot_error)
 
         xs = np.column_stack((x_plot_data, x_plot_data))
-        yerr = y_plot_error + y_plot_data[:, np.newaxis]
-        y_segments = np.dstack((xs, yerr))
+        y_segments = np.dstack((xs, y_plot_error))
         plot_line, caps, error_lines = self.ig._plots[(indep_var, dep_var)]
         plot_line.set_data(x_plot_data, y_plot_data)
         error_lines[1].set_segments(y_segments)
-- 
2.43.0


From 451654fe47df45ad08b736060557d772d7a91468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:54 +0000
Subject: [PATCH 24/39] fix: accept any callable as the objective of Fit

This is documented, but the callable was called with the model and the data
instead of being minimized as a function of the parameters.
---
 symfit/core/fit.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/symfit/core/fit.py b/symfit/core/fit.py
index eee4d89..bd041a1 100644
--- a/symfit/core/fit.py
+++ b/symfit/core/fit.py
@@ -18,7 +18,9 @@ from .objectives import (
     LeastSquares, BaseObjective, MinimizeModel, VectorLeastSquares,
     LogLikelihood, HessianObjectiveJacApprox
 )
-from .models import BaseModel, Model, BaseNumericalModel, CallableModel
+from .models import (
+    BaseModel, Model, BaseNumericalModel, CallableModel, CallableNumericalModel
+)
 
 import inspect
 
@@ -397,8 +399,18 @@ class Fit(HasCovarianceMatrix):
                     self.data[var] = self.data.pop(var.name)
 
         # Initialise the objective with data if it's not initialised already
-        if not isinstance(self.objective, BaseObjective):
+        if isinstance(self.objective, type):
             self.objective = self.objective(self.model, self.data)
+        elif not isinstance(self.objective, BaseObjective):
+            # A custom callable of the fit parameters, minimize its outcome.
+            y = sympy.Dummy()
+            self.objective = MinimizeModel(
+                CallableNumericalModel(
+                    {y: self.objective},
+                    connectivity_mapping={y: set(self.model.params)}
+                ),
+                data={}
+            )
 
         # Select the minimizer on the basis of the provided information.
         if minimizer is None:
@@ -514,14 +526,14 @@ class Fit(HasCovarianceMatrix):
             # that, otherwise we let the minimizer estimate it itself.
             # Hence the check of jacobian_model, as this is the
             # py function version of the analytical jacobian.
-            if hasattr(self.model, 'eval_jacobian') and hasattr(self.objective, 'eval_jacobian'):
+            if hasattr(self.objective.model, 'eval_jacobian') and hasattr(self.objective, 'eval_jacobian'):
                 minimizer_options['jacobian'] = self.objective.eval_jacobian
         if issubclass(minimizer, HessianMinimizer):
             # If an analytical version of the Hessian exists we should use
             # that, otherwise we let the minimizer estimate it itself.
             # Hence the check of hessian_model, as this is the
             # py function version of the analytical hessian.
-            if hasattr(self.model, 'eval_hessian') and hasattr(self.objective, 'eval_hessian'):
+            if hasattr(self.objective.model, 'eval_hessian') and hasattr(self.objective, 'eval_hessian'):
                 minimizer_options['hessian'] = self.objective.eval_hessian
 
         if issubclass(minimizer, ConstrainedMinimizer):
-- 
2.43.0


From deb9b79a34d419674be5bfd4515b2de6e605ae13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:48 +0000
Subject: [PATCH 25/39] fix: constraints with a value for every data point

Their Jacobian was handed over with its axes swapped, which raised or, with as
many points as parameters, silently used the wrong gradient.
---
 symfit/core/minimizers.py | 42 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 39 insertions(+), 3 deletions(-)

diff --git a/symfit/core/minimizers.py b/symfit/core/minimizers.py
index 1879c42..a74b474 100644
--- a/symfit/core/minimizers.py
+++ b/symfit/core/minimizers.py
@@ -412,11 +412,30 @@ class ScipyGradientMinimize(ScipyMinimize, GradientMinimizer):
             # Only if the model has a jacobian, does it make sense to pass one
             # to the minimizer
             if hasattr(con['fun'].model, 'eval_jacobian'):
-                con['jac'] = self.resize_jac(con['fun'].eval_jacobian)
+                con['jac'] = self.resize_con_jac(con['fun'].eval_jacobian)
             else:
                 con['jac'] = None
         return cons
 
+    def resize_con_jac(self, func):
+        """
+        Same as :meth:`resize_jac`, but for constraints. These can have multiple
+        values, e.g. one for every data point.
+
+        :param func: Jacobian function of a constraint to be wrapped.
+        :return: Jacobian with a row for every value of the constraint, and a
+            column for every free parameter. One dimensional in case of a
+            single value.
+        """
+        @wraps(func)
+        def resized(*args, **kwargs):
+            out = np.asarray(func(*args, **kwargs))
+            out = out.reshape(len(self.parameters), -1)
+            mask = [not p.fixed for p in self.parameters]
+            out = out[mask].T
+            return out[0] if len(out) == 1 else out
+        return resized
+
 
 class ScipyBoundedMinimizer(ScipyMinimize, BoundedMinimizer):
     """
@@ -445,11 +464,28 @@ class ScipyHessianMinimize(ScipyGradientMinimize, HessianMinimizer):
             # Only if the model has a hessian, does it make sense to pass one
             # to the minimizer
             if hasattr(con['fun'].model, 'eval_hessian'):
-                con['hess'] = self.resize_hess(con['fun'].eval_hessian)
+                con['hess'] = self.resize_con_hess(con['fun'].eval_hessian)
             else:
                 con['hess'] = None
         return cons
 
+    def resize_con_hess(self, func):
+        """
+        Same as :meth:`resize_hess`, but for constraints. These can have
+        multiple values, e.g. one for every data point.
+
+        :param func: Hessian function of a constraint to be wrapped.
+        :return: Hessian corresponding to free parameters only, with the values
+            of the constraint along the last axis.
+        """
+        @wraps(func)
+        def resized(*args, **kwargs):
+            out = np.asarray(func(*args, **kwargs))
+            out = out.reshape(2 * (len(self.parameters),) + (-1,))
+            mask = [not p.fixed for p in self.parameters]
+            return out[np.ix_(mask, mask)]
+        return resized
+
 
 class ScipyConstrainedMinimize(ScipyMinimize, ConstrainedMinimizer):
     """
@@ -596,7 +632,7 @@ class TrustConstr(ScipyHessianMinimize, ScipyConstrainedMinimize, ScipyBoundedMi
             # If None is given to NonlinearConstraint it'll throw a hissy fit.
             if con['hess'] is not None:
                 nonlinearconstr_kwargs['hess'] = (
-                    lambda x, v, hess=con['hess']: hess(x) * v
+                    lambda x, v, hess=con['hess']: np.dot(hess(x), v)
                 )
             if con['jac'] is not None:
                 nonlinearconstr_kwargs['jac'] = con['jac']
-- 
2.43.0


From ae3d5f0111c8ad43889e60e46a4f13f6019bb4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:28 +0000
Subject: [PATCH 26/39] fix: r_squared for components with fewer dimensions
 than their data

---
 symfit/core/fit_results.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/symfit/core/fit_results.py b/symfit/core/fit_results.py
index d0520ee..a008614 100644
--- a/symfit/core/fit_results.py
+++ b/symfit/core/fit_results.py
@@ -278,6 +278,8 @@ def r_squared(model, fit_result, data):
     f_is = model(*x_is, **fit_result.params)._asdict()
     # f_is also contains the evaluated interdependent_vars, skip those.
     f_is = [f_is[var] for var in model.dependent_vars]
+    # The residuals have to be those of the objective
+    f_is = fit_result.objective._shape_of_dependent_data(f_is)
     SS_res = np.sum([np.sum((y_i - f_i)**2) for y_i, f_i in zip(y_is, f_is) if y_i is not None])
     SS_tot = np.sum([np.sum((y_i - y_bar)**2) for y_i, y_bar in zip(y_is, y_bars) if y_i is not None])
     return 1 - SS_res/SS_tot
\ No newline at end of file
-- 
2.43.0


From f89e4c6661901da1f39af781105bec8e5abca1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:28 +0000
Subject: [PATCH 27/39] fix: scalar values for independent variables in a fit

---
 symfit/core/fit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/symfit/core/fit.py b/symfit/core/fit.py
index bd041a1..fb9a824 100644
--- a/symfit/core/fit.py
+++ b/symfit/core/fit.py
@@ -205,12 +205,12 @@ class TakesData(object):
         independent_shapes = []
         for var, data in self.independent_data.items():
             if data is not None:
-                independent_shapes.append(data.shape)
+                independent_shapes.append(np.shape(data))
 
         dependent_shapes = []
         for var, data in self.dependent_data.items():
             if data is not None:
-                dependent_shapes.append(data.shape)
+                dependent_shapes.append(np.shape(data))
 
         return list(set(independent_shapes)), list(set(dependent_shapes))
 
-- 
2.43.0


From 1b5416e112b64d9b130c51dfe64113c5f20199f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:18 +0000
Subject: [PATCH 28/39] fix: derivatives of a component which happen to have
 the shape of the data

---
 symfit/core/objectives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfit/core/objectives.py b/symfit/core/objectives.py
index 34dbc3c..b4a3612 100644
--- a/symfit/core/objectives.py
+++ b/symfit/core/objectives.py
@@ -114,7 +114,7 @@ class BaseObjective(object, metaclass=abc.ABCMeta):
         for dep_var, component in zip(self.model.dependent_vars, model_output):
             dep_data = self.dependent_data.get(dep_var, None)
             if dep_data is not None:
-                if dep_data.shape == component.shape:
+                if dep_data.shape == component.shape[param_level:]:
                     shaped_result.append(component)
                 else:
                     # Add extra dimensions to the component if needed.
-- 
2.43.0


From ee2a07841cae6aa84935065bac2d13c9367fa564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:19 +0000
Subject: [PATCH 29/39] fix: least-squares gradient with complex parameters in
 only some components

---
 symfit/core/objectives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfit/core/objectives.py b/symfit/core/objectives.py
index b4a3612..21b5b98 100644
--- a/symfit/core/objectives.py
+++ b/symfit/core/objectives.py
@@ -346,7 +346,7 @@ class LeastSquares(HessianObjective):
                 sigma = self.sigma_data[sigma_var]
                 pre_sum = jac_comp * ((y - f) / sigma**2)[np.newaxis, ...]
                 axes = tuple(range(1, len(pre_sum.shape)))
-                result -= np.sum(pre_sum, axis=axes, keepdims=False)
+                result = result - np.sum(pre_sum, axis=axes, keepdims=False)
         return np.atleast_1d(np.squeeze(np.array(result)))
 
     def eval_hessian(self, ordered_parameters=[], **parameters):
-- 
2.43.0


From d49bdc6510153163358a325f15003a3e76b82cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:35 +0000
Subject: [PATCH 30/39] fix: Hessians with the delta function of Abs could not
 be evaluated

The second derivative of e.g. Gaussian with respect to sig contains
DiracDelta(sig), for which no numpy code was generated, so that likelihood
fits of a Gaussian raised a NameError.
---
 symfit/core/printing.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/symfit/core/printing.py b/symfit/core/printing.py
index 487284c..dba7a22 100644
--- a/symfit/core/printing.py
+++ b/symfit/core/printing.py
@@ -11,8 +11,9 @@ slightly different behavior from the standard one.
 Users using both ``symfit`` and ``sympy`` should be aware of this.
 """
 import pkg_resources
-from sympy import HadamardProduct, MatPow, Idx, Inverse
+from sympy import DiracDelta, HadamardProduct, MatPow, Idx, Inverse
 from sympy.printing.codeprinter import CodePrinter
+from sympy.printing.precedence import PRECEDENCE
 
 ##########################################################
 # Monkeypatch the printers until this is merged upstream #
@@ -69,6 +70,18 @@ def _print_MatPow(self, printer):
         return printer._print_MatPow(self)
 MatPow._numpycode = _print_MatPow
 
+def _print_DiracDelta(self, printer):
+    """
+    Second derivatives of e.g. ``Abs`` contain delta functions, which vanish
+    everywhere except where their argument is zero.
+    """
+    return "{where}({arg} == 0, {inf}, 0.0)".format(
+        where=printer._module_format('numpy.where'),
+        arg=printer.parenthesize(self.args[0], PRECEDENCE['Relational']),
+        inf=printer._module_format('numpy.inf')
+    )
+DiracDelta._numpycode = _print_DiracDelta
+
 #########################################################
 # End of monkeypatch                                    #
 #########################################################
\ No newline at end of file
-- 
2.43.0


From 3f9203e12a5e1dfe7d070358f8e0e22f0152e272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:48 +0000
Subject: [PATCH 31/39] fix: InteractiveGuess for components which depend on
 some of the variables only

---
 symfit/contrib/interactive_guess/interactive_guess.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/symfit/contrib/interactive_guess/interactive_guess.py b/symfit/contrib/interactive_guess/interactive_guess.py
index 0963dc8..a5d6b23 100644
--- a/symfit/contrib/interactive_guess/interactive_guess.py
+++ b/symfit/contrib/interactive_guess/interactive_guess.py
@@ -6,6 +6,7 @@
 
 from ... import ODEModel, Derivative, latex
 from ...core.fit import TakesData
+from ...core.models import ModelOutput
 from ...core.support import key2str, deprecated
 
 import itertools
@@ -217,7 +218,12 @@ class InteractiveGuess(TakesData):
         """
         arguments = self._x_grid.copy()
         arguments.update({param: param.value for param in self.model.params})
-        return self.model(**key2str(arguments))
+        output = self.model(**key2str(arguments))
+        # Components which do not depend on every independent variable have
+        # fewer values than there are points to plot.
+        shape = next(iter(self._x_grid.values())).shape
+        return ModelOutput(output.variables,
+                           [np.broadcast_to(comp, shape) for comp in output])
 
     def __str__(self):
         """
-- 
2.43.0


From d53d04eff74b5be1d833616539bfbe3e93959f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:18 +0000
Subject: [PATCH 32/39] fix: names generated after unpickling in a fresh
 interpreter could collide

---
 symfit/core/argument.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/symfit/core/argument.py b/symfit/core/argument.py
index 9dac540..56b9811 100644
--- a/symfit/core/argument.py
+++ b/symfit/core/argument.py
@@ -27,8 +27,6 @@ class Argument(Symbol):
         >> 'y'
     """
     __slots__ = ['_argument_index', '_argument_name']
-    # TODO: Make sure this also survives a pickle/unpickle to a fresh(!)
-    #       interpreter.
     _argument_indices = defaultdict(int)
 
     def __new__(cls, name=None, **assumptions):
@@ -65,11 +63,16 @@ class Argument(Symbol):
     def __setstate__(self, state):
         for key, value in state.items():
             setattr(self, key, value)
+        # Do not generate the name of a restored symbol again.
+        cls = self.__class__
+        cls._argument_indices[cls] = max(cls._argument_indices[cls],
+                                         self._argument_index + 1)
 
     def __getstate__(self):
         state = super(Argument, self).__getstate__() or {}
         state.update({slot: getattr(self, slot) for slot in self.__slots__
                       if hasattr(self, slot)})
+        state['_argument_index'] = self._argument_index
         return state
 
     def _sympystr(self, printer, *args, **kwargs):
-- 
2.43.0


From c7c877ef23a338d2afc3be2b8812c5f330e9cd0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:10 +0000
Subject: [PATCH 33/39] fix: print all the values of a constraint, not only the
 first

---
 symfit/core/fit_results.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/symfit/core/fit_results.py b/symfit/core/fit_results.py
index a008614..4ea6416 100644
--- a/symfit/core/fit_results.py
+++ b/symfit/core/fit_results.py
@@ -88,7 +88,10 @@ class FitResults(object):
                     constraint.model[constraint.model.dependent_vars[0]],
                     constraint.model.constraint_type.rel_op
                 )
-                res += 'Answer:   {}\n\n'.format(constraint(**self.params)[0])
+                answer = constraint(**self.params)
+                res += 'Answer:   {}\n\n'.format(
+                    answer[0] if len(answer) == 1 else answer
+                )
 
         return res
 
-- 
2.43.0


From 5821c7d370950272cbaf87d54e6d8e59d6196482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:58 +0000
Subject: [PATCH 34/39] fix: Hadamard products and powers of compound matrix
 expressions were misprinted

HadamardProduct(A + B, C) was evaluated as A + B*C, HadamardPower(A + B, 2)
as A + B**2, and the third and further factors of a product were dropped.
---
 symfit/core/printing.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/symfit/core/printing.py b/symfit/core/printing.py
index dba7a22..3bc6039 100644
--- a/symfit/core/printing.py
+++ b/symfit/core/printing.py
@@ -42,8 +42,8 @@ def _print_Inverse(self, printer):
 Inverse._numpycode = _print_Inverse
 
 def _print_HadamardProduct(self, printer):
-    return "%s*%s" % (printer.doprint(self.args[0]),
-                      printer.doprint(self.args[1]))
+    return "*".join(printer.parenthesize(arg, PRECEDENCE['Mul'])
+                    for arg in self.args)
 HadamardProduct._numpycode = _print_HadamardProduct
 
 if pkg_resources.parse_version(pkg_resources.get_distribution('sympy').version) \
@@ -51,8 +51,8 @@ if pkg_resources.parse_version(pkg_resources.get_distribution('sympy').version)
     from sympy import HadamardPower
 
     def _print_HadamardPower(self, printer):
-        return "%s**%s" % (printer.doprint(self.args[0]),
-                          printer.doprint(self.args[1]))
+        return "%s**%s" % (printer.parenthesize(self.args[0], PRECEDENCE['Pow']),
+                          printer.parenthesize(self.args[1], PRECEDENCE['Pow']))
     HadamardPower._numpycode = _print_HadamardPower
 
 def _print_Idx(self, printer):
-- 
2.43.0


From e52ae4844874eec702fd99d153355da84bb51d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:54 +0000
Subject: [PATCH 35/39] fix: Jacobians and Hessians were wrong for symbols
 named like a derivative, e.g. dy_da

---
 symfit/core/models.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/symfit/core/models.py b/symfit/core/models.py
index 24a52a5..44fe512 100644
--- a/symfit/core/models.py
+++ b/symfit/core/models.py
@@ -661,15 +661,17 @@ class BaseCallableModel(BaseModel):
         bound_arguments = self.__signature__.bind(*args, **kwargs)
         kwargs = bound_arguments.arguments  # Only work with kwargs
         components = dict(zip(self, self.numerical_components))
+        # The name of a derivative might also be the name of some other symbol.
+        key = lambda s: s if isinstance(s, sympy.Derivative) else s.name
         # Evaluate the variables in topological order.
         for symbol in self.ordered_symbols:
-            if symbol.name not in kwargs:
+            if key(symbol) not in kwargs:
                 dependencies = self.connectivity_mapping[symbol]
-                dependencies_kwargs = {d.name: kwargs[d.name]
+                dependencies_kwargs = {d.name: kwargs[key(d)]
                                        for d in dependencies}
-                kwargs[symbol.name] = components[symbol](**dependencies_kwargs)
+                kwargs[key(symbol)] = components[symbol](**dependencies_kwargs)
 
-        return [np.atleast_1d(kwargs[var.name]) for var in self]
+        return [np.atleast_1d(kwargs[key(var)]) for var in self]
 
     def numerical_components(self):
         """
-- 
2.43.0


From 6b9f2a4e916ac35021aa7aa0d17a87defc5e6a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:14 +0000
Subject: [PATCH 36/39] fix: comparing models with numerical models or other
 objects raised, and large models never were equal

---
 symfit/core/models.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/symfit/core/models.py b/symfit/core/models.py
index 44fe512..aaf54bb 100644
--- a/symfit/core/models.py
+++ b/symfit/core/models.py
@@ -288,12 +288,17 @@ class BaseModel(Mapping):
         :param other: Instance of ``Model``.
         :return: bool
         """
-        if len(self) is not len(other):
+        if not isinstance(other, BaseModel):
+            return NotImplemented
+        elif len(self) != len(other):
             return False
         else:
             for var_1, var_2 in zip(self, other):
                 if var_1 != var_2:
                     return False
+                elif not isinstance(other[var_2], sympy.Basic):
+                    # Not symbolical, e.g. a component of a numerical model.
+                    return False
                 else:
                     if not self[var_1].expand() == other[var_2].expand():
                         return False
@@ -614,6 +619,8 @@ class BaseNumericalModel(BaseModel):
         self._connectivity_mapping = value
 
     def __eq__(self, other):
+        if not isinstance(other, BaseModel):
+            return NotImplemented
         if self.connectivity_mapping != other.connectivity_mapping:
             return False
 
-- 
2.43.0


From afdb13df5d51f2f84ccc37876ab15318c6dbaf7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:18 +0000
Subject: [PATCH 37/39] fix: comparing objectives whose data differ in shape or
 presence raised

---
 symfit/core/objectives.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/symfit/core/objectives.py b/symfit/core/objectives.py
index 21b5b98..fe1ee95 100644
--- a/symfit/core/objectives.py
+++ b/symfit/core/objectives.py
@@ -158,14 +158,22 @@ class BaseObjective(object, metaclass=abc.ABCMeta):
             return False
 
         # Check if the data is also equivalent
+        if self.data.keys() != other.data.keys():
+            return False
         for key, value in self.data.items():
-            try:
-                equal = np.allclose(other.data[key], value)
-            except TypeError:
-                equal = other.data[key] == value
-            finally:
-                if not equal:
-                    return False
+            other_value = other.data[key]
+            if value is None or other_value is None:
+                equal = value is other_value
+            else:
+                try:
+                    equal = np.allclose(other_value, value)
+                except TypeError:
+                    equal = other_value == value
+                except ValueError:
+                    # The shapes do not match.
+                    equal = False
+            if not equal:
+                return False
         return True
 
     def _sanity_checking(self):
-- 
2.43.0


From 09dd59036d90abf1b6e68d2118adb2ff2897bb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:51 +0000
Subject: [PATCH 38/39] fix: objectives could compare equal when the shapes of
 their data differ

---
 symfit/core/objectives.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/symfit/core/objectives.py b/symfit/core/objectives.py
index fe1ee95..33ca7f4 100644
--- a/symfit/core/objectives.py
+++ b/symfit/core/objectives.py
@@ -164,14 +164,14 @@ class BaseObjective(object, metaclass=abc.ABCMeta):
             other_value = other.data[key]
             if value is None or other_value is None:
                 equal = value is other_value
+            elif np.shape(value) != np.shape(other_value):
+                # Do not let numpy broadcast these against one another.
+                equal = False
             else:
                 try:
                     equal = np.allclose(other_value, value)
                 except TypeError:
                     equal = other_value == value
-                except ValueError:
-                    # The shapes do not match.
-                    equal = False
             if not equal:
                 return False
         return True
-- 
2.43.0


From 260ea443ac5887afc12c75a2a3d11fdfb11cbcbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:32 +0000
Subject: [PATCH 39/39] fix: names of ten or more characters ran into the
 printed value

---
 symfit/core/fit_results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfit/core/fit_results.py b/symfit/core/fit_results.py
index 4ea6416..5937967 100644
--- a/symfit/core/fit_results.py
+++ b/symfit/core/fit_results.py
@@ -67,7 +67,7 @@ class FitResults(object):
             value_str = '{:e}'.format(value) if value is not None else 'None'
             stdev = self.stdev(p)
             stdev_str = '{:e}'.format(stdev) if stdev is not None else 'None'
-            res += '{:10}{} {}\n'.format(p.name, value_str, stdev_str, width=20)
+            res += '{:9} {} {}\n'.format(p.name, value_str, stdev_str)
 
         res += '{:<22} {}\n'.format('Status message', self.status_message)
         res += '{:<22} {}\n'.format('Number of iterations', self.iterations)
-- 
2.43.0

