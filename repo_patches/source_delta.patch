From 2fa77f1f0091b6e2bb06afd547a1223ae8bca3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:34 +0000
Subject: [PATCH 01/66] fix: substitute custom gate parameters simultaneously

---
 src/python/zquantum/core/circuits/_gates.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/circuits/_gates.py b/src/python/zquantum/core/circuits/_gates.py
index da7b523..c2f085c 100644
--- a/src/python/zquantum/core/circuits/_gates.py
+++ b/src/python/zquantum/core/circuits/_gates.py
@@ -357,7 +357,8 @@ class CustomGateMatrixFactory:
 
     def __call__(self, *gate_params):
         return self.matrix.subs(
-            {symbol: arg for symbol, arg in zip(self.params_ordering, gate_params)}
+            {symbol: arg for symbol, arg in zip(self.params_ordering, gate_params)},
+            simultaneous=True,
         )
 
     def __eq__(self, other):
-- 
2.43.0


From 2967933577d5a83930aec1a90210351f21d4ba83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:34 +0000
Subject: [PATCH 02/66] fix: bind symbols in parameter expressions
 simultaneously

---
 src/python/zquantum/core/circuits/_operations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/circuits/_operations.py b/src/python/zquantum/core/circuits/_operations.py
index 93f43ab..0877b47 100644
--- a/src/python/zquantum/core/circuits/_operations.py
+++ b/src/python/zquantum/core/circuits/_operations.py
@@ -74,7 +74,7 @@ def _sub_symbols_in_number(
 def _sub_symbols_in_expression(
     parameter: sympy.Expr, symbols_map: Dict[sympy.Symbol, Parameter]
 ) -> sympy.Expr:
-    return parameter.subs(symbols_map)
+    return parameter.subs(symbols_map, simultaneous=True)
 
 
 @sub_symbols.register
-- 
2.43.0


From e924a2365e968619757b35cf17715ca25a007a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:34 +0000
Subject: [PATCH 03/66] fix: return identity as the unitary of an empty circuit

---
 src/python/zquantum/core/circuits/_circuit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/python/zquantum/core/circuits/_circuit.py b/src/python/zquantum/core/circuits/_circuit.py
index 4fd1a80..65379d5 100644
--- a/src/python/zquantum/core/circuits/_circuit.py
+++ b/src/python/zquantum/core/circuits/_circuit.py
@@ -126,6 +126,8 @@ class Circuit:
         lifted_matrices = [
             op.lifted_matrix(self.n_qubits) for op in reversed(self.operations)
         ]
+        if not lifted_matrices:
+            return np.eye(2**self.n_qubits)
         return reduce(operator.matmul, lifted_matrices)
 
     def bind(self, symbols_map: Dict[sympy.Symbol, Any]):
-- 
2.43.0


From 4f4866484a2f0bcfc0f85a6e227d4d1723ef4977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:38 +0000
Subject: [PATCH 04/66] fix: collect definitions of custom gates used under
 control or dagger

---
 src/python/zquantum/core/circuits/_circuit.py | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/python/zquantum/core/circuits/_circuit.py b/src/python/zquantum/core/circuits/_circuit.py
index 65379d5..114d6ae 100644
--- a/src/python/zquantum/core/circuits/_circuit.py
+++ b/src/python/zquantum/core/circuits/_circuit.py
@@ -25,9 +25,17 @@ def _circuit_size_by_operations(operations):
     )
 
 
-def _operation_uses_custom_gate(operation):
-    return isinstance(operation.gate, _gates.MatrixFactoryGate) and isinstance(
-        operation.gate.matrix_factory, _gates.CustomGateMatrixFactory
+def _innermost_gate(operation):
+    """Gate used by the operation, stripped of control and dagger wrappers."""
+    gate = getattr(operation, "gate", None)
+    while isinstance(gate, (_gates.ControlledGate, _gates.Dagger)):
+        gate = gate.wrapped_gate
+    return gate
+
+
+def _is_custom_gate(gate):
+    return isinstance(gate, _gates.MatrixFactoryGate) and isinstance(
+        gate.matrix_factory, _gates.CustomGateMatrixFactory
     )
 
 
@@ -98,9 +106,9 @@ class Circuit:
 
     def collect_custom_gate_definitions(self) -> Iterable[_gates.CustomGateDefinition]:
         custom_gate_definitions = (
-            operation.gate.matrix_factory.gate_definition
-            for operation in self.operations
-            if _operation_uses_custom_gate(operation)
+            gate.matrix_factory.gate_definition
+            for gate in map(_innermost_gate, self.operations)
+            if _is_custom_gate(gate)
         )
         unique_operation_dict = {}
         for gate_def in custom_gate_definitions:
-- 
2.43.0


From 61863a9eb5a97875226c5896ffb0d8d9f351d8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:38 +0000
Subject: [PATCH 05/66] fix: read symbols of custom gate instances from their
 own free symbols

---
 src/python/zquantum/core/circuits/_serde.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/python/zquantum/core/circuits/_serde.py b/src/python/zquantum/core/circuits/_serde.py
index ded3b7f..9f4a249 100644
--- a/src/python/zquantum/core/circuits/_serde.py
+++ b/src/python/zquantum/core/circuits/_serde.py
@@ -270,9 +270,11 @@ def _custom_gate_instance_from_dict(dict_, custom_gate_defs) -> _gates.Gate:
             f"Custom gate definition for {dict_['name']} missing from serialized dict"
         )
 
-    symbol_names = map(serialize_expr, gate_def.params_ordering)
     return gate_def(
-        *[deserialize_expr(param, symbol_names) for param in dict_.get("params", [])]
+        *[
+            deserialize_expr(param, dict_.get("free_symbols", []))
+            for param in dict_.get("params", [])
+        ]
     )
 
 
-- 
2.43.0


From fdb87414ecab69e201fb5bddcda9fc52df276c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:22 +0000
Subject: [PATCH 06/66] fix: deserialize expressions with symbols named like
 Python keywords

---
 src/python/zquantum/core/circuits/_serde.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/circuits/_serde.py b/src/python/zquantum/core/circuits/_serde.py
index 9f4a249..ed69d53 100644
--- a/src/python/zquantum/core/circuits/_serde.py
+++ b/src/python/zquantum/core/circuits/_serde.py
@@ -2,6 +2,7 @@
 # © Copyright 2021-2022 Zapata Computing Inc.
 ################################################################################
 import json
+import keyword
 import re
 from functools import singledispatch
 from typing import Dict, Iterable, List, Mapping, Union
@@ -41,7 +42,15 @@ def _make_symbols_map(
 
 
 def deserialize_expr(expr_str, symbol_names):
-    symbols_map = _make_symbols_map(symbol_names)
+    symbol_names = list(symbol_names)
+    symbols_map = _make_symbols_map(
+        name for name in symbol_names if not keyword.iskeyword(name)
+    )
+    # Python keywords, e.g. "lambda", can't be parsed as names of symbols.
+    for name in filter(keyword.iskeyword, symbol_names):
+        placeholder = f"_keyword_{name}"
+        expr_str = re.sub(rf"\b{name}\b", placeholder, expr_str)
+        symbols_map[placeholder] = sympy.Symbol(name)
     return sympy.sympify(expr_str, locals=symbols_map)
 
 
-- 
2.43.0


From fbe5dce1929b08eede3752ee2f2ac2f8e28c7137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:49 +0000
Subject: [PATCH 07/66] fix: deserialize expressions mixing symbols x and x[0]

---
 src/python/zquantum/core/circuits/_serde.py | 42 +++++++--------------
 1 file changed, 14 insertions(+), 28 deletions(-)

diff --git a/src/python/zquantum/core/circuits/_serde.py b/src/python/zquantum/core/circuits/_serde.py
index ed69d53..810de06 100644
--- a/src/python/zquantum/core/circuits/_serde.py
+++ b/src/python/zquantum/core/circuits/_serde.py
@@ -5,7 +5,7 @@ import json
 import keyword
 import re
 from functools import singledispatch
-from typing import Dict, Iterable, List, Mapping, Union
+from typing import Iterable, List, Mapping
 
 import sympy
 from zquantum.core.typing import DumpTarget, LoadSource
@@ -22,35 +22,21 @@ def serialize_expr(expr: sympy.Expr):
     return str(expr)
 
 
-def _make_symbols_map(
-    symbol_names: Iterable[str],
-) -> Dict[str, Union[sympy.Symbol, Dict[int, sympy.Symbol]]]:
-    symbols_map: Dict[str, Union[sympy.Symbol, Dict[int, sympy.Symbol]]] = {}
-    for name in symbol_names:
-        # Check if the symbol name has brackets, such as "x[4]". Such symbol names will
-        # occur in circuits imported from Qiskit when the Qiskit circuit was
-        # parameterized using a Qiskit ParameterVector.
-        match = re.search(r"^(.*)\[([0-9]+)\]$", name)
-        if match:
-            symbols_map.setdefault(match.group(1), {})[
-                int(match.group(2))
-            ] = sympy.Symbol(name)
+def deserialize_expr(expr_str, symbol_names):
+    symbols_map = {}
+    for i, name in enumerate(symbol_names):
+        # Names with brackets, such as "x[4]", and Python keywords, such as "lambda",
+        # can't be parsed as names of symbols. Names with brackets will occur in
+        # circuits imported from Qiskit when the Qiskit circuit was parameterized using
+        # a Qiskit ParameterVector.
+        if re.search(r"^(.*)\[([0-9]+)\]$", name) or keyword.iskeyword(name):
+            placeholder = f"_symbol_placeholder_{i}"
+            expr_str = re.sub(
+                rf"(?<!\w){re.escape(name)}(?!\w)", placeholder, expr_str
+            )
+            symbols_map[placeholder] = sympy.Symbol(name)
         else:
             symbols_map[name] = sympy.Symbol(name)
-
-    return symbols_map
-
-
-def deserialize_expr(expr_str, symbol_names):
-    symbol_names = list(symbol_names)
-    symbols_map = _make_symbols_map(
-        name for name in symbol_names if not keyword.iskeyword(name)
-    )
-    # Python keywords, e.g. "lambda", can't be parsed as names of symbols.
-    for name in filter(keyword.iskeyword, symbol_names):
-        placeholder = f"_keyword_{name}"
-        expr_str = re.sub(rf"\b{name}\b", placeholder, expr_str)
-        symbols_map[placeholder] = sympy.Symbol(name)
     return sympy.sympify(expr_str, locals=symbols_map)
 
 
-- 
2.43.0


From 928ae21d616b49853ba9f7ac9debdb7f10370364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:04 +0000
Subject: [PATCH 08/66] fix: keep the wavefunction unchanged when an assignment
 to a slice is rejected

---
 src/python/zquantum/core/wavefunction.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/python/zquantum/core/wavefunction.py b/src/python/zquantum/core/wavefunction.py
index e7e9736..29e1708 100644
--- a/src/python/zquantum/core/wavefunction.py
+++ b/src/python/zquantum/core/wavefunction.py
@@ -110,16 +110,16 @@ class Wavefunction:
         return self._amplitude_vector[idx]
 
     def __setitem__(self, idx, val):
-        old_val = self._amplitude_vector[idx]
-        self._amplitude_vector[idx] = val
+        new_amplitude_vector = self._amplitude_vector.copy()
+        new_amplitude_vector[idx] = val
 
         try:
-            self._check_normalization(self._amplitude_vector)
+            self._check_normalization(new_amplitude_vector)
         except ValueError:
-            self._amplitude_vector[idx] = old_val
-
             raise ValueError("This assignment violates probability unity.")
 
+        self._amplitude_vector = new_amplitude_vector
+
     def __str__(self) -> str:
         cast_wf = _cast_sympy_matrix_to_numpy(self._amplitude_vector, complex=True)
         return f"Wavefunction({cast_wf})"
-- 
2.43.0


From 567cc011ee3f326d1df645019910a7d8a6d680d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:35 +0000
Subject: [PATCH 09/66] fix: keep amplitudes of bound or completed symbolic
 wavefunctions one-dimensional and own them

---
 src/python/zquantum/core/wavefunction.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/python/zquantum/core/wavefunction.py b/src/python/zquantum/core/wavefunction.py
index 29e1708..fc56e16 100644
--- a/src/python/zquantum/core/wavefunction.py
+++ b/src/python/zquantum/core/wavefunction.py
@@ -6,7 +6,7 @@ from typing import Any, Dict, List, Sequence, Set, Union
 from warnings import warn
 
 import numpy as np
-from sympy import Matrix, Symbol
+from sympy import Matrix, MatrixBase, Symbol
 from zquantum.core.typing import ParameterizedVector
 
 
@@ -56,7 +56,9 @@ class Wavefunction:
             )
 
         try:
-            self._amplitude_vector = np.asarray(amplitude_vector, dtype=complex)
+            self._amplitude_vector = np.array(amplitude_vector, dtype=complex)
+            if isinstance(amplitude_vector, MatrixBase):
+                self._amplitude_vector = self._amplitude_vector.flatten()
         except TypeError:
             self._amplitude_vector = Matrix(amplitude_vector)
 
@@ -64,7 +66,7 @@ class Wavefunction:
 
     @property
     def amplitudes(self) -> Union[np.ndarray, Matrix]:
-        if self.free_symbols:
+        if isinstance(self._amplitude_vector, MatrixBase):
             return _cast_sympy_matrix_to_numpy(self._amplitude_vector, complex=True)
 
         return self._amplitude_vector
@@ -85,7 +87,8 @@ class Wavefunction:
             or isinstance(arr, Matrix)
             and not arr.free_symbols
         ):
-            probs_of_ground_entries = np.sum(np.abs(arr) ** 2)
+            numbers = np.array(arr, dtype=np.complex128)
+            probs_of_ground_entries = np.sum(np.abs(numbers) ** 2)
 
             if not np.isclose(probs_of_ground_entries, 1.0):
                 raise ValueError("Vector does not result in a unit probability.")
@@ -186,7 +189,7 @@ class Wavefunction:
         if not self.free_symbols:
             return self
         assert isinstance(self._amplitude_vector, Matrix)
-        result = self._amplitude_vector.subs(symbol_map)
+        result = self._amplitude_vector.subs(symbol_map, simultaneous=True)
 
         try:
             return type(self)(result)
-- 
2.43.0


From a70e5f407513c6558de3951c11a57476cef21d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:25 +0000
Subject: [PATCH 10/66] fix: compare numeric wavefunctions to a single truth
 value

---
 src/python/zquantum/core/wavefunction.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/wavefunction.py b/src/python/zquantum/core/wavefunction.py
index fc56e16..d8e9634 100644
--- a/src/python/zquantum/core/wavefunction.py
+++ b/src/python/zquantum/core/wavefunction.py
@@ -131,7 +131,10 @@ class Wavefunction:
         if not isinstance(other, Wavefunction):
             return False
 
-        return self._amplitude_vector == other._amplitude_vector
+        if len(self) != len(other):
+            return False
+
+        return bool(np.all(self._amplitude_vector == other._amplitude_vector))
 
     @staticmethod
     def zero_state(n_qubits: int) -> "Wavefunction":
-- 
2.43.0


From 5f369bd7e0e164ec9f2fdcf7f5df67febaede833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:39 +0000
Subject: [PATCH 11/66] fix: sample from wavefunctions whose norm is only close
 to one

---
 src/python/zquantum/core/measurement.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/python/zquantum/core/measurement.py b/src/python/zquantum/core/measurement.py
index 3905433..9ca80e3 100644
--- a/src/python/zquantum/core/measurement.py
+++ b/src/python/zquantum/core/measurement.py
@@ -201,6 +201,8 @@ def sample_from_wavefunction(
     probabilities = [
         x[0] if isinstance(x, (list, np.ndarray)) else x for x in list(probabilities_np)
     ]
+    # The norm of a valid wavefunction can deviate from 1 by more than `choice` tolerates
+    probabilities = np.array(probabilities) / np.sum(probabilities)
     samples_ndarray = rng.choice(a=outcomes_str, size=n_samples, p=probabilities)
     samples = [tuple(int(y) for y in list(x)[::-1]) for x in list(samples_ndarray)]
     return samples
-- 
2.43.0


From 49743989ddaaf6a3d6f74118ae4bb05f67920b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:23 +0000
Subject: [PATCH 12/66] fix: estimate operators whose real coefficients are
 stored as complex numbers

---
 src/python/zquantum/core/measurement.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/python/zquantum/core/measurement.py b/src/python/zquantum/core/measurement.py
index 9ca80e3..c34f3e8 100644
--- a/src/python/zquantum/core/measurement.py
+++ b/src/python/zquantum/core/measurement.py
@@ -407,10 +407,13 @@ def expectation_values_to_real(
         values.append(value)
     expectation_values.values = np.array(values)
     if expectation_values.correlations:
-        for i, value in enumerate(expectation_values.correlations):
-            if isinstance(value, complex):
-                value = value.real
-            expectation_values.correlations[i] = value
+        expectation_values.correlations = [
+            np.real(value) for value in expectation_values.correlations
+        ]
+    if expectation_values.estimator_covariances:
+        expectation_values.estimator_covariances = [
+            np.real(value) for value in expectation_values.estimator_covariances
+        ]
     return expectation_values
 
 
@@ -765,7 +768,10 @@ class Measurements:
         ]
         expectation_values = np.array(expectation_values_list)
 
-        correlations = np.zeros((len(ising_operator.terms),) * 2)
+        # Real coefficients can be stored as complex numbers
+        correlations = np.zeros(
+            (len(ising_operator.terms),) * 2, dtype=expectation_values.dtype
+        )
         for i, first_term in enumerate(ising_operator.terms):
             correlations[i, i] = ising_operator.terms[first_term] ** 2
             for j in range(i):
-- 
2.43.0


From 13d1a022140c25f8d0147c6d802d938f77514179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:55 +0000
Subject: [PATCH 13/66] fix: keep single-subsystem outcomes of two or more
 digits in distribution files

---
 .../_measurement_outcome_distribution.py             | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/python/zquantum/core/distribution/_measurement_outcome_distribution.py b/src/python/zquantum/core/distribution/_measurement_outcome_distribution.py
index 5c3b1db..90c3439 100644
--- a/src/python/zquantum/core/distribution/_measurement_outcome_distribution.py
+++ b/src/python/zquantum/core/distribution/_measurement_outcome_distribution.py
@@ -92,7 +92,12 @@ def preprocess_distibution_dict(
     res_dict = {}
     for key, value in input_dict.items():
         if isinstance(key, str):
-            res_dict[tuple(map(int, key if "," not in key else key.split(",")))] = value
+            if "," in key:
+                # A single integer is written with a trailing comma
+                digits = (key[:-1] if key.endswith(",") else key).split(",")
+                res_dict[tuple(map(int, digits))] = value
+            else:
+                res_dict[tuple(map(int, key))] = value
         elif isinstance(key, tuple):
             res_dict[key] = value
         else:
@@ -222,8 +227,11 @@ def normalize_measurement_outcome_distribution(
 
 
 def change_tuple_dict_keys_to_comma_separated_integers(dict):
+    # A single integer gets a trailing comma, otherwise (12,) would read as (1, 2)
     return {
-        ",".join(map(str, key)) if isinstance(key, tuple) else key: value
+        ",".join(map(str, key)) + ("," if len(key) == 1 else "")
+        if isinstance(key, tuple)
+        else key: value
         for key, value in dict.items()
     }
 
-- 
2.43.0


From 4682a573a62f92adc2b5e20766ebbefd05ea12e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:55 +0000
Subject: [PATCH 14/66] fix: maximum mean discrepancy of wide bitstrings
 overflowed

---
 src/python/zquantum/core/distribution/mmd.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/python/zquantum/core/distribution/mmd.py b/src/python/zquantum/core/distribution/mmd.py
index 6a32748..9811550 100644
--- a/src/python/zquantum/core/distribution/mmd.py
+++ b/src/python/zquantum/core/distribution/mmd.py
@@ -46,7 +46,7 @@ def compute_rbf_kernel(x_i: np.ndarray, y_j: np.ndarray, sigma: float) -> np.nda
     Returns:
         np.ndarray: The gaussian kernel matrix.
     """
-    exponent = np.abs(x_i[:, None] - y_j[None, :]) ** 2
+    exponent = np.abs(x_i[:, None] - y_j[None, :]).astype(float) ** 2
     try:
         gamma = 1.0 / (2 * sigma)
     except ZeroDivisionError as error:
@@ -73,7 +73,7 @@ def compute_multi_rbf_kernel(
     Returns:
         np.ndarray: The gaussian kernel matrix.
     """
-    exponent = np.abs(x_i[:, None] - y_j[None, :]) ** 2
+    exponent = np.abs(x_i[:, None] - y_j[None, :]).astype(float) ** 2
     kernel_matrix = np.zeros(exponent.shape)
     for sigma in sigmas:
         try:
@@ -120,9 +120,10 @@ def compute_mmd(
             measured_distribution.distribution_dict.get(bitstring, 0)
         )
 
+    # Digit Tuple to int. Python integers, because wide bitstrings overflow np.int64
     basis = np.asarray(
-        [int("".join(map(str, item)), 2) for item in all_keys]
-    )  # Digit Tuple to int
+        [int("".join(map(str, item)), 2) for item in all_keys], dtype=object
+    )
     if not hasattr(sigma, "__len__"):
         kernel_matrix = compute_rbf_kernel(basis, basis, sigma)
     else:
-- 
2.43.0


From e1c8e9ec750dc2d93fcb6986decbbd2e779380e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:14 +0000
Subject: [PATCH 15/66] fix: decode plain dictionaries with only numerical
 values

---
 src/python/zquantum/core/serialization.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/python/zquantum/core/serialization.py b/src/python/zquantum/core/serialization.py
index f58efc0..7bb20a2 100644
--- a/src/python/zquantum/core/serialization.py
+++ b/src/python/zquantum/core/serialization.py
@@ -32,6 +32,18 @@ def has_numerical_values(dictionary):
     return all(isinstance(value, Number) for value in dictionary.values())
 
 
+def _has_form_of_distribution(dictionary):
+    if not has_numerical_values(dictionary):
+        return False
+    try:
+        return is_measurement_outcome_distribution(
+            preprocess_distibution_dict(dictionary)
+        )
+    except ValueError:
+        # Some key is not a sequence of integers
+        return False
+
+
 def preprocess(tree):
     """This inflates namedtuples into dictionaries, otherwise they would be serialized
     as lists.
@@ -101,9 +113,7 @@ class OrquestraDecoder(json.JSONDecoder):
         elif "call_number" in obj and "value" in obj:
             cls = HistoryEntry if "artifacts" not in obj else HistoryEntryWithArtifacts
             return cls(**obj)
-        elif has_numerical_values(obj) and is_measurement_outcome_distribution(
-            preprocess_distibution_dict(obj)
-        ):
+        elif _has_form_of_distribution(obj):
             return MeasurementOutcomeDistribution(obj, normalize=False)
         elif "schema" in obj and obj["schema"] in self.SCHEMA_MAP:
             return self.SCHEMA_MAP[obj.pop("schema")](obj)
-- 
2.43.0


From b2163070782cc49ff0dc8a665ac024483e467da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:14 +0000
Subject: [PATCH 16/66] fix: encode numpy scalars in result artifacts

---
 src/python/zquantum/core/serialization.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/python/zquantum/core/serialization.py b/src/python/zquantum/core/serialization.py
index 7bb20a2..14525de 100644
--- a/src/python/zquantum/core/serialization.py
+++ b/src/python/zquantum/core/serialization.py
@@ -79,6 +79,8 @@ class OrquestraEncoder(json.JSONEncoder):
     def default(self, o: Any):
         if type(o) in self.ENCODERS_TABLE:
             return self.ENCODERS_TABLE[type(o)](o)
+        if isinstance(o, np.generic):
+            return convert_array_to_dict(o) if np.iscomplexobj(o) else o.item()
         return o
 
     def encode(self, o: Any):
-- 
2.43.0


From 496b811dfa2514bedf8451168685cc63104c31d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:14 +0000
Subject: [PATCH 17/66] fix: saving optimization results changed the saved
 object

---
 src/python/zquantum/core/serialization.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/python/zquantum/core/serialization.py b/src/python/zquantum/core/serialization.py
index 14525de..009cae0 100644
--- a/src/python/zquantum/core/serialization.py
+++ b/src/python/zquantum/core/serialization.py
@@ -124,9 +124,12 @@ class OrquestraDecoder(json.JSONDecoder):
 
 
 def save_optimization_results(optimization_results: dict, filename: AnyPath):
-    optimization_results["schema"] = SCHEMA_VERSION + "-optimization_result"
+    dictionary = {
+        **optimization_results,
+        "schema": SCHEMA_VERSION + "-optimization_result",
+    }
     with open(filename, "wt") as target_file:
-        json.dump(optimization_results, target_file, cls=OrquestraEncoder)
+        json.dump(dictionary, target_file, cls=OrquestraEncoder)
 
 
 def load_optimization_results(filename: AnyPath):
-- 
2.43.0


From 7324a1108cd353fbb882defc9e8e8901fbcda752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:14 +0000
Subject: [PATCH 18/66] fix: load measurement estimates saved without frame
 measurements

---
 src/python/zquantum/core/utils.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/python/zquantum/core/utils.py b/src/python/zquantum/core/utils.py
index 327baea..c2bb080 100644
--- a/src/python/zquantum/core/utils.py
+++ b/src/python/zquantum/core/utils.py
@@ -551,7 +551,9 @@ def save_nmeas_estimate(
         f.write(json.dumps(data, indent=2))
 
 
-def load_nmeas_estimate(filename: AnyPath) -> Tuple[float, int, np.ndarray]:
+def load_nmeas_estimate(
+    filename: AnyPath,
+) -> Tuple[float, int, Optional[np.ndarray]]:
     """Load an estimate of the number of measurements from a file.
 
     Args:
@@ -560,13 +562,16 @@ def load_nmeas_estimate(filename: AnyPath) -> Tuple[float, int, np.ndarray]:
     Returns:
         nmeas: number of measurements for epsilon = 1.0
         nterms: number of terms in the hamiltonian
-        frame_meas: frame measurements (number of measurements per group)
+        frame_meas: frame measurements (number of measurements per group), None if the
+            estimate was saved without them
     """
 
     with open(filename, "r") as f:
         data = json.load(f)
 
-    frame_meas = convert_dict_to_array(data["frame_meas"])
+    frame_meas = None
+    if "frame_meas" in data:
+        frame_meas = convert_dict_to_array(data["frame_meas"])
     K_coeff = data["K"]
     nterms = data["nterms"]
 
-- 
2.43.0


From 76f06dd4b8be6f61379398f94d23073780b18f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:02 +0000
Subject: [PATCH 19/66] fix: iterations over one operator shared their position

---
 .../core/openfermion/ops/operators/symbolic_operator.py    | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py b/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
index 0f7a1ee..e9deb4a 100644
--- a/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
+++ b/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
@@ -619,12 +619,7 @@ class SymbolicOperator(metaclass=abc.ABCMeta):
         return not (self == other)
 
     def __iter__(self):
-        self._iter = iter(self.terms.items())
-        return self
-
-    def __next__(self):
-        term, coefficient = next(self._iter)
-        return self.__class__(term=term, coefficient=coefficient)
+        return self.get_operators()
 
     def isclose(self, other, tol=EQ_TOLERANCE):
         """Check if other (SymbolicOperator) is close to self.
-- 
2.43.0


From e6b52ba4adee6d6822810791e68428950476b996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:03 +0000
Subject: [PATCH 20/66] fix: subtracting an operator from itself in place

---
 .../openfermion/ops/operators/symbolic_operator.py     | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py b/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
index e9deb4a..ec60967 100644
--- a/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
+++ b/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
@@ -438,8 +438,9 @@ class SymbolicOperator(metaclass=abc.ABCMeta):
             TypeError: Cannot add invalid type.
         """
         if isinstance(addend, type(self)):
-            for term in addend.terms:
-                self.terms[term] = self.terms.get(term, 0.0) + addend.terms[term]
+            # The list is needed if the addend is this operator itself
+            for term, coefficient in list(addend.terms.items()):
+                self.terms[term] = self.terms.get(term, 0.0) + coefficient
                 if self._issmall(self.terms[term]):
                     del self.terms[term]
         elif isinstance(addend, COEFFICIENT_TYPES):
@@ -485,8 +486,9 @@ class SymbolicOperator(metaclass=abc.ABCMeta):
             TypeError: Cannot subtract invalid type.
         """
         if isinstance(subtrahend, type(self)):
-            for term in subtrahend.terms:
-                self.terms[term] = self.terms.get(term, 0.0) - subtrahend.terms[term]
+            # The list is needed if the subtrahend is this operator itself
+            for term, coefficient in list(subtrahend.terms.items()):
+                self.terms[term] = self.terms.get(term, 0.0) - coefficient
                 if self._issmall(self.terms[term]):
                     del self.terms[term]
         elif isinstance(subtrahend, COEFFICIENT_TYPES):
-- 
2.43.0


From 1b2de548a3657f34d152628d8bad580464aeeecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:03 +0000
Subject: [PATCH 21/66] fix: tolerance of isclose grew with every large term
 compared

---
 .../core/openfermion/ops/operators/symbolic_operator.py      | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py b/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
index ec60967..d973359 100644
--- a/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
+++ b/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
@@ -640,9 +640,10 @@ class SymbolicOperator(metaclass=abc.ABCMeta):
         for term in set(self.terms).intersection(set(other.terms)):
             a = self.terms[term]
             b = other.terms[term]
+            term_tol = tol
             if not (isinstance(a, sympy.Expr) or isinstance(b, sympy.Expr)):
-                tol *= max(1, abs(a), abs(b))
-            if self._issmall(a - b, tol) is False:
+                term_tol *= max(1, abs(a), abs(b))
+            if self._issmall(a - b, term_tol) is False:
                 return False
         # terms only in one (compare to 0.0 so only abs_tol)
         for term in set(self.terms).symmetric_difference(set(other.terms)):
-- 
2.43.0


From 41f782210a97edb9dbeb09a62dc9b2fbf25288fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:03 +0000
Subject: [PATCH 22/66] fix: compress dropped negative symbolic coefficients

---
 .../core/openfermion/ops/operators/symbolic_operator.py       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py b/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
index d973359..cf32242 100644
--- a/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
+++ b/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
@@ -668,9 +668,9 @@ class SymbolicOperator(metaclass=abc.ABCMeta):
             coeff = self.terms[term]
 
             if isinstance(coeff, sympy.Expr):
-                if sympy.simplify(sympy.im(coeff) <= abs_tol) == True:
+                if sympy.simplify(abs(sympy.im(coeff)) <= abs_tol) == True:
                     coeff = sympy.re(coeff)
-                if sympy.simplify(sympy.re(coeff) <= abs_tol) == True:
+                if sympy.simplify(abs(sympy.re(coeff)) <= abs_tol) == True:
                     coeff = 1j * sympy.im(coeff)
                 if sympy.simplify(abs(coeff) <= abs_tol) != True:
                     new_terms[term] = coeff
-- 
2.43.0


From 4ff55ebaea67707c4040a564f10a703e681e8f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:03 +0000
Subject: [PATCH 23/66] fix: sign of the imaginary part of parsed coefficients
 such as -1-2j

---
 .../core/openfermion/ops/operators/symbolic_operator.py         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py b/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
index cf32242..8a07b13 100644
--- a/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
+++ b/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
@@ -177,7 +177,7 @@ class SymbolicOperator(metaclass=abc.ABCMeta):
             else:
                 try:
                     if "j" in coef_string:
-                        if coef_string[0] == "-":
+                        if coef_string.startswith("-("):
                             coef = -complex(coef_string[1:])
                         else:
                             coef = complex(coef_string)
-- 
2.43.0


From 23d52463f2c1ded961e54dd2bce042e0221375ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:25 +0000
Subject: [PATCH 24/66] fix: save_parameter_grid_evaluation changed the
 evaluations being saved

---
 src/python/zquantum/core/openfermion/zapata_utils/_io.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/python/zquantum/core/openfermion/zapata_utils/_io.py b/src/python/zquantum/core/openfermion/zapata_utils/_io.py
index 89c6e1a..331f3a5 100644
--- a/src/python/zquantum/core/openfermion/zapata_utils/_io.py
+++ b/src/python/zquantum/core/openfermion/zapata_utils/_io.py
@@ -295,11 +295,12 @@ def save_parameter_grid_evaluation(parameter_grid_evaluation, filename):
     full_dict = {}
     full_dict["schema"] = SCHEMA_VERSION + "-parameter_grid_evaluation"
 
+    full_dict["values_set"] = []
+
     for evaluation in parameter_grid_evaluation:
         value = evaluation["value"].to_dict()
         value["schema"] = SCHEMA_VERSION + "-value_estimate"
-        evaluation["value"] = value
-    full_dict["values_set"] = parameter_grid_evaluation
+        full_dict["values_set"].append({**evaluation, "value": value})
 
     with open(filename, "w") as f:
         f.write(json.dumps(full_dict, indent=2))
-- 
2.43.0


From 03dd6536d92eaff6c76faafa6d737215a102f4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:01 +0000
Subject: [PATCH 25/66] fix: text outside the brackets of an operator string
 was silently ignored

---
 .../core/openfermion/ops/operators/symbolic_operator.py        | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py b/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
index 8a07b13..43b8b3a 100644
--- a/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
+++ b/src/python/zquantum/core/openfermion/ops/operators/symbolic_operator.py
@@ -164,6 +164,9 @@ class SymbolicOperator(metaclass=abc.ABCMeta):
         """
 
         pattern = r"(.*?)\[(.*?)\]"  # regex for a term
+        if re.sub(pattern, "", long_string, flags=re.DOTALL).strip():
+            raise ValueError("Invalid operator string {}.".format(long_string))
+
         for match in re.findall(pattern, long_string, flags=re.DOTALL):
 
             # Determine the coefficient for this term
-- 
2.43.0


From f18162a3ac2d8f478aadf041e1df7cfaf269ca2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:05 +0000
Subject: [PATCH 26/66] fix: Bravyi-Kitaev transform of an interaction operator
 onto more qubits raised IndexError

---
 .../openfermion/transforms/opconversions/bravyi_kitaev.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/python/zquantum/core/openfermion/transforms/opconversions/bravyi_kitaev.py b/src/python/zquantum/core/openfermion/transforms/opconversions/bravyi_kitaev.py
index 98bd737..95467e6 100644
--- a/src/python/zquantum/core/openfermion/transforms/opconversions/bravyi_kitaev.py
+++ b/src/python/zquantum/core/openfermion/transforms/opconversions/bravyi_kitaev.py
@@ -273,7 +273,7 @@ def _bravyi_kitaev_interaction_operator(interaction_operator, n_qubits):
     qubit_hamiltonian_coef = []
 
     #  For cases A - F see Table II of Seeley, Richard, Love
-    for i in range(n_qubits):
+    for i in range(N):
         # A. Number operators: n_i
         if abs(one_body[i, i]) > 0:
             qubit_hamiltonian += _qubit_operator_creation(
@@ -313,8 +313,8 @@ def _bravyi_kitaev_interaction_operator(interaction_operator, n_qubits):
                 constant_term += coef
 
     # C. Number-excitation operators: n_i a_j^d a_k
-    for i in range(n_qubits):
-        for j in range(n_qubits):
+    for i in range(N):
+        for j in range(N):
             for k in range(j):
                 if i not in (j, k):
                     coef = _two_body_coef(two_body, i, j, k, i)
@@ -340,7 +340,7 @@ def _bravyi_kitaev_interaction_operator(interaction_operator, n_qubits):
                         qubit_hamiltonian += number
 
     # D. Double-excitation operators: c_i^d c_j^d c_k c_l
-    for i in range(n_qubits):
+    for i in range(N):
         for j in range(i):
             for k in range(j):
                 for l in range(k):
-- 
2.43.0


From 3b1b214538ba46dedcf20b1b41243946c63a361a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:34 +0000
Subject: [PATCH 27/66] fix: reordering an operator without any factor raised
 ValueError

---
 .../transforms/opconversions/term_reordering.py           | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/openfermion/transforms/opconversions/term_reordering.py b/src/python/zquantum/core/openfermion/transforms/opconversions/term_reordering.py
index d1a3b6e..399917c 100644
--- a/src/python/zquantum/core/openfermion/transforms/opconversions/term_reordering.py
+++ b/src/python/zquantum/core/openfermion/transforms/opconversions/term_reordering.py
@@ -247,7 +247,13 @@ def reorder(operator, order_function, num_modes=None, reverse=False):
     """
 
     if num_modes is None:
-        num_modes = max([factor[0] for term in operator.terms for factor in term]) + 1
+        num_modes = (
+            max(
+                [factor[0] for term in operator.terms for factor in term],
+                default=-1,
+            )
+            + 1
+        )
 
     mode_map = {
         mode_idx: order_function(mode_idx, num_modes) for mode_idx in range(num_modes)
-- 
2.43.0


From 759db01c1e4c2cfe54e9a3eacfe9fe4808a00c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:10 +0000
Subject: [PATCH 28/66] fix: ground state of a one-qubit operator raised
 TypeError

---
 .../zquantum/core/openfermion/linalg/sparse_tools.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/python/zquantum/core/openfermion/linalg/sparse_tools.py b/src/python/zquantum/core/openfermion/linalg/sparse_tools.py
index 9cbbe39..5b9eef7 100644
--- a/src/python/zquantum/core/openfermion/linalg/sparse_tools.py
+++ b/src/python/zquantum/core/openfermion/linalg/sparse_tools.py
@@ -338,9 +338,15 @@ def get_ground_state(sparse_operator, initial_guess=None):
         eigenstate:
             The lowest eigenstate in scipy.sparse csc format.
     """
-    values, vectors = scipy.sparse.linalg.eigsh(
-        sparse_operator, k=1, v0=initial_guess, which="SA", maxiter=1e7
-    )
+    if sparse_operator.shape[0] - 1 <= 1:
+        # Operator too small for sparse eigensolver
+        values, vectors = numpy.linalg.eigh(
+            sparse_operator @ numpy.eye(sparse_operator.shape[0])
+        )
+    else:
+        values, vectors = scipy.sparse.linalg.eigsh(
+            sparse_operator, k=1, v0=initial_guess, which="SA", maxiter=1e7
+        )
 
     order = numpy.argsort(values)
     values = values[order]
-- 
2.43.0


From ac050894f9f31b03f60445fe059491dc707ed0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:10 +0000
Subject: [PATCH 29/66] fix: sparse matrix and spectrum of a tensor operator
 ignored the number of modes

---
 src/python/zquantum/core/openfermion/linalg/sparse_tools.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/openfermion/linalg/sparse_tools.py b/src/python/zquantum/core/openfermion/linalg/sparse_tools.py
index 5b9eef7..dc24d33 100644
--- a/src/python/zquantum/core/openfermion/linalg/sparse_tools.py
+++ b/src/python/zquantum/core/openfermion/linalg/sparse_tools.py
@@ -462,7 +462,9 @@ def get_sparse_operator(operator, n_qubits=None, trunc=None, hbar=1.0):
     from zquantum.core.openfermion.transforms.opconversions import get_fermion_operator
 
     if isinstance(operator, PolynomialTensor):
-        return jordan_wigner_sparse(get_fermion_operator(operator))
+        if n_qubits is None:
+            n_qubits = count_qubits(operator)
+        return jordan_wigner_sparse(get_fermion_operator(operator), n_qubits)
     elif isinstance(operator, FermionOperator):
         return jordan_wigner_sparse(operator, n_qubits)
     elif isinstance(operator, QubitOperator):
-- 
2.43.0


From 6f610cea7afd5f0448e35a6a3cd3d9804df16112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:10 +0000
Subject: [PATCH 30/66] fix: IndexError for terms leading out of a restricted
 excitation space

---
 src/python/zquantum/core/openfermion/linalg/sparse_tools.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/python/zquantum/core/openfermion/linalg/sparse_tools.py b/src/python/zquantum/core/openfermion/linalg/sparse_tools.py
index dc24d33..654d4a9 100644
--- a/src/python/zquantum/core/openfermion/linalg/sparse_tools.py
+++ b/src/python/zquantum/core/openfermion/linalg/sparse_tools.py
@@ -799,6 +799,10 @@ def _build_term_op_(term, state_array, int_state_array, sorting_indices):
             int_state_array, int_encoding, sorter=sorting_indices
         )
 
+        if target_state_index_sorted == space_size:
+            # Then target state comes after all those in the space considered:
+            continue
+
         target_state = sorting_indices[target_state_index_sorted]
 
         if int_state_array[target_state] == int_encoding:
-- 
2.43.0


From 11c89c554d0fedc64dc6ee3515350a089b7964b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:49 +0000
Subject: [PATCH 31/66] fix: arithmetic of polynomial tensors modified arrays
 shared with other tensors

---
 .../ops/representations/polynomial_tensor.py           | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/python/zquantum/core/openfermion/ops/representations/polynomial_tensor.py b/src/python/zquantum/core/openfermion/ops/representations/polynomial_tensor.py
index ed50e64..e7d33c3 100644
--- a/src/python/zquantum/core/openfermion/ops/representations/polynomial_tensor.py
+++ b/src/python/zquantum/core/openfermion/ops/representations/polynomial_tensor.py
@@ -237,7 +237,7 @@ class PolynomialTensor(object):
                     self.n_body_tensors[key], addend.n_body_tensors[key]
                 )
             else:
-                self.n_body_tensors[key] = addend.n_body_tensors[key]
+                self.n_body_tensors[key] = copy.deepcopy(addend.n_body_tensors[key])
 
         return self
 
@@ -279,7 +279,9 @@ class PolynomialTensor(object):
                     self.n_body_tensors[key], subtrahend.n_body_tensors[key]
                 )
             else:
-                self.n_body_tensors[key] = subtrahend.n_body_tensors[key]
+                self.n_body_tensors[key] = copy.deepcopy(
+                    subtrahend.n_body_tensors[key]
+                )
 
         return self
 
@@ -294,7 +296,7 @@ class PolynomialTensor(object):
     def __imul__(self, multiplier):
         if isinstance(multiplier, COEFFICIENT_TYPES):
             for key in self.n_body_tensors:
-                self.n_body_tensors[key] *= multiplier
+                self.n_body_tensors[key] = self.n_body_tensors[key] * multiplier
 
         elif isinstance(multiplier, PolynomialTensor):
             if self.n_qubits != multiplier.n_qubits:
@@ -328,7 +330,7 @@ class PolynomialTensor(object):
     def __itruediv__(self, dividend):
         if isinstance(dividend, COEFFICIENT_TYPES):
             for key in self.n_body_tensors:
-                self.n_body_tensors[key] /= dividend
+                self.n_body_tensors[key] = self.n_body_tensors[key] / dividend
         else:
             raise TypeError("Invalid type.")
 
-- 
2.43.0


From 26baf25a1537db116fb4f620239ff2b81e80d761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:49 +0000
Subject: [PATCH 32/66] fix: removing inactive orbitals dropped active orbitals
 on which no term acts

---
 .../repconversions/operator_tapering.py       |  3 ++-
 .../core/openfermion/zapata_utils/_utils.py   | 21 +++++++++++++++----
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/python/zquantum/core/openfermion/transforms/repconversions/operator_tapering.py b/src/python/zquantum/core/openfermion/transforms/repconversions/operator_tapering.py
index a871c6e..146841a 100644
--- a/src/python/zquantum/core/openfermion/transforms/repconversions/operator_tapering.py
+++ b/src/python/zquantum/core/openfermion/transforms/repconversions/operator_tapering.py
@@ -83,7 +83,8 @@ def freeze_orbitals(fermion_operator, occupied, unoccupied=None, prune=True):
                     new_operator.terms[term] *= -1
 
     # Renumber indices to remove frozen orbitals
-    new_operator = prune_unused_indices(new_operator)
+    if prune:
+        new_operator = prune_unused_indices(new_operator)
 
     return new_operator
 
diff --git a/src/python/zquantum/core/openfermion/zapata_utils/_utils.py b/src/python/zquantum/core/openfermion/zapata_utils/_utils.py
index e19c1bd..1224b33 100644
--- a/src/python/zquantum/core/openfermion/zapata_utils/_utils.py
+++ b/src/python/zquantum/core/openfermion/zapata_utils/_utils.py
@@ -1,6 +1,6 @@
 import itertools
 import random
-from typing import Iterable, List, Optional
+from typing import List, Optional, Sequence
 
 import numpy as np
 from zquantum.core.circuits import Circuit, X, Y, Z
@@ -635,7 +635,7 @@ def remove_inactive_orbitals(
     # Determine which occupied spin-orbitals are to be frozen
     occupied = range(2 * n_core)
 
-    unoccupied: Iterable
+    unoccupied: Sequence[int]
     # Determine which unoccupied spin-orbitals are to be frozen
     if n_active is not None:
         unoccupied = range(
@@ -645,10 +645,23 @@ def remove_inactive_orbitals(
         unoccupied = []
 
     # Freeze the spin-orbitals
-    frozen_fermion_op = freeze_orbitals(fermion_op, occupied, unoccupied)
+    frozen_fermion_op = freeze_orbitals(fermion_op, occupied, unoccupied, prune=False)
+
+    # Renumber the active spin-orbitals. All of them are kept, including those on which
+    # no term acts.
+    active_fermion_op = FermionOperator()
+    for term, coefficient in frozen_fermion_op.terms.items():
+        active_fermion_op += FermionOperator(
+            tuple((index - len(occupied), action) for index, action in term),
+            coefficient,
+        )
+    n_spin_orbitals = interaction_op.one_body_tensor.shape[0]
+    n_active_spin_orbitals = n_spin_orbitals - len(occupied) - len(unoccupied)
 
     # Convert back to an interaction operator
-    frozen_interaction_op = get_interaction_operator(frozen_fermion_op)
+    frozen_interaction_op = get_interaction_operator(
+        active_fermion_op, n_qubits=n_active_spin_orbitals
+    )
 
     return frozen_interaction_op
 
-- 
2.43.0


From 9c74e5fce0f24eecea44a617019097d0e6281cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:16 +0000
Subject: [PATCH 33/66] fix: variances of groups with complex-typed
 coefficients were complex numbers

---
 src/python/zquantum/core/hamiltonian.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/python/zquantum/core/hamiltonian.py b/src/python/zquantum/core/hamiltonian.py
index 01ed1fc..c0cc345 100644
--- a/src/python/zquantum/core/hamiltonian.py
+++ b/src/python/zquantum/core/hamiltonian.py
@@ -133,7 +133,7 @@ def get_decomposition_function(
 
 def _calculate_variance_upper_bound(group: QubitOperator) -> float:
     coefficients = np.array(list(group.terms.values()))
-    return np.sum(coefficients**2)
+    return np.sum(np.abs(coefficients) ** 2)
 
 
 def _remove_constant_term_from_group(group: QubitOperator) -> QubitOperator:
@@ -183,7 +183,9 @@ def compute_group_variances(
             pauli_variances_for_group = pauli_variances[
                 offset : offset + group_sizes[i]
             ]
-            frame_variances.append(np.sum(coeffs**2 * pauli_variances_for_group))
+            frame_variances.append(
+                np.sum(np.abs(coeffs) ** 2 * pauli_variances_for_group)
+            )
 
     return np.array(frame_variances)
 
-- 
2.43.0


From 61b1acda37f3d1857978ea4d539c28ecf51ee39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:43 +0000
Subject: [PATCH 34/66] fix: a single symbols map was applied to the first
 estimation task only and the others were dropped

---
 .../zquantum/core/estimation/_estimation.py       | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/python/zquantum/core/estimation/_estimation.py b/src/python/zquantum/core/estimation/_estimation.py
index 852e066..76df1d1 100644
--- a/src/python/zquantum/core/estimation/_estimation.py
+++ b/src/python/zquantum/core/estimation/_estimation.py
@@ -1,7 +1,7 @@
 ################################################################################
 # © Copyright 2021-2022 Zapata Computing Inc.
 ################################################################################
-from typing import Dict, List, Optional, Tuple, cast
+from typing import Dict, List, Optional, Tuple, Union, cast
 
 import numpy as np
 import sympy
@@ -185,7 +185,9 @@ def allocate_shots_proportionally(
 
 def evaluate_estimation_circuits(
     estimation_tasks: List[EstimationTask],
-    symbols_maps: List[Dict[sympy.Symbol, float]],
+    symbols_maps: Union[
+        List[Dict[sympy.Symbol, float]], Dict[sympy.Symbol, float]
+    ],
 ) -> List[EstimationTask]:
     """Evaluates circuits given in all estimation tasks using the given symbols_maps.
 
@@ -198,6 +200,15 @@ def evaluate_estimation_circuits(
         symbols_maps: a list of dictionaries (or singular dictionary) that map the
             symbolic symbols used in the parametrized circuits to the associated values
     """
+    if isinstance(symbols_maps, dict):
+        symbols_maps = [symbols_maps]
+    if len(symbols_maps) == 1:
+        symbols_maps = list(symbols_maps) * len(estimation_tasks)
+    if len(symbols_maps) != len(estimation_tasks):
+        raise ValueError(
+            "Number of symbols maps should be one or the number of estimation tasks."
+        )
+
     return [
         EstimationTask(
             operator=estimation_task.operator,
-- 
2.43.0


From 808a0f6f5b080dc28c535c5f04155a6ae36949e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:07 +0000
Subject: [PATCH 35/66] fix: parameter noise could not be added to integer
 parameters

---
 src/python/zquantum/core/cost_function.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/zquantum/core/cost_function.py b/src/python/zquantum/core/cost_function.py
index d083031..1a52377 100644
--- a/src/python/zquantum/core/cost_function.py
+++ b/src/python/zquantum/core/cost_function.py
@@ -140,7 +140,7 @@ def get_ground_state_cost_function(
         if parameter_precision is not None:
             rng = np.random.default_rng(parameter_precision_seed)
             noise_array = rng.normal(0.0, parameter_precision, len(parameters))
-            parameters += noise_array
+            parameters = parameters + noise_array
 
         symbols_map = create_symbols_map(circuit_symbols, parameters)
         current_estimation_tasks = evaluate_estimation_circuits(
@@ -288,7 +288,7 @@ class AnsatzBasedCostFunction:
             noise_array = rng.normal(
                 0.0, self.parameter_precision, len(full_parameters)
             )
-            full_parameters += noise_array
+            full_parameters = full_parameters + noise_array
 
         symbols_map = create_symbols_map(self.circuit_symbols, full_parameters)
         estimation_tasks = evaluate_estimation_circuits(
-- 
2.43.0


From e5029ac26ad87ecfee88ab4152ffba8b0c2cb366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:07 +0000
Subject: [PATCH 36/66] fix: parameter preprocessors given as an iterator were
 lost after the first call

---
 src/python/zquantum/core/cost_function.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/python/zquantum/core/cost_function.py b/src/python/zquantum/core/cost_function.py
index 1a52377..b9a3241 100644
--- a/src/python/zquantum/core/cost_function.py
+++ b/src/python/zquantum/core/cost_function.py
@@ -387,11 +387,13 @@ def create_cost_function(
         opt_results = optimizer.minimize(cost_function, initial_params)
 
     """
+    # An iterator could be consumed only once, but every call needs all preprocessors
+    preprocessors = (
+        [] if parameter_preprocessors is None else list(parameter_preprocessors)
+    )
 
     def _cost_function(parameters: np.ndarray) -> Union[float, ValueEstimate]:
-        for preprocessor in (
-            [] if parameter_preprocessors is None else parameter_preprocessors
-        ):
+        for preprocessor in preprocessors:
             parameters = preprocessor(parameters)
 
         estimation_tasks = estimation_tasks_factory(parameters)
-- 
2.43.0


From 25734a551d0badddefcf799c4aa645c488ad5ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:45 +0000
Subject: [PATCH 37/66] fix: constant terms stored as complex numbers had
 complex values

---
 src/python/zquantum/core/estimation/_estimation.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/python/zquantum/core/estimation/_estimation.py b/src/python/zquantum/core/estimation/_estimation.py
index 76df1d1..d5cdbd1 100644
--- a/src/python/zquantum/core/estimation/_estimation.py
+++ b/src/python/zquantum/core/estimation/_estimation.py
@@ -296,10 +296,12 @@ def evaluate_non_measured_estimation_tasks(
             coefficient = task.operator.terms[()]
 
         expectation_values.append(
-            ExpectationValues(
-                np.asarray([coefficient]),
-                correlations=[np.asarray([[0.0]])],
-                estimator_covariances=[np.asarray([[0.0]])],
+            expectation_values_to_real(
+                ExpectationValues(
+                    np.asarray([coefficient]),
+                    correlations=[np.asarray([[0.0]])],
+                    estimator_covariances=[np.asarray([[0.0]])],
+                )
             )
         )
 
-- 
2.43.0


From ae9738dbaf7ab646ba4dafc213c6887554c4426a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:53 +0000
Subject: [PATCH 38/66] fix: derivatives of Trotterized evolution repeated
 steps of the full evolution time

---
 src/python/zquantum/core/evolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/evolution.py b/src/python/zquantum/core/evolution.py
index b884b4d..dc553a1 100644
--- a/src/python/zquantum/core/evolution.py
+++ b/src/python/zquantum/core/evolution.py
@@ -163,7 +163,7 @@ def time_evolution_derivatives(
         final_factors = []
 
         repeated_circuit = time_evolution(
-            hamiltonian, time, method="Trotter", trotter_order=1
+            hamiltonian, time / trotter_order, method="Trotter", trotter_order=1
         )
 
         for position in range(trotter_order):
-- 
2.43.0


From cc91cc5c687ce498d1e5d312f04cd40a22dc4f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:53 +0000
Subject: [PATCH 39/66] fix: evolution under a Hamiltonian without terms raised
 TypeError

---
 src/python/zquantum/core/evolution.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/python/zquantum/core/evolution.py b/src/python/zquantum/core/evolution.py
index dc553a1..a25e599 100644
--- a/src/python/zquantum/core/evolution.py
+++ b/src/python/zquantum/core/evolution.py
@@ -44,6 +44,7 @@ def time_evolution(
             for _index_order in range(trotter_order)
             for term in terms
         ),
+        circuits.Circuit(),
     )
 
 
-- 
2.43.0


From 8b6a05122d2e8e7dd80e57890937baa6ebb9f1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:53 +0000
Subject: [PATCH 40/66] fix: derivatives of evolution divided by zero for terms
 with zero coefficient

---
 src/python/zquantum/core/evolution.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/evolution.py b/src/python/zquantum/core/evolution.py
index a25e599..1d6ed69 100644
--- a/src/python/zquantum/core/evolution.py
+++ b/src/python/zquantum/core/evolution.py
@@ -149,7 +149,8 @@ def time_evolution_derivatives(
                     f"Offending term: {term_1}"
                 )
             output_factors.append(r * factor)
-            shift = factor * (np.pi / (4.0 * r))
+            # A term with zero coefficient does not contribute, whatever the shift
+            shift = factor * (np.pi / (4.0 * r)) if r != 0 else 0.0
 
             for j, term_2 in enumerate(terms):
                 output += time_evolution_for_term(
-- 
2.43.0


From 3ddcc08eb1f380fbe724bfeec30791a60baf40a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:37 +0000
Subject: [PATCH 41/66] fix: copies of recorders lost the history of the
 gradient

---
 src/python/zquantum/core/history/recorder.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/python/zquantum/core/history/recorder.py b/src/python/zquantum/core/history/recorder.py
index 3ace945..9030e9f 100644
--- a/src/python/zquantum/core/history/recorder.py
+++ b/src/python/zquantum/core/history/recorder.py
@@ -64,6 +64,8 @@ def copy_recorder(recorder_to_copy):
     recorder_copy = type(recorder_to_copy)(**attributes_dict)
     recorder_copy.call_number = recorder_to_copy.call_number
     recorder_copy.history = recorder_to_copy.history
+    if "gradient" in vars(recorder_to_copy):
+        recorder_copy.gradient = copy.copy(recorder_to_copy.gradient)
     return recorder_copy
 
 
@@ -76,6 +78,8 @@ def deepcopy_recorder(recorder_to_copy, memo):
     recorder_copy = type(recorder_to_copy)(**attributes_dict)
     recorder_copy.call_number = recorder_to_copy.call_number
     recorder_copy.history = copy.deepcopy(recorder_to_copy.history, memo=memo)
+    if "gradient" in vars(recorder_to_copy):
+        recorder_copy.gradient = copy.deepcopy(recorder_to_copy.gradient, memo=memo)
     return recorder_copy
 
 
-- 
2.43.0


From bac7726768876013fee9ab46251741db17b72458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:37 +0000
Subject: [PATCH 42/66] fix: extending histories failed or dropped gradients
 unless every cost function had one

---
 src/python/zquantum/core/interfaces/optimizer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/python/zquantum/core/interfaces/optimizer.py b/src/python/zquantum/core/interfaces/optimizer.py
index 571dc56..99b0c80 100644
--- a/src/python/zquantum/core/interfaces/optimizer.py
+++ b/src/python/zquantum/core/interfaces/optimizer.py
@@ -130,10 +130,10 @@ def extend_histories(
 ) -> Dict[str, List]:
     new_histories = construct_history_info(cost_function, True)
     updated_histories = {"history": histories["history"] + new_histories["history"]}
-    if hasattr(cost_function, "gradient"):
-        updated_histories["gradient_history"] = (
-            histories["gradient_history"] + new_histories["gradient_history"]
-        )
+    if "gradient_history" in histories or "gradient_history" in new_histories:
+        updated_histories["gradient_history"] = histories.get(
+            "gradient_history", []
+        ) + new_histories.get("gradient_history", [])
     return updated_histories
 
 
-- 
2.43.0


From b276c7b7094d6d2bf1d1079dd0a732cd9a599bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:37 +0000
Subject: [PATCH 43/66] fix: MockOptimizer modified the initial parameters it
 was given

---
 src/python/zquantum/core/interfaces/mock_objects.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/python/zquantum/core/interfaces/mock_objects.py b/src/python/zquantum/core/interfaces/mock_objects.py
index 2e2cbad..22a86ea 100644
--- a/src/python/zquantum/core/interfaces/mock_objects.py
+++ b/src/python/zquantum/core/interfaces/mock_objects.py
@@ -48,10 +48,9 @@ class MockOptimizer(Optimizer):
     def _minimize(
         self, cost_function, initial_params: np.ndarray, keep_history: bool = False
     ):
-        new_parameters = initial_params
+        new_parameters = np.array(initial_params, dtype=float)
         for i in range(len(initial_params)):
             new_parameters[i] += random.random()
-        new_parameters = np.array(new_parameters)
         return optimization_result(
             opt_value=cost_function(new_parameters),
             opt_params=new_parameters,
-- 
2.43.0


From 1902024dab2bbc793edcc647dc9a2e1766f56971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:27 +0000
Subject: [PATCH 44/66] fix: gradient augmentations were dropped without
 augmentations of the function

---
 .../zquantum/core/cost_function_augmentations.py       | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/python/zquantum/core/cost_function_augmentations.py b/src/python/zquantum/core/cost_function_augmentations.py
index 022cfc0..8b39663 100644
--- a/src/python/zquantum/core/cost_function_augmentations.py
+++ b/src/python/zquantum/core/cost_function_augmentations.py
@@ -169,6 +169,16 @@ def augment_cost_function(
         else {}
     )
 
+    if (
+        gradient_augmentations
+        and attribute_overrides
+        and not cost_function_augmentations
+    ):
+        # The function itself stays as it is, but its gradient has to be replaced
+        return _AttributePropagatingWrapper(
+            cost_function, cost_function, attribute_overrides
+        )
+
     augmented_cost_function = _augment_function(
         cost_function, cost_function_augmentations, attribute_overrides
     )
-- 
2.43.0


From f2f1c3472b98b6e514dee62e47efaa1679460703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:57 +0000
Subject: [PATCH 45/66] fix: recorders of functions storing artifacts could not
 be recorded again

---
 src/python/zquantum/core/history/recorder.py | 30 ++++++++++++++++++--
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/python/zquantum/core/history/recorder.py b/src/python/zquantum/core/history/recorder.py
index 9030e9f..66e1a09 100644
--- a/src/python/zquantum/core/history/recorder.py
+++ b/src/python/zquantum/core/history/recorder.py
@@ -3,7 +3,7 @@
 ################################################################################
 """Main implementation of the recorder."""
 import copy
-from typing import Any, Callable, Dict, Generic, List, NamedTuple, TypeVar
+from typing import Any, Callable, Dict, Generic, List, NamedTuple, Optional, TypeVar
 
 from typing_extensions import overload
 
@@ -155,9 +155,13 @@ class ArtifactRecorder(Generic[S, T]):
         self.history: List[HistoryEntryWithArtifacts] = []
         self.call_number = 0
 
-    def __call__(self, params: S) -> T:
+    def __call__(
+        self, params: S, store_artifact: Optional[StoreArtifact] = None
+    ) -> T:
         artifacts = ArtifactCollection()
-        return_value = self.target(params, store_artifact=store_artifact(artifacts))
+        return_value = self.target(
+            params, store_artifact=_store_and_propagate(artifacts, store_artifact)
+        )
 
         if self.predicate(return_value, params, self.call_number) or artifacts.forced:
             self.history.append(
@@ -216,6 +220,26 @@ def store_artifact(artifacts) -> StoreArtifact:
     return _store
 
 
+def _store_and_propagate(
+    artifacts, propagate_to: Optional[StoreArtifact]
+) -> StoreArtifact:
+    """Create a function storing artifacts in given collection and passing them on.
+
+    Args:
+        artifacts: artifact collection.
+        propagate_to: a function storing artifacts (e.g. one provided by another
+            recorder) to which the artifacts should also be passed, if any.
+    """
+    store_here = store_artifact(artifacts)
+
+    def _store(artifact_name: str, artifact: Any, force: bool = False) -> None:
+        store_here(artifact_name, artifact, force)
+        if propagate_to is not None:
+            propagate_to(artifact_name, artifact, force)
+
+    return _store
+
+
 @overload
 def recorder(
     function: CallableWithGradientStoringArtifacts,
-- 
2.43.0


From 869384c8fbb17dab903b4cf9f4ccca8c75a3f309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:06 +0000
Subject: [PATCH 46/66] fix: tracked measurement data of all but the latest
 call were lost

---
 src/python/zquantum/core/trackers.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/python/zquantum/core/trackers.py b/src/python/zquantum/core/trackers.py
index 4a7114c..8d1b51f 100644
--- a/src/python/zquantum/core/trackers.py
+++ b/src/python/zquantum/core/trackers.py
@@ -153,4 +153,3 @@ class MeasurementTrackingBackend(QuantumBackend):
                 "raw-data": self.raw_data,
             }
             f.write(json.dumps(data))
-        self.raw_data = []
-- 
2.43.0


From ae297087d3f7380d115b16160b59c40dd23f049a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:23 +0000
Subject: [PATCH 47/66] fix: undefined circuit layer types were accepted and
 gave None

---
 src/python/zquantum/core/circuits/layouts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/circuits/layouts.py b/src/python/zquantum/core/circuits/layouts.py
index a0875a2..97528a0 100644
--- a/src/python/zquantum/core/circuits/layouts.py
+++ b/src/python/zquantum/core/circuits/layouts.py
@@ -165,7 +165,7 @@ def build_circuit_layers_and_connectivity(
     elif layer_type == "nearest-neighbor":
         return _build_circuit_layers_and_connectivity_nearest_neighbors(x_dimension)
     else:
-        ValueError("Layer type {0} is not defined".format(layer_type))
+        raise ValueError("Layer type {0} is not defined".format(layer_type))
 
 
 def _build_circuit_layers_and_connectivity_sycamore(x_dimension, y_dimension):
-- 
2.43.0


From 7fc3704993528a288c68b2a67b3167a7e1bbf389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:33 +0000
Subject: [PATCH 48/66] fix: unsupported constructs were translated to None

---
 src/python/zquantum/core/circuits/symbolic/translations.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/circuits/symbolic/translations.py b/src/python/zquantum/core/circuits/symbolic/translations.py
index 14b85aa..8121677 100644
--- a/src/python/zquantum/core/circuits/symbolic/translations.py
+++ b/src/python/zquantum/core/circuits/symbolic/translations.py
@@ -13,7 +13,9 @@ from .expressions import Expression, ExpressionDialect, FunctionCall, Symbol
 def translate_expression(
     expression: Union[Expression, Tuple[Expression, ...]], dialect: ExpressionDialect
 ):
-    pass
+    raise NotImplementedError(
+        f"Expression {expression} of type {type(expression)} is currently not supported"
+    )
 
 
 @translate_expression.register
-- 
2.43.0


From 7aa47a3201c5d935f0242d4d6602a7541eeba483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:59 +0000
Subject: [PATCH 49/66] fix: decomposing a circuit dropped its unused qubits

---
 .../zquantum/core/decompositions/_zquantum_decompositions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/decompositions/_zquantum_decompositions.py b/src/python/zquantum/core/decompositions/_zquantum_decompositions.py
index cb0eae3..7bc2c19 100644
--- a/src/python/zquantum/core/decompositions/_zquantum_decompositions.py
+++ b/src/python/zquantum/core/decompositions/_zquantum_decompositions.py
@@ -49,4 +49,7 @@ class U3GateToRotation(DecompositionRule[GateOperation]):
 def decompose_zquantum_circuit(
     circuit: Circuit, decomposition_rules: Sequence[DecompositionRule[GateOperation]]
 ):
-    return Circuit(decompose_operations(circuit.operations, decomposition_rules))
+    return Circuit(
+        decompose_operations(circuit.operations, decomposition_rules),
+        n_qubits=circuit.n_qubits,
+    )
-- 
2.43.0


From cde3b88b8874a5f7cf9055e218c5153d7b535130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:59 +0000
Subject: [PATCH 50/66] fix: decomposing U3 failed for circuits with operations
 that are not gates

---
 .../zquantum/core/decompositions/_zquantum_decompositions.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/decompositions/_zquantum_decompositions.py b/src/python/zquantum/core/decompositions/_zquantum_decompositions.py
index 7bc2c19..d97881c 100644
--- a/src/python/zquantum/core/decompositions/_zquantum_decompositions.py
+++ b/src/python/zquantum/core/decompositions/_zquantum_decompositions.py
@@ -20,7 +20,7 @@ class U3GateToRotation(DecompositionRule[GateOperation]):
 
     def predicate(self, operation: GateOperation) -> bool:
         # Only decompose U3 and its controlled version
-        return (
+        return isinstance(operation, GateOperation) and (
             operation.gate.name == "U3"
             or isinstance(operation.gate, ControlledGate)
             and operation.gate.wrapped_gate.name == "U3"
-- 
2.43.0


From 509251691629dbad7dc84868a45f4ed0a866f06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:40 +0000
Subject: [PATCH 51/66] fix: dec2bin accepted 2**length, which does not fit in
 length bits

---
 src/python/zquantum/core/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/utils.py b/src/python/zquantum/core/utils.py
index c2bb080..cf86a41 100644
--- a/src/python/zquantum/core/utils.py
+++ b/src/python/zquantum/core/utils.py
@@ -72,7 +72,7 @@ def dec2bin(number: int, length: int) -> List[int]:
         A list of binary numbers
     """
 
-    if pow(2, length) < number:
+    if pow(2, length) <= number:
         sys.exit(
             "Insufficient number of bits for representing the number {}".format(number)
         )
-- 
2.43.0


From bbf6331bcffd026e54e97edd8d63596b55d389d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:40 +0000
Subject: [PATCH 52/66] fix: comparing unitaries whose product has a zero
 corner raised ZeroDivisionError

---
 src/python/zquantum/core/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/python/zquantum/core/utils.py b/src/python/zquantum/core/utils.py
index cf86a41..8a16d06 100644
--- a/src/python/zquantum/core/utils.py
+++ b/src/python/zquantum/core/utils.py
@@ -160,6 +160,8 @@ def compare_unitary(u1: np.ndarray, u2: np.ndarray, tol: float = 1e-15) -> bool:
         raise Exception("The second input matrix is not unitary.")
 
     test_matrix = np.dot(u1.conj().T, u2)
+    if test_matrix.item((0, 0)) == 0:
+        return False
     phase = test_matrix.item((0, 0)) ** -1
     return is_identity(phase * test_matrix, tol)
 
-- 
2.43.0


From fed647047542c5b3063f309d7d02cfac525dc464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:40 +0000
Subject: [PATCH 53/66] fix: scale_and_discretize failed for iterables that can
 be read only once

---
 src/python/zquantum/core/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/python/zquantum/core/utils.py b/src/python/zquantum/core/utils.py
index 8a16d06..d9b9fe9 100644
--- a/src/python/zquantum/core/utils.py
+++ b/src/python/zquantum/core/utils.py
@@ -594,6 +594,8 @@ def scale_and_discretize(values: Iterable[float], total: int) -> List[int]:
             of the input list elements.
     """
 
+    values = list(values)
+
     # Note: combining the two lines below breaks type checking; see mypy #6040
     value_sum = sum(values)
     scale_factor = total / value_sum
-- 
2.43.0


From 95a5478767b5fedff5394a426fa859b0ee3d1491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:11 +0000
Subject: [PATCH 54/66] fix: molecules loaded from a file without general
 calculations lacked or kept them

---
 src/python/zquantum/core/openfermion/chem/molecular_data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/python/zquantum/core/openfermion/chem/molecular_data.py b/src/python/zquantum/core/openfermion/chem/molecular_data.py
index 8a3b331..ca5844f 100644
--- a/src/python/zquantum/core/openfermion/chem/molecular_data.py
+++ b/src/python/zquantum/core/openfermion/chem/molecular_data.py
@@ -983,6 +983,8 @@ class MolecularData(object):
                         key.tobytes().decode("utf-8"): value
                         for key, value in zip(keys[...], values[...])
                     }
+                else:
+                    self.general_calculations = {}
             else:
                 # TODO: test the no cover
                 # no coverage here because pathway is check on
-- 
2.43.0


From 6c1974b4f9b24ac82e81ac86ff3e18c32d2a0cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:11 +0000
Subject: [PATCH 55/66] fix: atoms of a loaded molecule were bytes and were
 corrupted when saved again

---
 src/python/zquantum/core/openfermion/chem/molecular_data.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/openfermion/chem/molecular_data.py b/src/python/zquantum/core/openfermion/chem/molecular_data.py
index ca5844f..c8be331 100644
--- a/src/python/zquantum/core/openfermion/chem/molecular_data.py
+++ b/src/python/zquantum/core/openfermion/chem/molecular_data.py
@@ -945,7 +945,10 @@ class MolecularData(object):
             # Load n_atoms:
             self.n_atoms = int(f["n_atoms"][...])
             # Load atoms:
-            self.atoms = f["atoms"][...]
+            data = f["atoms"][...]
+            self.atoms = (
+                [atom.decode("utf-8") for atom in data] if data.shape != (()) else []
+            )
             # Load protons:
             self.protons = f["protons"][...]
             # Load n_electrons:
-- 
2.43.0


From b8d4c4369a5ca9e4768d02367d4246d7d703b925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:37 +0000
Subject: [PATCH 56/66] fix: particle-hole symmetric number operators ignored
 their coefficient

---
 .../zquantum/core/openfermion/hamiltonians/general_hubbard.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/openfermion/hamiltonians/general_hubbard.py b/src/python/zquantum/core/openfermion/hamiltonians/general_hubbard.py
index 31886ba..7458603 100644
--- a/src/python/zquantum/core/openfermion/hamiltonians/general_hubbard.py
+++ b/src/python/zquantum/core/openfermion/hamiltonians/general_hubbard.py
@@ -31,7 +31,7 @@ PotentialParameter = namedtuple("PotentialParameter", ("dof", "coefficient"))
 def number_operator(i, coefficient=1.0, particle_hole_symmetry=False):
     op = FermionOperator(((i, 1), (i, 0)), coefficient)
     if particle_hole_symmetry:
-        op -= FermionOperator((), 0.5)
+        op -= FermionOperator((), 0.5 * coefficient)
     return op
 
 
-- 
2.43.0


From 91c564d729d2c781d22f3c1b5bb0b40997025c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:34 +0000
Subject: [PATCH 57/66] fix: the step evaluating parametrized circuits used a
 missing attribute

---
 steps/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/steps/circuit.py b/steps/circuit.py
index bb9b72f..149e89e 100644
--- a/steps/circuit.py
+++ b/steps/circuit.py
@@ -144,6 +144,6 @@ def evaluate_parametrized_circuit(
     if isinstance(parameters, str):
         parameters = serialization.load_array(parameters)
 
-    symbols_map = create_symbols_map(parametrized_circuit.symbolic_params, parameters)
+    symbols_map = create_symbols_map(parametrized_circuit.free_symbols, parameters)
     bound_circuit = parametrized_circuit.bind(symbols_map)
     save_circuit(bound_circuit, "evaluated-circuit.json")
-- 
2.43.0


From 5c0ea0b4290dae8613db982164103536cf1f9b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:34 +0000
Subject: [PATCH 58/66] fix: the step batching circuits appended to the circuit
 set it was given

---
 steps/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/steps/circuit.py b/steps/circuit.py
index 149e89e..76511b2 100644
--- a/steps/circuit.py
+++ b/steps/circuit.py
@@ -121,7 +121,7 @@ def batch_circuits(
     elif isinstance(circuit_set, str):
         loaded_circuit_set = load_circuitset(circuit_set)
     else:
-        loaded_circuit_set = circuit_set
+        loaded_circuit_set = list(circuit_set)
 
     for circuit in circuits:
         if isinstance(circuit, str):
-- 
2.43.0


From af109727f7b0fe7fa02abf19abc0fe1c0d1edf7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:34 +0000
Subject: [PATCH 59/66] fix: the step computing ground state RDMs failed for
 operator objects

---
 steps/evaluation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/steps/evaluation.py b/steps/evaluation.py
index 4af2867..7c3189a 100644
--- a/steps/evaluation.py
+++ b/steps/evaluation.py
@@ -102,7 +102,8 @@ def get_ground_state_rdm_from_qubit_operator(
         qubit_operator: The openfermion operator to diagonalize
         n_particles: number of particles in the target ground state
     """
-    qubit_operator = load_qubit_operator(qubit_operator)
+    if isinstance(qubit_operator, str):
+        qubit_operator = load_qubit_operator(qubit_operator)
     rdm = _get_ground_state_rdm_from_qubit_op(qubit_operator, n_particles)
     save_interaction_rdm(rdm, "rdms.json")
 
-- 
2.43.0


From bbe0424d50c48e0a6a39af783f4732121ef7dbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:34 +0000
Subject: [PATCH 60/66] fix: the step interpolating operators failed for
 operator objects

---
 steps/operators.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/steps/operators.py b/steps/operators.py
index 406f237..c82d9b0 100644
--- a/steps/operators.py
+++ b/steps/operators.py
@@ -95,8 +95,10 @@ def interpolate_qubit_operators(
         target_qubit_operator: The target operator
         epsilon: The parameterization between the two operators. Default value is 0.5
     """
-    reference_qubit_operator = load_qubit_operator(reference_qubit_operator)
-    target_qubit_operator = load_qubit_operator(target_qubit_operator)
+    if isinstance(reference_qubit_operator, str):
+        reference_qubit_operator = load_qubit_operator(reference_qubit_operator)
+    if isinstance(target_qubit_operator, str):
+        target_qubit_operator = load_qubit_operator(target_qubit_operator)
 
     if epsilon > 1.0 or epsilon < 0.0:
         raise ValueError("epsilon must be in the range [0.0, 1.0]")
-- 
2.43.0


From a92199958fa5d301a7e46680d7898881d680815d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:34 +0000
Subject: [PATCH 61/66] fix: the step removing inactive orbitals failed without
 core orbitals

---
 steps/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/steps/operators.py b/steps/operators.py
index c82d9b0..0852026 100644
--- a/steps/operators.py
+++ b/steps/operators.py
@@ -174,7 +174,7 @@ def get_one_qubit_hydrogen_hamiltonian(
 def remove_inactive_orbitals(
     interaction_operator: str,
     n_active: Optional[int] = None,
-    n_core: Optional[int] = None,
+    n_core: int = 0,
 ):
 
     interaction_operator = load_interaction_operator(interaction_operator)
-- 
2.43.0


From 5bfd7cb37fb1745a8ef6c99ad27ffe91bccf372f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:34 +0000
Subject: [PATCH 62/66] fix: the one-qubit hydrogen step raised KeyError for
 vanishing matrix elements

---
 steps/operators.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/steps/operators.py b/steps/operators.py
index 0852026..5246bb7 100644
--- a/steps/operators.py
+++ b/steps/operators.py
@@ -138,15 +138,15 @@ def get_one_qubit_hydrogen_hamiltonian(
 
     # H00
     H00 = normal_ordered(FermionOperator("0 1") * fermion_h * FermionOperator("1^ 0^"))
-    H00 = H00.terms[()]
+    H00 = H00.terms.get((), 0.0)
 
     # H11
     H11 = normal_ordered(FermionOperator("2 3") * fermion_h * FermionOperator("3^ 2^"))
-    H11 = H11.terms[()]
+    H11 = H11.terms.get((), 0.0)
 
     # H10
     H10 = normal_ordered(FermionOperator("2 3") * fermion_h * FermionOperator("1^ 0^"))
-    H10 = H10.terms[()]
+    H10 = H10.terms.get((), 0.0)
 
     # H01
     H01 = np.conj(H10)
-- 
2.43.0


From 32af68b463de6bf7fa4a3b8b50166ae8b3b48738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:34 +0000
Subject: [PATCH 63/66] fix: the step summing expectation values used a name it
 did not import

---
 steps/measure.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/steps/measure.py b/steps/measure.py
index 9dca346..f2aa022 100644
--- a/steps/measure.py
+++ b/steps/measure.py
@@ -31,6 +31,7 @@ from zquantum.core.measurement import (
     save_expectation_values,
 )
 from zquantum.core.openfermion import (
+    IsingOperator,
     SymbolicOperator,
     change_operator_type,
     load_interaction_rdm,
-- 
2.43.0


From 1603a00180ad6fa635e9cf51b70977362e7d407a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:25 +0000
Subject: [PATCH 64/66] fix: steps passed the keys enabling measurement
 tracking on to the backend

---
 src/python/zquantum/core/trackers.py | 24 +++++++++++++++++++-
 steps/evaluation.py                  | 16 ++++---------
 steps/measure.py                     | 34 ++++------------------------
 steps/optimize.py                    | 18 +++------------
 4 files changed, 35 insertions(+), 57 deletions(-)

diff --git a/src/python/zquantum/core/trackers.py b/src/python/zquantum/core/trackers.py
index 8d1b51f..045bb37 100644
--- a/src/python/zquantum/core/trackers.py
+++ b/src/python/zquantum/core/trackers.py
@@ -9,7 +9,7 @@ from .circuits import Circuit, to_dict
 from .distribution import MeasurementOutcomeDistribution
 from .interfaces.backend import QuantumBackend
 from .measurement import Measurements
-from .utils import SCHEMA_VERSION
+from .utils import SCHEMA_VERSION, create_object
 
 
 class MeasurementTrackingBackend(QuantumBackend):
@@ -153,3 +153,25 @@ class MeasurementTrackingBackend(QuantumBackend):
                 "raw-data": self.raw_data,
             }
             f.write(json.dumps(data))
+
+
+def create_backend(backend_specs: Dict) -> QuantumBackend:
+    """Create a backend based on given specs.
+
+    Args:
+        backend_specs: specs of the backend. If "track_measurements" is set, the
+            backend is wrapped in a MeasurementTrackingBackend. Its data are stored in
+            "raw_data_file_name" ("raw_data.json" by default), with all bitstrings if
+            "record_bitstrings" is set. These keys are not passed to the backend.
+    """
+    specs = dict(backend_specs)
+    track_measurements = specs.pop("track_measurements", False)
+    raw_data_file_name = specs.pop("raw_data_file_name", "raw_data.json")
+    record_bitstrings = specs.pop("record_bitstrings", False)
+
+    backend = create_object(specs)
+    if track_measurements:
+        backend = MeasurementTrackingBackend(
+            backend, raw_data_file_name, record_bitstrings=record_bitstrings
+        )
+    return backend
diff --git a/steps/evaluation.py b/steps/evaluation.py
index 7c3189a..b34eb2e 100644
--- a/steps/evaluation.py
+++ b/steps/evaluation.py
@@ -2,11 +2,10 @@
 # © Copyright 2020-2022 Zapata Computing Inc.
 ################################################################################
 import json
-from typing import Dict, List, Union, cast
+from typing import Dict, List, Union
 
 from zquantum.core.circuits import Circuit, circuit_from_dict, load_circuit
 from zquantum.core.estimation import estimate_expectation_values_by_averaging
-from zquantum.core.interfaces.backend import QuantumBackend
 from zquantum.core.interfaces.estimation import EstimationTask
 from zquantum.core.measurement import (
     ExpectationValues,
@@ -34,9 +33,9 @@ from zquantum.core.openfermion.linalg import (
     jw_get_ground_state_at_particle_number as _jw_get_ground_state_at_particle_number,
 )
 from zquantum.core.openfermion.linalg import qubit_operator_sparse
-from zquantum.core.trackers import MeasurementTrackingBackend
+from zquantum.core.trackers import create_backend
 from zquantum.core.typing import Specs
-from zquantum.core.utils import ValueEstimate, create_object, save_value_estimate
+from zquantum.core.utils import ValueEstimate, save_value_estimate
 from zquantum.core.wavefunction import Wavefunction
 
 
@@ -75,14 +74,7 @@ def get_expectation_values_for_qubit_operator(
 
     if isinstance(backend_specs, str):
         backend_specs = json.loads(backend_specs)
-    backend = cast(QuantumBackend, create_object(backend_specs))
-
-    if backend_specs.get("track_measurements"):
-        backend = MeasurementTrackingBackend(
-            backend,
-            backend_specs["raw_data_file_name"],
-            record_bitstrings=backend_specs.get("record_bitstrings"),
-        )
+    backend = create_backend(backend_specs)
 
     estimation_tasks = [EstimationTask(qubit_operator, circuit, backend.n_samples)]
 
diff --git a/steps/measure.py b/steps/measure.py
index f2aa022..95ad234 100644
--- a/steps/measure.py
+++ b/steps/measure.py
@@ -39,7 +39,7 @@ from zquantum.core.openfermion import (
     load_qubit_operator_set,
 )
 from zquantum.core.serialization import load_array
-from zquantum.core.trackers import MeasurementTrackingBackend
+from zquantum.core.trackers import create_backend
 from zquantum.core.typing import Specs
 from zquantum.core.utils import (
     create_object,
@@ -66,13 +66,7 @@ def run_circuit_and_measure(
             device_connectivity
         )
 
-    backend = create_object(backend_specs)
-    if backend_specs.get("track_measurements"):
-        backend = MeasurementTrackingBackend(
-            backend,
-            backend_specs["raw_data_file_name"],
-            record_bitstrings=backend_specs.get("record_bitstrings"),
-        )
+    backend = create_backend(backend_specs)
 
     if isinstance(circuit, str):
         circuit = circuits.load_circuit(circuit)
@@ -101,13 +95,7 @@ def run_circuitset_and_measure(
         )
 
     circuit_set = circuits.load_circuitset(circuitset)
-    backend = create_object(backend_specs)
-    if backend_specs.get("track_measurements"):
-        backend = MeasurementTrackingBackend(
-            backend,
-            backend_specs["raw_data_file_name"],
-            record_bitstrings=backend_specs.get("record_bitstrings"),
-        )
+    backend = create_backend(backend_specs)
 
     n_samples_list = [n_samples for _ in circuit_set]
     measurements_set = backend.run_circuitset_and_measure(
@@ -131,13 +119,7 @@ def get_bitstring_distribution(
         backend_specs["device_connectivity"] = layouts.load_circuit_connectivity(
             device_connectivity
         )
-    backend = create_object(backend_specs)
-    if backend_specs.get("track_measurements"):
-        backend = MeasurementTrackingBackend(
-            backend,
-            backend_specs["raw_data_file_name"],
-            record_bitstrings=backend_specs.get("record_bitstrings"),
-        )
+    backend = create_backend(backend_specs)
 
     circuit = circuits.load_circuit(circuit)
 
@@ -185,13 +167,7 @@ def evaluate_ansatz_based_cost_function(
             device_connectivity
         )
 
-    backend = create_object(backend_specs)
-    if backend_specs.get("track_measurements"):
-        backend = MeasurementTrackingBackend(
-            backend,
-            backend_specs["raw_data_file_name"],
-            record_bitstrings=backend_specs.get("record_bitstrings"),
-        )
+    backend = create_backend(backend_specs)
 
     if isinstance(cost_function_specs, str):
         cost_function_specs = json.loads(cost_function_specs)
diff --git a/steps/optimize.py b/steps/optimize.py
index f8fa831..605f046 100644
--- a/steps/optimize.py
+++ b/steps/optimize.py
@@ -18,7 +18,7 @@ from zquantum.core.serialization import (
     save_array,
     save_optimization_results,
 )
-from zquantum.core.trackers import MeasurementTrackingBackend
+from zquantum.core.trackers import create_backend
 from zquantum.core.typing import Specs
 from zquantum.core.utils import create_object, load_list
 
@@ -85,13 +85,7 @@ def optimize_parametrized_circuit_for_ground_state_of_operator(
 
     if isinstance(backend_specs, str):
         backend_specs = json.loads(backend_specs)
-    backend = create_object(backend_specs)
-    if backend_specs.get("track_measurements"):
-        backend = MeasurementTrackingBackend(
-            backend,
-            backend_specs["raw_data_file_name"],
-            record_bitstrings=backend_specs.get("record_bitstrings"),
-        )
+    backend = create_backend(backend_specs)
 
     if estimation_method_specs is not None:
         if isinstance(estimation_method_specs, str):
@@ -208,13 +202,7 @@ def optimize_ansatz_based_cost_function(
 
     if isinstance(backend_specs, str):
         backend_specs = json.loads(backend_specs)
-    backend = create_object(backend_specs)
-    if backend_specs.get("track_measurements"):
-        backend = MeasurementTrackingBackend(
-            backend,
-            backend_specs["raw_data_file_name"],
-            record_bitstrings=backend_specs.get("record_bitstrings"),
-        )
+    backend = create_backend(backend_specs)
 
     if estimation_method_specs is not None:
         if isinstance(estimation_method_specs, str):
-- 
2.43.0


From 639f1b7ce2bdc6c19c12e845b656ba03fbbe81ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:54 +0000
Subject: [PATCH 65/66] fix: freeze_orbitals compared orbital indices by
 identity

Indices of other integer types (numpy integers) never matched, so that the
orbitals were silently not frozen.
---
 .../openfermion/transforms/repconversions/operator_tapering.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/openfermion/transforms/repconversions/operator_tapering.py b/src/python/zquantum/core/openfermion/transforms/repconversions/operator_tapering.py
index 146841a..9a874fd 100644
--- a/src/python/zquantum/core/openfermion/transforms/repconversions/operator_tapering.py
+++ b/src/python/zquantum/core/openfermion/transforms/repconversions/operator_tapering.py
@@ -51,7 +51,7 @@ def freeze_orbitals(fermion_operator, occupied, unoccupied=None, prune=True):
             n_swaps = 0  # Number of swaps that have been done
 
             for op in enumerate(reversed(term)):
-                if op[1][0] is item[0]:
+                if op[1][0] == item[0]:
                     n_ops += 1
 
                     # Determine number of swaps needed to bring the op in
-- 
2.43.0


From a674d87c6d1e73c51791b940fb7e59ccfb39dd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:01 +0000
Subject: [PATCH 66/66] fix: circuits of a size given as a float had no unitary

---
 src/python/zquantum/core/circuits/_circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/zquantum/core/circuits/_circuit.py b/src/python/zquantum/core/circuits/_circuit.py
index 114d6ae..e424bfb 100644
--- a/src/python/zquantum/core/circuits/_circuit.py
+++ b/src/python/zquantum/core/circuits/_circuit.py
@@ -61,7 +61,7 @@ class Circuit:
             if cast_n_qubits <= 0:
                 raise ValueError("Non-positive value passed.")
 
-            self._n_qubits = n_qubits
+            self._n_qubits = cast_n_qubits
         else:
             self._n_qubits = _circuit_size_by_operations(self._operations)
 
-- 
2.43.0

