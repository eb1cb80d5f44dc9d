From c549da6c6752cbacf56fa67d3a34b56c9f17ea31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:35 +0000
Subject: [PATCH 01/73] fix: restore temporary state when a scope is left by an
 exception

---
 thinc/model.py         | 33 ++++++++++++++++++---------------
 thinc/shims/pytorch.py |  8 +++++---
 thinc/util.py          | 14 +++++++++-----
 3 files changed, 32 insertions(+), 23 deletions(-)

diff --git a/thinc/model.py b/thinc/model.py
index ba49215..59214fc 100644
--- a/thinc/model.py
+++ b/thinc/model.py
@@ -170,8 +170,10 @@ class Model(Generic[InT, OutT]):
                 model = Relu(512) >> Relu(512) >> Softmax()
         """
         token = cls._context_operators.set(dict(operators))
-        yield
-        cls._context_operators.reset(token)
+        try:
+            yield
+        finally:
+            cls._context_operators.reset(token)
 
     def has_dim(self, name: str) -> Optional[bool]:
         """Check whether the model has a dimension of a given name. If the
@@ -355,19 +357,20 @@ class Model(Generic[InT, OutT]):
         values are arrays of weight values.
         """
         backup = {}
-        for name in self.param_names:
-            key = (self.id, name)
-            if key in params:
-                backup[name] = self.get_param(name)
-                self.set_param(name, params[key])
-
-        with contextlib.ExitStack() as stack:
-            for layer in self.layers:
-                stack.enter_context(layer.use_params(params))
-            for shim in self.shims:
-                stack.enter_context(shim.use_params(params))
-            yield
-        if backup:
+        try:
+            for name in self.param_names:
+                key = (self.id, name)
+                if key in params:
+                    backup[name] = self.get_param(name)
+                    self.set_param(name, params[key])
+
+            with contextlib.ExitStack() as stack:
+                for layer in self.layers:
+                    stack.enter_context(layer.use_params(params))
+                for shim in self.shims:
+                    stack.enter_context(shim.use_params(params))
+                yield
+        finally:
             for name, param in backup.items():
                 self.set_param(name, param)
 
diff --git a/thinc/shims/pytorch.py b/thinc/shims/pytorch.py
index 9dd1511..1cf69b8 100644
--- a/thinc/shims/pytorch.py
+++ b/thinc/shims/pytorch.py
@@ -188,9 +188,11 @@ class PyTorchShim(Shim):
                 state_dict[k.replace(key_prefix, "")] = xp2torch(v, device=self.device)
         if state_dict:
             backup = {k: v.clone() for k, v in self._model.state_dict().items()}
-            self._model.load_state_dict(state_dict)
-            yield
-            self._model.load_state_dict(backup)
+            try:
+                self._model.load_state_dict(state_dict)
+                yield
+            finally:
+                self._model.load_state_dict(backup)
         else:
             yield
 
diff --git a/thinc/util.py b/thinc/util.py
index 7a37dfa..a580afd 100644
--- a/thinc/util.py
+++ b/thinc/util.py
@@ -595,9 +595,11 @@ def validate_fwd_input_output(
 @contextlib.contextmanager
 def make_tempfile(mode="r"):
     f = tempfile.NamedTemporaryFile(mode=mode, delete=False)
-    yield f
-    f.close()
-    os.remove(f.name)
+    try:
+        yield f
+    finally:
+        f.close()
+        os.remove(f.name)
 
 
 @contextlib.contextmanager
@@ -605,8 +607,10 @@ def data_validation(validation):
     with threading.Lock():
         prev = DATA_VALIDATION.get()
         DATA_VALIDATION.set(validation)
-        yield
-        DATA_VALIDATION.set(prev)
+        try:
+            yield
+        finally:
+            DATA_VALIDATION.set(prev)
 
 
 @contextlib.contextmanager
-- 
2.43.0


From 42fa28990e268c5664472f6d80f18a23481d4d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:35 +0000
Subject: [PATCH 02/73] fix: handle unset and dangling references in
 remove_node and replace_node

---
 thinc/model.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/thinc/model.py b/thinc/model.py
index 59214fc..4ab102d 100644
--- a/thinc/model.py
+++ b/thinc/model.py
@@ -433,11 +433,11 @@ class Model(Generic[InT, OutT]):
             while node in child.layers:
                 child.layers.remove(node)
         tree = set(self.walk())
-        for node in tree:
-            for name in node.ref_names:
-                ref = node.get_ref(name)
+        for child in tree:
+            for name in child.ref_names:
+                ref = child.maybe_get_ref(name)
                 if ref is not None and ref not in tree:
-                    node.set_ref(name, None)
+                    child.set_ref(name, None)
 
     def replace_callbacks(
         self, forward: Callable, *, init: Optional[Callable] = None
@@ -461,7 +461,7 @@ class Model(Generic[InT, OutT]):
                     new if layer is old else layer for layer in node._layers
                 ]
                 for name in node.ref_names:
-                    if node.get_ref(name) is old:
+                    if node.maybe_get_ref(name) is old:
                         node.set_ref(name, new)
 
         return seen
-- 
2.43.0


From 2b58c706d8d73fb2d8bf0ca425500fb8edbcb577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:35 +0000
Subject: [PATCH 03/73] fix: do not return the stale value of a parameter that
 was unset

---
 thinc/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thinc/model.py b/thinc/model.py
index 4ab102d..b65556e 100644
--- a/thinc/model.py
+++ b/thinc/model.py
@@ -233,7 +233,7 @@ class Model(Generic[InT, OutT]):
         """Retrieve a weights parameter by name."""
         if name not in self._has_params:
             raise KeyError(f"Unknown param: '{name}' for model '{self.name}'.")
-        if not self._params.has_param(self.id, name):
+        if not self.has_param(name) or not self._params.has_param(self.id, name):
             raise KeyError(
                 f"Parameter '{name}' for model '{self.name}' has not been allocated yet."
             )
-- 
2.43.0


From 65f6f543c9ac69cb84d9c39a5c702057558207c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:00 +0000
Subject: [PATCH 04/73] fix: keep references to nodes when copying a model

---
 thinc/model.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/thinc/model.py b/thinc/model.py
index b65556e..c3d6243 100644
--- a/thinc/model.py
+++ b/thinc/model.py
@@ -523,6 +523,11 @@ class Model(Generic[InT, OutT]):
             layers=copied_layers,
             shims=copied_shims,
         )
+        for name, ref in self._refs.items():
+            if ref is self:
+                copied._refs[name] = copied
+            else:
+                copied._refs[name] = cast(Optional[Model], seen.get(id(ref)))
         for name in self.grad_names:
             copied.set_grad(name, self.get_grad(name).copy())
         return cast(SelfT, copied)
-- 
2.43.0


From c4c90df7e54c54e89d9a1d2fc7d401250f5a5deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:00 +0000
Subject: [PATCH 05/73] fix: load the deserialized weights into the wrapped
 PyTorch model

---
 thinc/shims/pytorch.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/thinc/shims/pytorch.py b/thinc/shims/pytorch.py
index 1cf69b8..09285d4 100644
--- a/thinc/shims/pytorch.py
+++ b/thinc/shims/pytorch.py
@@ -256,5 +256,6 @@ def default_deserialize_torch_model(
     filelike = BytesIO(state_bytes)
     filelike.seek(0)
     state_dict = torch.load(filelike, map_location=device, weights_only=weights_only)
+    model.load_state_dict(state_dict)
     model.to(device)
     return model
-- 
2.43.0


From d48241425b5c865446e1cb2fe1dc1df1651197c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:00 +0000
Subject: [PATCH 06/73] fix: sum input gradients of any container in add,
 tuplify and concatenate

---
 thinc/layers/add.py         |  6 +++---
 thinc/layers/concatenate.py | 16 ++++------------
 thinc/layers/tuplify.py     |  3 ++-
 thinc/util.py               | 18 ++++++++++++++++++
 4 files changed, 27 insertions(+), 16 deletions(-)

diff --git a/thinc/layers/add.py b/thinc/layers/add.py
index a3aa1af..b5d8cc3 100644
--- a/thinc/layers/add.py
+++ b/thinc/layers/add.py
@@ -3,7 +3,7 @@ from typing import Any, Callable, Dict, Optional, Tuple, TypeVar
 from ..config import registry
 from ..model import Model
 from ..types import ArrayXd, XY_XY_OutT
-from ..util import get_width
+from ..util import add_gradients, get_width
 
 InT = TypeVar("InT", bound=Any)
 OutT = TypeVar("OutT", bound=ArrayXd)
@@ -36,13 +36,13 @@ def forward(model: Model[InT, OutT], X: InT, is_train: bool) -> Tuple[OutT, Call
     callbacks = []
     for layer in model.layers[1:]:
         layer_Y, layer_callback = layer(X, is_train=is_train)
-        Y += layer_Y
+        Y = Y + layer_Y
         callbacks.append(layer_callback)
 
     def backprop(dY: InT) -> OutT:
         dX = first_callback(dY)
         for callback in callbacks:
-            dX += callback(dY)
+            dX = add_gradients(dX, callback(dY))
         return dX
 
     return Y, backprop
diff --git a/thinc/layers/concatenate.py b/thinc/layers/concatenate.py
index e810cef..d7d02d2 100644
--- a/thinc/layers/concatenate.py
+++ b/thinc/layers/concatenate.py
@@ -15,7 +15,7 @@ from ..backends import NumpyOps
 from ..config import registry
 from ..model import Model
 from ..types import Array2d, Ragged, XY_XY_OutT
-from ..util import get_width
+from ..util import add_gradients, get_width
 from .noop import noop
 
 NUMPY_OPS = NumpyOps()
@@ -76,17 +76,9 @@ def _array_forward(
         dY = model.ops.as_contig(d_output[:, : widths[0]])
         dX = callbacks[0](dY)
         start = widths[0]
-        add_gradients = hasattr(dX, "__add__") or hasattr(dX, "__iadd__")
-        add_gradients_data = hasattr(dX, "data") and (
-            hasattr(dX.data, "__add__") or hasattr(dX.data, "__iadd__")
-        )
         for bwd, width in zip(callbacks[1:], widths[1:]):
             dY = model.ops.as_contig(d_output[:, start : start + width])
-            gradient = bwd(dY)
-            if add_gradients:
-                dX += gradient
-            elif add_gradients_data:
-                dX.data += gradient.data
+            dX = add_gradients(dX, bwd(dY))
             start += width
         return dX
 
@@ -109,7 +101,7 @@ def _ragged_forward(
             dY = Ragged(
                 model.ops.as_contig(d_array[:, start : start + width]), d_output.lengths
             )
-            dX += bwd(dY)
+            dX = add_gradients(dX, bwd(dY))
             start += width
         return dX
 
@@ -129,7 +121,7 @@ def _list_forward(
         for bwd, width in zip(callbacks[1:], widths[1:]):
             dY = model.ops.as_contig(d_out_array[:, start : start + width])
             dY = model.ops.unflatten(dY, lengths)
-            dX += bwd(dY)
+            dX = add_gradients(dX, bwd(dY))
             start += width
         return dX
 
diff --git a/thinc/layers/tuplify.py b/thinc/layers/tuplify.py
index 35dfdc6..f9a2d94 100644
--- a/thinc/layers/tuplify.py
+++ b/thinc/layers/tuplify.py
@@ -2,6 +2,7 @@ from typing import Any, Optional, Tuple, TypeVar
 
 from ..config import registry
 from ..model import Model
+from ..util import add_gradients
 
 InT = TypeVar("InT")
 OutT = Tuple
@@ -41,7 +42,7 @@ def tuplify_forward(model, X, is_train):
         dXs = [bp(dY) for bp, dY in zip(backprops, dYs)]
         dX = dXs[0]
         for dx in dXs[1:]:
-            dX += dx
+            dX = add_gradients(dX, dx)
         return dX
 
     return tuple(Ys), backprop_tuplify
diff --git a/thinc/util.py b/thinc/util.py
index a580afd..bc4917c 100644
--- a/thinc/util.py
+++ b/thinc/util.py
@@ -592,6 +592,24 @@ def validate_fwd_input_output(
         raise DataValidationError(name, X, Y, e.errors()) from None
 
 
+def add_gradients(dX1: Any, dX2: Any) -> Any:
+    """Sum two gradients of the same input, whatever its container type.
+    The arguments are not modified."""
+    if isinstance(dX1, (list, tuple)):
+        summed = [add_gradients(d1, d2) for d1, d2 in zip(dX1, dX2)]
+        return summed if isinstance(dX1, list) else tuple(summed)
+    elif isinstance(dX1, Ragged):
+        return Ragged(dX1.dataXd + dX2.dataXd, dX1.lengths)
+    elif isinstance(dX1, Padded):
+        return Padded(
+            dX1.data + dX2.data, dX1.size_at_t, dX1.lengths, dX1.indices
+        )
+    elif hasattr(dX1, "__add__"):
+        return dX1 + dX2
+    else:
+        return dX1
+
+
 @contextlib.contextmanager
 def make_tempfile(mode="r"):
     f = tempfile.NamedTemporaryFile(mode=mode, delete=False)
-- 
2.43.0


From 893520c1cb22e2fa3447351ed6c5ac4af834254a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:00 +0000
Subject: [PATCH 07/73] fix: do not overwrite the input or gradient in residual
 layers over padded data

---
 thinc/layers/residual.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/thinc/layers/residual.py b/thinc/layers/residual.py
index f213e9b..642d6d9 100644
--- a/thinc/layers/residual.py
+++ b/thinc/layers/residual.py
@@ -33,8 +33,9 @@ def forward(model: Model[InT, InT], X: InT, is_train: bool) -> Tuple[InT, Callab
         elif isinstance(d_output, Ragged):
             return Ragged(d_output.data + dX.data, dX.lengths)
         elif isinstance(X, Padded):
-            dX.data += d_output.data
-            return dX
+            return Padded(
+                d_output.data + dX.data, dX.size_at_t, dX.lengths, dX.indices
+            )
         else:
             return d_output + dX
 
@@ -44,8 +45,7 @@ def forward(model: Model[InT, InT], X: InT, is_train: bool) -> Tuple[InT, Callab
     elif isinstance(X, Ragged):
         return Ragged(X.data + Y.data, X.lengths), backprop
     elif isinstance(X, Padded):
-        Y.data += X.data
-        return Y, backprop
+        return Padded(X.data + Y.data, Y.size_at_t, Y.lengths, Y.indices), backprop
     else:
         return X + Y, backprop
 
-- 
2.43.0


From 17716919bd3ea8ede3052f89c56c7a0fcee28edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:00 +0000
Subject: [PATCH 08/73] fix: pass the second half of the gradient to the second
 direction of bidirectional

---
 thinc/layers/bidirectional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thinc/layers/bidirectional.py b/thinc/layers/bidirectional.py
index 8cea04e..fc10cfb 100644
--- a/thinc/layers/bidirectional.py
+++ b/thinc/layers/bidirectional.py
@@ -60,7 +60,7 @@ def _split(ops: Ops, Xp: Padded) -> Tuple[Padded, Padded]:
     half = Xp.data.shape[-1] // 2
     # I don't know how to write these ellipsis in the overloads :(
     X_l2r = Xp.data[cast(Tuple[slice, slice], (..., slice(None, half)))]
-    X_r2l = Xp.data[cast(Tuple[slice, slice], (..., slice(half)))]
+    X_r2l = Xp.data[cast(Tuple[slice, slice], (..., slice(half, None)))]
     return (
         Padded(X_l2r, Xp.size_at_t, Xp.lengths, Xp.indices),
         Padded(X_r2l, Xp.size_at_t, Xp.lengths, Xp.indices),
-- 
2.43.0


From ddf30c1a640b714565ae9ea059017f04b2b9b7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:00 +0000
Subject: [PATCH 09/73] fix: give with_reshape's inner layer its 2d gradient
 and reshape the result

---
 thinc/layers/with_reshape.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thinc/layers/with_reshape.py b/thinc/layers/with_reshape.py
index b40ada7..5f64185 100644
--- a/thinc/layers/with_reshape.py
+++ b/thinc/layers/with_reshape.py
@@ -32,7 +32,7 @@ def forward(model: Model[InT, InT], X: InT, is_train: bool) -> Tuple[InT, Callab
 
     def backprop(dY: InT) -> InT:
         reshaped = model.ops.reshape2(dY, nB * nT, -1)
-        return Y2d_backprop(model.ops.reshape3(reshaped, *initial_shape))
+        return model.ops.reshape3(Y2d_backprop(reshaped), *initial_shape)
 
     return cast(InT, Y), backprop
 
-- 
2.43.0


From 09b6bb17641d2600eff419f145d18e7d92f2a971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:00 +0000
Subject: [PATCH 10/73] fix: normalize the output of MultiSoftmax

---
 thinc/layers/multisoftmax.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thinc/layers/multisoftmax.py b/thinc/layers/multisoftmax.py
index d07b684..e0c1045 100644
--- a/thinc/layers/multisoftmax.py
+++ b/thinc/layers/multisoftmax.py
@@ -40,7 +40,7 @@ def forward(model: Model[InT, OutT], X: InT, is_train: bool) -> Tuple[OutT, Call
     Y += b
     i = 0
     for out_size in nOs:
-        model.ops.softmax(Y[:, i : i + out_size], inplace=True)
+        Y[:, i : i + out_size] = model.ops.softmax(Y[:, i : i + out_size])
         i += out_size
     return Y, backprop
 
-- 
2.43.0


From 40f262d5e4198f1725ef7df96c62e7810544ab79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:00 +0000
Subject: [PATCH 11/73] fix: split with_flatten's input gradient along the
 sequence axis

---
 thinc/layers/with_flatten.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thinc/layers/with_flatten.py b/thinc/layers/with_flatten.py
index 9658a78..f932327 100644
--- a/thinc/layers/with_flatten.py
+++ b/thinc/layers/with_flatten.py
@@ -31,7 +31,7 @@ def forward(
         dYflat = model.ops.flatten(dYnest)  # type: ignore[arg-type, var-annotated]
         # type ignore necessary for older versions of Mypy/Pydantic
         dXflat = backprop_layer(dYflat)
-        dXnest = layer.ops.xp.split(dXflat, splits, axis=-1)
+        dXnest = layer.ops.xp.split(dXflat, splits, axis=0)
         return dXnest
 
     return Ynest, backprop
-- 
2.43.0


From 7ca35c2e33fa79546c17bceeff4528622a7343b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:00 +0000
Subject: [PATCH 12/73] fix: accumulate the gradients of rows that
 array_getitem selects repeatedly

---
 thinc/layers/array_getitem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thinc/layers/array_getitem.py b/thinc/layers/array_getitem.py
index 219b4ea..b545414 100644
--- a/thinc/layers/array_getitem.py
+++ b/thinc/layers/array_getitem.py
@@ -42,7 +42,7 @@ def forward(model, X, is_train):
 
     def backprop_get_column(dY):
         dX = model.ops.alloc(shape, dtype=dtype)
-        dX[index] = dY
+        model.ops.xp.add.at(dX, index, dY)
         return dX
 
     if len(X) == 0:
-- 
2.43.0


From 9904aa41e554498401795576a89fbda3d22394cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:00 +0000
Subject: [PATCH 13/73] fix: pass an array of lengths to the ragged layer in
 with_ragged's list backprop

---
 thinc/layers/with_ragged.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/thinc/layers/with_ragged.py b/thinc/layers/with_ragged.py
index 6cf45d9..e8f0794 100644
--- a/thinc/layers/with_ragged.py
+++ b/thinc/layers/with_ragged.py
@@ -118,11 +118,12 @@ def _list_forward(
     flatten = layer.ops.flatten
     unflatten = layer.ops.unflatten
 
-    lengths = [len(x) for x in Xs]
+    lengths = NUMPY_OPS.asarray1i([len(x) for x in Xs])
     Yr, get_dXr = layer(Ragged(flatten(Xs), layer.ops.asarray1i(lengths)), is_train)
 
     def backprop(dYs):
         flattened = flatten(dYs)
-        return unflatten(get_dXr(Ragged(flattened, lengths)).data, lengths)
+        dXr = get_dXr(Ragged(flattened, layer.ops.asarray1i(lengths)))
+        return unflatten(dXr.data, lengths)
 
     return unflatten(Yr.data, Yr.lengths), backprop
-- 
2.43.0


From 413adc68e8b7d5511c38a7c0d79149087e7c22ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:00 +0000
Subject: [PATCH 14/73] fix: do not scale the caller's gradient in embedding
 layers with dropout

---
 thinc/layers/embed.py     | 2 +-
 thinc/layers/hashembed.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/thinc/layers/embed.py b/thinc/layers/embed.py
index 9d8d34e..2c72efe 100644
--- a/thinc/layers/embed.py
+++ b/thinc/layers/embed.py
@@ -61,7 +61,7 @@ def forward(
 
     def backprop(d_output: OutT) -> Ints1d:
         if drop_mask is not None:
-            d_output *= drop_mask
+            d_output = d_output * drop_mask
         d_vectors = model.ops.alloc2f(*vectors.shape)
         model.ops.scatter_add(d_vectors, ids, d_output)
         model.inc_grad("E", d_vectors)
diff --git a/thinc/layers/hashembed.py b/thinc/layers/hashembed.py
index 7ecd9b2..22a10dc 100644
--- a/thinc/layers/hashembed.py
+++ b/thinc/layers/hashembed.py
@@ -79,7 +79,7 @@ def forward(
 
     def backprop(d_vectors: OutT) -> Ints1d:
         if drop_mask is not None:
-            d_vectors *= drop_mask
+            d_vectors = d_vectors * drop_mask
         dE = model.ops.alloc2f(*vectors.shape)
         keysT = model.ops.as_contig(keys.T, dtype="i")
         for i in range(keysT.shape[0]):
-- 
2.43.0


From fe723d562f477a840b39c351f2f4baacfdf4c19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:32 +0000
Subject: [PATCH 15/73] fix: support backprop of HashEmbed on an empty batch

---
 thinc/layers/hashembed.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/thinc/layers/hashembed.py b/thinc/layers/hashembed.py
index 22a10dc..bad5413 100644
--- a/thinc/layers/hashembed.py
+++ b/thinc/layers/hashembed.py
@@ -62,15 +62,16 @@ def forward(
     vectors = cast(Floats2d, model.get_param("E"))
     nV = vectors.shape[0]
     nO = vectors.shape[1]
-    if len(ids) == 0:
+    nN = len(ids)
+    drop_mask = None
+    if nN == 0:
+        keys = model.ops.alloc2i(0, 4)
         output: Floats2d = model.ops.alloc2f(0, nO, dtype=vectors.dtype)
     else:
         ids = model.ops.as_contig(ids, dtype="uint64")
-        nN = ids.shape[0]
         seed: int = model.attrs["seed"]
         keys = model.ops.hash(ids, seed) % nV
         output = model.ops.gather_add(vectors, keys)
-        drop_mask = None
         if is_train:
             dropout: Optional[float] = model.attrs.get("dropout_rate")
             drop_mask = cast(Floats1d, model.ops.get_dropout_mask((nO,), dropout))
-- 
2.43.0


From c483b383879b7d70906f69686d6ed3dfc18ed35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:32 +0000
Subject: [PATCH 16/73] fix: select sequences, not time steps, when indexing
 padded data

---
 thinc/types.py | 35 ++++++++++++++++-------------------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/thinc/types.py b/thinc/types.py
index 9a9487c..78c4bb4 100644
--- a/thinc/types.py
+++ b/thinc/types.py
@@ -1132,32 +1132,29 @@ class Padded:
         return self.lengths.shape[0]
 
     def __getitem__(self, index: Union[int, slice, Ints1d]) -> "Padded":
+        xp = get_array_module(self.data)
+        rows: Any
         if isinstance(index, int):
             # Slice to keep the dimensionality
-            return Padded(
-                self.data[:, index : index + 1],
-                self.lengths[index : index + 1],
-                self.lengths[index : index + 1],
-                self.indices[index : index + 1],
-            )
+            index = range(len(self))[index]
+            rows = slice(index, index + 1)
         elif isinstance(index, slice):
-            return Padded(
-                self.data[:, index],
-                self.lengths[index],
-                self.lengths[index],
-                self.indices[index],
-            )
+            rows = index
         else:
             # If we get a sequence of indices, we need to be careful that
             # we maintain the length-sorting, while also keeping the mapping
             # back to the original order correct.
-            sorted_index = list(sorted(index))
-            return Padded(
-                self.data[sorted_index],
-                self.size_at_t[sorted_index],
-                self.lengths[sorted_index],
-                self.indices[index],  # Use original, to maintain order.
-            )
+            rows = xp.arange(len(self))[index if len(index) else slice(0, 0)]
+            rows = xp.sort(rows)
+        lengths = self.lengths[rows]
+        steps = xp.arange(self.data.shape[0]).reshape((-1, 1))
+        size_at_t = (lengths.reshape((1, -1)) > steps).sum(axis=1)
+        return Padded(
+            self.data[:, rows],
+            size_at_t.astype(self.size_at_t.dtype),
+            lengths,
+            self.indices[rows],
+        )
 
 
 @dataclass
-- 
2.43.0


From 43d5873ab922f61b045197c328be05d79b8f8f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:32 +0000
Subject: [PATCH 17/73] fix: handle negative, stepped, open-ended, boolean and
 empty indices of ragged data

---
 thinc/types.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/thinc/types.py b/thinc/types.py
index 78c4bb4..1ed37ba 100644
--- a/thinc/types.py
+++ b/thinc/types.py
@@ -1199,21 +1199,28 @@ class Ragged:
         starts = self._get_starts()
         ends = self._get_ends()
         if isinstance(index, int):
+            index = range(len(self))[index]
             s = starts[index]
             e = ends[index]
-            return Ragged(self.data[s:e], self.lengths[index : index + 1])
-        elif isinstance(index, slice):
+            return Ragged(self.dataXd[s:e], self.lengths[index : index + 1])
+        elif isinstance(index, slice) and index.step in (None, 1):
             lengths = self.lengths[index]
             if len(lengths) == 0:
-                return Ragged(self.data[0:0].reshape(self.data_shape), lengths)
-            start = starts[index][0] if index.start >= 1 else 0
+                return Ragged(self.dataXd[0:0], lengths)
+            start = starts[index][0]
             end = ends[index][-1]
-            return Ragged(self.data[start:end].reshape(self.data_shape), lengths)
+            return Ragged(self.dataXd[start:end], lengths)
         else:
             # There must be a way to do this "properly" :(. Sigh, hate numpy.
             xp = get_array_module(self.data)
-            data = xp.vstack([self[int(i)].data for i in index])
-            return Ragged(data.reshape(self.data_shape), self.lengths[index])
+            if not isinstance(index, slice) and len(index) == 0:
+                index = slice(0, 0)
+            rows = xp.arange(len(self))[index]
+            dataXd = self.dataXd
+            data = xp.concatenate(
+                [dataXd[0:0]] + [dataXd[starts[i] : ends[i]] for i in rows]
+            )
+            return Ragged(data, self.lengths[rows])
 
     def _get_starts_ends(self) -> Ints1d:
         if self.starts_ends is None:
-- 
2.43.0


From 640753308771eba7cd835b1ca23d900599b88512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:10 +0000
Subject: [PATCH 18/73] fix: reject the first out-of-range and negative indices
 in gather_add

---
 thinc/backends/cpu_kernels.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thinc/backends/cpu_kernels.hh b/thinc/backends/cpu_kernels.hh
index 95808ee..1e6f149 100644
--- a/thinc/backends/cpu_kernels.hh
+++ b/thinc/backends/cpu_kernels.hh
@@ -470,7 +470,7 @@ void cpu_gather_add(typename axpy<F>::ptr axpy, F* out_bo, const F* table_to, co
      for (L b = 0; b < B; ++b) {
         for (L k = 0; k < K; ++k) {
             I idx = indices_bk[b * K + k];
-            if (idx > T) {
+            if (idx < 0 || idx >= static_cast<I>(T)) {
                 throw std::out_of_range("Embedding index out-of-bounds");
             }
             axpy(O, 1.0, table_to + idx * O, 1, out_bo + b * O, 1);
-- 
2.43.0


From 38c977069631231de4b7db7d664b2f98eba58a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:10 +0000
Subject: [PATCH 19/73] fix: do not read non-contiguous arrays as contiguous in
 backprop_relu

---
 thinc/backends/numpy_ops.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/thinc/backends/numpy_ops.pyx b/thinc/backends/numpy_ops.pyx
index bb38bae..87c4758 100644
--- a/thinc/backends/numpy_ops.pyx
+++ b/thinc/backends/numpy_ops.pyx
@@ -146,7 +146,8 @@ class NumpyOps(Ops):
         cdef float* dX_ptr
         cdef const float* Y_ptr = <const float*>Y.data
         cdef np.ndarray dX
-        if dY.dtype == "float32" and Y.dtype == "float32":
+        if dY.dtype == "float32" and Y.dtype == "float32" \
+        and dY.flags.c_contiguous and Y.flags.c_contiguous:
             dX = _inplace_or_copy(dY, inplace)
             dX_ptr = <float*>dX.data
             for i in range(size):
-- 
2.43.0


From 8b319edc2a23deafc846d49aede988377bee2f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:10 +0000
Subject: [PATCH 20/73] fix: return no ngrams for an empty sequence of keys

---
 thinc/backends/numpy_ops.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thinc/backends/numpy_ops.pyx b/thinc/backends/numpy_ops.pyx
index 87c4758..57586d3 100644
--- a/thinc/backends/numpy_ops.pyx
+++ b/thinc/backends/numpy_ops.pyx
@@ -536,7 +536,7 @@ class NumpyOps(Ops):
         return weights, gradient, mom1, mom2
 
     def ngrams(self, int n, const uint64_t[::1] keys):
-        if n < 1:
+        if n < 1 or keys.shape[0] < n:
             return self.alloc((0,), dtype="uint64")
         keys_ = <uint64_t*>&keys[0]
         length = max(0, keys.shape[0]-(n-1))
-- 
2.43.0


From c4d36d78b7a198749b69dcea824cb51c39ecc72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:10 +0000
Subject: [PATCH 21/73] fix: respect inplace in backprop_hard_sigmoid and
 backprop_hard_tanh

---
 thinc/backends/ops.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/thinc/backends/ops.py b/thinc/backends/ops.py
index e3fec5c..3ad6044 100644
--- a/thinc/backends/ops.py
+++ b/thinc/backends/ops.py
@@ -961,7 +961,9 @@ class Ops:
     def backprop_hard_sigmoid(
         self, dY: FloatsXdT, X: FloatsXdT, inplace: bool = False
     ) -> FloatsXdT:
-        return self.backprop_clipped_linear(dY, X, slope=0.2, offset=0.5)
+        return self.backprop_clipped_linear(
+            dY, X, slope=0.2, offset=0.5, inplace=inplace
+        )
 
     def hard_tanh(self, X: FloatsXdT, inplace: bool = False) -> FloatsXdT:
         return self.clipped_linear(X, min_val=-1.0, max_val=1.0, inplace=inplace)
@@ -969,7 +971,9 @@ class Ops:
     def backprop_hard_tanh(
         self, dY: FloatsXdT, X: FloatsXdT, inplace: bool = False
     ) -> FloatsXdT:
-        return self.backprop_clipped_linear(dY, X, min_val=-1.0, max_val=1.0)
+        return self.backprop_clipped_linear(
+            dY, X, min_val=-1.0, max_val=1.0, inplace=inplace
+        )
 
     def swish(self, X: FloatsXdT, inplace: bool = False) -> FloatsXdT:
         if inplace:
-- 
2.43.0


From cf508c2f4b95c79d4e5e0d83c0824bde507e3d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:10 +0000
Subject: [PATCH 22/73] fix: do not return uninitialized memory as the gradient
 of remap_ids

---
 thinc/layers/remap_ids.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thinc/layers/remap_ids.py b/thinc/layers/remap_ids.py
index 3801b70..b1acf98 100644
--- a/thinc/layers/remap_ids.py
+++ b/thinc/layers/remap_ids.py
@@ -90,7 +90,7 @@ def forward_v2(
 
     def backprop(dY: OutT) -> InT:
         if xp_input:
-            return model.ops.xp.empty(dY.shape)  # type: ignore
+            return model.ops.xp.zeros(dY.shape)  # type: ignore
         else:
             return []
 
-- 
2.43.0


From ec2962eda1420c0ceacf3c7cd3e7b4d0f15414e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:10 +0000
Subject: [PATCH 23/73] fix: apply lr_scale in the RAdam update

---
 thinc/optimizers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thinc/optimizers.py b/thinc/optimizers.py
index 071ad4e..01037ea 100644
--- a/thinc/optimizers.py
+++ b/thinc/optimizers.py
@@ -301,7 +301,7 @@ class Optimizer(object):
             "exp_avg_sq": self.mom2[key],
         }
         group = {
-            "lr": self.learn_rate(self.step, **schedule_args),
+            "lr": lr_scale * self.learn_rate(self.step, **schedule_args),
             "betas": [
                 self.b1(self.step, **schedule_args),
                 self.b2(self.step, **schedule_args),
-- 
2.43.0


From b3cad8bc6ebfc48ff02c56e16c5875d10d84713b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:50 +0000
Subject: [PATCH 24/73] fix: pass is_train through with_cpu

---
 thinc/layers/with_cpu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thinc/layers/with_cpu.py b/thinc/layers/with_cpu.py
index 39e5965..69cafe8 100644
--- a/thinc/layers/with_cpu.py
+++ b/thinc/layers/with_cpu.py
@@ -22,7 +22,7 @@ def with_cpu(layer: Model, ops: Ops) -> Model:
 
 
 def forward(model: Model, X: Any, is_train: bool) -> Tuple[Any, Callable]:
-    cpu_outputs, backprop = model.layers[0].begin_update(_to_cpu(X))
+    cpu_outputs, backprop = model.layers[0](_to_cpu(X), is_train)
     gpu_outputs = _to_device(model.ops, cpu_outputs)
 
     def with_cpu_backprop(d_outputs):
-- 
2.43.0


From 4e7dba6879c061abf0892a1a0bf7ad27de448a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:33 +0000
Subject: [PATCH 25/73] fix: derivative of clipped_linear with a negative slope

---
 thinc/backends/ops.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/thinc/backends/ops.py b/thinc/backends/ops.py
index 3ad6044..99a6c33 100644
--- a/thinc/backends/ops.py
+++ b/thinc/backends/ops.py
@@ -939,6 +939,8 @@ class Ops:
     ) -> FloatsXdT:
         low = (min_val - offset) / slope
         high = (max_val - offset) / slope
+        if slope < 0:
+            low, high = high, low
         slope = self.xp.float64(slope).astype(X.dtype)
         zero = self.xp.float64(0.0).astype(X.dtype)
         dX = self.xp.where((low < X) & (X < high), slope, zero)
-- 
2.43.0


From 25d4a16bafac22f0e609a36b2b194b4eac529dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:39 +0000
Subject: [PATCH 26/73] fix: backprop_maxout of an empty batch

---
 thinc/backends/numpy_ops.pyx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/thinc/backends/numpy_ops.pyx b/thinc/backends/numpy_ops.pyx
index 57586d3..2dd6531 100644
--- a/thinc/backends/numpy_ops.pyx
+++ b/thinc/backends/numpy_ops.pyx
@@ -213,10 +213,12 @@ class NumpyOps(Ops):
         cdef np.ndarray dX
         if reals2d_ft == float2d_t:
             dX = numpy.zeros((B, O, P), dtype='float32')
-            cpu_backprop_maxout(<float*>dX.data, <float*>&dY[0, 0], &which[0, 0], B, O, P)
+            if dX.size > 0:
+                cpu_backprop_maxout(<float*>dX.data, <float*>&dY[0, 0], &which[0, 0], B, O, P)
         else:
             dX = numpy.zeros((B, O, P), dtype='float64')
-            cpu_backprop_maxout(<double*>dX.data, <double*>&dY[0, 0], &which[0, 0], B, O, P)
+            if dX.size > 0:
+                cpu_backprop_maxout(<double*>dX.data, <double*>&dY[0, 0], &which[0, 0], B, O, P)
 
         return dX
 
-- 
2.43.0


From 32b57c15c15b9277eac2c3d5d16f883e99a362bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:39 +0000
Subject: [PATCH 27/73] fix: pass contiguous gradients to the directions of
 bidirectional

---
 thinc/layers/bidirectional.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thinc/layers/bidirectional.py b/thinc/layers/bidirectional.py
index fc10cfb..61917e1 100644
--- a/thinc/layers/bidirectional.py
+++ b/thinc/layers/bidirectional.py
@@ -62,8 +62,8 @@ def _split(ops: Ops, Xp: Padded) -> Tuple[Padded, Padded]:
     X_l2r = Xp.data[cast(Tuple[slice, slice], (..., slice(None, half)))]
     X_r2l = Xp.data[cast(Tuple[slice, slice], (..., slice(half, None)))]
     return (
-        Padded(X_l2r, Xp.size_at_t, Xp.lengths, Xp.indices),
-        Padded(X_r2l, Xp.size_at_t, Xp.lengths, Xp.indices),
+        Padded(ops.as_contig(X_l2r), Xp.size_at_t, Xp.lengths, Xp.indices),
+        Padded(ops.as_contig(X_r2l), Xp.size_at_t, Xp.lengths, Xp.indices),
     )
 
 
-- 
2.43.0


From 7aa1ebe9d9c88eff426e7e283ba9049ce43db4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:39 +0000
Subject: [PATCH 28/73] fix: select columns of empty arrays in array_getitem

---
 thinc/layers/array_getitem.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/thinc/layers/array_getitem.py b/thinc/layers/array_getitem.py
index b545414..1f121d0 100644
--- a/thinc/layers/array_getitem.py
+++ b/thinc/layers/array_getitem.py
@@ -45,7 +45,14 @@ def forward(model, X, is_train):
         model.ops.xp.add.at(dX, index, dY)
         return dX
 
-    if len(X) == 0:
+    if len(X) == 0 and not _keeps_rows(index, X.ndim):
         return X, backprop_get_column
     Y = X[index]
     return Y, backprop_get_column
+
+
+def _keeps_rows(index: Index, ndim: int) -> bool:
+    """Whether the index can be applied to an array without rows."""
+    if not isinstance(index, tuple) or not 0 < len(index) <= ndim:
+        return False
+    return isinstance(index[0], slice)
-- 
2.43.0


From 5b171cf14f3ceaa363d101e17d8c770a3983319d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:17 +0000
Subject: [PATCH 29/73] fix: derivative of the Dish layer at its pre-activation

---
 thinc/layers/dish.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thinc/layers/dish.py b/thinc/layers/dish.py
index dc871ad..6645220 100644
--- a/thinc/layers/dish.py
+++ b/thinc/layers/dish.py
@@ -47,7 +47,7 @@ def forward(
     Y = model.ops.dish(Y_preact)
 
     def backprop(dY: Floats2d) -> Floats2d:
-        dY = model.ops.backprop_dish(dY, X, inplace=False)
+        dY = model.ops.backprop_dish(dY, Y_preact, inplace=False)
         model.inc_grad("b", dY.sum(axis=0))
         model.inc_grad("W", model.ops.gemm(dY, X, trans1=True))
         return model.ops.gemm(dY, W)
-- 
2.43.0


From 42fe5cd45e616f39f48331ede070d0acd5f9f4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:09 +0000
Subject: [PATCH 30/73] fix: clear references that remove_node leaves outside
 their node's subtree

---
 thinc/model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/thinc/model.py b/thinc/model.py
index c3d6243..80a71b4 100644
--- a/thinc/model.py
+++ b/thinc/model.py
@@ -432,11 +432,11 @@ class Model(Generic[InT, OutT]):
         for child in list(self.walk()):
             while node in child.layers:
                 child.layers.remove(node)
-        tree = set(self.walk())
-        for child in tree:
+        for child in self.walk():
+            subtree = set(child.walk())
             for name in child.ref_names:
                 ref = child.maybe_get_ref(name)
-                if ref is not None and ref not in tree:
+                if ref is not None and ref not in subtree:
                     child.set_ref(name, None)
 
     def replace_callbacks(
-- 
2.43.0


From d789c9ca3c368e6ef8122e9231de5d8fa578c373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:09 +0000
Subject: [PATCH 31/73] fix: can_from_dict checks that references can be
 restored

---
 thinc/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/thinc/model.py b/thinc/model.py
index 80a71b4..0a7acc3 100644
--- a/thinc/model.py
+++ b/thinc/model.py
@@ -732,6 +732,9 @@ class Model(Generic[InT, OutT]):
                     return False
                 elif has_dim and node.get_dim(dim) != value:
                     return False
+            for ref_index in info["refs"].values():
+                if ref_index is not None and nodes[ref_index] not in node.walk():
+                    return False
             for param_name, value in msg["params"][i].items():
                 has_param = node.has_param(param_name)
                 if has_param is False:
-- 
2.43.0


From 9021e88ab2382c7aabd3ed801279d9e5b04c8e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:31 +0000
Subject: [PATCH 32/73] fix: give copied shims an id of their own

---
 thinc/shims/shim.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/thinc/shims/shim.py b/thinc/shims/shim.py
index ef88408..73e1796 100644
--- a/thinc/shims/shim.py
+++ b/thinc/shims/shim.py
@@ -50,7 +50,11 @@ class Shim:  # pragma: no cover
         yield
 
     def copy(self):
-        return copy.deepcopy(self)
+        copied = copy.deepcopy(self)
+        with Shim.global_id_lock:
+            Shim.global_id += 1
+            copied.id = Shim.global_id
+        return copied
 
     def to_device(self, device_type: str, device_id: int):
         raise NotImplementedError
-- 
2.43.0


From 0a5bb29b1c43503661ddab2744e06b38815bc490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:02 +0000
Subject: [PATCH 33/73] fix: keep padded data sorted by length when it is
 indexed with a negative step

---
 thinc/types.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/thinc/types.py b/thinc/types.py
index 1ed37ba..ab863b0 100644
--- a/thinc/types.py
+++ b/thinc/types.py
@@ -1138,13 +1138,15 @@ class Padded:
             # Slice to keep the dimensionality
             index = range(len(self))[index]
             rows = slice(index, index + 1)
-        elif isinstance(index, slice):
+        elif isinstance(index, slice) and (index.step is None or index.step > 0):
             rows = index
         else:
             # If we get a sequence of indices, we need to be careful that
             # we maintain the length-sorting, while also keeping the mapping
             # back to the original order correct.
-            rows = xp.arange(len(self))[index if len(index) else slice(0, 0)]
+            if not isinstance(index, slice) and len(index) == 0:
+                index = slice(0, 0)
+            rows = xp.arange(len(self))[index]
             rows = xp.sort(rows)
         lengths = self.lengths[rows]
         steps = xp.arange(self.data.shape[0]).reshape((-1, 1))
-- 
2.43.0


From 43be67789c28cb3a886cb51171ab7909856af5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:17 +0000
Subject: [PATCH 34/73] fix: keep the item shape in the gradient of list2ragged

---
 thinc/layers/list2ragged.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thinc/layers/list2ragged.py b/thinc/layers/list2ragged.py
index 25ad7be..3aeb3c6 100644
--- a/thinc/layers/list2ragged.py
+++ b/thinc/layers/list2ragged.py
@@ -19,7 +19,7 @@ def list2ragged() -> Model[InT, OutT]:
 
 def forward(model: Model[InT, OutT], Xs: InT, is_train: bool) -> Tuple[OutT, Callable]:
     def backprop(dYr: OutT) -> InT:
-        return cast(InT, model.ops.unflatten(dYr.data, dYr.lengths))
+        return cast(InT, model.ops.unflatten(dYr.dataXd, dYr.lengths))
 
     lengths = model.ops.asarray1i([len(x) for x in Xs])
     return Ragged(model.ops.flatten(Xs), lengths), backprop
-- 
2.43.0


From 0fd2a3971318dbb9607609d21e1c248f5441421f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:12 +0000
Subject: [PATCH 35/73] fix: reject lengths that sum up to fewer rows than
 there are in reductions

---
 thinc/backends/cpu_kernels.hh | 9 +++++++++
 thinc/backends/ops.py         | 6 ++++++
 2 files changed, 15 insertions(+)

diff --git a/thinc/backends/cpu_kernels.hh b/thinc/backends/cpu_kernels.hh
index 1e6f149..c186cac 100644
--- a/thinc/backends/cpu_kernels.hh
+++ b/thinc/backends/cpu_kernels.hh
@@ -176,6 +176,9 @@ void cpu_reduce_max(A* maxes__bo, L* which__bo, const A* X__to,
         maxes__bo += O;
         which__bo += O;
     }
+
+    if (T != 0)
+        throw std::out_of_range("lengths must sum up to the number of rows");
 }
 
 template <typename A, typename L>
@@ -232,6 +235,9 @@ void cpu_reduce_mean(A* means__bo, const A* X__to, const L* lengths__b,
 
         means__bo += O;
     }
+
+    if (T != 0)
+        throw std::out_of_range("lengths must sum up to the number of rows");
 }
 
 template <typename A, typename L>
@@ -317,6 +323,9 @@ void cpu_reduce_sum(A* sums__bo, const A* X__to, const L* lengths__b,
 
         sums__bo += O;
     }
+
+    if (T != 0)
+        throw std::out_of_range("lengths must sum up to the number of rows");
 }
 
 template <typename A, typename L>
diff --git a/thinc/backends/ops.py b/thinc/backends/ops.py
index 99a6c33..57129b6 100644
--- a/thinc/backends/ops.py
+++ b/thinc/backends/ops.py
@@ -1237,6 +1237,8 @@ class Ops:
                 start += length
             else:
                 Y[i] = 0.0
+        if lengths.size and start != X.shape[0]:
+            raise IndexError("lengths must sum up to the number of rows")
         return Y
 
     def reduce_first(self, X: Floats2d, lengths: Ints1d) -> Tuple[Floats2d, Ints1d]:
@@ -1275,6 +1277,8 @@ class Ops:
             else:
                 Y[i] = 0.0
             start += length
+        if lengths.size and start != X.shape[0]:
+            raise IndexError("lengths must sum up to the number of rows")
         return Y
 
     def reduce_max(self, X: Floats2d, lengths: Ints1d) -> Tuple[Floats2d, Ints2d]:
@@ -1290,6 +1294,8 @@ class Ops:
                 which[i] = X[start : start + length].argmax(axis=0)
                 Y[i] = X[start : start + length].max(axis=0)
             start += length
+        if lengths.size and start != X.shape[0]:
+            raise IndexError("lengths must sum up to the number of rows")
         return Y, which
 
     def backprop_reduce_first(
-- 
2.43.0


From 8e10cf9a66843b7073538f90e07366feb25f15a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:15 +0000
Subject: [PATCH 36/73] fix: keep the width of ragged data without rows

---
 thinc/types.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/thinc/types.py b/thinc/types.py
index ab863b0..697430a 100644
--- a/thinc/types.py
+++ b/thinc/types.py
@@ -1181,7 +1181,8 @@ class Ragged:
         if data.size:
             self.data = cast(Array2d, data.reshape((data.shape[0], -1)))
         else:
-            self.data = cast(Array2d, data.reshape((0, 0)))
+            width = int(numpy.prod(data.shape[1:]))
+            self.data = cast(Array2d, data.reshape((data.shape[0], width)))
         self.data_shape = (-1,) + data.shape[1:]
 
     @property
-- 
2.43.0


From ee4ee8909d205f6bd1adf5bc63437f6475440631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:15 +0000
Subject: [PATCH 37/73] fix: reduce batches that contain only empty sequences

---
 thinc/backends/numpy_ops.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thinc/backends/numpy_ops.pyx b/thinc/backends/numpy_ops.pyx
index 2dd6531..6ddba1a 100644
--- a/thinc/backends/numpy_ops.pyx
+++ b/thinc/backends/numpy_ops.pyx
@@ -343,7 +343,7 @@ class NumpyOps(Ops):
         cdef int O = X.shape[1]
         cdef int T = X.shape[0]
 
-        if B == 0 or O == 0:
+        if B == 0 or O == 0 or (T == 0 and not numpy.any(lengths)):
             if reals2d_ft is float2d_t:
                 return numpy.zeros(shape=(B, O), dtype="float32")
             else:
@@ -390,7 +390,7 @@ class NumpyOps(Ops):
         cdef int O = X.shape[1]
         cdef int T = X.shape[0]
 
-        if B == 0 or O == 0:
+        if B == 0 or O == 0 or (T == 0 and not numpy.any(lengths)):
             if reals2d_ft is float2d_t:
                 return numpy.zeros(shape=(B, O), dtype="float32")
             else:
-- 
2.43.0


From e6bcfb3d12f58aef3d7f8ce8e5bf321aae92502b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:29 +0000
Subject: [PATCH 38/73] fix: keep the dtype in reduce_first and reduce_last of
 an empty batch

---
 thinc/backends/ops.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thinc/backends/ops.py b/thinc/backends/ops.py
index 57129b6..ff2af54 100644
--- a/thinc/backends/ops.py
+++ b/thinc/backends/ops.py
@@ -1243,7 +1243,7 @@ class Ops:
 
     def reduce_first(self, X: Floats2d, lengths: Ints1d) -> Tuple[Floats2d, Ints1d]:
         if lengths.size == 0:
-            return self.alloc2f(0, X.shape[1]), lengths
+            return self.alloc2f(0, X.shape[1], dtype=X.dtype), lengths
         if not self.xp.all(lengths > 0):
             raise ValueError(f"all sequence lengths must be > 0")
         starts_ends = self.alloc1i(lengths.shape[0] + 1, zeros=False)
@@ -1256,7 +1256,7 @@ class Ops:
 
     def reduce_last(self, X: Floats2d, lengths: Ints1d) -> Tuple[Floats2d, Ints1d]:
         if lengths.size == 0:
-            return self.alloc2f(0, X.shape[1]), lengths
+            return self.alloc2f(0, X.shape[1], dtype=X.dtype), lengths
         if not self.xp.all(lengths > 0):
             raise ValueError(f"all sequence lengths must be > 0")
         lasts = lengths.cumsum() - 1
-- 
2.43.0


From 635187c8a0246fc041a55e9ea56efb48485d18ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:04 +0000
Subject: [PATCH 39/73] fix: count whole items when batch sizes are fractional

---
 thinc/backends/ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thinc/backends/ops.py b/thinc/backends/ops.py
index ff2af54..e7ab011 100644
--- a/thinc/backends/ops.py
+++ b/thinc/backends/ops.py
@@ -187,7 +187,7 @@ class Ops:
         output = []
         i = 0
         while i < length:
-            output.append(next(sizes))
+            output.append(int(next(sizes)))
             i += output[-1]
         return output
 
-- 
2.43.0


From a7016f18e6208a0b078f1817e4f7278dcae1e6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:15 +0000
Subject: [PATCH 40/73] fix: shuffle the items for each pass over a minibatch
 iterator on its own

---
 thinc/backends/ops.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/thinc/backends/ops.py b/thinc/backends/ops.py
index e7ab011..4851efe 100644
--- a/thinc/backends/ops.py
+++ b/thinc/backends/ops.py
@@ -109,12 +109,13 @@ class Ops:
         sizes = self._get_batch_sizes(
             len(sequence), itertools.repeat(size) if isinstance(size, int) else size
         )
-        indices = numpy.arange(len(sequence))
+        length = len(sequence)
 
         # This is a bit convoluted, but it's a time where convenience makes
         # trickery worthwhile: instead of being an actual generator, we
         # return our SizedGenerator object, which provides a __len__.
         def _iter_items():
+            indices = numpy.arange(length)
             if shuffle:
                 numpy.random.shuffle(indices)
             queue = []
@@ -151,9 +152,10 @@ class Ops:
         sizes = self._get_batch_sizes(
             len(sequence), itertools.repeat(size) if isinstance(size, int) else size
         )
-        indices = numpy.arange(len(sequence))
+        length = len(sequence)
 
         def _iter_items():
+            indices = numpy.arange(length)
             if shuffle:
                 numpy.random.shuffle(indices)
             queue = []
-- 
2.43.0


From 476b223d37bd05dccb92dc65b099365633b99a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:15 +0000
Subject: [PATCH 41/73] fix: minibatch pairs of lists and tuples

---
 thinc/backends/ops.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/thinc/backends/ops.py b/thinc/backends/ops.py
index 4851efe..a73c16f 100644
--- a/thinc/backends/ops.py
+++ b/thinc/backends/ops.py
@@ -42,6 +42,7 @@ from ..types import (
     List2d,
     ListXd,
     Padded,
+    Pairs,
     Shape,
     SizedGenerator,
     Xp,
@@ -179,6 +180,11 @@ class Ops:
             subseq = [sequence[i] for i in indices]
         elif isinstance(sequence, tuple):
             subseq = tuple(sequence[i] for i in indices)
+        elif isinstance(sequence, Pairs):
+            subseq = Pairs(
+                self._get_batch(sequence.one, indices),
+                self._get_batch(sequence.two, indices),
+            )
         else:
             subseq = sequence[indices]
         if is_xp_array(subseq):
-- 
2.43.0


From 243640dca0fc0eb46d453309a264c896ba172703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:45 +0000
Subject: [PATCH 42/73] fix: start counting RAdam's updates at one

---
 thinc/optimizers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thinc/optimizers.py b/thinc/optimizers.py
index 01037ea..d9e4da8 100644
--- a/thinc/optimizers.py
+++ b/thinc/optimizers.py
@@ -296,7 +296,7 @@ class Optimizer(object):
         # While we port from the pytorch implementation, keep some of the same
         # naming
         state = {
-            "step": self.nr_update[key],
+            "step": nr_upd - 1,
             "exp_avg": self.mom1[key],
             "exp_avg_sq": self.mom2[key],
         }
-- 
2.43.0


From 3e26a98c8969c7ce12b6fc23ecc724b9b0f54ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:46 +0000
Subject: [PATCH 43/73] fix: do not reuse RAdam step sizes of other betas

---
 thinc/optimizers.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/thinc/optimizers.py b/thinc/optimizers.py
index d9e4da8..cafea6c 100644
--- a/thinc/optimizers.py
+++ b/thinc/optimizers.py
@@ -119,7 +119,7 @@ class Optimizer(object):
     L2: Schedule
     use_radam: bool
     L2_is_weight_decay: bool
-    _radam_buffer: List[List[Optional[FloatsXd]]]
+    _radam_buffer: List[List[Any]]
     _step: int
     _last_score: Optional[Tuple[int, float]]
 
@@ -324,10 +324,11 @@ class Optimizer(object):
 
         state["step"] += 1
         buffered = group["buffer"][int(state["step"] % 10)]
-        if state["step"] == buffered[0]:
+        buffer_key = (state["step"], beta1, beta2)
+        if buffer_key == buffered[0]:
             N_sma, step_size = buffered[1], buffered[2]
         else:
-            buffered[0] = state["step"]
+            buffered[0] = buffer_key
             beta2_t = beta2 ** state["step"]
             N_sma_max = 2 / (1 - beta2) - 1
             N_sma = N_sma_max - 2 * state["step"] * beta2_t / (1 - beta2_t)
-- 
2.43.0


From e1a5eeb753536578280ecb258e094a5e061a15b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:47 +0000
Subject: [PATCH 44/73] fix: do not read or write non-contiguous arrays as
 contiguous in relu and mish

---
 thinc/backends/numpy_ops.pyx | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/thinc/backends/numpy_ops.pyx b/thinc/backends/numpy_ops.pyx
index 6ddba1a..fe0d614 100644
--- a/thinc/backends/numpy_ops.pyx
+++ b/thinc/backends/numpy_ops.pyx
@@ -128,7 +128,9 @@ class NumpyOps(Ops):
     def relu(self, np.ndarray X, inplace=False):
         cdef np.ndarray Y
 
-        if X.dtype == "float32":
+        if not X.flags.c_contiguous:
+            return super().relu(X, inplace=inplace)
+        elif X.dtype == "float32":
             Y = _inplace_or_copy(X, inplace)
             cpu_relu(<float *>Y.data, <int>Y.size)
             return Y
@@ -225,7 +227,9 @@ class NumpyOps(Ops):
     def mish(self, np.ndarray X, threshold=20.0, inplace: bool = False):
         cdef np.ndarray Y
 
-        if X.dtype == "float32":
+        if not X.flags.c_contiguous:
+            return super().mish(X, threshold, inplace)
+        elif X.dtype == "float32":
             Y = _inplace_or_copy(X, inplace)
             cpu_mish(<float *>Y.data, <int>Y.size, <float>threshold)
             return Y
@@ -234,14 +238,16 @@ class NumpyOps(Ops):
             cpu_mish(<double *>Y.data, <int>Y.size, <double>threshold)
             return Y
         else:
-            return super().mish(X, inplace=inplace)
+            return super().mish(X, threshold, inplace)
 
     def backprop_mish(self, np.ndarray dY, np.ndarray X, threshold=20.0, inplace=False):
         _check_compatible_shape(dY, X)
 
         cdef np.ndarray dX
 
-        if dY.dtype == "float32" and X.dtype == "float32":
+        if not dY.flags.c_contiguous or not X.flags.c_contiguous:
+            return super().backprop_mish(dY, X, threshold, inplace)
+        elif dY.dtype == "float32" and X.dtype == "float32":
             dX = _inplace_or_copy(dY, inplace)
             cpu_backprop_mish(<float*>dX.data, <float*>X.data, <int>X.size, <float>threshold)
             return dX
-- 
2.43.0


From 0ed53223ab3c20ec765f976ba48759ba62c48c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:26 +0000
Subject: [PATCH 45/73] fix: look up negative ids in premap_ids

---
 thinc/layers/premap_ids.pyx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/thinc/layers/premap_ids.pyx b/thinc/layers/premap_ids.pyx
index 0522fbf..0bfb9ba 100644
--- a/thinc/layers/premap_ids.pyx
+++ b/thinc/layers/premap_ids.pyx
@@ -1,5 +1,5 @@
 # cython: binding=True, infer_types=True, profile=False
-from libc.stdint cimport int32_t, int64_t
+from libc.stdint cimport int32_t, int64_t, uint64_t
 from preshed.maps cimport PreshMap
 
 from typing import Callable, Dict, Mapping, Optional, Tuple, Union, cast
@@ -25,7 +25,8 @@ cdef lookup(PreshMap mapping, int64_t[:] keys, int64_t default):
     result = numpy.empty(maxi, dtype="int64")
     cdef int64_t[:] result_view = result
     for i in range(maxi):
-        v = mapping[keys[i]]
+        # Negative integers would be taken for positions from the end.
+        v = mapping[<uint64_t>keys[i]]
         if v is None:
             result_view[i] = default
         else:
-- 
2.43.0


From d8ee8bc285f525f608a474e7d159dd321dca5a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:26 +0000
Subject: [PATCH 46/73] fix: accept integers of all types in premap_ids

---
 thinc/layers/premap_ids.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thinc/layers/premap_ids.pyx b/thinc/layers/premap_ids.pyx
index 0bfb9ba..e2f4393 100644
--- a/thinc/layers/premap_ids.pyx
+++ b/thinc/layers/premap_ids.pyx
@@ -72,7 +72,7 @@ def forward(
         idx = to_numpy(inputs)
     else:
         idx = to_numpy(cast(Ints2d, inputs)[:, column])
-    result = lookup(table, idx, default)
+    result = lookup(table, numpy.asarray(idx, dtype="int64"), default)
     arr = model.ops.asarray2i(result)
     output = model.ops.reshape2i(arr, -1, 1)
     inputs_shape = inputs.shape
-- 
2.43.0


From 09f1373c73573937cb6da3bfa4084a285404b31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:26 +0000
Subject: [PATCH 47/73] fix: convert the features of SparseLinear to contiguous
 arrays of the right type

---
 thinc/layers/sparselinear.pyx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/thinc/layers/sparselinear.pyx b/thinc/layers/sparselinear.pyx
index 84c1733..afed324 100644
--- a/thinc/layers/sparselinear.pyx
+++ b/thinc/layers/sparselinear.pyx
@@ -5,6 +5,8 @@ from libc.stdint cimport int32_t, uint32_t, uint64_t
 
 from typing import Callable, Optional, Tuple
 
+import numpy
+
 from ..backends import CupyOps, NumpyOps
 from ..config import registry
 from ..model import Model
@@ -86,6 +88,10 @@ def _begin_cpu_update(model, np.ndarray keys, np.ndarray values, np.ndarray leng
     cdef np.ndarray b = model.get_param("b")
     cdef np.ndarray scores = model.ops.alloc((len(lengths), nO))
     cdef bint v1_indexing = model.attrs["v1_indexing"]
+    # The weights are looked up from C-contiguous arrays of these types.
+    keys = numpy.ascontiguousarray(keys, dtype="uint64")
+    values = numpy.ascontiguousarray(values, dtype="float32")
+    lengths = numpy.ascontiguousarray(lengths, dtype="int32")
     scores += b
     set_scoresC(<float*>scores.data,
         <uint64_t*>keys.data, <float*>values.data, <int32_t*>lengths.data,
-- 
2.43.0


From e68a3701f2e5fefa8ff512426cfef6452048b4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:26 +0000
Subject: [PATCH 48/73] fix: backprop of SparseLinear for an empty batch

---
 thinc/layers/sparselinear.pyx | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/thinc/layers/sparselinear.pyx b/thinc/layers/sparselinear.pyx
index afed324..28e8d03 100644
--- a/thinc/layers/sparselinear.pyx
+++ b/thinc/layers/sparselinear.pyx
@@ -118,9 +118,10 @@ class _finish_linear_update:
         cdef np.ndarray values = self.values
         cdef np.ndarray lengths = self.lengths
         cdef bint v1_indexing = self.model.attrs["v1_indexing"]
-        set_gradientC(<float*>d_weights.data,
-            <uint64_t*>keys.data, <float*>values.data, <int32_t*>lengths.data,
-            lengths.shape[0], nO, &d_scores[0,0], length, v1_indexing)
+        if d_scores.shape[0] != 0:
+            set_gradientC(<float*>d_weights.data,
+                <uint64_t*>keys.data, <float*>values.data, <int32_t*>lengths.data,
+                lengths.shape[0], nO, &d_scores[0,0], length, v1_indexing)
         cdef int i, j
         for i in range(d_scores.shape[0]):
             for j in range(d_scores.shape[1]):
-- 
2.43.0


From 8e857cc43baeee938fcba12303c51451da425b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:26 +0000
Subject: [PATCH 49/73] fix: keep hashes whole in the generic ops

---
 thinc/backends/ops.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/thinc/backends/ops.py b/thinc/backends/ops.py
index a73c16f..6e1a897 100644
--- a/thinc/backends/ops.py
+++ b/thinc/backends/ops.py
@@ -1375,7 +1375,8 @@ class Ops:
 
         numpy_ops = NumpyOps()
         return self.asarray2i(
-            numpy_ops.hash(numpy_ops.asarray(ids, dtype="uint64"), seed)
+            numpy_ops.hash(numpy_ops.asarray(ids, dtype="uint64"), seed),
+            dtype="uint32",
         )
 
     def ngrams(self, n: int, keys: Ints1d) -> Ints1d:
@@ -1383,7 +1384,8 @@ class Ops:
 
         numpy_ops = NumpyOps()
         return self.asarray1i(
-            numpy_ops.ngrams(n, numpy_ops.asarray(keys, dtype="uint64"))
+            numpy_ops.ngrams(n, numpy_ops.asarray(keys, dtype="uint64")),
+            dtype="uint64",
         )
 
     def position_encode(
-- 
2.43.0


From 7b05ca436a6da4196f3744690c2891db4064c4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:54 +0000
Subject: [PATCH 50/73] fix: negated labels with label smoothing

---
 thinc/loss.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thinc/loss.py b/thinc/loss.py
index 756dac4..ec0cae2 100644
--- a/thinc/loss.py
+++ b/thinc/loss.py
@@ -129,8 +129,8 @@ class CategoricalCrossentropy(Loss):
         # Transform negative annotations to a 0 for the negated value
         # + mask all other values for that row
         if negatives_mask is not None:
-            truths *= negatives_mask
-            truths[truths == -1] = 0
+            truths = truths * negatives_mask
+            truths[negatives_mask == -1] = 0
             negatives_mask[negatives_mask == -1] = 1
             mask *= negatives_mask
         return truths, mask
-- 
2.43.0


From 3c42cd27142980104f830958ca3540f1442cde1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:25 +0000
Subject: [PATCH 51/73] fix: run and backprop the generic LSTM

The generic implementation only computed the first sequence of a batch,
exchanged the initial hidden and cell values, and its backward pass
always returned zeros.
---
 thinc/backends/ops.py | 113 ++++++++++++++++++++++--------------------
 1 file changed, 60 insertions(+), 53 deletions(-)

diff --git a/thinc/backends/ops.py b/thinc/backends/ops.py
index 6e1a897..14e7358 100644
--- a/thinc/backends/ops.py
+++ b/thinc/backends/ops.py
@@ -1452,7 +1452,7 @@ have the initial hiddens and initial cells. So:
 
 
 def lstm_forward_training(
-    params: Floats1d, c_init: Floats3d, h_init: Floats3d, X: Floats2d, lengths: Ints1d
+    params: Floats1d, h_init: Floats3d, c_init: Floats3d, X: Floats2d, lengths: Ints1d
 ) -> Tuple[Floats2d, Tuple]:
     xp = get_array_module(params)
     depth, dirs, nO = c_init.shape
@@ -1462,6 +1462,8 @@ def lstm_forward_training(
     G = cast(Floats4d, xp.zeros((depth, dirs, X.shape[0], nO * 4), dtype="f"))
     Y = cast(Floats4d, xp.zeros((depth, dirs, X.shape[0], nO), dtype="f"))
     C = cast(Floats4d, xp.zeros((depth, dirs, X.shape[0], nO), dtype="f"))
+    # These have a row for each sequence. Right-to-left, sequences join later: the
+    # rows of those that haven't started yet hold the initial values.
     Yt2 = cast(Floats2d, xp.zeros((batch_size, nO), dtype="f"))
     Ct2 = cast(Floats2d, xp.zeros((batch_size, nO), dtype="f"))
     # Compute the start and end indices first.
@@ -1477,49 +1479,36 @@ def lstm_forward_training(
         for d in range(dirs):
             # The inits are shaped (depth, dirs, nO). We add the internal dimension
             # to make them set correctly.
-            Yt2 = h_init[i, d].reshape((1, nO))  # type: ignore[assignment]
-            Ct2 = c_init[i, d].reshape((1, nO))  # type: ignore[assignment]
+            Yt2[:] = h_init[i, d].reshape((1, nO))
+            Ct2[:] = c_init[i, d].reshape((1, nO))
             layer_params, params_i = _split_weights(params, i, nO, nI, params_i)
             Wx, Wh, bias = _transpose_weights(layer_params)
             G[i, d] += xp.dot(X, Wx.T)
             G[i, d] += bias
             for start, end in indices if d == 0 else reversed(indices):
-                # When we iterate left-to-right, t2 might be longer than t3.
-                Yt2 = Yt2[: end - start]
-                Ct2 = Ct2[: end - start]
-                # But in right-to-left, it's the opposite: t3 can be longer.
-                Gt3 = G[i, d, start:end]
-                Gt3 = Gt3[: Yt2.shape[0]]
-                Gt3 += xp.dot(Yt2, Wh.T)
+                size = end - start
+                Gt3 = G[i, d, start:end] + xp.dot(Yt2[:size], Wh.T)
                 Gt3_ = cast(Floats3d, Gt3.reshape((-1, nO, 4)))
                 hf = sigmoid(Gt3_[:, :, 0])
                 hi = sigmoid(Gt3_[:, :, 1])
                 ho = sigmoid(Gt3_[:, :, 2])
                 hc = xp.tanh(Gt3_[:, :, 3])
-                Ct3 = hf * Ct2
+                Ct3 = hf * Ct2[:size]
                 Ct3 += hi * hc
                 # Store results
-                Gt3 = (
-                    xp.hstack((hf, hi, ho, hc))
-                    .reshape((-1, 4, nO))
-                    .transpose((0, 2, 1))
-                    .reshape((-1, nO * 4))
-                )
-                # Fix the endpoint to account for shorter slices when iterating
-                # reversed. Not 100% sure this is right. If there's a bug, look
-                # here?
-                end = min(end, start + ho.shape[0])
                 Y[i, d, start:end] = xp.tanh(Ct3) * ho
-                G[i, d, start:end] = Gt3
+                G[i, d, start:end] = xp.stack((hf, hi, ho, hc), axis=-1).reshape(
+                    (-1, nO * 4)
+                )
                 C[i, d, start:end] = Ct3
                 # Set the t2 variables to the current t3 variables.
-                Ct2 = Ct3
-                Yt2 = Y[i, d, start:end]
+                Ct2[:size] = Ct3
+                Yt2[:size] = Y[i, d, start:end]
         H = cast(Floats2d, Y[i].transpose((1, 0, 2)).reshape((N, -1)))
         if dirs == 2:
             H = xp.ascontiguousarray(H)
         X = H
-    return H, (Y, G, C, orig_X)
+    return H, (Y, G, C, orig_X, h_init, c_init)
 
 
 def backprop_lstm(dY: Floats2d, lengths: Ints1d, params: Floats1d, fwd_state: Tuple):
@@ -1535,7 +1524,7 @@ def backprop_lstm(dY: Floats2d, lengths: Ints1d, params: Floats1d, fwd_state: Tu
     dWx: Floats2d
     dWh: Floats2d
     d_bias: Floats1d
-    Y, G, C, X = fwd_state
+    Y, G, C, X, h_init, c_init = fwd_state
     depth, dirs, N, nO = C.shape
     nI = X.shape[1]
     batch_size = lengths[0]
@@ -1577,40 +1566,42 @@ def backprop_lstm(dY: Floats2d, lengths: Ints1d, params: Floats1d, fwd_state: Tu
     dXs = [xp.zeros((X.shape[0], X.shape[1]), dtype=X.dtype) for X in Xs]
     # Okay, now do the actual looping
     for i in reversed(range(depth)):
-        dY3d = cast(Floats3d, dY.reshape((N, dirs, nO)).transpose((1, 0, 2)))
+        # This is a copy, as the gradients of the hiddens are added to it.
+        dY3d = cast(
+            Floats3d, xp.array(dY.reshape((N, dirs, nO)).transpose((1, 0, 2)))
+        )
         dX = dXs[i]
         X = Xs[i]
-        if dirs >= 2:
-            dY3d = xp.ascontiguousarray(dY3d)
         for d in range(dirs):
             Wx, Wh, bias = all_layer_params[i][d][0]
             dWx, dWh, d_bias = all_layer_grads[i][d][0]
-            if d == 0:
-                start_t3, end_t3 = indices[-1]
-                layer_indices = indices[:-1]
-                layer_indices.reverse()
-            else:
-                start_t3, end_t3 = indices[0]
-                layer_indices = indices[1:]
-            for start_t2, end_t2 in layer_indices:
-                size = min(end_t2 - start_t2, end_t3 - start_t3)
+            Yprev = _lstm_previous(Y[i, d], h_init[i, d], indices, d)
+            Cprev = _lstm_previous(C[i, d], c_init[i, d], indices, d)
+            dC.fill(0.0)
+            layer_indices = indices[::-1] if d == 0 else indices
+            for t, (start_t3, end_t3) in enumerate(layer_indices):
                 dGt3, dCt2 = backprop_lstm_gates(
-                    dY3d[d, start_t3 : start_t3 + size],
-                    dC[start_t3 : start_t3 + size],
-                    G[i, d, start_t3 : start_t3 + size],
-                    C[i, d, start_t3 : start_t3 + size],
-                    C[i, d, start_t2 : start_t2 + size],
+                    dY3d[d, start_t3:end_t3],
+                    dC[start_t3:end_t3],
+                    G[i, d, start_t3:end_t3],
+                    C[i, d, start_t3:end_t3],
+                    Cprev[start_t3:end_t3],
                 )
-                # Backprop hidden-to-hidden w.r.t. hidden.
-                dY3d[d, start_t2 : start_t2 + size] += dGt3 @ Wh
-                # Update iteration variables
-                dC[start_t2 : start_t2 + size] = dCt2
-                start_t3 = start_t2
-                end_t3 = end_t2
+                dG[start_t3:end_t3] = dGt3
+                if t + 1 < len(layer_indices):
+                    # The sequences that have both steps: the previous step may be
+                    # that of more (left-to-right) or of fewer sequences
+                    # (right-to-left).
+                    start_t2, end_t2 = layer_indices[t + 1]
+                    size = min(end_t2 - start_t2, end_t3 - start_t3)
+                    # Backprop hidden-to-hidden w.r.t. hidden.
+                    dY3d[d, start_t2 : start_t2 + size] += dGt3[:size] @ Wh
+                    # Update iteration variables
+                    dC[start_t2 : start_t2 + size] = dCt2[:size]
             # Backprop input-to-hidden w.r.t. weights.
             dWx += dG.T @ X
             # Backprop hidden-to-hidden w.r.t. weights.
-            dWh += dG.T @ Y[i, d]
+            dWh += dG.T @ Yprev
             # Backprop bias
             d_bias += dG.sum(axis=0)
             # Backprop input-to-hidden w.r.t. input
@@ -1624,6 +1615,21 @@ def backprop_lstm(dY: Floats2d, lengths: Ints1d, params: Floats1d, fwd_state: Tu
     return dX, xp.concatenate(grad_parts)
 
 
+def _lstm_previous(states: Floats2d, init: Floats1d, indices, d: int) -> Floats2d:
+    """Get the state that each step started from: the state of the sequence's
+    previous step (in the direction of processing), or the initial state."""
+    xp = get_array_module(states)
+    output = xp.zeros(states.shape, dtype=states.dtype)
+    output[:] = init
+    for (start_t2, end_t2), (start_t3, end_t3) in zip(indices, indices[1:]):
+        size = end_t3 - start_t3
+        if d == 0:
+            output[start_t3:end_t3] = states[start_t2 : start_t2 + size]
+        else:
+            output[start_t2 : start_t2 + size] = states[start_t3:end_t3]
+    return output
+
+
 def _split_weights(params: Floats1d, i: int, nO: int, nI: int, params_i: int):
     Wx_size = 4 * nO * nI
     bx_size = 4 * nO
@@ -1675,7 +1681,8 @@ def backprop_lstm_gates(
 ) -> Tuple[Floats2d, Floats2d]:
     # See above for notation. Step numbering refers to forward_lstm_gates
     xp = get_array_module(dYt3)
-    hf, hi, ho, hc = xp.split(Gt3, 4, axis=-1)
+    Gt3_ = Gt3.reshape((Gt3.shape[0], -1, 4))
+    hf, hi, ho, hc = [Gt3_[:, :, gate] for gate in range(4)]
     assert hf.shape[0] == hi.shape[0] == ho.shape[0] == hc.shape[0]
     assert hf.shape[0] == dYt3.shape[0] == dCt3.shape[0] == Ct3.shape[0] == Ct2.shape[0]
     tanhCt3 = xp.tanh(Ct3)
@@ -1694,8 +1701,8 @@ def backprop_lstm_gates(
     d_At3_ho = d_ho * dsigmoid(ho)  # 1c
     d_At3_hi = d_hi * dsigmoid(hi)  # 1b
     d_At3_hf = d_hf * dsigmoid(hf)  # 1a
-    dAt3 = xp.concatenate((d_At3_hf, d_At3_hi, d_At3_ho, d_At3_hc), axis=-1)
-    return dAt3, dCt2
+    dAt3 = xp.stack((d_At3_hf, d_At3_hi, d_At3_ho, d_At3_hc), axis=-1)
+    return dAt3.reshape(Gt3.shape), dCt2
 
 
 def sigmoid(X, out=None):
-- 
2.43.0


From 268d0f29ebfa21d6e2538a5ccaf255eb41f19549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:25 +0000
Subject: [PATCH 52/73] fix: gradients of the LSTM

The gradients had the parameters themselves added to them, left out the
step each sequence starts with, and used the wrong step for the
hidden-to-hidden weights. Initial hidden and cell values were exchanged.
---
 thinc/backends/numpy_ops.pyx | 95 +++++++++++++++++++-----------------
 1 file changed, 49 insertions(+), 46 deletions(-)

diff --git a/thinc/backends/numpy_ops.pyx b/thinc/backends/numpy_ops.pyx
index fe0d614..d5d1635 100644
--- a/thinc/backends/numpy_ops.pyx
+++ b/thinc/backends/numpy_ops.pyx
@@ -22,7 +22,7 @@ from ..util import copy_array, get_array_module
 from .cblas cimport CBlas, daxpy, dgemm, saxpy, sgemm, sscal
 
 from ..compat import has_blis
-from .ops import Ops, _split_weights, _transpose_weights, _untranspose_unsplit_weights
+from .ops import Ops, _lstm_previous, _split_weights, _transpose_weights, _untranspose_unsplit_weights
 
 
 cdef extern from "math.h":
@@ -643,7 +643,7 @@ cdef void _adam_momentum(CBlas cblas, float* gradient, float* mom1, float* mom2,
 
 
 def lstm_forward_training(CBlas cblas,
-    np.ndarray params, np.ndarray c_init, np.ndarray h_init,
+    np.ndarray params, np.ndarray h_init, np.ndarray c_init,
     np.ndarray X, np.ndarray lengths
 ):
     xp = numpy
@@ -701,7 +701,7 @@ def lstm_forward_training(CBlas cblas,
         if dirs == 2:
             H = xp.ascontiguousarray(H)
         X = H
-    return H, (Y, G, C, orig_X)
+    return H, (Y, G, C, orig_X, h_init, c_init)
 
 
 cdef int _lstm_forward_training(
@@ -785,7 +785,8 @@ def backprop_lstm(CBlas cblas, np.ndarray dY, np.ndarray lengths, np.ndarray par
     cdef np.ndarray Wx, Wh, bias
     cdef np.ndarray dWx, dWh, d_bias
     cdef np.ndarray dYid
-    Y, G, C, X = fwd_state
+    cdef np.ndarray Yprev, Cprev
+    Y, G, C, X, h_init, c_init = fwd_state
     cdef int depth = C.shape[0]
     cdef int dirs = C.shape[1]
     cdef int N = C.shape[2]
@@ -796,6 +797,7 @@ def backprop_lstm(CBlas cblas, np.ndarray dY, np.ndarray lengths, np.ndarray par
     # We don't need to store all the cells for all the layers.
     cdef np.ndarray dC = xp.zeros((N, nO), dtype=C.dtype)
     cdef np.ndarray dG = xp.zeros((N, nO*4), dtype=C.dtype)
+    cdef np.ndarray dCprev = xp.zeros((batch_size, nO), dtype=C.dtype)
     cdef np.ndarray d_params = xp.zeros((params.shape[0],), dtype=params.dtype)
     # Collect the params and slices. It makes it a bit easier to get the indexing
     # right, when we're iterating backwards.
@@ -814,7 +816,7 @@ def backprop_lstm(CBlas cblas, np.ndarray dY, np.ndarray lengths, np.ndarray par
         all_layer_grads.append([])
         n_inputs = nI if i == 0 else (nO * dirs)
         for d in range(dirs):
-            layer_grads, params_i = _split_weights(params, i, nO, n_inputs, params_i)
+            layer_grads, params_i = _split_weights(d_params, i, nO, n_inputs, params_i)
             layer_grads = _transpose_weights(layer_grads)
             all_layer_grads[-1].append((layer_grads, params_i))
     # Similarly, we want to compute the indices first
@@ -823,17 +825,20 @@ def backprop_lstm(CBlas cblas, np.ndarray dY, np.ndarray lengths, np.ndarray par
     for batch_size in lengths:
         indices.append((seq_i, batch_size))
         seq_i += batch_size
+    spans = [(seq_i, seq_i + size) for seq_i, size in indices]
 
     cdef np.ndarray dX
-    Xs = [X] + [Y[i].transpose(1, 0, 2).reshape((N, -1)) for i in range(depth-1)]
+    Xs = [X] + [
+        xp.ascontiguousarray(Y[i].transpose(1, 0, 2).reshape((N, -1)))
+        for i in range(depth-1)
+    ]
     dXs = [xp.zeros((X.shape[0], X.shape[1]), dtype=X.dtype) for X in Xs]
     # Okay, now do the actual looping
     for i in reversed(range(depth)):
-        dY = dY.reshape((N, dirs, nO)).transpose((1, 0, 2))
+        # This is a copy, as the gradients of the hiddens are added to it.
+        dY = numpy.array(dY.reshape((N, dirs, nO)).transpose((1, 0, 2)), dtype="f", order="C")
         dX = dXs[i]
         X = Xs[i]
-        if dirs >= 2:
-            dY = numpy.ascontiguousarray(dY)
         for d in range(dirs):
             Wx, Wh, bias = all_layer_params[i][d][0]
             dWx, dWh, d_bias = all_layer_grads[i][d][0]
@@ -844,6 +849,8 @@ def backprop_lstm(CBlas cblas, np.ndarray dY, np.ndarray lengths, np.ndarray par
             Cid = C[i, d]
             Gid = G[i, d]
             Yid = Y[i, d]
+            Yprev = _lstm_previous(Yid, h_init[i, d], spans, d)
+            Cprev = _lstm_previous(Cid, c_init[i, d], spans, d)
             assert (Cid.shape[0], Cid.shape[1]) == (N, nO)
             assert (Yid.shape[0], Yid.shape[1]) == (N, nO)
             assert (Gid.shape[0], Gid.shape[1]) == (N, nO*4)
@@ -858,9 +865,11 @@ def backprop_lstm(CBlas cblas, np.ndarray dY, np.ndarray lengths, np.ndarray par
                 <float*>dWx.data,
                 <float*>dWh.data,
                 <float*>d_bias.data,
+                <float*>dCprev.data,
                 <float*>Cid.data,
                 <float*>Gid.data,
-                <float*>Yid.data,
+                <float*>Yprev.data,
+                <float*>Cprev.data,
                 <float*>X.data,
                 <float*>Wx.data,
                 <float*>Wh.data,
@@ -885,52 +894,46 @@ cdef int _lstm_backward_training(
     float* dWx,
     float* dWh,
     float* d_bias,
+    float* dCprev,
     const float* C,
     const float* G,
-    const float* Y,
+    const float* Yprev,
+    const float* Cprev,
     const float* X,
     const float* Wx,
     const float* Wh,
     indices,
 ) except -1:
-    cdef int seq_t2
-    cdef int seq_t3
+    cdef int seq_t2, size_t2
+    cdef int seq_t3, size_t3
+    cdef int batch_size
+    cdef int t
     cdef double one = 1.0
     if d == 0:
-        seq_t3, size_t3 = indices[-1]
-        indices = indices[:-1]
         indices.reverse()
-    else:
-        seq_t3, size_t3 = indices[0]
-        indices = indices[1:]
-    cdef int batch_size
-    for seq_t2, size_t2 in indices:
+    for t in range(nT):
+        seq_t3, size_t3 = indices[t]
         dGt3 = &dG[seq_t3*nO*4]
-        dXt3 = &dX[seq_t3*nI]
-        dYt3 = &dY[seq_t3*nO]
-        dCt3 = &dC[seq_t3*nO]
-        dYt2 = &dY[seq_t2*nO]
-        dCt2 = &dC[seq_t2*nO]
-        Ct3 = &C[seq_t3*nO]
-        Gt3 = &G[seq_t3*nO*4]
-        Ct2 = &C[seq_t2*nO]
-
-        batch_size = min(size_t2, size_t3)
-        cpu_lstm_gates_bwd(dGt3, dCt2,
-            dYt3, dCt3, Gt3, Ct3, Ct2, batch_size * nO
+        cpu_lstm_gates_bwd(dGt3, dCprev,
+            &dY[seq_t3*nO], &dC[seq_t3*nO], &G[seq_t3*nO*4], &C[seq_t3*nO],
+            &Cprev[seq_t3*nO], size_t3 * nO
         )
-        # Backprop hidden-to-hidden w.r.t. hidden.
-        #     dYt2 += dGt3 @ Wh
-        sgemm(cblas)(False, False,
-            batch_size, nO, nO*4,
-            one,
-            <float*>dGt3, nO*4,
-            <float*>Wh, nO,
-            one,
-            dYt2, nO
-        )
-        seq_t3 = seq_t2
-        size_t3 = size_t2
+        if t + 1 < nT:
+            # The sequences that have both steps: the previous step may be that
+            # of more (left-to-right) or of fewer sequences (right-to-left).
+            seq_t2, size_t2 = indices[t+1]
+            batch_size = min(size_t2, size_t3)
+            memcpy(&dC[seq_t2*nO], dCprev, sizeof(dC[0]) * batch_size * nO)
+            # Backprop hidden-to-hidden w.r.t. hidden.
+            #     dYt2 += dGt3 @ Wh
+            sgemm(cblas)(False, False,
+                batch_size, nO, nO*4,
+                one,
+                <float*>dGt3, nO*4,
+                <float*>Wh, nO,
+                one,
+                &dY[seq_t2*nO], nO
+            )
 
     # Backprop input-to-hidden w.r.t. weights.
     #     dWx += dG @ X
@@ -943,12 +946,12 @@ cdef int _lstm_backward_training(
         dWx, nI
     )
     # Backprop hidden-to-hidden w.r.t weights.
-    #     dWh += dG @ Y
+    #     dWh += dG @ Yprev
     sgemm(cblas)(True, False,
         nO*4, nO, N,
         one,
         <float*>dG, nO*4,
-        <float*>Y, nO,
+        <float*>Yprev, nO,
         one,
         dWh, nO
     )
-- 
2.43.0


From d7b838a1f7e0ff937a521ac2aec834a6f3ba763b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:45 +0000
Subject: [PATCH 53/73] fix: reverse the sequences for the right-to-left layer
 of bidirectional

---
 thinc/layers/bidirectional.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/thinc/layers/bidirectional.py b/thinc/layers/bidirectional.py
index 61917e1..fbe9260 100644
--- a/thinc/layers/bidirectional.py
+++ b/thinc/layers/bidirectional.py
@@ -24,13 +24,13 @@ def forward(model: Model[InT, OutT], X: InT, is_train: bool) -> Tuple[OutT, Call
     X_rev = _reverse(model.ops, X)
     l2r_Z, bp_l2r_Z = l2r(X, is_train)
     r2l_Z, bp_r2l_Z = r2l(X_rev, is_train)
-    Z = _concatenate(model.ops, l2r_Z, r2l_Z)
+    Z = _concatenate(model.ops, l2r_Z, _reverse(model.ops, r2l_Z))
 
     def backprop(dZ: OutT) -> InT:
         d_l2r_Z, d_r2l_Z = _split(model.ops, dZ)
         dX_l2r = bp_l2r_Z(d_l2r_Z)
-        dX_r2l = bp_r2l_Z(d_r2l_Z)
-        return _sum(dX_l2r, dX_r2l)
+        dX_r2l = bp_r2l_Z(_reverse(model.ops, d_r2l_Z))
+        return _sum(dX_l2r, _reverse(model.ops, dX_r2l))
 
     return Z, backprop
 
@@ -44,7 +44,11 @@ def init(
 
 
 def _reverse(ops: Ops, Xp: Padded) -> Padded:
-    return Padded(Xp.data[::1], Xp.size_at_t, Xp.lengths, Xp.indices)
+    # Reverse the steps of each sequence, leaving the padding at the end.
+    data = ops.xp.array(Xp.data)
+    for i, length in enumerate(Xp.lengths):
+        data[:length, i] = Xp.data[:length, i][::-1]
+    return Padded(data, Xp.size_at_t, Xp.lengths, Xp.indices)
 
 
 def _concatenate(ops: Ops, l2r: Padded, r2l: Padded) -> Padded:
-- 
2.43.0


From 41b7a03a928f5fd05116829dc58ed8308f1444cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:51 +0000
Subject: [PATCH 54/73] fix: read sequence sizes of all integer types in the
 numpy LSTM

---
 thinc/backends/numpy_ops.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/thinc/backends/numpy_ops.pyx b/thinc/backends/numpy_ops.pyx
index d5d1635..c868756 100644
--- a/thinc/backends/numpy_ops.pyx
+++ b/thinc/backends/numpy_ops.pyx
@@ -647,6 +647,8 @@ def lstm_forward_training(CBlas cblas,
     np.ndarray X, np.ndarray lengths
 ):
     xp = numpy
+    X = xp.ascontiguousarray(X, dtype="f")
+    lengths = xp.ascontiguousarray(lengths, dtype="int32")
     depth = c_init.shape[0]
     dirs = c_init.shape[1]
     nO = c_init.shape[2]
-- 
2.43.0


From bed452850b7d2f0388c483478c682a72ec1a895f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:47 +0000
Subject: [PATCH 55/73] fix: initialize concatenate of layers whose output
 width is given

The width of Y was imposed on all of them, so that sample data that fits the
model was refused. As in chain, Y is for layers without nO.
---
 thinc/layers/concatenate.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/thinc/layers/concatenate.py b/thinc/layers/concatenate.py
index d7d02d2..24e1c93 100644
--- a/thinc/layers/concatenate.py
+++ b/thinc/layers/concatenate.py
@@ -142,6 +142,9 @@ def init(
             if layer.has_dim("nI") is not False:
                 layer.set_dim("nI", get_width(X))
     for layer in model.layers:
-        layer.initialize(X=X, Y=Y)
+        if layer.has_dim("nO") is None:
+            layer.initialize(X=X, Y=Y)
+        else:
+            layer.initialize(X=X)
     if all([layer.has_dim("nO") for layer in model.layers]):
         model.set_dim("nO", sum(layer.get_dim("nO") for layer in model.layers))
-- 
2.43.0


From 1df7aefb6cef5002ba9e7360b903cc8fb50d8239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:47 +0000
Subject: [PATCH 56/73] fix: initialize add with layers whose output width is
 given or not known

The width of Y was imposed on all layers, outputs of different widths were
accepted (and broadcast), and a first layer without nO was refused.
---
 thinc/layers/add.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/thinc/layers/add.py b/thinc/layers/add.py
index b5d8cc3..c900ac5 100644
--- a/thinc/layers/add.py
+++ b/thinc/layers/add.py
@@ -58,11 +58,15 @@ def init(
             if layer.has_dim("nI") is not False:
                 layer.set_dim("nI", get_width(X))
     if Y is not None:
-        if model.has_dim("nO") is not False:
-            model.set_dim("nO", get_width(Y))
+        unset = [layer for layer in model.layers if layer.has_dim("nO") is None]
+        for layer in unset:
+            layer.set_dim("nO", get_width(Y))
         for layer in model.layers:
-            if layer.has_dim("nO") is not False:
-                layer.set_dim("nO", get_width(Y))
+            layer.initialize(X=X, Y=Y if layer in unset else None)
+    else:
+        for layer in model.layers:
+            layer.initialize(X=X)
+    # The outputs have to be of the same width, or they would be broadcast.
     for layer in model.layers:
-        layer.initialize(X=X, Y=Y)
-    model.set_dim("nO", model.layers[0].get_dim("nO"))
+        if layer.has_dim("nO"):
+            model.set_dim("nO", layer.get_dim("nO"))
-- 
2.43.0


From 5bae61ebcc61e9bf2ebeb44cd2aa27ee78448dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:47 +0000
Subject: [PATCH 57/73] fix: refuse residual layers whose output width differs
 from the input

---
 thinc/layers/residual.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/thinc/layers/residual.py b/thinc/layers/residual.py
index 642d6d9..570d688 100644
--- a/thinc/layers/residual.py
+++ b/thinc/layers/residual.py
@@ -62,3 +62,7 @@ def init(
         model.set_dim("nO", first_layer.get_dim("nO"))
     if first_layer.has_dim("nI"):
         model.set_dim("nI", first_layer.get_dim("nI"))
+        # The output is added to the input, and would be broadcast.
+        if model.has_dim("nO") and model.get_dim("nO") != model.get_dim("nI"):
+            err = "Input and output of a residual layer differ in width: {} and {}"
+            raise ValueError(err.format(model.get_dim("nI"), model.get_dim("nO")))
-- 
2.43.0


From 34288f2930136d4e68baf0d7c090b308391fff1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:47 +0000
Subject: [PATCH 58/73] fix: flatten the sample outputs of with_flatten like
 the inputs

Two-dimensional outputs were put side by side, which gave a wrong width or failed.
---
 thinc/layers/with_flatten.py    | 2 +-
 thinc/layers/with_flatten_v2.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/thinc/layers/with_flatten.py b/thinc/layers/with_flatten.py
index f932327..8733cf9 100644
--- a/thinc/layers/with_flatten.py
+++ b/thinc/layers/with_flatten.py
@@ -49,5 +49,5 @@ def init(
 ) -> None:
     model.layers[0].initialize(
         _flatten(X) if X is not None else None,
-        model.layers[0].ops.xp.hstack(Y) if Y is not None else None,
+        model.layers[0].ops.xp.concatenate(Y) if Y is not None else None,
     )
diff --git a/thinc/layers/with_flatten_v2.py b/thinc/layers/with_flatten_v2.py
index 9554999..95f95a1 100644
--- a/thinc/layers/with_flatten_v2.py
+++ b/thinc/layers/with_flatten_v2.py
@@ -62,5 +62,5 @@ def init(
 ) -> None:
     model.layers[0].initialize(
         _flatten(X)[0] if X is not None else None,
-        model.layers[0].ops.xp.hstack(Y) if Y is not None else None,
+        _flatten(Y)[0] if Y is not None else None,
     )
-- 
2.43.0


From 60b4f49eab46e3ae0f4c8dbb5d504fa68159a3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:47 +0000
Subject: [PATCH 59/73] fix: set the dimensions of with_list, with_padded,
 with_cpu and resizable

They have the dimensions of their layer, but kept those unset that are inferred
when the layer is initialized.
---
 thinc/layers/resizable.py   | 4 ++++
 thinc/layers/with_cpu.py    | 7 ++++++-
 thinc/layers/with_list.py   | 7 ++++++-
 thinc/layers/with_padded.py | 7 ++++++-
 4 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/thinc/layers/resizable.py b/thinc/layers/resizable.py
index 606d50d..6658daa 100644
--- a/thinc/layers/resizable.py
+++ b/thinc/layers/resizable.py
@@ -36,6 +36,10 @@ def init(
 ) -> None:
     layer = model.layers[0]
     layer.initialize(X, Y)
+    for dim_name in layer.dim_names:
+        value = layer.maybe_get_dim(dim_name)
+        if value is not None:
+            model.set_dim(dim_name, value)
 
 
 def resize_model(model: Model[InT, OutT], new_nO):
diff --git a/thinc/layers/with_cpu.py b/thinc/layers/with_cpu.py
index 69cafe8..05ddec2 100644
--- a/thinc/layers/with_cpu.py
+++ b/thinc/layers/with_cpu.py
@@ -33,7 +33,12 @@ def forward(model: Model, X: Any, is_train: bool) -> Tuple[Any, Callable]:
 
 
 def init(model: Model, X: Any, Y: Any) -> None:
-    model.layers[0].initialize(X, Y)
+    layer = model.layers[0]
+    layer.initialize(X, Y)
+    for dim_name in layer.dim_names:
+        value = layer.maybe_get_dim(dim_name)
+        if value is not None:
+            model.set_dim(dim_name, value)
 
 
 def _to_cpu(X):
diff --git a/thinc/layers/with_list.py b/thinc/layers/with_list.py
index 5331758..67bf236 100644
--- a/thinc/layers/with_list.py
+++ b/thinc/layers/with_list.py
@@ -33,10 +33,15 @@ def forward(
 def init(
     model: Model[SeqT, SeqT], X: Optional[SeqT] = None, Y: Optional[SeqT] = None
 ) -> None:
-    model.layers[0].initialize(
+    layer: Model = model.layers[0]
+    layer.initialize(
         X=_get_list(model, X) if X is not None else None,
         Y=_get_list(model, Y) if Y is not None else None,
     )
+    for dim_name in layer.dim_names:
+        value = layer.maybe_get_dim(dim_name)
+        if value is not None:
+            model.set_dim(dim_name, value)
 
 
 def _get_list(model, seq):
diff --git a/thinc/layers/with_padded.py b/thinc/layers/with_padded.py
index b92c630..da3fb9b 100644
--- a/thinc/layers/with_padded.py
+++ b/thinc/layers/with_padded.py
@@ -46,10 +46,15 @@ def forward(
 def init(
     model: Model[SeqT, SeqT], X: Optional[SeqT] = None, Y: Optional[SeqT] = None
 ) -> None:
-    model.layers[0].initialize(
+    layer: Model = model.layers[0]
+    layer.initialize(
         X=_get_padded(model, X) if X is not None else None,
         Y=_get_padded(model, Y) if Y is not None else None,
     )
+    for dim_name in layer.dim_names:
+        value = layer.maybe_get_dim(dim_name)
+        if value is not None:
+            model.set_dim(dim_name, value)
 
 
 def _is_padded_data(seq: SeqT) -> bool:
-- 
2.43.0


From 79c1b718636e39dfc7c217397914801a54b08d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:47 +0000
Subject: [PATCH 60/73] fix: infer the output width of the key transform of
 attention

---
 thinc/layers/parametricattention_v2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thinc/layers/parametricattention_v2.py b/thinc/layers/parametricattention_v2.py
index e252dd7..033b700 100644
--- a/thinc/layers/parametricattention_v2.py
+++ b/thinc/layers/parametricattention_v2.py
@@ -59,7 +59,7 @@ def init(
     width = get_width(X) if X is not None else None
     if width:
         model.set_dim("nO", width)
-        if key_transform.has_dim("nO"):
+        if key_transform.has_dim("nO") is not False:
             key_transform.set_dim("nO", width)
 
     # Randomly initialize the parameter, as though it were an embedding.
-- 
2.43.0


From 9d6a9e4e74cbc55175052e8381a43b18306bf70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:47 +0000
Subject: [PATCH 61/73] fix: use the bias initializer of HardSigmoid, HardTanh
 and ReluK

---
 thinc/layers/clipped_linear.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/thinc/layers/clipped_linear.py b/thinc/layers/clipped_linear.py
index efe295f..9fd2975 100644
--- a/thinc/layers/clipped_linear.py
+++ b/thinc/layers/clipped_linear.py
@@ -107,6 +107,7 @@ def HardSigmoid(
         nO=nO,
         nI=nI,
         init_W=init_W,
+        init_b=init_b,
         dropout=dropout,
         normalize=normalize,
         slope=0.2,
@@ -132,6 +133,7 @@ def HardTanh(
         nO=nO,
         nI=nI,
         init_W=init_W,
+        init_b=init_b,
         dropout=dropout,
         normalize=normalize,
         min_val=-1.0,
@@ -158,6 +160,7 @@ def ReluK(
         nO=nO,
         nI=nI,
         init_W=init_W,
+        init_b=init_b,
         dropout=dropout,
         normalize=normalize,
         min_val=0.0,
-- 
2.43.0


From 0959ccc0442bbba4651b65b0e3d09bac83e19d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:48 +0000
Subject: [PATCH 62/73] fix: set the output width of a chain from its last
 layer also with sample data

---
 thinc/layers/chain.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/thinc/layers/chain.py b/thinc/layers/chain.py
index a7e3ee7..7e3cb40 100644
--- a/thinc/layers/chain.py
+++ b/thinc/layers/chain.py
@@ -92,11 +92,11 @@ def init(
 
     if model.layers[0].has_dim("nI"):
         model.set_dim("nI", model.layers[0].get_dim("nI"))
-    if model.has_dim("nO") is None:
+    if model.layers[-1].has_dim("nO"):
+        model.set_dim("nO", model.layers[-1].get_dim("nO"))
+    elif model.has_dim("nO") is None:
         try:
             nO = get_width(curr_input)  # type: ignore[arg-type]
             model.set_dim("nO", nO)
         except ValueError:
-            if model.layers[-1].has_dim("nO"):
-                nO = model.layers[-1].get_dim("nO")
-                model.set_dim("nO", nO)
+            pass
-- 
2.43.0


From e7eb576f2bd3c61c60200ade9b6ec071bfc2b791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:41 +0000
Subject: [PATCH 63/73] fix: initialize the layer of siamese without sample
 data

---
 thinc/layers/siamese.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/thinc/layers/siamese.py b/thinc/layers/siamese.py
index 33579a4..7dda085 100644
--- a/thinc/layers/siamese.py
+++ b/thinc/layers/siamese.py
@@ -48,6 +48,8 @@ def init(
         model.layers[0].set_dim("nI", get_width(X[1]))
         model.layers[0].initialize(X=X[0])
         X = (model.layers[0].predict(X[0]), model.layers[0].predict(X[1]))
+    else:
+        model.layers[0].initialize()
     model.layers[1].initialize(X=X, Y=Y)
     model.set_dim("nI", model.layers[0].get_dim("nI"))
     model.set_dim("nO", model.layers[1].get_dim("nO"))
-- 
2.43.0


From 9ece533f5e8abd4fa62d56ed69070a3073b4ade0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:55 +0000
Subject: [PATCH 64/73] fix: refuse sums of outputs of different shapes instead
 of broadcasting them

---
 thinc/layers/add.py      |  3 +++
 thinc/layers/residual.py | 16 ++++++++++++----
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/thinc/layers/add.py b/thinc/layers/add.py
index c900ac5..8a51fe5 100644
--- a/thinc/layers/add.py
+++ b/thinc/layers/add.py
@@ -36,6 +36,9 @@ def forward(model: Model[InT, OutT], X: InT, is_train: bool) -> Tuple[OutT, Call
     callbacks = []
     for layer in model.layers[1:]:
         layer_Y, layer_callback = layer(X, is_train=is_train)
+        if getattr(Y, "shape", None) != getattr(layer_Y, "shape", None):
+            err = "Cannot add outputs of different shapes: {} and {}"
+            raise ValueError(err.format(Y.shape, layer_Y.shape))
         Y = Y + layer_Y
         callbacks.append(layer_callback)
 
diff --git a/thinc/layers/residual.py b/thinc/layers/residual.py
index 570d688..bc5569e 100644
--- a/thinc/layers/residual.py
+++ b/thinc/layers/residual.py
@@ -41,13 +41,21 @@ def forward(model: Model[InT, InT], X: InT, is_train: bool) -> Tuple[InT, Callab
 
     Y, backprop_layer = model.layers[0](X, is_train)
     if isinstance(X, list):
-        return [X[i] + Y[i] for i in range(len(X))], backprop
+        return [_sum(X[i], Y[i]) for i in range(len(X))], backprop
     elif isinstance(X, Ragged):
-        return Ragged(X.data + Y.data, X.lengths), backprop
+        return Ragged(_sum(X.data, Y.data), X.lengths), backprop
     elif isinstance(X, Padded):
-        return Padded(X.data + Y.data, Y.size_at_t, Y.lengths, Y.indices), backprop
+        data = _sum(X.data, Y.data)
+        return Padded(data, Y.size_at_t, Y.lengths, Y.indices), backprop
     else:
-        return X + Y, backprop
+        return _sum(X, Y), backprop
+
+
+def _sum(X: FloatsXd, Y: FloatsXd) -> FloatsXd:
+    if X.shape != Y.shape:
+        err = "Input and output of a residual layer differ in shape: {} and {}"
+        raise ValueError(err.format(X.shape, Y.shape))
+    return X + Y
 
 
 def init(
-- 
2.43.0


From 7180b8e62e1ed5cc6fb0b2781e56310b7c9d8931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:19 +0000
Subject: [PATCH 65/73] fix: convert arrays with negative strides to PyTorch
 tensors

---
 thinc/util.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/thinc/util.py b/thinc/util.py
index bc4917c..4d99204 100644
--- a/thinc/util.py
+++ b/thinc/util.py
@@ -396,6 +396,10 @@ def xp2torch(
     if device is None:
         device = get_torch_default_device()
 
+    if isinstance(xp_tensor, numpy.ndarray) and any(s < 0 for s in xp_tensor.strides):
+        # PyTorch tensors cannot have negative strides.
+        xp_tensor = xp_tensor.copy()
+
     if hasattr(xp_tensor, "toDlpack"):
         dlpack_tensor = xp_tensor.toDlpack()  # type: ignore
         torch_tensor = torch.utils.dlpack.from_dlpack(dlpack_tensor)
-- 
2.43.0


From a4bfba85877a45f358ff63ee39eb1ab6243fe62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:19 +0000
Subject: [PATCH 66/73] fix: key PyTorch parameters in the optimizer apart from
 model parameters, as use_params expects

---
 thinc/shims/pytorch.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/thinc/shims/pytorch.py b/thinc/shims/pytorch.py
index 09285d4..bdcabe8 100644
--- a/thinc/shims/pytorch.py
+++ b/thinc/shims/pytorch.py
@@ -7,7 +7,7 @@ import srsly
 
 from ..backends import CupyOps, context_pools, get_current_ops, set_gpu_allocator
 from ..compat import torch
-from ..optimizers import Optimizer
+from ..optimizers import KeyT, Optimizer
 from ..types import ArgsKwargs, FloatsXd
 from ..util import (
     convert_recursive,
@@ -96,6 +96,10 @@ class PyTorchShim(Shim):
         else:
             return self.predict(inputs), lambda a: ...
 
+    @property
+    def _key_prefix(self) -> str:
+        return f"pytorch_{self.id}_"
+
     @property
     def device(self):
         p = next(self._model.parameters(), None)
@@ -167,8 +171,10 @@ class PyTorchShim(Shim):
                 if (
                     not self._grad_scaler.found_inf
                 ):  # Skip weight update if any gradient overflowed.
+                    # The key must not be the key of a Model's parameter, and is
+                    # the one that use_params expects.
                     param, grad = optimizer(
-                        (self.id, name),
+                        cast(KeyT, f"{self._key_prefix}{name}"),
                         cast(FloatsXd, torch2xp(torch_data.data)),
                         cast(FloatsXd, torch2xp(torch_data.grad)),
                     )
@@ -181,15 +187,16 @@ class PyTorchShim(Shim):
 
     @contextlib.contextmanager
     def use_params(self, params):
-        key_prefix = f"pytorch_{self.id}_"
+        key_prefix = self._key_prefix
         state_dict = {}
         for k, v in params.items():
             if hasattr(k, "startswith") and k.startswith(key_prefix):
-                state_dict[k.replace(key_prefix, "")] = xp2torch(v, device=self.device)
+                state_dict[k[len(key_prefix) :]] = xp2torch(v, device=self.device)
         if state_dict:
             backup = {k: v.clone() for k, v in self._model.state_dict().items()}
             try:
-                self._model.load_state_dict(state_dict)
+                # Entries that are not given keep their values.
+                self._model.load_state_dict({**backup, **state_dict})
                 yield
             finally:
                 self._model.load_state_dict(backup)
-- 
2.43.0


From b3b814af3b46b77378187db11825df3aa2040a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:32 +0000
Subject: [PATCH 67/73] fix: describe batches whose sequences change their
 length in the wrappers correctly

---
 thinc/layers/with_list.py   | 6 ++++--
 thinc/layers/with_padded.py | 8 +++++---
 thinc/layers/with_ragged.py | 9 +++++----
 3 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/thinc/layers/with_list.py b/thinc/layers/with_list.py
index 67bf236..2912331 100644
--- a/thinc/layers/with_list.py
+++ b/thinc/layers/with_list.py
@@ -68,10 +68,12 @@ def _ragged_forward(
     def backprop(dYr: Ragged):
         return Ragged(
             flatten(get_dXs(unflatten(dYr.data, dYr.lengths))),
-            dYr.lengths,
+            Xr.lengths,
         )
 
-    return Ragged(flatten(Ys), Xr.lengths), backprop
+    # The layer may have changed the lengths of the sequences.
+    lengths = layer.ops.asarray1i([len(Y) for Y in Ys])
+    return Ragged(flatten(Ys), lengths), backprop
 
 
 def _padded_forward(
diff --git a/thinc/layers/with_padded.py b/thinc/layers/with_padded.py
index da3fb9b..379c170 100644
--- a/thinc/layers/with_padded.py
+++ b/thinc/layers/with_padded.py
@@ -127,10 +127,12 @@ def _ragged_forward(
         flattened = flatten(
             padded2list(get_dXp(list2padded(unflatten(dYr.data, dYr.lengths)))),
         )
-        return Ragged(flattened, dYr.lengths)
+        return Ragged(flattened, Xr.lengths)
 
-    flattened = flatten(padded2list(Yp))
-    return Ragged(flattened, Xr.lengths), backprop
+    # The layer may have changed the lengths of the sequences.
+    Ys = padded2list(Yp)
+    lengths = layer.ops.asarray1i([len(Y) for Y in Ys])
+    return Ragged(flatten(Ys), lengths), backprop
 
 
 def _list_forward(
diff --git a/thinc/layers/with_ragged.py b/thinc/layers/with_ragged.py
index e8f0794..eb588e1 100644
--- a/thinc/layers/with_ragged.py
+++ b/thinc/layers/with_ragged.py
@@ -101,8 +101,9 @@ def _padded_forward(
     Yr, get_dXr = layer(Ragged(flatten(Xs), layer.ops.asarray1i(lengths)), is_train)
 
     def backprop(dYp: Padded):
-        flattened = flatten(padded2list(dYp))
-        dXr = get_dXr(Ragged(flattened, lengths))
+        dYs = padded2list(dYp)
+        dY_lengths = layer.ops.asarray1i([len(dY) for dY in dYs])
+        dXr = get_dXr(Ragged(flatten(dYs), dY_lengths))
         return list2padded(unflatten(dXr.data, lengths))
 
     return (
@@ -122,8 +123,8 @@ def _list_forward(
     Yr, get_dXr = layer(Ragged(flatten(Xs), layer.ops.asarray1i(lengths)), is_train)
 
     def backprop(dYs):
-        flattened = flatten(dYs)
-        dXr = get_dXr(Ragged(flattened, layer.ops.asarray1i(lengths)))
+        dY_lengths = layer.ops.asarray1i([len(dY) for dY in dYs])
+        dXr = get_dXr(Ragged(flatten(dYs), dY_lengths))
         return unflatten(dXr.data, lengths)
 
     return unflatten(Yr.data, Yr.lengths), backprop
-- 
2.43.0


From 066d995fd5cbd737320fe30c3cde1947cd370cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:32 +0000
Subject: [PATCH 68/73] fix: keep the order of the sequences of an array in
 with_padded

---
 thinc/layers/with_padded.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/thinc/layers/with_padded.py b/thinc/layers/with_padded.py
index 379c170..ca0c8bb 100644
--- a/thinc/layers/with_padded.py
+++ b/thinc/layers/with_padded.py
@@ -85,16 +85,18 @@ def _array_forward(
     # Create bogus metadata for Padded.
     Xp = _get_padded(layer, X)
     Yp, get_dXp = layer(Xp, is_train)
-    size_at_t = Xp.size_at_t
-    lengths = Xp.lengths
-    indices = Xp.indices
 
     def backprop(dY: Floats3d) -> Floats3d:
-        dYp = Padded(dY, size_at_t, lengths, indices)
-        dXp = get_dXp(dYp)
-        return dXp.data
+        dXp = get_dXp(_get_padded(layer, dY))
+        return _unsort(layer, dXp)
 
-    return cast(Floats3d, Yp.data), backprop
+    return _unsort(layer, Yp), backprop
+
+
+def _unsort(layer: Model[Padded, Padded], Xp: Padded) -> Floats3d:
+    # The layer may have put the sequences in a different order.
+    data = cast(Floats3d, Xp.data)
+    return data[:, layer.ops.xp.argsort(Xp.indices)]
 
 
 def _tuple_forward(
-- 
2.43.0


From 3f997254a383c9e53fcc00c0114310e9303f6d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:42 +0000
Subject: [PATCH 69/73] fix: do not require gradients of integer inputs of
 PyTorch modules

---
 thinc/layers/pytorchwrapper.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/thinc/layers/pytorchwrapper.py b/thinc/layers/pytorchwrapper.py
index 39c8b95..658596c 100644
--- a/thinc/layers/pytorchwrapper.py
+++ b/thinc/layers/pytorchwrapper.py
@@ -241,7 +241,10 @@ def convert_pytorch_default_inputs(
     model: Model, X: Any, is_train: bool
 ) -> Tuple[ArgsKwargs, Callable[[ArgsKwargs], Any]]:
     shim = cast(PyTorchShim, model.shims[0])
-    xp2torch_ = lambda x: xp2torch(x, requires_grad=is_train, device=shim.device)
+    # Only floating-point tensors can have gradients.
+    xp2torch_ = lambda x: xp2torch(
+        x, requires_grad=is_train and x.dtype.kind == "f", device=shim.device
+    )
     converted = convert_recursive(is_xp_array, xp2torch_, X)
     if isinstance(converted, ArgsKwargs):
 
-- 
2.43.0


From 333f04747a40642d64fe19a63ee8e03617f46b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:42 +0000
Subject: [PATCH 70/73] fix: backpropagate through PyTorch modules with several
 outputs

---
 thinc/layers/pytorchwrapper.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/thinc/layers/pytorchwrapper.py b/thinc/layers/pytorchwrapper.py
index 658596c..0b275da 100644
--- a/thinc/layers/pytorchwrapper.py
+++ b/thinc/layers/pytorchwrapper.py
@@ -9,6 +9,7 @@ from ..util import (
     convert_recursive,
     is_torch_array,
     is_xp_array,
+    iterate_recursive,
     partial,
     torch2xp,
     xp2torch,
@@ -284,7 +285,27 @@ def convert_pytorch_default_outputs(model: Model, X_Ytorch: Any, is_train: bool)
         dYtorch = convert_recursive(
             is_xp_array, partial(xp2torch, device=shim.device), dY
         )
-        return ArgsKwargs(args=((Ytorch,),), kwargs={"grad_tensors": dYtorch})
+        if is_torch_array(Ytorch):
+            return ArgsKwargs(args=((Ytorch,),), kwargs={"grad_tensors": dYtorch})
+        # The module returned several tensors: pair those that are part of the
+        # graph with their gradients.
+        outputs = list(iterate_recursive(is_torch_array, Ytorch))
+        grads = list(
+            iterate_recursive(lambda x: x is None or is_torch_array(x), dYtorch)
+        )
+        if len(outputs) != len(grads):
+            raise ValueError(
+                f"Expected {len(outputs)} output gradients, but got {len(grads)}"
+            )
+        pairs = [
+            (y, dy)
+            for y, dy in zip(outputs, grads)
+            if y.requires_grad and dy is not None
+        ]
+        return ArgsKwargs(
+            args=(tuple(y for y, _ in pairs),),
+            kwargs={"grad_tensors": tuple(dy for _, dy in pairs)},
+        )
 
     return Y, reverse_conversion
 
-- 
2.43.0


From 8e830f672601239fb4d6b5043744c6771dfcf277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:48 +0000
Subject: [PATCH 71/73] fix: check the shape of the output array of gemm and
 write non-contiguous output arrays

---
 thinc/backends/numpy_ops.pyx | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/thinc/backends/numpy_ops.pyx b/thinc/backends/numpy_ops.pyx
index c868756..6bd628e 100644
--- a/thinc/backends/numpy_ops.pyx
+++ b/thinc/backends/numpy_ops.pyx
@@ -97,32 +97,40 @@ class NumpyOps(Ops):
             msg = "Shape mismatch for blis.gemm: (%d, %d), (%d, %d)"
             raise ValueError(msg % (nM, nK, nK_b, nN))
 
-        if out is not None:
-            out = self.as_contig(out)
-        else:
+        cdef np.ndarray result
+        if out is None:
             # Can be uninitialized as 'beta' is zero.
-            out = numpy.empty((nM, nN), dtype=x.dtype)
+            result = numpy.empty((nM, nN), dtype=x.dtype)
+        elif out.ndim != 2 or out.shape[0] != nM or out.shape[1] != nN:
+            raise ValueError(f"Provided 'out' array should have the shape ({nM}, {nN})")
+        else:
+            result = self.as_contig(out)
 
         cblas = self.cblas()
-        if x.dtype == "float32" and y.dtype == "float32" and out.dtype == "float32":
+        if x.dtype == "float32" and y.dtype == "float32" and result.dtype == "float32":
             sgemm(cblas)(trans1, trans2,
                 nM, nN, nK,
                 1.0,
                 <float*>(x.data), x.shape[1],
                 <float*>(y.data), y.shape[1],
                 0.0,
-                <float*>(out.data), out.shape[1])
-        elif x.dtype == "float64" and y.dtype == "float64" and out.dtype == "float64":
+                <float*>(result.data), result.shape[1])
+        elif x.dtype == "float64" and y.dtype == "float64" and result.dtype == "float64":
             dgemm(cblas)(trans1, trans2,
                 nM, nN, nK,
                 1.0,
                 <double*>(x.data), x.shape[1],
                 <double*>(y.data), y.shape[1],
                 0.0,
-                <double*>(out.data), out.shape[1])
+                <double*>(result.data), result.shape[1])
         else:
-            raise ValueError(f"unsupported or mismatching array data types; got '{x.dtype}', '{y.dtype}', '{out.dtype}'")
+            raise ValueError(f"unsupported or mismatching array data types; got '{x.dtype}', '{y.dtype}', '{result.dtype}'")
 
+        if out is None:
+            return result
+        if result is not out:
+            # The output was not contiguous, so the result is in a copy.
+            out[...] = result
         return out
 
     def relu(self, np.ndarray X, inplace=False):
-- 
2.43.0


From 6727ffbde7ec641fc6364339ff923cdf5ee463a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:48 +0000
Subject: [PATCH 72/73] fix: convert PyTorch tensors to the requested data type
 in Ops.asarray

---
 thinc/backends/ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thinc/backends/ops.py b/thinc/backends/ops.py
index 14e7358..8e278bc 100644
--- a/thinc/backends/ops.py
+++ b/thinc/backends/ops.py
@@ -762,7 +762,7 @@ class Ops:
                 return self.xp.asarray(data, dtype=dtype)
         elif hasattr(data, "numpy"):
             # Handles PyTorch Tensor
-            return data.numpy()  # type: ignore[union-attr]
+            return self.asarray(data.numpy(), dtype=dtype)  # type: ignore[union-attr]
         elif dtype is not None:
             return self.xp.array(data, dtype=dtype)
         else:
-- 
2.43.0


From 6be25135f6f76aa181f199329bf76ebd27e7e637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:13 +0000
Subject: [PATCH 73/73] fix: do not share the table of remap_ids layers created
 without one

---
 thinc/layers/remap_ids.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/thinc/layers/remap_ids.py b/thinc/layers/remap_ids.py
index b1acf98..61d077c 100644
--- a/thinc/layers/remap_ids.py
+++ b/thinc/layers/remap_ids.py
@@ -14,13 +14,18 @@ OutT_v1 = Ints2d
 
 @registry.layers("remap_ids.v1")
 def remap_ids(
-    mapping_table: Dict[Any, int] = {}, default: int = 0, dtype: DTypes = "i"
+    mapping_table: Optional[Dict[Any, int]] = None,
+    default: int = 0,
+    dtype: DTypes = "i",
 ) -> Model[InT_v1, OutT_v1]:
     """Remap string or integer inputs using a mapping table, usually as a
     preprocess before embeddings. The mapping table can be passed in on input,
     or updated after the layer has been created. The mapping table is stored in
     the "mapping_table" attribute.
     """
+    # Layers must not share a table that is updated later.
+    if mapping_table is None:
+        mapping_table = {}
     return Model(
         "remap_ids",
         forward,
-- 
2.43.0

