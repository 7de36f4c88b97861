From b7d4a6500e643e29086978576d5aa6c42ea76945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:54 +0000
Subject: [PATCH 01/37] fix: LSTM and ClockworkLstm gradients use the context
 of the first time step

The gradients of the recurrent weights and peepholes multiplied the first
step's deltas with dy[-1]/dCa[-1] (uninitialised or zero) instead of the
context y[-1]/Ca[-1].
---
 brainstorm/layers/clockwork_lstm_layer.py | 12 ++++++------
 brainstorm/layers/lstm_layer.py           | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/brainstorm/layers/clockwork_lstm_layer.py b/brainstorm/layers/clockwork_lstm_layer.py
index 37819c8..d40da00 100644
--- a/brainstorm/layers/clockwork_lstm_layer.py
+++ b/brainstorm/layers/clockwork_lstm_layer.py
@@ -303,10 +303,10 @@ class ClockworkLstmLayerImpl(Layer):
         _h.dot_add_mm(flat_dOa, flat_outputs, dRo, transa=True)
         _h.dot_add_mm(flat_dZa, flat_outputs, dRz, transa=True)
 
-        _h.dot_add_mm(dIa[0], dy[-1], dRi, transa=True)
-        _h.dot_add_mm(dFa[0], dy[-1], dRf, transa=True)
-        _h.dot_add_mm(dOa[0], dy[-1], dRo, transa=True)
-        _h.dot_add_mm(dZa[0], dy[-1], dRz, transa=True)
+        _h.dot_add_mm(dIa[0], y[-1], dRi, transa=True)
+        _h.dot_add_mm(dFa[0], y[-1], dRf, transa=True)
+        _h.dot_add_mm(dOa[0], y[-1], dRo, transa=True)
+        _h.dot_add_mm(dZa[0], y[-1], dRz, transa=True)
 
         # Other Peephole connections
         dWcif_tmp = _h.allocate(flat_cell.shape)
@@ -318,9 +318,9 @@ class ClockworkLstmLayerImpl(Layer):
         _h.add_tt(dpf, dWc_tmp, dpf)
 
         dWcif_tmp = _h.allocate(dIa[0].shape)
-        _h.mult_tt(dCa[-1], dIa[0], dWcif_tmp)
+        _h.mult_tt(Ca[-1], dIa[0], dWcif_tmp)
         _h.sum_t(dWcif_tmp, axis=0, out=dWc_tmp)
         _h.add_tt(dpi, dWc_tmp, dpi)
-        _h.mult_tt(dCa[-1], dIa[0], dWcif_tmp)
+        _h.mult_tt(Ca[-1], dFa[0], dWcif_tmp)
         _h.sum_t(dWcif_tmp, axis=0, out=dWc_tmp)
         _h.add_tt(dpf, dWc_tmp, dpf)
diff --git a/brainstorm/layers/lstm_layer.py b/brainstorm/layers/lstm_layer.py
index 8433706..972903c 100644
--- a/brainstorm/layers/lstm_layer.py
+++ b/brainstorm/layers/lstm_layer.py
@@ -255,10 +255,10 @@ class LstmLayerImpl(Layer):
         _h.dot_add_mm(flat_dOa, flat_outputs, dRo, transa=True)
         _h.dot_add_mm(flat_dZa, flat_outputs, dRz, transa=True)
 
-        _h.dot_add_mm(dIa[0], dy[-1], dRi, transa=True)
-        _h.dot_add_mm(dFa[0], dy[-1], dRf, transa=True)
-        _h.dot_add_mm(dOa[0], dy[-1], dRo, transa=True)
-        _h.dot_add_mm(dZa[0], dy[-1], dRz, transa=True)
+        _h.dot_add_mm(dIa[0], y[-1], dRi, transa=True)
+        _h.dot_add_mm(dFa[0], y[-1], dRf, transa=True)
+        _h.dot_add_mm(dOa[0], y[-1], dRo, transa=True)
+        _h.dot_add_mm(dZa[0], y[-1], dRz, transa=True)
 
         # Other Peephole connections
         dWcif_tmp = _h.allocate(flat_cell.shape)
@@ -270,9 +270,9 @@ class LstmLayerImpl(Layer):
         _h.add_tt(dpf, dWc_tmp, dpf)
 
         dWcif_tmp = _h.allocate(dIa[0].shape)
-        _h.mult_tt(dCa[-1], dIa[0], dWcif_tmp)
+        _h.mult_tt(Ca[-1], dIa[0], dWcif_tmp)
         _h.sum_t(dWcif_tmp, axis=0, out=dWc_tmp)
         _h.add_tt(dpi, dWc_tmp, dpi)
-        _h.mult_tt(dCa[-1], dIa[0], dWcif_tmp)
+        _h.mult_tt(Ca[-1], dFa[0], dWcif_tmp)
         _h.sum_t(dWcif_tmp, axis=0, out=dWc_tmp)
         _h.add_tt(dpf, dWc_tmp, dpf)
-- 
2.43.0


From 65b7446018ed8a56fb28e75f3e73bb5729885618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:54 +0000
Subject: [PATCH 02/37] fix: ClockworkLstm accumulates deltas in zeroed memory,
 not in allocate()'s

---
 brainstorm/layers/clockwork_lstm_layer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brainstorm/layers/clockwork_lstm_layer.py b/brainstorm/layers/clockwork_lstm_layer.py
index d40da00..ff510ac 100644
--- a/brainstorm/layers/clockwork_lstm_layer.py
+++ b/brainstorm/layers/clockwork_lstm_layer.py
@@ -190,7 +190,7 @@ class ClockworkLstmLayerImpl(Layer):
         y = buffers.outputs.default
         deltas = buffers.output_deltas.default
 
-        dy = _h.allocate(y.shape)
+        dy = _h.zeros(y.shape)
 
         time_size, batch_size = x.shape[0], x.shape[1]
 
-- 
2.43.0


From a7b40ccdc5fab0e8f50ab8d4d0ceed3850db7a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:54 +0000
Subject: [PATCH 03/37] fix: ClockworkLstm backward pass no longer overwrites
 its forward activations

---
 brainstorm/layers/clockwork_lstm_layer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/brainstorm/layers/clockwork_lstm_layer.py b/brainstorm/layers/clockwork_lstm_layer.py
index ff510ac..765c88b 100644
--- a/brainstorm/layers/clockwork_lstm_layer.py
+++ b/brainstorm/layers/clockwork_lstm_layer.py
@@ -227,7 +227,7 @@ class ClockworkLstmLayerImpl(Layer):
             _h.act_func_deriv[self.activation](Ca[t], Cb[t], dCb[t], dCb[t])
             _h.fill_if(dCb[t], 0, cond)
             _h.add_tt(dCa[t], dCb[t], dCa[t])
-            _h.mult_add_tt(dCa[t + 1], Fb[t + 1], dCa[t])
+            _h.mult_add_tt(dCa[t + 1], dFb[t + 1], dCa[t])
 
             # Forget Gate
             _h.mult_tt(dCa[t], Ca[t - 1], dFb[t])
@@ -249,7 +249,9 @@ class ClockworkLstmLayerImpl(Layer):
             _h.fill_if(dIa[t], 0, cond)
             _h.fill_if(dFa[t], 0, cond)
             _h.fill_if(dZa[t], 0, cond)
-            _h.fill_if(Fb[t], 0, cond)
+            # Forget gate activation that let the error flow back to t-1
+            _h.copy_to(Fb[t], dFb[t])
+            _h.fill_if(dFb[t], 0, cond)
 
         # Same as for standard RNN:
         flat_inputs = flatten_time_and_features(x)
-- 
2.43.0


From a57d029357f3c46d280e13f2054e610d275045ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:02 +0000
Subject: [PATCH 04/37] fix: declare mult_add_mv in the abstract handler
 interface

Lstm and ClockworkLstm call mult_add_mv, but the abstract Handler did not
list it, so a backend implementing the whole interface lacked it.
---
 brainstorm/handlers/base_handler.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/brainstorm/handlers/base_handler.py b/brainstorm/handlers/base_handler.py
index abf856e..c9ba06e 100644
--- a/brainstorm/handlers/base_handler.py
+++ b/brainstorm/handlers/base_handler.py
@@ -631,6 +631,23 @@ class Handler(Describable):
             None
         """
 
+    @abc.abstractmethod
+    def mult_add_mv(self, m, v, out):
+        """Multiply (M, N) matrix elementwise by a (1, N) or (M, 1) vector and
+        add to out, broadcasting as needed.
+
+        Args:
+            m (array_type): First array to be used.
+                            Must be of shape (M, N).
+            v (array_type): Vector to be multiplied with every row or column.
+                            Must be of shape (1, N) or (M, 1).
+            out (array_type): Array to which the product is added.
+                              Must be of shape (M, N).
+
+        Returns:
+            None
+        """
+
     @abc.abstractmethod
     def mult_add_tt(self, a, b, out):
         """Multiply two tensors element-wise and add to a tensor.
-- 
2.43.0


From 6d39e85ae851ad666cb8619adfa04052c0089968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:02 +0000
Subject: [PATCH 05/37] fix: modulo_tt on the GPU rounds by the sign of the
 elements

The kernel compared the array pointers instead of the elements with zero, so
negative operands were rounded in the wrong direction.
---
 brainstorm/handlers/pycuda_handler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/brainstorm/handlers/pycuda_handler.py b/brainstorm/handlers/pycuda_handler.py
index fff34c3..ee5a9b4 100644
--- a/brainstorm/handlers/pycuda_handler.py
+++ b/brainstorm/handlers/pycuda_handler.py
@@ -488,8 +488,8 @@ index_m_by_v_kernel = ElementwiseKernel(
 
 modulo_tt_kernel = ElementwiseKernel(
     "float* a, float* b, float* out",
-    "out[i] =  (float)((int)((a >= 0) ? a[i]+0.5: a[i]-0.5) % (int)((b>=0) ? "
-    "b[i]+0.5: b[i]-0.5))",
+    "out[i] =  (float)((int)((a[i] >= 0) ? a[i]+0.5: a[i]-0.5) % "
+    "(int)((b[i] >= 0) ? b[i]+0.5: b[i]-0.5))",
     "modulo_tt_kernel"
 )
 
-- 
2.43.0


From de3c5fd101e36592dd16e5fc599a962b3b113e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:32 +0000
Subject: [PATCH 06/37] fix: NumpyHandler.el is not NaN for large inputs

exp(x) was taken of every element and then multiplied by zero for x >= 0, which
is NaN once exp(x) overflows.
---
 brainstorm/handlers/numpy_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brainstorm/handlers/numpy_handler.py b/brainstorm/handlers/numpy_handler.py
index 64a344f..7e5c442 100644
--- a/brainstorm/handlers/numpy_handler.py
+++ b/brainstorm/handlers/numpy_handler.py
@@ -302,7 +302,7 @@ class NumpyHandler(Handler):
 
     def el(self, x, y):
         # TODO: Optimize this implementation
-        y[:] = x * (x >= 0.) + (np.exp(x) - 1.) * (x < 0.)
+        y[:] = x * (x >= 0.) + (np.exp(np.minimum(x, 0.)) - 1.) * (x < 0.)
 
     def el_deriv(self, x, y, dy, dx):
         # TODO: Optimize this implementation
-- 
2.43.0


From 9c486ac9473cbc63a131648c8decc10e433cecc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:22 +0000
Subject: [PATCH 07/37] fix: clearing the recurrent context leaves the current
 sequence alone

---
 brainstorm/structure/buffers.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/brainstorm/structure/buffers.py b/brainstorm/structure/buffers.py
index ec773ea..e3d219b 100644
--- a/brainstorm/structure/buffers.py
+++ b/brainstorm/structure/buffers.py
@@ -141,8 +141,7 @@ class BufferManager(object):
         for hub, buf in zip(self.hubs, self.buffers):
             if hub.btype != 2 or not hub.context_size:
                 continue
-            self.handler.fill(
-                buf[self.time_size - hub.context_size:], 0.)
+            self.handler.fill(buf[self.time_size:], 0.)
 
     def clear_backward_buffers(self):
         for h, b in zip(self.hubs, self.buffers):
-- 
2.43.0


From 1297c6a87250c73ade1268c2a44f7b9277e3613f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:27 +0000
Subject: [PATCH 08/37] fix: networks can be loaded from HDF5 files with
 current h5py

---
 brainstorm/structure/network.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/brainstorm/structure/network.py b/brainstorm/structure/network.py
index a0f4dbf..88d39b5 100644
--- a/brainstorm/structure/network.py
+++ b/brainstorm/structure/network.py
@@ -95,10 +95,10 @@ class Network(Seedable):
             :meth:`.save_as_hdf5`
         """
         with h5py.File(filename, 'r') as f:
-            description = json.loads(f['description'].value.decode())
+            description = json.loads(f['description'][()].decode())
             net = create_from_description(description)
             net.handler.set_from_numpy(net.buffer.parameters,
-                                       f['parameters'].value)
+                                       f['parameters'][()])
         return net
 
     def __init__(self, layers, buffer_manager, architecture, seed=None,
-- 
2.43.0


From 49473f7d10a9e426ba46d6b8b7f349642e5276ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:27 +0000
Subject: [PATCH 09/37] fix: an uninitialized network can be recreated from its
 description

---
 brainstorm/structure/network.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/brainstorm/structure/network.py b/brainstorm/structure/network.py
index 88d39b5..a1f54fc 100644
--- a/brainstorm/structure/network.py
+++ b/brainstorm/structure/network.py
@@ -70,7 +70,9 @@ class Network(Seedable):
     def __new_from_description__(cls, description):
         net = Network.from_architecture(description['architecture'])
         net.set_handler(create_from_description(description['handler']))
-        net.initialize(create_from_description(description['initializers']))
+        if description['initializers']:
+            net.initialize(
+                create_from_description(description['initializers']))
         net.set_gradient_modifiers(
             create_from_description(description['gradient_modifiers']))
         net.set_weight_modifiers(
-- 
2.43.0


From 73f844ee35308032e0594cfb065e21cd7cc76e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:27 +0000
Subject: [PATCH 10/37] fix: Uniform initializers recreated from a description
 have a random state

---
 brainstorm/initializers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/brainstorm/initializers.py b/brainstorm/initializers.py
index 7001f56..f3898e3 100644
--- a/brainstorm/initializers.py
+++ b/brainstorm/initializers.py
@@ -382,9 +382,13 @@ class Uniform(Initializer):
         super(Uniform, self).__init__()
         self.low = low
         self.high = high
-        self.__init_from_description__(None)
+        self._set_interval()
 
     def __init_from_description__(self, description):
+        super(Uniform, self).__init_from_description__(description)
+        self._set_interval()
+
+    def _set_interval(self):
         if self.high is None:
             self.low, self.high = sorted([-self.low, self.low])
         assert self.low < self.high, \
-- 
2.43.0


From 0c042c3ce69f2d18bc041b6625bad8ae7254d0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:27 +0000
Subject: [PATCH 11/37] fix: sparse initializers pass a seed on to their
 sub_initializer

---
 brainstorm/initializers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/brainstorm/initializers.py b/brainstorm/initializers.py
index f3898e3..6bf1263 100644
--- a/brainstorm/initializers.py
+++ b/brainstorm/initializers.py
@@ -334,7 +334,8 @@ class SparseInputs(Initializer):
             raise InitializationError("Input dimension to small: {} < {}"
                                       "".format(shape[0], self.connections))
 
-        sub_result = evaluate_initializer(self.sub_initializer, shape)
+        sub_result = evaluate_initializer(self.sub_initializer, shape,
+                                          seed=self.rnd.generate_seed())
         connection_mask = np.zeros(shape)
         connection_mask[:self.connections, :] = 1.
         for i in range(shape[1]):
@@ -363,7 +364,8 @@ class SparseOutputs(Initializer):
         if shape[1] < self.connections:
             raise InitializationError("Output dimension to small: {} < {}"
                                       "".format(shape[1], self.connections))
-        sub_result = evaluate_initializer(self.sub_initializer, shape)
+        sub_result = evaluate_initializer(self.sub_initializer, shape,
+                                          seed=self.rnd.generate_seed())
         connection_mask = np.zeros(shape)
         connection_mask[:, :self.connections] = 1.
         for i in range(shape[0]):
-- 
2.43.0


From 63ca58df2bd95cbab26678c11cd42e810a7bee1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:27 +0000
Subject: [PATCH 12/37] fix: array initializers inside other initializers
 survive description

---
 brainstorm/initializers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/brainstorm/initializers.py b/brainstorm/initializers.py
index 6bf1263..cf6dfff 100644
--- a/brainstorm/initializers.py
+++ b/brainstorm/initializers.py
@@ -405,6 +405,9 @@ class Uniform(Initializer):
 # ########################### helper methods ##################################
 
 def evaluate_initializer(initializer, shape, fallback=None, seed=None):
+    if isinstance(initializer, (list, np.ndarray)):
+        # an ArrayInitializer is described by (and restored as) a list
+        initializer = ArrayInitializer(initializer)
     if isinstance(initializer, Initializer):
         if seed is not None:
             initializer.rnd.set_seed(seed)
-- 
2.43.0


From 5fe94a4a9f44e6d24197c9f33379b805d0efee35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:27 +0000
Subject: [PATCH 13/37] fix: MaskValues recreated from a description has an
 array as mask

---
 brainstorm/value_modifiers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/brainstorm/value_modifiers.py b/brainstorm/value_modifiers.py
index 0f91e75..dc6aa7a 100644
--- a/brainstorm/value_modifiers.py
+++ b/brainstorm/value_modifiers.py
@@ -137,6 +137,10 @@ class MaskValues(ValueModifier):
         self.mask = mask
         self.device_mask = None
 
+    def __init_from_description__(self, description):
+        super(MaskValues, self).__init_from_description__(description)
+        self.mask = np.array(self.mask)
+
     def __call__(self, handler, view):
         if (self.device_mask is None or
                 not isinstance(self.device_mask, handler.array_type)):
-- 
2.43.0


From d6614d3a03f1822569b763e8557e4c699e48de76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:27 +0000
Subject: [PATCH 14/37] fix: Undivided hands out a copy of its data dictionary

---
 brainstorm/data_iterators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brainstorm/data_iterators.py b/brainstorm/data_iterators.py
index aef02db..530d128 100644
--- a/brainstorm/data_iterators.py
+++ b/brainstorm/data_iterators.py
@@ -394,7 +394,7 @@ class Undivided(DataIterator):
         self.total_size = int(sum(d.size for d in self.data.values()))
 
     def __call__(self, handler=None):
-        yield self.data
+        yield dict(self.data)
 
 
 class Minibatches(DataIterator):
-- 
2.43.0


From c14909ab698d208b02b6a929786a52921fd49fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:27 +0000
Subject: [PATCH 15/37] fix: Flip does not flip the arrays of the iterator it
 wraps

---
 brainstorm/data_iterators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/brainstorm/data_iterators.py b/brainstorm/data_iterators.py
index 530d128..245d2cc 100644
--- a/brainstorm/data_iterators.py
+++ b/brainstorm/data_iterators.py
@@ -179,6 +179,7 @@ class Flip(DataIterator):
         for data in self.iter(handler):
             for name in self.prob_dict.keys():
                 assert isinstance(data[name], np.ndarray)
+                data[name] = data[name].copy()
                 for i in range(data[name].shape[1]):
                     if self.rnd.random_sample() < self.prob_dict[name]:
                         data[name][:, i, ...] = data[name][:, i, :, ::-1, :]
-- 
2.43.0


From 2d9de1de6ff3e4661a7c55944c6dc23d3682e205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:40 +0000
Subject: [PATCH 16/37] fix: Pad with size 0 keeps the data

---
 brainstorm/data_iterators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brainstorm/data_iterators.py b/brainstorm/data_iterators.py
index 245d2cc..6b0841d 100644
--- a/brainstorm/data_iterators.py
+++ b/brainstorm/data_iterators.py
@@ -319,7 +319,7 @@ class Pad(DataIterator):
                 size = self.size_dict[name]
                 val = self.value_dict.get(name, 0.0)
                 new_data = val * np.ones((t, b, h + 2 * size, w + 2 * size, c))
-                new_data[:, :, size: -size, size: -size, :] = data[name]
+                new_data[:, :, size: size + h, size: size + w, :] = data[name]
                 data[name] = new_data
             yield data
 
-- 
2.43.0


From 70377b9c01d3c1a023c3bb5366e9a6761b591f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:40 +0000
Subject: [PATCH 17/37] fix: augmenting iterators announce the shapes of the
 data they yield

---
 brainstorm/data_iterators.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/brainstorm/data_iterators.py b/brainstorm/data_iterators.py
index 6b0841d..3e84fd2 100644
--- a/brainstorm/data_iterators.py
+++ b/brainstorm/data_iterators.py
@@ -217,6 +217,9 @@ class OneHot(DataIterator):
             shape = iter.data_shapes[key]
             if not (shape[-1] == 1 and len(shape) == 3):
                 raise IteratorValidationError("Only 3D data is supported")
+        self.data_shapes = dict(iter.data_shapes)
+        for key, vocab_size in vocab_size_dict.items():
+            self.data_shapes[key] = iter.data_shapes[key][:2] + (vocab_size,)
         self.vocab_size_dict = vocab_size_dict
         self.iter = iter
 
@@ -262,10 +265,13 @@ class MultiHot(DataIterator):
             shape = iter.data_shapes[key]
             if not len(shape) == 3:
                 raise IteratorValidationError("Only 3D data is supported")
+        self.data_shapes = dict(iter.data_shapes)
+        for key, vocab_size in vocab_size_dict.items():
+            self.data_shapes[key] = iter.data_shapes[key][:2] + (vocab_size,)
         self.vocab_size_dict = vocab_size_dict
         self.iter = iter
 
-    def __call__(self, handler):
+    def __call__(self, handler=None):
         for data in self.iter(handler):
             for name in self.vocab_size_dict.keys():
                 vocab_size = self.vocab_size_dict[name]
@@ -307,6 +313,10 @@ class Pad(DataIterator):
                     "}".format(key, iter.data_shapes.keys()))
             if len(iter.data_shapes[key]) != 5:
                 raise IteratorValidationError("Only 5D data is supported")
+        self.data_shapes = dict(iter.data_shapes)
+        for key, size in size_dict.items():
+            t, b, h, w, c = iter.data_shapes[key]
+            self.data_shapes[key] = (t, b, h + 2 * size, w + 2 * size, c)
         self.value_dict = {} if value_dict is None else value_dict
         self.size_dict = size_dict
         self.iter = iter
@@ -357,6 +367,10 @@ class RandomCrop(DataIterator):
                 raise IteratorValidationError("Invalid crop height")
             if val[1] > data_shape[3] or val[1] < 0:
                 raise IteratorValidationError("Invalid crop width")
+        self.data_shapes = dict(iter.data_shapes)
+        for key, val in shape_dict.items():
+            t, b, h, w, c = iter.data_shapes[key]
+            self.data_shapes[key] = (t, b) + val + (c,)
         self.shape_dict = shape_dict
         self.iter = iter
 
-- 
2.43.0


From ccf6e9ce6dc995ee2d4f3ca36cb97cf29965138b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:40 +0000
Subject: [PATCH 18/37] fix: MonitorLayerDeltas can log the input deltas

---
 brainstorm/hooks.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/brainstorm/hooks.py b/brainstorm/hooks.py
index 7dd32e4..b3e6c21 100644
--- a/brainstorm/hooks.py
+++ b/brainstorm/hooks.py
@@ -243,9 +243,9 @@ class MonitorLayerDeltas(Hook):
         for key, v in net.buffer[self.layer_name].input_deltas.items():
             key_log = in_deltas_log[key] = OrderedDict()
             v = net.handler.get_numpy_copy(v)
-            key_log[key]['min'] = v.min()
-            key_log[key]['avg'] = v.mean()
-            key_log[key]['max'] = v.max()
+            key_log['min'] = v.min()
+            key_log['avg'] = v.mean()
+            key_log['max'] = v.max()
 
         return log
 
-- 
2.43.0


From 7dca5b1099dcebbda9b9fefcbec77c70579e386a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:40 +0000
Subject: [PATCH 19/37] fix: ForwardStepper returns the loss values

---
 brainstorm/training/steppers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brainstorm/training/steppers.py b/brainstorm/training/steppers.py
index 286e547..4e0067b 100644
--- a/brainstorm/training/steppers.py
+++ b/brainstorm/training/steppers.py
@@ -40,7 +40,7 @@ class ForwardStepper(TrainingStepper):
 
     def run(self):
         self.net.forward_pass(training_pass=self.use_training_pass)
-        return self.net.get_loss_value()
+        return self.net.get_loss_values()
 
 
 class SgdStepper(TrainingStepper):
-- 
2.43.0


From 67f9e9d9e552f6991e77bebb6d5cec79ea370b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:40 +0000
Subject: [PATCH 20/37] fix: initialize and set_*_modifiers do not change the
 dictionaries they get

---
 brainstorm/structure/network.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/brainstorm/structure/network.py b/brainstorm/structure/network.py
index a1f54fc..57a4541 100644
--- a/brainstorm/structure/network.py
+++ b/brainstorm/structure/network.py
@@ -247,7 +247,7 @@ class Network(Seedable):
         all_parameters = {k: v.parameters
                           for k, v in self.buffer.items()
                           if isinstance(v, BufferView) and 'parameters' in v}
-        _replace_lists_with_array_initializers(init_refs)
+        init_refs = _replace_lists_with_array_initializers(init_refs)
         initializers, fallback = resolve_references(all_parameters, init_refs)
         init_rnd = self.rnd.create_random_state(seed)
         for layer_name, views in sorted(all_parameters.items()):
@@ -547,7 +547,7 @@ def _update_references_with_dict(refs, ref_dict):
     if refs is None:
         references = dict()
     elif isinstance(refs, dict):
-        references = refs
+        references = dict(refs)
     else:
         references = {'default': refs}
 
@@ -561,8 +561,11 @@ def _update_references_with_dict(refs, ref_dict):
 
 
 def _replace_lists_with_array_initializers(ref_dict):
+    replaced = dict()
     for key, value in ref_dict.items():
         if isinstance(value, dict):
-            _replace_lists_with_array_initializers(value)
+            value = _replace_lists_with_array_initializers(value)
         elif isinstance(value, (list, np.ndarray)):
-            ref_dict[key] = ArrayInitializer(value)
+            value = ArrayInitializer(value)
+        replaced[key] = value
+    return replaced
-- 
2.43.0


From f91f915e7ae97635aa116b301f394192dc02a593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:40 +0000
Subject: [PATCH 21/37] fix: shuffle_data without a seed follows the global
 random state

---
 brainstorm/tools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/brainstorm/tools.py b/brainstorm/tools.py
index 2b00f63..a4b5b48 100644
--- a/brainstorm/tools.py
+++ b/brainstorm/tools.py
@@ -7,6 +7,7 @@ import numpy as np
 import six
 
 from brainstorm import layers, Network, initializers
+from brainstorm.randomness import RandomState
 from brainstorm.scorers import (aggregate_losses_and_scores,
                                 gather_losses_and_scores)
 from brainstorm.training.trainer import run_network
@@ -613,7 +614,7 @@ def shuffle_data(*args, **kwargs):
             list of shuffled arrays
 
     """
-    rnd = np.random.RandomState(kwargs.get('seed', None))
+    rnd = RandomState(kwargs.get('seed', None))
     idxs = np.arange(args[0].shape[1])
     rnd.shuffle(idxs)
     return [None if A is None else A[:, idxs] for A in args]
-- 
2.43.0


From bccb62c6ed50a03c256321a853f5775d7946188f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:40 +0000
Subject: [PATCH 22/37] fix: descriptions of hooks leave out the state of the
 run and restore a name

---
 brainstorm/hooks.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/brainstorm/hooks.py b/brainstorm/hooks.py
index b3e6c21..28c434b 100644
--- a/brainstorm/hooks.py
+++ b/brainstorm/hooks.py
@@ -37,6 +37,10 @@ class Hook(Describable):
         self.verbose = verbose
         self.run_verbosity = None
 
+    def __init_from_description__(self, description):
+        super(Hook, self).__init_from_description__(description)
+        self.__name__ = self.__class__.__name__
+
     def start(self, net, stepper, verbose, named_data_iters):
         if self.verbose is None:
             self.run_verbosity = verbose
@@ -109,7 +113,8 @@ class SaveBestNetwork(Hook):
             ...                                       filename='best_loss.h5',
         ...                                           criterion='min'))
     """
-    __undescribed__ = {'parameters': None}
+    __undescribed__ = {'parameters': None, 'best_parameters': None,
+                       'best_so_far': None, 'best_t': None}
     __default_values__ = {'filename': None}
 
     def __init__(self, log_name, filename=None, criterion='max', name=None,
@@ -124,6 +129,10 @@ class SaveBestNetwork(Hook):
         self.best_t = None
         self.criterion = criterion
 
+    def __init_from_description__(self, description):
+        super(SaveBestNetwork, self).__init_from_description__(description)
+        self.best_so_far = np.inf if self.criterion == 'min' else -np.inf
+
     def __call__(self, epoch_nr, update_nr, net, stepper, logs):
         if epoch_nr == 0:
             try:
@@ -355,6 +364,8 @@ class MonitorLoss(Hook):
     Monitor the losses computed by the network on a dataset using a given data
     iterator.
     """
+    __undescribed__ = {'iter'}
+
     def __init__(self, iter_name, name=None, timescale='epoch', interval=1,
                  verbose=None):
         super(MonitorLoss, self).__init__(name, timescale, interval, verbose)
@@ -401,6 +412,8 @@ class MonitorScores(Hook):
         MonitorLoss: monitor the overall loss of the network.
 
     """
+    __undescribed__ = {'iter'}
+
     def __init__(self, iter_name, scorers, name=None, timescale='epoch',
                  interval=1, verbose=None):
 
@@ -821,6 +834,8 @@ else:
 
 class ProgressBar(Hook):
     """ Adds a progress bar to show the training progress. """
+    __undescribed__ = {'length', 'bar'}
+
     def __init__(self):
         super(ProgressBar, self).__init__(None, 'update', 1)
         self.length = None
-- 
2.43.0


From 3e40c284276afc9041d32262632045c8bcc02b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:05 +0000
Subject: [PATCH 23/37] fix: Dropout scales the deltas like the activations

---
 brainstorm/layers/dropout_layer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/brainstorm/layers/dropout_layer.py b/brainstorm/layers/dropout_layer.py
index 88c0116..de47a48 100644
--- a/brainstorm/layers/dropout_layer.py
+++ b/brainstorm/layers/dropout_layer.py
@@ -39,10 +39,10 @@ class DropoutLayerImpl(Layer):
         if training_pass:
             _h.generate_probability_mask(buffers.internals.mask,
                                          1 - self.drop_prob)
+            _h.mult_st(1 / (1 - self.drop_prob), buffers.internals.mask,
+                       out=buffers.internals.mask)
             _h.mult_tt(buffers.inputs.default, buffers.internals.mask,
                        out=buffers.outputs.default)
-            _h.mult_st(1 / (1 - self.drop_prob), buffers.outputs.default,
-                       out=buffers.outputs.default)
         else:
             _h.copy_to(buffers.inputs.default, buffers.outputs.default)
 
-- 
2.43.0


From a17858d3be6e62fea6e5ce946978cf97c0b80a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:00 +0000
Subject: [PATCH 24/37] fix: an unknown input in a connection raises
 LayerValidationError

---
 brainstorm/layers/base_layer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brainstorm/layers/base_layer.py b/brainstorm/layers/base_layer.py
index feaa5af..25a531f 100644
--- a/brainstorm/layers/base_layer.py
+++ b/brainstorm/layers/base_layer.py
@@ -189,7 +189,7 @@ class Layer(object):
             if in_c.input_name not in self.in_shapes:
                 raise LayerValidationError(
                     '{}: Invalid incoming connection ({}). Layer has no input '
-                    'named "{}"'.format(self.name, in_c, in_c.sink_name))
+                    'named "{}"'.format(self.name, in_c, in_c.input_name))
 
         for out_c in self.outgoing:
             if out_c.output_name.startswith('..'):
-- 
2.43.0


From d6061600f14438080ff4740089d3d6bcc7b9f855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:09 +0000
Subject: [PATCH 25/37] fix: layer names can not end in a newline

---
 brainstorm/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brainstorm/utils.py b/brainstorm/utils.py
index 375f72c..a4e2c27 100644
--- a/brainstorm/utils.py
+++ b/brainstorm/utils.py
@@ -14,7 +14,7 @@ from brainstorm.__about__ import __version__
 product = lambda arr: reduce(operator.mul, arr, 1)
 
 
-PYTHON_IDENTIFIER = re.compile("^[_a-zA-Z][_a-zA-Z0-9]*$")
+PYTHON_IDENTIFIER = re.compile(r"[_a-zA-Z][_a-zA-Z0-9]*\Z")
 
 NAME_BLACKLIST = {'default', 'fallback'}
 
-- 
2.43.0


From e4e22fe9d875d0c10c6e3176ecbb058f4838296f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:09 +0000
Subject: [PATCH 26/37] fix: layers can not have the names of the buffers of
 all parameters and gradients

---
 brainstorm/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brainstorm/utils.py b/brainstorm/utils.py
index a4e2c27..a2ed48f 100644
--- a/brainstorm/utils.py
+++ b/brainstorm/utils.py
@@ -16,7 +16,7 @@ product = lambda arr: reduce(operator.mul, arr, 1)
 
 PYTHON_IDENTIFIER = re.compile(r"[_a-zA-Z][_a-zA-Z0-9]*\Z")
 
-NAME_BLACKLIST = {'default', 'fallback'}
+NAME_BLACKLIST = {'default', 'fallback', 'parameters', 'gradients'}
 
 
 def is_valid_layer_name(identifier):
-- 
2.43.0


From 4c08b7c88da785eb5d446b510d1f941c77a9f19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:39 +0000
Subject: [PATCH 27/37] fix: handlers without a seed follow the global random
 state

---
 brainstorm/handlers/numpy_handler.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/brainstorm/handlers/numpy_handler.py b/brainstorm/handlers/numpy_handler.py
index 7e5c442..0e9ca1c 100644
--- a/brainstorm/handlers/numpy_handler.py
+++ b/brainstorm/handlers/numpy_handler.py
@@ -6,7 +6,7 @@ import numpy as np
 
 import brainstorm.handlers._cpuop
 from brainstorm.handlers.base_handler import Handler
-from brainstorm.randomness import global_rnd
+from brainstorm.randomness import RandomState, global_rnd
 
 
 # noinspection PyMethodMayBeStatic
@@ -18,7 +18,9 @@ class NumpyHandler(Handler):
         self.dtype = dtype
         self.context = 'numpy'
         self.EMPTY = np.zeros(0)
-        self.rnd = global_rnd.create_random_state(seed)
+        # Without a seed the handler draws from the global random state, such
+        # that seeding that also affects handlers that already exist.
+        self.rnd = global_rnd if seed is None else RandomState(seed)
 
     array_type = np.ndarray
 
-- 
2.43.0


From 4fb7eca9798df2bcb0f0f484f5ae2c388f882ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:15 +0000
Subject: [PATCH 28/37] fix: value modifiers of several matching patterns keep
 the order of the patterns

---
 brainstorm/structure/view_references.py | 47 ++++++++++++++++++++++---
 1 file changed, 42 insertions(+), 5 deletions(-)

diff --git a/brainstorm/structure/view_references.py b/brainstorm/structure/view_references.py
index b7a26b3..fc53587 100644
--- a/brainstorm/structure/view_references.py
+++ b/brainstorm/structure/view_references.py
@@ -3,13 +3,50 @@
 from __future__ import division, print_function, unicode_literals
 
 import re
-from collections import namedtuple
+from collections import OrderedDict, namedtuple
 from copy import deepcopy
 
 from brainstorm.structure.buffer_views import BufferView
 from brainstorm.utils import NetworkValidationError, is_valid_layer_name
 
 
+try:
+    from collections.abc import MutableSet
+except ImportError:
+    from collections import MutableSet
+
+
+class OrderedSet(MutableSet):
+    """
+    A set that is iterated in the order of insertion.
+    """
+
+    def __init__(self, elements=()):
+        self._elements = OrderedDict((e, None) for e in elements)
+
+    def __contains__(self, element):
+        return element in self._elements
+
+    def __iter__(self):
+        return iter(self._elements)
+
+    def __len__(self):
+        return len(self._elements)
+
+    def __repr__(self):
+        return repr(list(self._elements))
+
+    def add(self, element):
+        self._elements[element] = None
+
+    def discard(self, element):
+        self._elements.pop(element, None)
+
+    def update(self, elements):
+        for e in elements:
+            self.add(e)
+
+
 def get_regex_for_reference(reference):
     """
     Return a corresponding regex for refs like: 'FooLayer', 'I*_bias',
@@ -41,7 +78,7 @@ def get_key_to_references_mapping(keys, references):
         dict[str, set[str]]:
             Dictionary mapping keys to sets of matching references.
     """
-    key_to_reference = {key: set() for key in keys}
+    key_to_reference = {key: OrderedSet() for key in keys}
 
     for ref in references:
         if ref in {'default', 'fallback'}:
@@ -83,7 +120,7 @@ def empty_dict_from(structure):
     if isinstance(structure, (dict, BufferView)):
         return {k: empty_dict_from(v) for k, v in structure.items()}
     else:
-        return Node(set(), set(), set())
+        return Node(OrderedSet(), OrderedSet(), OrderedSet())
 
 
 def add_or_update(s, v):
@@ -138,9 +175,9 @@ def evaluate_defaults(structure):
         assert isinstance(structure, Node)
         if not structure.content:
             assert len(structure.defaults) <= 1
-            return set(structure.defaults)
+            return OrderedSet(structure.defaults)
         else:
-            return set(structure.content)
+            return OrderedSet(structure.content)
 
 
 def get_fallbacks(structure):
-- 
2.43.0


From 38eabebb5c5dfea15d293047e3fa24803ab84f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:07 +0000
Subject: [PATCH 29/37] fix: NumpyHandler.set_from_numpy rejects arrays of
 another shape

A custom initialiser returning values of the wrong shape was silently
broadcast on the CPU; the other backends raise.
---
 brainstorm/handlers/numpy_handler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/brainstorm/handlers/numpy_handler.py b/brainstorm/handlers/numpy_handler.py
index 0e9ca1c..308ffbc 100644
--- a/brainstorm/handlers/numpy_handler.py
+++ b/brainstorm/handlers/numpy_handler.py
@@ -64,6 +64,9 @@ class NumpyHandler(Handler):
         return arr.copy()
 
     def set_from_numpy(self, mem, arr):
+        assert mem.shape == arr.shape, "Shape of destination ({}) != Shape " \
+                                       "of source ({})".format(mem.shape,
+                                                               arr.shape)
         mem[:] = arr.astype(self.dtype)
 
     # ---------------------------- Debug helpers ---------------------------- #
-- 
2.43.0


From 723522e7fe328cccba3849b9f083bb57626145f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:14 +0000
Subject: [PATCH 30/37] fix: StopAfterThresholdReached tolerates a log that
 does not exist before the first epoch

---
 brainstorm/hooks.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/brainstorm/hooks.py b/brainstorm/hooks.py
index 28c434b..282dc2e 100644
--- a/brainstorm/hooks.py
+++ b/brainstorm/hooks.py
@@ -612,6 +612,11 @@ class StopAfterThresholdReached(Hook):
         self.criterion = criterion
 
     def __call__(self, epoch_nr, update_nr, net, stepper, logs):
+        if epoch_nr == 0:
+            try:
+                e = get_by_path(logs, self.log_name)
+            except KeyError:
+                return
         e = get_by_path(logs, self.log_name)
         is_threshold_reached = False
         if self.criterion == 'max' and max(e) >= self.threshold:
-- 
2.43.0


From f8c99e4de9c260fa62ab5ab12430c93bf6406f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:14 +0000
Subject: [PATCH 31/37] fix: StopOnNan tolerates logs that do not exist before
 the first epoch

---
 brainstorm/hooks.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/brainstorm/hooks.py b/brainstorm/hooks.py
index 282dc2e..d1c7e15 100644
--- a/brainstorm/hooks.py
+++ b/brainstorm/hooks.py
@@ -668,6 +668,11 @@ class StopOnNan(Hook):
 
     def __call__(self, epoch_nr, update_nr, net, stepper, logs):
         for log_name in self.logs_to_check:
+            if epoch_nr == 0:
+                try:
+                    get_by_path(logs, log_name)
+                except KeyError:
+                    continue
             log = get_by_path(logs, log_name)
             if not np.all(np.isfinite(log)):
                 self.message("NaN or inf detected in {}!".format(log_name))
-- 
2.43.0


From 5768d62e7a91d5cc92aa0703badd644742bf2d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:09 +0000
Subject: [PATCH 32/37] fix: keep extracted features of batches with different
 sequence lengths

extract() and extract_and_save() fixed the number of time steps by the first
batch.  Minibatches cuts batches at their longest sequence, so a later, longer
batch could not be stored and a later batch of one step was repeated over all
time steps.
---
 brainstorm/tools.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/brainstorm/tools.py b/brainstorm/tools.py
index a4b5b48..feb93a4 100644
--- a/brainstorm/tools.py
+++ b/brainstorm/tools.py
@@ -117,8 +117,14 @@ def extract(network, iter, buffer_names):
             if first_pass:
                 data_shape = (data.shape[0], nr_examples) + data.shape[2:]
                 return_data[buffer_name] = np.zeros(data_shape, data.dtype)
-            return_data[buffer_name][:, nr_items - data.shape[1]:nr_items] = \
-                data
+            elif data.shape[0] > return_data[buffer_name].shape[0]:
+                # this batch has longer sequences than those before it
+                shorter = return_data[buffer_name]
+                data_shape = data.shape[:1] + shorter.shape[1:]
+                return_data[buffer_name] = np.zeros(data_shape, data.dtype)
+                return_data[buffer_name][:shorter.shape[0]] = shorter
+            return_data[buffer_name][:data.shape[0],
+                                     nr_items - data.shape[1]:nr_items] = data
     return return_data
 
 
@@ -170,11 +176,14 @@ def extract_and_save(network, iter, buffer_names, file_name):
                 if first_pass:
                     ds.append(f.create_dataset(
                         buffer_name, data.shape, data.dtype, chunks=data.shape,
-                        maxshape=(data.shape[0], None) + data.shape[2:]))
+                        maxshape=(None, None) + data.shape[2:]))
                     ds[-1][:] = data
                 else:
                     ds[num].resize(size=nr_items, axis=1)
-                    ds[num][:, nr_items - data.shape[1]:nr_items, ...] = data
+                    if data.shape[0] > ds[num].shape[0]:
+                        ds[num].resize(size=data.shape[0], axis=0)
+                    ds[num][:data.shape[0],
+                            nr_items - data.shape[1]:nr_items, ...] = data
 
 
 def get_in_out_layers(task_type, in_shape, out_shape, data_name='default',
-- 
2.43.0


From 59e0a042d58f4c35bdd2a0502921554997c807dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:40 +0000
Subject: [PATCH 33/37] fix: RandomCrop of minibatches of sequences and of
 single precision data

The cropping routine needs contiguous input of the type of its output, but
RandomCrop passed the slices of Minibatches as they are and always a double
precision output.
---
 brainstorm/data_iterators.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/brainstorm/data_iterators.py b/brainstorm/data_iterators.py
index 3e84fd2..e735475 100644
--- a/brainstorm/data_iterators.py
+++ b/brainstorm/data_iterators.py
@@ -384,8 +384,9 @@ class RandomCrop(DataIterator):
                 max_c = w - crop_w
                 row_indices = self.rnd.random_integers(0, max_r, n)
                 col_indices = self.rnd.random_integers(0, max_c, n)
-                cropped = np.zeros((t, n, crop_h, crop_w, c))
-                _crop_images(data[name], crop_h, crop_w, row_indices,
+                images = np.ascontiguousarray(data[name])
+                cropped = np.zeros((t, n, crop_h, crop_w, c), images.dtype)
+                _crop_images(images, crop_h, crop_w, row_indices,
                              col_indices, cropped)
                 data[name] = cropped
             yield data
-- 
2.43.0


From 6836eeb3e2449df9fb2e53027c06899d597a3188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:19 +0000
Subject: [PATCH 34/37] fix: BinomialCrossEntropy backpropagates through
 several feature dimensions

---
 brainstorm/layers/binomial_cross_entropy_layer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/brainstorm/layers/binomial_cross_entropy_layer.py b/brainstorm/layers/binomial_cross_entropy_layer.py
index 30b6579..dd07e7a 100644
--- a/brainstorm/layers/binomial_cross_entropy_layer.py
+++ b/brainstorm/layers/binomial_cross_entropy_layer.py
@@ -110,7 +110,8 @@ class BinomialCrossEntropyLayerImpl(Layer):
 
         # ceed_sum has only one feature dimension due to summation,
         # so we broadcast to all feature dimensions
-        _h.broadcast_t(ceed_sum, 2, tmp)
+        _h.broadcast_t(flatten_time(ceed_sum), 1,
+                       flatten_time_and_features(tmp))
         _h.mult_tt(ceed, tmp, ceed)
 
         _h.add_tt(ceed, yd, yd)
-- 
2.43.0


From bcf62c5bec1a946273287a88caaed0dc659b77ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:36 +0000
Subject: [PATCH 35/37] fix: RandomWalk scales the weights by 1/sqrt(N) as in
 Sussillo & Abbott, not by 1/N

---
 brainstorm/initializers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/brainstorm/initializers.py b/brainstorm/initializers.py
index cf6dfff..1772b5a 100644
--- a/brainstorm/initializers.py
+++ b/brainstorm/initializers.py
@@ -309,7 +309,7 @@ class RandomWalk(Initializer):
         else:
             scale = self.scale
 
-        return scale * self.rnd.randn(*shape) / N
+        return scale * self.rnd.randn(*shape) / np.sqrt(N)
 
 
 class SparseInputs(Initializer):
-- 
2.43.0


From ca96f7dbb69a0cf0971d742a247869e1e642ed77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:55 +0000
Subject: [PATCH 36/37] fix: reject convolution kernels that do not fit into
 their padded input

---
 brainstorm/layers/convolution_layer_2d.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/brainstorm/layers/convolution_layer_2d.py b/brainstorm/layers/convolution_layer_2d.py
index 533ef90..7578cdf 100644
--- a/brainstorm/layers/convolution_layer_2d.py
+++ b/brainstorm/layers/convolution_layer_2d.py
@@ -62,6 +62,9 @@ class Convolution2DLayerImpl(Layer):
                          stride[0]) + 1
         output_width = ((in_shape[1] + 2 * padding - kernel_y) //
                         stride[1]) + 1
+        assert output_height > 0 and output_width > 0, \
+            "Evaluated output height and width must be positive but were " \
+            "({}, {})".format(output_height, output_width)
         out_shape = (output_height, output_width, num_filters)
 
         outputs = OrderedDict()
-- 
2.43.0


From 714769ecb2f4fb4491ea8759d6c37f0791b6ce52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:50 +0000
Subject: [PATCH 37/37] fix: ConstrainL2Norm works on every backend, including
 the checking one

---
 brainstorm/handlers/debug_handler.py |  4 ++++
 brainstorm/value_modifiers.py        | 14 ++++++++------
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/brainstorm/handlers/debug_handler.py b/brainstorm/handlers/debug_handler.py
index cbe7437..3d2c249 100644
--- a/brainstorm/handlers/debug_handler.py
+++ b/brainstorm/handlers/debug_handler.py
@@ -67,6 +67,10 @@ class DebugHandler(Handler):
         self.EMPTY = DebugArray(arr=handler.EMPTY)
         self.array_type = DebugArray
 
+    @property
+    def dtype(self):
+        return self.handler.dtype
+
     def __init_from_description__(self, description):
         self.__init__(self.handler)
 
diff --git a/brainstorm/value_modifiers.py b/brainstorm/value_modifiers.py
index dc6aa7a..49a37b4 100644
--- a/brainstorm/value_modifiers.py
+++ b/brainstorm/value_modifiers.py
@@ -72,12 +72,14 @@ class ConstrainL2Norm(ValueModifier):
         if len(view.shape) < 2:
             return
         mat = view.reshape((view.shape[0], view.size // view.shape[0]))
-        sq_norm = handler.allocate((view.shape[0], 1))
-        divisor = handler.allocate(sq_norm.shape)
-
-        # FIXME: use handler operations for this
-        handler.sum_t(mat * mat, axis=1, out=sq_norm)
-        handler.mult_st(1 / self.limit, sq_norm ** 0.5, out=divisor)
+        squares = handler.allocate(mat.shape)
+        norm = handler.allocate((view.shape[0], 1))
+        divisor = handler.allocate(norm.shape)
+
+        handler.mult_tt(mat, mat, out=squares)
+        handler.sum_t(squares, axis=1, out=norm)
+        handler.sqrt_t(norm, out=norm)
+        handler.mult_st(1 / self.limit, norm, out=divisor)
         handler.clip_t(divisor, a_min=1.0,
                        a_max=np.finfo(handler.dtype).max, out=divisor)
         handler.divide_mv(mat, divisor, mat)
-- 
2.43.0

