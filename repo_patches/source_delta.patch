From a53e8a1af76b2ae1544de8251817de788647ce5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:27:19 +0000
Subject: [PATCH 1/9] fix: build TT-ranks with int instead of the removed
 np.int alias

numpy 1.24 dropped the np.int alias, so every initializer raised
AttributeError. The builtin int is what the alias stood for.
---
 t3f/initializers.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/t3f/initializers.py b/t3f/initializers.py
index 4d7cb71..0a84c82 100644
--- a/t3f/initializers.py
+++ b/t3f/initializers.py
@@ -84,7 +84,7 @@ def tensor_ones(shape, dtype=tf.float32, name='t3f_tensor_ones'):
   shape = np.array(shape)
   _validate_input_parameters(is_tensor=True, shape=shape)
   num_dims = shape.size
-  tt_rank = np.ones(num_dims + 1, dtype=np.int)
+  tt_rank = np.ones(num_dims + 1, dtype=int)
 
   with tf.name_scope(name):
     tt_cores = num_dims * [None]
@@ -110,7 +110,7 @@ def tensor_zeros(shape, dtype=tf.float32, name='t3f_tensor_zeros'):
   shape = np.array(shape)
   _validate_input_parameters(is_tensor=True, shape=shape)
   num_dims = shape.size
-  tt_rank = np.ones(num_dims + 1, dtype=np.int)
+  tt_rank = np.ones(num_dims + 1, dtype=int)
   tt_cores = num_dims * [None]
   with tf.name_scope(name):
     for i in range(num_dims):
@@ -138,7 +138,7 @@ def eye(shape, dtype=tf.float32, name='t3f_eye'):
   _validate_input_parameters(is_tensor=True, shape=shape)
 
   num_dims = shape.size
-  tt_ranks = np.ones(num_dims + 1, dtype=np.int)
+  tt_ranks = np.ones(num_dims + 1, dtype=int)
 
   with tf.name_scope(name):
     tt_cores = num_dims * [None]
@@ -182,7 +182,7 @@ def matrix_ones(shape, dtype=tf.float32, name='t3f_matrix_ones'):
   _validate_input_parameters(is_tensor=False, shape=shape)
 
   num_dims = shape[0].size
-  tt_rank = np.ones(shape[0].size + 1, dtype=np.int)
+  tt_rank = np.ones(shape[0].size + 1, dtype=int)
 
   with tf.name_scope(name):
     tt_cores = [None] * num_dims
@@ -224,7 +224,7 @@ def matrix_zeros(shape, dtype=tf.float32, name='t3f_matrix_zeros'):
 
   _validate_input_parameters(is_tensor=False, shape=shape)
   num_dims = shape[0].size
-  tt_rank = np.ones(shape[0].size + 1, dtype=np.int)
+  tt_rank = np.ones(shape[0].size + 1, dtype=int)
 
   with tf.name_scope(name):
     tt_cores = [None] * num_dims
@@ -261,7 +261,7 @@ def tensor_with_random_cores(shape, tt_rank=2, mean=0., stddev=1.,
   _validate_input_parameters(is_tensor=True, shape=shape, tt_rank=tt_rank)
   num_dims = shape.size
   if tt_rank.size == 1:
-    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=np.int)
+    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=int)
     tt_rank = np.insert(tt_rank, 0, 1)
     tt_rank = np.append(tt_rank, 1)
 
@@ -304,7 +304,7 @@ def tensor_batch_with_random_cores(shape, tt_rank=2, batch_size=1,
                              batch_size=batch_size)
   num_dims = shape.size
   if tt_rank.size == 1:
-    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=np.int)
+    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=int)
     tt_rank = np.insert(tt_rank, 0, 1)
     tt_rank = np.append(tt_rank, 1)
   tt_rank = tt_rank.astype(int)
@@ -359,7 +359,7 @@ def matrix_with_random_cores(shape, tt_rank=2, mean=0., stddev=1.,
 
   num_dims = shape[0].size
   if tt_rank.size == 1:
-    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=np.int)
+    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=int)
     tt_rank = np.concatenate([[1], tt_rank, [1]])
 
   tt_rank = tt_rank.astype(int)
@@ -417,7 +417,7 @@ def matrix_batch_with_random_cores(shape, tt_rank=2, batch_size=1,
                              batch_size=batch_size)
   num_dims = shape[0].size
   if tt_rank.size == 1:
-    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=np.int)
+    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=int)
     tt_rank = np.concatenate([[1], tt_rank, [1]])
   shape = shape.astype(int)
   tt_rank = tt_rank.astype(int)
@@ -522,7 +522,7 @@ def random_tensor(shape, tt_rank=2, mean=0., stddev=1., dtype=tf.float32,
 
   num_dims = shape.size
   if tt_rank.size == 1:
-    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=np.int)
+    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=int)
     tt_rank = np.insert(tt_rank, 0, 1)
     tt_rank = np.append(tt_rank, 1)
 
@@ -580,7 +580,7 @@ def random_tensor_batch(shape, tt_rank=2, batch_size=1, mean=0., stddev=1.,
                              batch_size=batch_size)
   num_dims = shape.size
   if tt_rank.size == 1:
-    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=np.int)
+    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=int)
     tt_rank = np.insert(tt_rank, 0, 1)
     tt_rank = np.append(tt_rank, 1)
   tt_rank = tt_rank.astype(int)
@@ -647,7 +647,7 @@ def random_matrix(shape, tt_rank=2, mean=0., stddev=1.,
 
   num_dims = shape[0].size
   if tt_rank.size == 1:
-    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=np.int)
+    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=int)
     tt_rank = np.concatenate([[1], tt_rank, [1]])
 
   tt_rank = tt_rank.astype(int)
@@ -718,7 +718,7 @@ def random_matrix_batch(shape, tt_rank=2, batch_size=1, mean=0., stddev=1.,
                              batch_size=batch_size)
   num_dims = shape[0].size
   if tt_rank.size == 1:
-    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=np.int)
+    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=int)
     tt_rank = np.concatenate([[1], tt_rank, [1]])
 
   shape = shape.astype(int)
-- 
2.43.0


From 4217ece5cbeec6c97b83f347ff1b917eebe28222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:27:19 +0000
Subject: [PATCH 2/9] fix: reject incompatible values in assign before writing
 any TT-core

assign used to overwrite the TT-cores one by one, so a value whose later
core did not fit raised ValueError after the first cores were replaced
and left the variable inconsistent. All shapes are now checked first.
---
 t3f/variables.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/t3f/variables.py b/t3f/variables.py
index 061a568..30e3cdd 100644
--- a/t3f/variables.py
+++ b/t3f/variables.py
@@ -117,6 +117,16 @@ def assign(ref, value, validate_shape=None, use_locking=None, name=None):
   new_cores = []
   if name is None:
     name = ''
+  # Check all the TT-cores before touching any of them, otherwise a mismatch in
+  # one of the last cores would leave the variable half-assigned.
+  is_compatible = ref.ndims() == value.ndims()
+  for ref_core, value_core in zip(ref.tt_cores, value.tt_cores):
+    is_compatible = (is_compatible and
+                     ref_core.shape.is_compatible_with(value_core.shape))
+  if not is_compatible:
+    raise ValueError('The TT-cores of the value are not compatible with the '
+                     'TT-cores of the variable, got "%s" and "%s".' % (value,
+                                                                       ref))
   with tf.variable_scope(name):
     for i in range(ref.ndims()):
       new_cores.append(tf.assign(ref.tt_cores[i], value.tt_cores[i],
-- 
2.43.0


From d3f2f5134dab2a2bb51203c2acadbfa43339f1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:27:47 +0000
Subject: [PATCH 3/9] fix: do not lose the original svd when replacing it
 concurrently

Two threads calling replace_tf_svd_with_np_svd at the same time could
store the numpy version as tf.original_svd. An interrupt between saving
and replacing left the replacement impossible to finish. Decide by
looking at tf.linalg.svd itself, which is read only once.
---
 t3f/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/t3f/utils.py b/t3f/utils.py
index 906664a..3ddf91e 100644
--- a/t3f/utils.py
+++ b/t3f/utils.py
@@ -17,10 +17,11 @@ def unravel_index(indices, shape):
 # https://github.com/tensorflow/tensorflow/issues/8905
 def replace_tf_svd_with_np_svd():
   """Replaces tf.svd with np.svd. Slow, but a workaround for tf.svd bugs."""
-  if hasattr(tf, 'original_svd'):
+  original_svd = tf.linalg.svd
+  if getattr(original_svd, 'is_np_svd', False):
     # This function has been already called and tf.svd is already replaced.
     return
-  tf.original_svd = tf.linalg.svd
+  tf.original_svd = original_svd
 
   def my_svd(tensor, full_matrices=False, compute_uv=True):
     dtype = tensor.dtype
@@ -31,6 +32,7 @@ def replace_tf_svd_with_np_svd():
     v = tf.transpose(v, order)
     return tf.constant(s), tf.constant(u), v
 
+  my_svd.is_np_svd = True
   tf.linalg.svd = my_svd
 
 
-- 
2.43.0


From 279ead2c60938c57300229c519fc61bf38ad074c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:28:03 +0000
Subject: [PATCH 4/9] fix: make TT regularizers work with TensorFlow 2

tf.logging and the two-argument tf.name_scope only exist in TF 1, so
both regularizers raised as soon as they were used.
---
 t3f/regularizers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/t3f/regularizers.py b/t3f/regularizers.py
index 6bfd87c..c868adc 100644
--- a/t3f/regularizers.py
+++ b/t3f/regularizers.py
@@ -25,12 +25,12 @@ def l2_regularizer(scale, scope=None):
       raise ValueError('Setting a scale less than 0 on a regularizer: %g.' %
                        scale)
     if scale == 0.:
-      tf.logging.info('Scale of 0 disables regularizer.')
+      tf.get_logger().info('Scale of 0 disables regularizer.')
       return lambda _: None
 
   def l2(tt):
     """Applies l2 regularization to TensorTrain object."""
-    with tf.name_scope(scope, 'l2_regularizer') as name:
+    with tf.name_scope(scope or 'l2_regularizer') as name:
       my_scale = tf.convert_to_tensor(scale, dtype=tt.dtype, name='scale')
       return tf.multiply(my_scale, ops.frobenius_norm_squared(tt), name=name)
 
@@ -60,12 +60,12 @@ def cores_regularizer(core_regularizer, scale, scope=None):
       raise ValueError('Setting a scale less than 0 on a regularizer: %g.' %
                        scale)
     if scale == 0.:
-      tf.logging.info('Scale of 0 disables regularizer.')
+      tf.get_logger().info('Scale of 0 disables regularizer.')
       return lambda _: None
 
   def regularizer(tt):
     """Applies the regularization to TensorTrain object."""
-    with tf.name_scope(scope, 'l2_regularizer') as name:
+    with tf.name_scope(scope or 'l2_regularizer') as name:
       my_scale = tf.convert_to_tensor(scale, dtype=tt.dtype, name='scale')
       penalty = 0.0
       for i in range(tt.ndims()):
-- 
2.43.0


From 2cb0283db3ebefe7092f6fff7ebbd812333e5b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:28:03 +0000
Subject: [PATCH 5/9] fix: allow regularizer in get_variable in eager mode

The debug message asked for the name of the loss, which eager tensors
do not have, so get_variable raised after creating the variable.
---
 t3f/variables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t3f/variables.py b/t3f/variables.py
index 30e3cdd..9f29f46 100644
--- a/t3f/variables.py
+++ b/t3f/variables.py
@@ -108,7 +108,7 @@ def get_variable(name,
         loss = regularizer(v)
       if loss is not None:
         tf.logging.vlog(1, "Applied regularizer to %s and added the result %s "
-                        "to REGULARIZATION_LOSSES.", v.name, loss.name)
+                        "to REGULARIZATION_LOSSES.", v.name, loss)
         tf.add_to_collection(tf.GraphKeys.REGULARIZATION_LOSSES, loss)
     return v
 
-- 
2.43.0


From b31104f8b9f7e2e9f006e5ab38600e93ae644fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:43:31 +0000
Subject: [PATCH 6/9] fix: support adding a TT-batch to a single TT from the
 right

add(TensorTrain, TensorTrainBatch) asked the non-batch argument for its
batch size and raised, although the result type for this case is documented.
---
 t3f/ops.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/t3f/ops.py b/t3f/ops.py
index 86be42e..50b6222 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -579,7 +579,7 @@ def _add_batch_tensor_cores(tt_a, tt_b):
   shape = shapes.lazy_raw_shape(tt_a)
   a_ranks = shapes.lazy_tt_ranks(tt_a)
   b_ranks = shapes.lazy_tt_ranks(tt_b)
-  if isinstance(tt_a, TensorTrainBatch) and tt_a.batch_size == 1:
+  if not isinstance(tt_a, TensorTrainBatch) or tt_a.batch_size == 1:
     # We add 1 element batch tt_a to a batch_size element batch tt_b to get
     # the answer TensorTrainBatch of batch_size == tt_b.batch_size.
     batch_size = shapes.lazy_batch_size(tt_b)
@@ -651,7 +651,7 @@ def _add_batch_matrix_cores(tt_a, tt_b):
   shape = shapes.lazy_raw_shape(tt_a)
   a_ranks = shapes.lazy_tt_ranks(tt_a)
   b_ranks = shapes.lazy_tt_ranks(tt_b)
-  if isinstance(tt_a, TensorTrainBatch) and tt_a.batch_size == 1:
+  if not isinstance(tt_a, TensorTrainBatch) or tt_a.batch_size == 1:
     # We add 1 element batch tt_a to a batch_size element batch tt_b to get
     # the answer TensorTrainBatch of batch_size == tt_b.batch_size.
     batch_size = shapes.lazy_batch_size(tt_b)
-- 
2.43.0


From 58f864d59f51dd04e2f56ae4b983e172c48d2bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:43:31 +0000
Subject: [PATCH 7/9] fix: bilinear forms with batch arguments

The second vector was treated as a batch whenever the first one was.
bilinear_form_two_mat also used the same einsum letter for the batch and for
a mode, which mixed them up for batches.
---
 t3f/ops.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/t3f/ops.py b/t3f/ops.py
index 50b6222..24ada16 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -1083,7 +1083,7 @@ def bilinear_form(A, b, c, name='t3f_bilinear_form'):
     raise ValueError('The arguments should be a TT-matrix.')
 
   b_is_batch = isinstance(b, TensorTrainBatch)
-  c_is_batch = isinstance(b, TensorTrainBatch)
+  c_is_batch = isinstance(c, TensorTrainBatch)
   b_bs_str = 'p' if b_is_batch else ''
   c_bs_str = 'p' if c_is_batch else ''
   out_bs_str = 'p' if b_is_batch or c_is_batch else ''
@@ -1148,10 +1148,10 @@ def bilinear_form_two_mat(x, A, B, y, name='t3f_bilinear_xaby'):
       raise ValueError('The arguments should be a TT-matrix.')
 
   x_is_batch = isinstance(x, TensorTrainBatch)
-  y_is_batch = isinstance(x, TensorTrainBatch)
-  x_bs_str = 'p' if x_is_batch else ''
-  y_bs_str = 'p' if y_is_batch else ''
-  out_bs_str = 'p' if x_is_batch or y_is_batch else ''
+  y_is_batch = isinstance(y, TensorTrainBatch)
+  x_bs_str = 's' if x_is_batch else ''
+  y_bs_str = 's' if y_is_batch else ''
+  out_bs_str = 's' if x_is_batch or y_is_batch else ''
   all_cores = x.tt_cores + A.tt_cores + B.tt_cores + y.tt_cores
   with tf.name_scope(name):
     ndims = A.ndims()
-- 
2.43.0


From dce446b146e188d505eafa4e5a51199cbf6ea03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:28:49 +0000
Subject: [PATCH 8/9] fix: compute the whole value before overwriting any
 TT-core in assign

In graph mode the TT-cores were assigned independently, so a value computed
from the variable itself could read cores that were already overwritten.
---
 t3f/variables.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/t3f/variables.py b/t3f/variables.py
index 9f29f46..aa932cc 100644
--- a/t3f/variables.py
+++ b/t3f/variables.py
@@ -127,9 +127,12 @@ def assign(ref, value, validate_shape=None, use_locking=None, name=None):
     raise ValueError('The TT-cores of the value are not compatible with the '
                      'TT-cores of the variable, got "%s" and "%s".' % (value,
                                                                        ref))
-  with tf.variable_scope(name):
+  # The value may be computed from the variable itself, so in graph mode no
+  # TT-core can be overwritten until all the new TT-cores are ready.
+  value_cores = [tf.convert_to_tensor(core) for core in value.tt_cores]
+  with tf.variable_scope(name), tf.control_dependencies(value_cores):
     for i in range(ref.ndims()):
-      new_cores.append(tf.assign(ref.tt_cores[i], value.tt_cores[i],
+      new_cores.append(tf.assign(ref.tt_cores[i], value_cores[i],
                                  use_locking=use_locking))
   if isinstance(value, TensorTrainBatch):
     return TensorTrainBatch(new_cores, value.get_raw_shape(),
-- 
2.43.0


From 6e970a9ec5a1738128f16ee699413a7f5ddb40aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:53:33 +0000
Subject: [PATCH 9/9] fix: make assign check the kind of the value and shapes
 known only at run time

A batch of TT-tensors was accepted by a TT-matrix variable whose cores have the
same shapes. A value with unknown TT-ranks was refused although it fits, and
could not be checked when it does not.
---
 t3f/variables.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/t3f/variables.py b/t3f/variables.py
index aa932cc..4159e6f 100644
--- a/t3f/variables.py
+++ b/t3f/variables.py
@@ -119,7 +119,10 @@ def assign(ref, value, validate_shape=None, use_locking=None, name=None):
     name = ''
   # Check all the TT-cores before touching any of them, otherwise a mismatch in
   # one of the last cores would leave the variable half-assigned.
-  is_compatible = ref.ndims() == value.ndims()
+  is_batch = isinstance(ref, TensorTrainBatch)
+  is_compatible = (ref.ndims() == value.ndims() and
+                   ref.is_tt_matrix() == value.is_tt_matrix() and
+                   is_batch == isinstance(value, TensorTrainBatch))
   for ref_core, value_core in zip(ref.tt_cores, value.tt_cores):
     is_compatible = (is_compatible and
                      ref_core.shape.is_compatible_with(value_core.shape))
@@ -128,17 +131,19 @@ def assign(ref, value, validate_shape=None, use_locking=None, name=None):
                      'TT-cores of the variable, got "%s" and "%s".' % (value,
                                                                        ref))
   # The value may be computed from the variable itself, so in graph mode no
-  # TT-core can be overwritten until all the new TT-cores are ready.
-  value_cores = [tf.convert_to_tensor(core) for core in value.tt_cores]
+  # TT-core can be overwritten until all the new TT-cores are ready. Shapes that
+  # are not known yet are checked at run time.
+  value_cores = [tf.ensure_shape(tf.convert_to_tensor(value_core), ref_core.shape)
+                 for ref_core, value_core in zip(ref.tt_cores, value.tt_cores)]
   with tf.variable_scope(name), tf.control_dependencies(value_cores):
     for i in range(ref.ndims()):
       new_cores.append(tf.assign(ref.tt_cores[i], value_cores[i],
                                  use_locking=use_locking))
-  if isinstance(value, TensorTrainBatch):
-    return TensorTrainBatch(new_cores, value.get_raw_shape(),
-                            value.get_tt_ranks(), value.batch_size,
+  if is_batch:
+    return TensorTrainBatch(new_cores, ref.get_raw_shape(),
+                            ref.get_tt_ranks(), ref.batch_size,
                             convert_to_tensors=False)
   else:
-    return TensorTrain(new_cores, value.get_raw_shape(),
-                                  value.get_tt_ranks(),
+    return TensorTrain(new_cores, ref.get_raw_shape(),
+                                  ref.get_tt_ranks(),
                                   convert_to_tensors=False)
-- 
2.43.0

