From d8d8abdaa2ee07e20244628b29bf8e6429080b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:10 +0000
Subject: [PATCH 01/34] fix: read a whole message header and fail when the peer
 closes

---
 federation/transfer_inst.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/federation/transfer_inst.py b/federation/transfer_inst.py
index 0d1d7b0..a92cd3b 100644
--- a/federation/transfer_inst.py
+++ b/federation/transfer_inst.py
@@ -20,6 +20,18 @@ class TransferInst:
 
         cs.sendall(byteStream)
     
+    @staticmethod
+    def recv_exact(cs, size):
+        # recv may return fewer bytes than asked for, and b'' once the peer has closed
+        chunks = []
+        while size > 0:
+            chunk = cs.recv(size)
+            if not chunk:
+                raise ConnectionError('the connection was closed in the middle of a message')
+            chunks.append(chunk)
+            size -= len(chunk)
+        return b''.join(chunks)
+
     @staticmethod
     def recv_data(cs):
         # msg = cs.recv(1024)
@@ -33,15 +45,9 @@ class TransferInst:
         #     full_msg = full_msg + more
         #     nowsize += len(more)
 
-        msg = cs.recv(16)
-        length = int(msg[:16])
+        length = int(TransferInst.recv_exact(cs, 16))
         # LOGGER.debug('len of recv_msg is {}'.format(length))
-        full_msg = b''
-        nowsize = len(full_msg)
-        while nowsize < length:
-            more = cs.recv(length - nowsize)
-            full_msg = full_msg + more
-            nowsize += len(more)
+        full_msg = TransferInst.recv_exact(cs, length)
 
         # LOGGER.debug('true len of recv_msg is {}'.format(length))
         return pickle.loads(full_msg)
-- 
2.43.0


From 47620fae3cb26f297a0d618fe5cc09c645269cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:10 +0000
Subject: [PATCH 02/34] fix: do not send leaf weights and grad/hess sums to the
 hosts

---
 ml/tree/hetero_decision_tree_guest.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ml/tree/hetero_decision_tree_guest.py b/ml/tree/hetero_decision_tree_guest.py
index ac1e371..f08daf7 100644
--- a/ml/tree/hetero_decision_tree_guest.py
+++ b/ml/tree/hetero_decision_tree_guest.py
@@ -306,7 +306,11 @@ class HeteroDecisionTreeGuest(DecisionTree):
     def sync_tree(self):
         self.logger.info("sync tree to host")
 
-        self.transfer_inst.send_data_to_hosts(self.tree_, -1)
+        # the hosts only need the structure: weights and grad/hess sums stay with the guest
+        mask_tree = [Node(id=node.id, sitename=node.sitename, fid=node.fid, bid=node.bid,
+                          is_leaf=node.is_leaf, left_nodeid=node.left_nodeid,
+                          right_nodeid=node.right_nodeid) for node in self.tree_]
+        self.transfer_inst.send_data_to_hosts(mask_tree, -1)
 
         # federation.remote(obj=self.tree_,
         #                   name=self.transfer_inst.tree.name,
-- 
2.43.0


From c85b77569792d0a80b5132755300922bb7a04188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:10 +0000
Subject: [PATCH 03/34] fix: binning and data alignment must not overwrite the
 caller's instances

---
 ml/feature/binning/base_binning.py | 13 ++++++++-----
 ml/tree/boosting_tree.py           |  2 ++
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/ml/feature/binning/base_binning.py b/ml/feature/binning/base_binning.py
index c433b9d..fc78f23 100644
--- a/ml/feature/binning/base_binning.py
+++ b/ml/feature/binning/base_binning.py
@@ -1,3 +1,4 @@
+import copy
 import functools
 import math
 
@@ -133,12 +134,13 @@ class Binning:
                 sparse_value.append(col_value)
 
         sparse_vector = SparseVector(indice, sparse_value, data_shape)
-        instances.features = sparse_vector
-        return instances
+        new_instances = copy.copy(instances)
+        new_instances.features = sparse_vector
+        return new_instances
 
     @staticmethod
     def _convert_dense_data(instances, transform_cols_idx, split_points_dict, header):
-        features = instances.features
+        features = copy.copy(instances.features)
         for col_idx, col_value in enumerate(features):
             if col_idx in transform_cols_idx:
                 col_name = header[col_idx]
@@ -146,8 +148,9 @@ class Binning:
                 bin_num = Binning.get_bin_num(col_value, split_points)
                 features[col_idx] = bin_num
 
-        instances.features = features
-        return instances
+        new_instances = copy.copy(instances)
+        new_instances.features = features
+        return new_instances
 
     @staticmethod
     def get_bin_num(value, split_points):
diff --git a/ml/tree/boosting_tree.py b/ml/tree/boosting_tree.py
index 7e00998..929828b 100644
--- a/ml/tree/boosting_tree.py
+++ b/ml/tree/boosting_tree.py
@@ -1,4 +1,5 @@
 
+import copy
 from computing.d_table import DTable
 import numpy as np
 from ml.param.boosting_tree_param import BoostingTreeParam
@@ -62,6 +63,7 @@ class BoostingTree(ModelBase):
                 indices.append(i)
                 data.append(row.features[i])
 
+            row = copy.copy(row)
             row.features = SparseVector(indices, data, feature_shape)
 
         return row
-- 
2.43.0


From 4d6306d75f553746f3d24eca73150a3e0733e21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:10 +0000
Subject: [PATCH 04/34] fix: fit_split_points returns the split points it
 documents

---
 ml/feature/binning/quantile_binning.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ml/feature/binning/quantile_binning.py b/ml/feature/binning/quantile_binning.py
index 3c50679..8046283 100644
--- a/ml/feature/binning/quantile_binning.py
+++ b/ml/feature/binning/quantile_binning.py
@@ -67,6 +67,7 @@ class QuantileBinning(Binning):
                     split_point.append(s_p)
             split_points[col_name] = split_point
         self.split_points = split_points
+        return split_points
 
     @staticmethod
     def approxiQuantile(data_instances, params, cols_dict, abnormal_list, header, is_sparse) -> dict:
-- 
2.43.0


From 2a6bd49b598a189e6e1593da52c19d8f04a04bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:10 +0000
Subject: [PATCH 05/34] fix: partition statistics return a list, as
 mapPartitions needs

---
 ml/statistic/statics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ml/statistic/statics.py b/ml/statistic/statics.py
index 35ed40e..8f0cdce 100644
--- a/ml/statistic/statics.py
+++ b/ml/statistic/statics.py
@@ -200,7 +200,7 @@ class MultivariateStatisticalSummary(object):
                 stat_obj = summary_statistic_dict[col_name]
                 stat_obj.add_value(value)
 
-        return summary_statistic_dict
+        return [summary_statistic_dict]
 
     @staticmethod
     def static_summaries_in_partition(data_instances, cols_dict, abnormal_list):
@@ -238,7 +238,7 @@ class MultivariateStatisticalSummary(object):
                 summary_obj = summary_dict[col_name]
                 summary_obj.insert(value)
 
-        return summary_dict
+        return [summary_dict]
 
     @staticmethod
     def aggregate_statics(s_dict1, s_dict2):
-- 
2.43.0


From 61f632dedb03bfb245c12ddfbcf199b201e91066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:10 +0000
Subject: [PATCH 06/34] fix: column minimum and maximum beyond sys.maxsize

---
 ml/statistic/statics.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ml/statistic/statics.py b/ml/statistic/statics.py
index 8f0cdce..3061887 100644
--- a/ml/statistic/statics.py
+++ b/ml/statistic/statics.py
@@ -16,7 +16,6 @@
 
 import functools
 import math
-import sys
 
 from ml.feature.binning.quantile_binning import QuantileBinning
 from ml.feature.quantile_summaries import QuantileSummaries
@@ -37,8 +36,8 @@ class SummaryStatistics(object):
 
         self.sum = 0
         self.sum_square = 0
-        self.max_value = - sys.maxsize - 1
-        self.min_value = sys.maxsize
+        self.max_value = -float('inf')
+        self.min_value = float('inf')
         self.count = 0
 
     def add_value(self, value):
-- 
2.43.0


From 3fac14d308cfa1f2acf9ab24bc581bdaf271a1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:10 +0000
Subject: [PATCH 07/34] fix: log-cosh loss starts from the mean label

---
 ml/loss/regression_loss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml/loss/regression_loss.py b/ml/loss/regression_loss.py
index 450c8db..fc9fe10 100644
--- a/ml/loss/regression_loss.py
+++ b/ml/loss/regression_loss.py
@@ -179,7 +179,7 @@ class LogCoshLoss(object):
         y_inst = y.mapValues(lambda label: Instance(features=np.asarray([label])))
         y_inst.schema = {"header": ["label"]}
         statistics = MultivariateStatisticalSummary(y_inst, -1)
-        mean = statistics.get_mean()
+        mean = statistics.get_mean()["label"]
         return y.mapValues(lambda x: np.asarray([mean])), np.asarray([mean])
 
     @staticmethod
-- 
2.43.0


From 9ee96cf75e0860a73474682fc4609d49f4a3f2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:10 +0000
Subject: [PATCH 08/34] fix: NameError in FairLoss when c is None

---
 ml/loss/regression_loss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml/loss/regression_loss.py b/ml/loss/regression_loss.py
index fc9fe10..3ef6fc7 100644
--- a/ml/loss/regression_loss.py
+++ b/ml/loss/regression_loss.py
@@ -146,7 +146,7 @@ class FairLoss(object):
 
     def __init__(self, c):
         if c is None:
-            self.c = const.FLOAT_ZERO
+            self.c = consts.FLOAT_ZERO
         else:
             self.c = c
 
-- 
2.43.0


From 6ebdf4fcde053e2c03f0fdc2981c64afab221965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:10 +0000
Subject: [PATCH 09/34] fix: keep the validation predictions in the data output

---
 ml/model_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ml/model_base.py b/ml/model_base.py
index 933e193..409ae17 100644
--- a/ml/model_base.py
+++ b/ml/model_base.py
@@ -105,7 +105,7 @@ class ModelBase(object):
                         predict_output_res = eval_data_predict_res.mapValues(lambda d: d + ["validation"])
 
                         if self.data_output:
-                            self.data_output.union(predict_output_res)
+                            self.data_output = self.data_output.union(predict_output_res)
                         else:
                             self.data_output = predict_output_res
 
@@ -134,7 +134,7 @@ class ModelBase(object):
                     eval_data_output = eval_data_output.mapValues(lambda value: value + ["validation"])
 
                 if self.data_output and eval_data_output:
-                    self.data_output.union(eval_data_output)
+                    self.data_output = self.data_output.union(eval_data_output)
                 elif not self.data_output and eval_data_output:
                     self.data_output = eval_data_output
 
-- 
2.43.0


From e1a88535ee7925170b1b355d27f5ef6d9b639bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:10 +0000
Subject: [PATCH 10/34] fix: flushing the head buffer dropped the samples above
 its largest value

---
 ml/feature/quantile_summaries.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ml/feature/quantile_summaries.py b/ml/feature/quantile_summaries.py
index 39d4763..abe2244 100644
--- a/ml/feature/quantile_summaries.py
+++ b/ml/feature/quantile_summaries.py
@@ -97,6 +97,7 @@ class QuantileSummaries(object):
             new_stats = Stats(current_sample, 1, delta)
             new_sampled.append(new_stats)
             ops_idx += 1
+        new_sampled += self.sampled[sample_idx:]
         self.sampled = new_sampled
         self.head_sampled = []
         self.count = current_count
-- 
2.43.0


From 6974e061c6c1d494462457740d68133a5a05033b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:10 +0000
Subject: [PATCH 11/34] fix: quantile query skipped the first sample and its
 rank

---
 ml/feature/quantile_summaries.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml/feature/quantile_summaries.py b/ml/feature/quantile_summaries.py
index abe2244..d0f8068 100644
--- a/ml/feature/quantile_summaries.py
+++ b/ml/feature/quantile_summaries.py
@@ -184,7 +184,7 @@ class QuantileSummaries(object):
         rank = math.ceil(quantile * self.count)
         target_error = math.ceil(self.error * self.count)
         min_rank = 0
-        i = 1
+        i = 0
         while i < len(self.sampled) - 1:
             cur_sample = self.sampled[i]
             min_rank += cur_sample.g
-- 
2.43.0


From 4a2d8ed6c3ee12961c98e7dbce2a1acd86059bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:10 +0000
Subject: [PATCH 12/34] fix: sparse quantile query around the zeros

---
 ml/feature/quantile_summaries.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ml/feature/quantile_summaries.py b/ml/feature/quantile_summaries.py
index d0f8068..750b13e 100644
--- a/ml/feature/quantile_summaries.py
+++ b/ml/feature/quantile_summaries.py
@@ -248,11 +248,18 @@ class SparseQuantileSummaries(QuantileSummaries):
         super(SparseQuantileSummaries, self).insert(x)
 
     def query(self, quantile):
-        if self.zero_lower_bound <= quantile <= self.zero_upper_bound:
+        if self.head_sampled:
+            self.compress()
+
+        has_zeros = self._total_count > self.count
+        if has_zeros and self.zero_lower_bound <= quantile <= self.zero_upper_bound:
             return 0.0
 
         non_zero_quantile = self._convert_query_percentile(quantile)
         result = super(SparseQuantileSummaries, self).query(non_zero_quantile)
+        # the answer is approximate among the stored values only, it must not jump over the zeros
+        if has_zeros and (result > 0) != (quantile > self.zero_upper_bound):
+            return 0.0
         return result
 
     def merge(self, other):
@@ -279,7 +286,5 @@ class SparseQuantileSummaries(QuantileSummaries):
 
     @property
     def zero_upper_bound(self):
-        if self.bigger_num == 0:
-            return self._total_count
         zeros_num = self._total_count - self.smaller_num - self.bigger_num
         return (self.smaller_num + zeros_num) / self._total_count
-- 
2.43.0


From 6ad647bc1d1563391f6e40841b42312d942e8912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:10 +0000
Subject: [PATCH 13/34] fix: TransformParam.check rejected every documented
 transform_type

---
 ml/param/feature_binning_param.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml/param/feature_binning_param.py b/ml/param/feature_binning_param.py
index fb516b5..bdd2d8f 100644
--- a/ml/param/feature_binning_param.py
+++ b/ml/param/feature_binning_param.py
@@ -27,7 +27,7 @@ class TransformParam(BaseParam):
         descr = "Transform Param's "
         if self.transform_cols is not None and self.transform_cols != -1:
             self.check_defined_type(self.transform_cols, descr, ['list'])
-        self.check_defined_type(self.transform_type, descr, ['bin_num', None])
+        self.check_valid_value(self.transform_type, descr, ['bin_num', None])
         
 
 class FeatureBinningParam(BaseParam):
-- 
2.43.0


From 5d7904e70bb49da749ab5629c8bcf70402901148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:10 +0000
Subject: [PATCH 14/34] fix: EncryptParam.check accepts the method None it
 allows for

---
 ml/param/encrypt_param.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml/param/encrypt_param.py b/ml/param/encrypt_param.py
index 70d0f4c..ff8006a 100644
--- a/ml/param/encrypt_param.py
+++ b/ml/param/encrypt_param.py
@@ -48,7 +48,7 @@ class EncryptParam(BaseParam):
             raise ValueError(
                 "encrypt_param's method {} not supported, should be str type".format(
                     self.method))
-        else:
+        elif self.method is not None:
             user_input = self.method.lower()
             if user_input == 'paillier':
                 self.method = consts.PAILLIER
-- 
2.43.0


From 3a4a356120f78bf68659b01dbbbc36a72234418d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:10 +0000
Subject: [PATCH 15/34] fix: BoostingTreeParam.check also checks its
 encryption-mode and predict parameters

---
 ml/param/boosting_tree_param.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ml/param/boosting_tree_param.py b/ml/param/boosting_tree_param.py
index a66117e..11e2a66 100644
--- a/ml/param/boosting_tree_param.py
+++ b/ml/param/boosting_tree_param.py
@@ -251,6 +251,8 @@ class BoostingTreeParam(BaseParam):
             raise ValueError("boosting tree param's tol {} not supported, should be numeric".format(self.tol))
 
         self.encrypt_param.check()
+        self.encrypted_mode_calculator_param.check()
+        self.predict_param.check()
 
         if type(self.bin_num).__name__ not in ["int", "long"] or self.bin_num < 2:
             raise ValueError(
-- 
2.43.0


From aa8615515028ff8b71f940bd3f7762622deddae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:10 +0000
Subject: [PATCH 16/34] fix: recursive_encrypt must not cast ciphertexts to
 float

---
 ml/secureprotol/encrypt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml/secureprotol/encrypt.py b/ml/secureprotol/encrypt.py
index 7a17a73..de303f7 100644
--- a/ml/secureprotol/encrypt.py
+++ b/ml/secureprotol/encrypt.py
@@ -112,7 +112,7 @@ class Encrypt(object):
             else:
                 encrypted_term = self.encrypt_list(row)
                 encrypt_row.append(encrypted_term)
-        return np.array(encrypt_row, dtype=np.float64)
+        return np.array(encrypt_row)
 
 
 class RsaEncrypt(Encrypt):
-- 
2.43.0


From e76d12c0dbb9a4de36459223e201c6da03648a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:10 +0000
Subject: [PATCH 17/34] fix: fill the zero bin when no feature mask is given

---
 ml/tree/feateur_histogram.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml/tree/feateur_histogram.py b/ml/tree/feateur_histogram.py
index ca875c5..a529987 100644
--- a/ml/tree/feateur_histogram.py
+++ b/ml/tree/feateur_histogram.py
@@ -148,7 +148,7 @@ class FeatureHistogram(object):
 
         for nid in range(node_num):
             for fid in range(bin_split_points.shape[0]):
-                if valid_features is not None and valid_features[fid] is True:
+                if valid_features is None or valid_features[fid] is True:
                     sparse_point = bin_sparse_points[fid]
                     node_histograms[nid][fid][sparse_point][0] += zero_opt_node_sum[nid][0] - zero_optim[nid][fid][0]
                     node_histograms[nid][fid][sparse_point][1] += zero_opt_node_sum[nid][1] - zero_optim[nid][fid][1]
-- 
2.43.0


From 148752e6ae3d6426c1c42861eb2de0f4195601d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:09 +0000
Subject: [PATCH 18/34] fix: the absolute-error gradient of an exact prediction
 is 0, not -1

---
 ml/loss/regression_loss.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ml/loss/regression_loss.py b/ml/loss/regression_loss.py
index 3ef6fc7..1ef933e 100644
--- a/ml/loss/regression_loss.py
+++ b/ml/loss/regression_loss.py
@@ -76,7 +76,7 @@ class LeastAbsoluteErrorLoss(object):
         if type(y).__name__ == "ndarray" or type(y_pred).__name__ == "ndarray":
             diff = y_pred - y
             diff[diff > consts.FLOAT_ZERO] = 1
-            diff[diff < consts.FLOAT_ZERO] = -1
+            diff[diff < -consts.FLOAT_ZERO] = -1
             diff[np.abs(diff) <= consts.FLOAT_ZERO] = 0
 
             return diff
@@ -84,7 +84,7 @@ class LeastAbsoluteErrorLoss(object):
             diff = y_pred - y
             if diff > consts.FLOAT_ZERO:
                 return 1
-            elif diff < consts.FLOAT_ZERO:
+            elif diff < -consts.FLOAT_ZERO:
                 return -1
             else:
                 return 0
-- 
2.43.0


From e241b313be85ef7860bcf1c2a87586872dd2e831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:33 +0000
Subject: [PATCH 19/34] fix: binning only some columns of sparse data

insert_datas raised KeyError for every stored entry of a column that
was not selected.
---
 ml/feature/binning/quantile_binning.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ml/feature/binning/quantile_binning.py b/ml/feature/binning/quantile_binning.py
index 8046283..109277e 100644
--- a/ml/feature/binning/quantile_binning.py
+++ b/ml/feature/binning/quantile_binning.py
@@ -146,6 +146,8 @@ class QuantileBinning(Binning):
                 data_generator = instance.features.get_all_data()
                 for col_idx, col_value in data_generator:
                     col_name = header[col_idx]
+                    if col_name not in summary_dict:
+                        continue
                     summary = summary_dict[col_name]
                     summary.insert(col_value)
 
-- 
2.43.0


From a00da77660a82f01cace44203ced4f059433409b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:34 +0000
Subject: [PATCH 20/34] fix: return the split points that were used for the
 conversion

convert_feature_to_bin bins by the split points it is given, but
returned the fitted ones (or failed when nothing was fitted).
---
 ml/feature/binning/base_binning.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ml/feature/binning/base_binning.py b/ml/feature/binning/base_binning.py
index fc78f23..a0a62e8 100644
--- a/ml/feature/binning/base_binning.py
+++ b/ml/feature/binning/base_binning.py
@@ -105,9 +105,9 @@ class Binning:
         bin_sparse = self.get_sparse_bin(transform_cols_idx, split_points)
         split_points_result = []
         for idx, col_name in enumerate(self.header):
-            if col_name not in self.split_points:
+            if col_name not in split_points:
                 continue
-            s_ps = self.split_points[col_name]
+            s_ps = split_points[col_name]
             s_ps = np.array(s_ps)
             split_points_result.append(s_ps)
         split_points_result = np.array(split_points_result)
-- 
2.43.0


From 6ebe77fa0c1a5f09fff8ca6a1f2812752f03f103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:51 +0000
Subject: [PATCH 21/34] fix: variance of large constant columns must not become
 negative

---
 ml/statistic/statics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ml/statistic/statics.py b/ml/statistic/statics.py
index 3061887..0492650 100644
--- a/ml/statistic/statics.py
+++ b/ml/statistic/statics.py
@@ -76,7 +76,8 @@ class SummaryStatistics(object):
     def variance(self):
         mean = self.mean
         variance = self.sum_square / self.count - 2 * self.sum * mean / self.count + mean ** 2
-        if math.fabs(variance) < consts.FLOAT_ZERO:
+        # rounding can leave a small negative number for (nearly) constant large values
+        if variance < consts.FLOAT_ZERO:
             return 0.0
         return variance
 
-- 
2.43.0


From 260a591ddaa21ae219830b8aaae50e19a4649918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:28 +0000
Subject: [PATCH 22/34] fix: encode with the precision that was asked for

---
 ml/secureprotol/fixedpoint.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ml/secureprotol/fixedpoint.py b/ml/secureprotol/fixedpoint.py
index f411d72..768efeb 100644
--- a/ml/secureprotol/fixedpoint.py
+++ b/ml/secureprotol/fixedpoint.py
@@ -73,7 +73,8 @@ class FixedPointNumber(object):
                 raise TypeError("Don't know the precision of type %s."
                                 % type(scalar))
         else:
-            exponent = math.floor(math.log(precision, cls.BASE))        
+            # a finer precision needs a greater exponent: the unit is BASE ** -exponent
+            exponent = -math.floor(math.log(precision, cls.BASE))
         
         if max_exponent is not None:
             exponent = max(max_exponent, exponent)
-- 
2.43.0


From 8233855187d0af05f99e50a276f832d48d4d1213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:28 +0000
Subject: [PATCH 23/34] fix: dividing zero by a fixed-point number

---
 ml/secureprotol/fixedpoint.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ml/secureprotol/fixedpoint.py b/ml/secureprotol/fixedpoint.py
index 768efeb..7dc748d 100644
--- a/ml/secureprotol/fixedpoint.py
+++ b/ml/secureprotol/fixedpoint.py
@@ -169,8 +169,7 @@ class FixedPointNumber(object):
         return self.__mul__(1 / scalar) 
    
     def __rtruediv__(self, other):
-        res = 1.0 / self.__truediv__(other).decode() 
-        return FixedPointNumber.encode(res)
+        return FixedPointNumber.encode(other / self.decode())
  
     def __lt__(self, other):
         x = self.decode()
-- 
2.43.0


From 2eec450c76cf73f0a7fc2358b5f8ad89ae7d0314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:24 +0000
Subject: [PATCH 24/34] fix: fixed-point arithmetic stays in the ring of its
 number

---
 ml/secureprotol/fixedpoint.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/ml/secureprotol/fixedpoint.py b/ml/secureprotol/fixedpoint.py
index 7dc748d..c484243 100644
--- a/ml/secureprotol/fixedpoint.py
+++ b/ml/secureprotol/fixedpoint.py
@@ -128,7 +128,7 @@ class FixedPointNumber(object):
 
     def __truncate(self, a):
         scalar = a.decode()
-        return FixedPointNumber.encode(scalar)    
+        return FixedPointNumber.encode(scalar, a.n, a.max_int)
 
     def __add__(self, other):       
         if isinstance(other, FixedPointNumber):
@@ -149,7 +149,7 @@ class FixedPointNumber(object):
     def __rsub__(self, other):
         x = self.__sub__(other)
         x = -1 * x.decode()
-        return self.encode(x)
+        return self.encode(x, self.n, self.max_int)
     
     def __rmul__(self, other):
         return self.__mul__(other)
@@ -169,7 +169,7 @@ class FixedPointNumber(object):
         return self.__mul__(1 / scalar) 
    
     def __rtruediv__(self, other):
-        return FixedPointNumber.encode(other / self.decode())
+        return FixedPointNumber.encode(other / self.decode(), self.n, self.max_int)
  
     def __lt__(self, other):
         x = self.decode()
@@ -238,13 +238,15 @@ class FixedPointNumber(object):
         else:
             return False   
   
-    def __add_fixpointnumber(self, other):        
+    def __add_fixpointnumber(self, other):
+        if self.n != other.n:
+            other = self.encode(other.decode(), self.n, self.max_int)
         x, y = self.__align_exponent(self, other)
-        encoding = (x.encoding + y.encoding) % self.Q        
-        return FixedPointNumber(encoding, x.exponent)
+        encoding = (x.encoding + y.encoding) % self.n
+        return FixedPointNumber(encoding, x.exponent, self.n, self.max_int)
  
     def __add_scalar(self, scalar):
-        encoded = self.encode(scalar)
+        encoded = self.encode(scalar, self.n, self.max_int)
         return self.__add_fixpointnumber(encoded)
   
     def __sub_fixpointnumber(self, other):        
@@ -256,12 +258,14 @@ class FixedPointNumber(object):
         return self.__add_scalar(scalar)    
   
     def __mul_fixpointnumber(self, other):     
-        encoding = (self.encoding * other.encoding) % self.Q
+        if self.n != other.n:
+            other = self.encode(other.decode(), self.n, self.max_int)
+        encoding = (self.encoding * other.encoding) % self.n
         exponet = self.exponent + other.exponent
-        mul_fixedpoint = FixedPointNumber(encoding, exponet)            
+        mul_fixedpoint = FixedPointNumber(encoding, exponet, self.n, self.max_int)
         truncate_mul_fixedpoint= self.__truncate(mul_fixedpoint)        
         return truncate_mul_fixedpoint
    
     def __mul_scalar(self, scalar):
-        encoded = self.encode(scalar)
+        encoded = self.encode(scalar, self.n, self.max_int)
         return self.__mul_fixpointnumber(encoded)
-- 
2.43.0


From add6d73375027be741773b6776f531aa1131935e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:36 +0000
Subject: [PATCH 25/34] fix: encoding a numpy integer must not overflow its
 width

---
 ml/secureprotol/fixedpoint.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ml/secureprotol/fixedpoint.py b/ml/secureprotol/fixedpoint.py
index c484243..91efcb1 100644
--- a/ml/secureprotol/fixedpoint.py
+++ b/ml/secureprotol/fixedpoint.py
@@ -50,6 +50,10 @@ class FixedPointNumber(object):
         # Calculate the maximum exponent for desired precision
         exponent = None
         
+        # the absolute value or a multiple of a fixed-width integer can overflow
+        if isinstance(scalar, np.integer):
+            scalar = int(scalar)
+
         #  Too low value preprocess;
         #  avoid "OverflowError: int too large to convert to float"
         
-- 
2.43.0


From 09e63d3f2d310a86480536deb1292b9862a7f0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:59 +0000
Subject: [PATCH 26/34] fix: recursive_encrypt of a table

---
 ml/secureprotol/encrypt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml/secureprotol/encrypt.py b/ml/secureprotol/encrypt.py
index de303f7..564ca1a 100644
--- a/ml/secureprotol/encrypt.py
+++ b/ml/secureprotol/encrypt.py
@@ -97,7 +97,7 @@ class Encrypt(object):
         if not isinstance(A, np.ndarray) and not isinstance(A, list):
             data_dict = A.collect()
             data_dict = dict(data_dict)
-            A = data_dict.values()
+            A = list(data_dict.values())
             A = np.array(A)
 
         if isinstance(A, list):
-- 
2.43.0


From 0daee9776bbd84fba01031d6a69c59fbdb3ccc85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:59 +0000
Subject: [PATCH 27/34] fix: affine key generation hangs when it draws a
 zero-bit factor

---
 ml/secureprotol/affine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml/secureprotol/affine.py b/ml/secureprotol/affine.py
index 5e82edf..5a30271 100644
--- a/ml/secureprotol/affine.py
+++ b/ml/secureprotol/affine.py
@@ -33,7 +33,7 @@ class AffineCipher(object):
         if b_ratio is None:
             b_ratio = random.SystemRandom().random()
         while True:
-            a = random.SystemRandom().getrandbits(int(key_size * a_ratio))
+            a = random.SystemRandom().getrandbits(max(1, int(key_size * a_ratio)))
             if math.gcd(n, a) == 1:
                 break
         b = random.SystemRandom().getrandbits(int(key_size * b_ratio))
-- 
2.43.0


From 1d02ecb7de42fa0402d7124329a702d9c31b9f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:10 +0000
Subject: [PATCH 28/34] fix: encode -2**63 as itself, not as 0 (numpy's
 absolute value overflows)

---
 ml/secureprotol/fixedpoint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml/secureprotol/fixedpoint.py b/ml/secureprotol/fixedpoint.py
index 91efcb1..aa981c4 100644
--- a/ml/secureprotol/fixedpoint.py
+++ b/ml/secureprotol/fixedpoint.py
@@ -57,7 +57,7 @@ class FixedPointNumber(object):
         #  Too low value preprocess;
         #  avoid "OverflowError: int too large to convert to float"
         
-        if np.abs(scalar) < 1e-200:
+        if abs(scalar) < 1e-200:
             scalar = 0
         
         if n is None:
-- 
2.43.0


From 16084f304e05a258cc7684721f1d3124ee3b53a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:10 +0000
Subject: [PATCH 29/34] fix: abnormal values of a sparse column are no zeros

SparseQuantileSummaries counted them among the values around zero but not among the
stored ones, so [-2, 99] with 99 marked abnormal had the median 0.
---
 ml/feature/quantile_summaries.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ml/feature/quantile_summaries.py b/ml/feature/quantile_summaries.py
index 750b13e..df39d0f 100644
--- a/ml/feature/quantile_summaries.py
+++ b/ml/feature/quantile_summaries.py
@@ -235,12 +235,18 @@ class SparseQuantileSummaries(QuantileSummaries):
         # Compare with the sparse point, static the number of each part.
         self.smaller_num = 0
         self.bigger_num = 0
+        self.abnormal_num = 0
         self._total_count = 0
 
     def set_total_count(self, total_count):
-        self._total_count = total_count
+        # an abnormal value is neither stored nor a zero
+        self._total_count = total_count - self.abnormal_num
 
     def insert(self, x):
+        if x in self.abnormal_list:
+            self.abnormal_num += 1
+            return
+
         if x < consts.FLOAT_ZERO:
             self.smaller_num += 1
         elif x >= consts.FLOAT_ZERO:
@@ -265,6 +271,7 @@ class SparseQuantileSummaries(QuantileSummaries):
     def merge(self, other):
         self.smaller_num += other.smaller_num
         self.bigger_num += other.bigger_num
+        self.abnormal_num += other.abnormal_num
         super(SparseQuantileSummaries, self).merge(other)
 
     def _convert_query_percentile(self, quantile):
-- 
2.43.0


From ef7a9ace5386954711848836e91a6466222a9954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:45 +0000
Subject: [PATCH 30/34] fix: merged quantile summaries keep the promised rank
 error

A sample merged in between the samples of another summary did not take over the
uncertainty of the other summary's ranks, so repeated merging compressed too far
and queries missed the promised error.
---
 ml/feature/quantile_summaries.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ml/feature/quantile_summaries.py b/ml/feature/quantile_summaries.py
index df39d0f..a673a9e 100644
--- a/ml/feature/quantile_summaries.py
+++ b/ml/feature/quantile_summaries.py
@@ -133,16 +133,20 @@ class QuantileSummaries(object):
             self.sampled = other.sampled
             return
 
-        # merge two sorted array
+        # merge two sorted array, a sample between samples of the other summary
+        # inherits the uncertainty of the other summary's ranks
+        self_delta = math.floor(2 * other.error * other.count)
+        other_delta = math.floor(2 * self.error * self.count)
         new_sample = []
         i, j = 0, 0
         while i < len(self.sampled) and j < len(other.sampled):
             if self.sampled[i].value < other.sampled[j].value:
-                new_sample.append(self.sampled[i])
+                stats, delta = self.sampled[i], self_delta if j > 0 else 0
                 i += 1
             else:
-                new_sample.append(other.sampled[j])
+                stats, delta = other.sampled[j], other_delta if i > 0 else 0
                 j += 1
+            new_sample.append(Stats(stats.value, stats.g, stats.delta + delta))
         new_sample += self.sampled[i:]
         new_sample += other.sampled[j:]
 
-- 
2.43.0


From fc7586f0125be3f430eb1ba863283c7fac89455a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:22 +0000
Subject: [PATCH 31/34] fix: encode numpy's narrow floats without overflow of
 the scaled value

---
 ml/secureprotol/fixedpoint.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ml/secureprotol/fixedpoint.py b/ml/secureprotol/fixedpoint.py
index aa981c4..463d303 100644
--- a/ml/secureprotol/fixedpoint.py
+++ b/ml/secureprotol/fixedpoint.py
@@ -53,6 +53,9 @@ class FixedPointNumber(object):
         # the absolute value or a multiple of a fixed-width integer can overflow
         if isinstance(scalar, np.integer):
             scalar = int(scalar)
+        elif isinstance(scalar, (np.float16, np.float32)):
+            # so can a multiple of a narrow float, which need not be widened
+            scalar = float(scalar)
 
         #  Too low value preprocess;
         #  avoid "OverflowError: int too large to convert to float"
-- 
2.43.0


From bd2dfc746e291dabf5800638531495ed448a15f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:19 +0000
Subject: [PATCH 32/34] fix: log-cosh loss stays finite for large errors

np.cosh overflows beyond 710, so the loss of a table with one such row was
infinite and the convergence check never fired.
---
 ml/loss/regression_loss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml/loss/regression_loss.py b/ml/loss/regression_loss.py
index 1ef933e..4b4bbd8 100644
--- a/ml/loss/regression_loss.py
+++ b/ml/loss/regression_loss.py
@@ -188,7 +188,7 @@ class LogCoshLoss(object):
 
     @staticmethod
     def compute_loss(y, y_pred):
-        log_cosh_loss = y.join(y_pred, lambda y, yp: (np.log(np.cosh(yp - y)), 1))
+        log_cosh_loss = y.join(y_pred, lambda y, yp: (np.logaddexp(yp - y, y - yp) - np.log(2.), 1))
         log_cosh_sum, sample_num = log_cosh_loss.reduce(
             lambda tuple1, tuple2: (tuple1[0] + tuple2[0], tuple1[1] + tuple2[1]))
         return log_cosh_sum / sample_num
-- 
2.43.0


From f53db1c7666c3bccc1d5d7d1cf5c36b571016aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:24 +0000
Subject: [PATCH 33/34] fix: softplus stays finite for large arguments

---
 ml/optim/activation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml/optim/activation.py b/ml/optim/activation.py
index 281ace9..b5b050a 100644
--- a/ml/optim/activation.py
+++ b/ml/optim/activation.py
@@ -37,7 +37,7 @@ def sigmoid(x):
 
 
 def softplus(x):
-    return np.log(1. + np.exp(x))
+    return np.logaddexp(0., x)
 
 
 def softsign(x):
-- 
2.43.0


From 019d19fb022567bbceb403b1e2798e1575f6d4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:47 +0000
Subject: [PATCH 34/34] fix: a party without features can take part in a
 training

Drawing at least one of no features failed, so a guest that holds only the
labels, or a host without columns, could not train.
---
 ml/tree/hetero_secureboosting_tree_guest.py | 2 ++
 ml/tree/hetero_secureboosting_tree_host.py  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/ml/tree/hetero_secureboosting_tree_guest.py b/ml/tree/hetero_secureboosting_tree_guest.py
index 29b8084..8b3957d 100644
--- a/ml/tree/hetero_secureboosting_tree_guest.py
+++ b/ml/tree/hetero_secureboosting_tree_guest.py
@@ -116,6 +116,8 @@ class HeteroSecureBoostingTreeGuest(BoostingTree):
         self.logger.info("sample valid features")
         if self.feature_num is None:
             self.feature_num = self.bin_split_points.shape[0]
+        if self.feature_num == 0:
+            return []
 
         choose_feature = random.choice(range(0, self.feature_num), \
                                        max(1, int(self.subsample_feature_rate * self.feature_num)), replace=False)
diff --git a/ml/tree/hetero_secureboosting_tree_host.py b/ml/tree/hetero_secureboosting_tree_host.py
index 1369710..b30d401 100644
--- a/ml/tree/hetero_secureboosting_tree_host.py
+++ b/ml/tree/hetero_secureboosting_tree_host.py
@@ -40,6 +40,8 @@ class HeteroSecureBoostingTreeHost(BoostingTree):
         self.logger.info("sample valid features")
         if self.feature_num is None:
             self.feature_num = self.bin_split_points.shape[0]
+        if self.feature_num == 0:
+            return []
 
         choose_feature = random.choice(range(0, self.feature_num), \
                                        max(1, int(self.subsample_feature_rate * self.feature_num)), replace=False)
-- 
2.43.0

