From 5f8467a21fe655546b4fd23a3b43aa54590a5565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:55 +0000
Subject: [PATCH 001/107] fix: write the blocked weight layout in the generated
 parameters.c

The direct convolution template reads the blocked (or Winograd transformed)
weights, but only the binary parameter file used the transformed layout.
---
 .../generator/layers/convolution/Conv2Ddirect_block.py        | 1 +
 src/acetone_nnet/generator/neural_network.py                  | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/acetone_nnet/generator/layers/convolution/Conv2Ddirect_block.py b/src/acetone_nnet/generator/layers/convolution/Conv2Ddirect_block.py
index f0473fa..4cb4020 100644
--- a/src/acetone_nnet/generator/layers/convolution/Conv2Ddirect_block.py
+++ b/src/acetone_nnet/generator/layers/convolution/Conv2Ddirect_block.py
@@ -67,6 +67,7 @@ class Conv2Ddirect_block(Conv2D):
         self.block_k = min(64,self.nb_filters) if self.weights.shape[-1]>1 else min(512,self.nb_filters)
         self.block_c = self.input_channels
         self.layout = self.transform_to_6d_blocked_layout()
+        self.nb_weights = self.layout.size
 
     def generate_inference_code_layer(self: Self) -> str:
         """Generate computation code for layer."""
diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index eacb50f..09d0eb7 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -1175,7 +1175,9 @@ class CodeGenerator(ABC):
 
             if (w := getattr(layer, "weights", None)) is not None:
                 layer_hash["nb_weights"] = layer.nb_weights
-                layer_hash["weights"] = self.flatten_array_order_c(layer.weights)
+                if (layout := getattr(layer, "layout", None)) is not None:
+                    w = layout
+                layer_hash["weights"] = self.flatten_array_order_c(w)
 
             if isinstance(layer, ConstantLayer):
                 layer_hash["nb_weights"] = layer.constant.size
-- 
2.43.0


From 2ccf5c9d3f059c78853f07d0647293d2bab6119b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:18 +0000
Subject: [PATCH 002/107] fix: make the nt, tn and tt convolution gemms compile
 and index as they store

The templates missed the context prefix, the transposed operands were read
with the leading dimension of the untransposed ones, im2row enumerated the
output column by column, and gemm_tn applied bias and activation at every
step of the accumulation.
---
 .../generator/layers/convolution/Conv2DGemm.py      | 12 ++++++++----
 .../layers/Conv/template_Conv_gemm_nt.c.tpl         |  2 +-
 .../layers/Conv/template_Conv_gemm_tn.c.tpl         | 13 +++++++------
 .../layers/Conv/template_Conv_gemm_tt.c.tpl         |  4 ++--
 .../templates/layers/Conv/template_im2row.c.tpl     |  2 +-
 5 files changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/convolution/Conv2DGemm.py b/src/acetone_nnet/generator/layers/convolution/Conv2DGemm.py
index 892a83d..38f0604 100644
--- a/src/acetone_nnet/generator/layers/convolution/Conv2DGemm.py
+++ b/src/acetone_nnet/generator/layers/convolution/Conv2DGemm.py
@@ -41,6 +41,10 @@ class Conv2DGemm(Conv2D):
                                   "gemm_tn": self.write_gemm_tn,
                                   "gemm_tt": self.write_gemm_tt}
 
+        if self.conv_algorithm in ("gemm_tn", "gemm_tt"):
+            # The transposed algorithms read the weights column by column
+            self.layout = self.weights.reshape(self.nb_filters, -1).transpose().copy("C")
+
     def write_gemm_nn(
             self: Self,
             m: int,
@@ -99,7 +103,7 @@ class Conv2DGemm(Conv2D):
         mustach_hash["A"] = a
         mustach_hash["ldA"] = k
         mustach_hash["B"] = b
-        mustach_hash["ldB"] = n
+        mustach_hash["ldB"] = k
         mustach_hash["C"] = c
         mustach_hash["ldC"] = n
         mustach_hash["activation_function"] = self.activation_function.write_activation_str(
@@ -132,7 +136,7 @@ class Conv2DGemm(Conv2D):
         mustach_hash["n"] = n
         mustach_hash["k"] = k
         mustach_hash["A"] = a
-        mustach_hash["ldA"] = k
+        mustach_hash["ldA"] = m
         mustach_hash["B"] = b
         mustach_hash["ldB"] = n
         mustach_hash["C"] = c
@@ -167,9 +171,9 @@ class Conv2DGemm(Conv2D):
         mustach_hash["n"] = n
         mustach_hash["k"] = k
         mustach_hash["A"] = a
-        mustach_hash["ldA"] = k
+        mustach_hash["ldA"] = m
         mustach_hash["B"] = b
-        mustach_hash["ldB"] = n
+        mustach_hash["ldB"] = k
         mustach_hash["C"] = c
         mustach_hash["ldC"] = n
         mustach_hash["activation_function"] = self.activation_function.write_activation_str(
diff --git a/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_nt.c.tpl b/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_nt.c.tpl
index 3881f78..e07dcf8 100644
--- a/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_nt.c.tpl
+++ b/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_nt.c.tpl
@@ -6,7 +6,7 @@
             register float output =0;
             for (p = 0; p < {{k}}; ++p)
             {
-                output += {{A}}[i*{{ldA}}+p]* {{#direct}}*{{/direct}}({{B}}[j*{{ldB}}+p]);
+                output += {{A}}[i*{{ldA}}+p]* {{#direct}}*{{/direct}}(ctx->{{B}}[j*{{ldB}}+p]);
             }
             output += biases_{{name}}_{{idx}}[i];
             ctx->tensor_temp[i*{{ldC}}+j] = {{{activation_function}}};
diff --git a/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_tn.c.tpl b/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_tn.c.tpl
index 9d139f2..4ecd96c 100644
--- a/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_tn.c.tpl
+++ b/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_tn.c.tpl
@@ -6,12 +6,13 @@
             float register weight = {{A}}[p*{{ldA}}+i];
             for (j = 0; j < {{n}}; ++j)
             {
-                ctx->tensor_temp[i*{{ldC}}+j] += weight * {{#direct}}*{{/direct}}({{B}}[p*{{ldB}}+j]);
-            }
-            for(j = 0; j < {{n}}; ++j){
-                register float output = ctx->tensor_temp[i*{{ldC}} + j];
-                output += biases_{{name}}_{{idx}}[i];
-                ctx->tensor_temp[i*{{ldC}} + j] = {{{activation_function}}};
+                ctx->tensor_temp[i*{{ldC}}+j] += weight * {{#direct}}*{{/direct}}(ctx->{{B}}[p*{{ldB}}+j]);
             }
         }
+        for(j = 0; j < {{n}}; ++j)
+        {
+            register float output = ctx->tensor_temp[i*{{ldC}} + j];
+            output += biases_{{name}}_{{idx}}[i];
+            ctx->tensor_temp[i*{{ldC}} + j] = {{{activation_function}}};
+        }
     }
\ No newline at end of file
diff --git a/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_tt.c.tpl b/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_tt.c.tpl
index f8fc0c8..e1a9a56 100644
--- a/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_tt.c.tpl
+++ b/src/acetone_nnet/templates/layers/Conv/template_Conv_gemm_tt.c.tpl
@@ -6,9 +6,9 @@
             float register sum = 0;
             for (p = 0; p < {{k}}; ++p)
             {
-                sum += {{A}}[p*{{ldA}} +i]* {{#direct}}*{{/direct}}({{B}}[j*{{ldB}}+p]);
+                sum += {{A}}[p*{{ldA}} +i]* {{#direct}}*{{/direct}}(ctx->{{B}}[j*{{ldB}}+p]);
             }
             sum += biases_{{name}}_{{idx}}[i];
-            tensor_temp[i*{{ldC}}+j] = {{{activation_function}}};
+            ctx->tensor_temp[i*{{ldC}}+j] = {{{activation_function}}};
         }
     }
\ No newline at end of file
diff --git a/src/acetone_nnet/templates/layers/Conv/template_im2row.c.tpl b/src/acetone_nnet/templates/layers/Conv/template_im2row.c.tpl
index 9d5e2e0..ce3f049 100644
--- a/src/acetone_nnet/templates/layers/Conv/template_im2row.c.tpl
+++ b/src/acetone_nnet/templates/layers/Conv/template_im2row.c.tpl
@@ -10,7 +10,7 @@
             {
                 int ii = h * {{strides}} - {{pad_top}} + i_offset;
                 int jj = w * {{strides}} - {{pad_left}} + j_offset;
-                int j = w*{{output_height}} + h;
+                int j = h*{{output_width}} + w;
                 if (ii >= 0 && ii < {{input_height}} && jj >= 0 && jj < {{input_width}})
                     ctx->output_{{road}}[j*{{patches_height}} + i] = ctx->{{output_str}}[(c_offset*{{input_height}} + ii)*{{input_width}} + jj];
                 else
-- 
2.43.0


From 7da3552d4f548149d2610055d622dddb3f9146cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:38 +0000
Subject: [PATCH 003/107] fix: apply the dilation rate in the gemm convolutions

---
 .../generator/layers/convolution/Conv2DGemmTarget.py          | 1 +
 .../generator/layers/convolution/Conv2DStdGemm.py             | 2 ++
 src/acetone_nnet/templates/layers/Conv/template_im2col.c.tpl  | 4 ++--
 src/acetone_nnet/templates/layers/Conv/template_im2row.c.tpl  | 4 ++--
 4 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/convolution/Conv2DGemmTarget.py b/src/acetone_nnet/generator/layers/convolution/Conv2DGemmTarget.py
index 00cd4f7..7b1e64d 100644
--- a/src/acetone_nnet/generator/layers/convolution/Conv2DGemmTarget.py
+++ b/src/acetone_nnet/generator/layers/convolution/Conv2DGemmTarget.py
@@ -86,6 +86,7 @@ class Conv2DGemmTarget(Conv2DGemm):
         mustach_hash["output_height"] = self.output_height
         mustach_hash["output_width"] = self.output_width
         mustach_hash["strides"] = self.strides
+        mustach_hash["dilation_rate"] = self.dilation_rate
         mustach_hash["pad_top"] = self.pad_top
         mustach_hash["pad_left"] = self.pad_left
         mustach_hash["input_height"] = self.input_height
diff --git a/src/acetone_nnet/generator/layers/convolution/Conv2DStdGemm.py b/src/acetone_nnet/generator/layers/convolution/Conv2DStdGemm.py
index 5f01a03..5708bc6 100644
--- a/src/acetone_nnet/generator/layers/convolution/Conv2DStdGemm.py
+++ b/src/acetone_nnet/generator/layers/convolution/Conv2DStdGemm.py
@@ -54,6 +54,7 @@ class Conv2DStdGemm(Conv2DGemm):
         mustach_hash["output_height"] = self.output_height
         mustach_hash["output_width"] = self.output_width
         mustach_hash["strides"] = self.strides
+        mustach_hash["dilation_rate"] = self.dilation_rate
         mustach_hash["pad_top"] = self.pad_top
         mustach_hash["pad_left"] = self.pad_left
         mustach_hash["input_height"] = self.input_height
@@ -82,6 +83,7 @@ class Conv2DStdGemm(Conv2DGemm):
         mustach_hash["output_height"] = self.output_height
         mustach_hash["output_width"] = self.output_width
         mustach_hash["strides"] = self.strides
+        mustach_hash["dilation_rate"] = self.dilation_rate
         mustach_hash["pad_top"] = self.pad_top
         mustach_hash["pad_left"] = self.pad_left
         mustach_hash["input_height"] = self.input_height
diff --git a/src/acetone_nnet/templates/layers/Conv/template_im2col.c.tpl b/src/acetone_nnet/templates/layers/Conv/template_im2col.c.tpl
index f64e496..8ff48f5 100644
--- a/src/acetone_nnet/templates/layers/Conv/template_im2col.c.tpl
+++ b/src/acetone_nnet/templates/layers/Conv/template_im2col.c.tpl
@@ -9,8 +9,8 @@
         {
             for (w = 0; w < {{output_width}}; ++w)
             {
-                int ii = h * {{strides}} - {{pad_top}} + i_offset;
-                int jj = w * {{strides}} - {{pad_left}} + j_offset;
+                int ii = h * {{strides}} - {{pad_top}} + i_offset * {{dilation_rate}};
+                int jj = w * {{strides}} - {{pad_left}} + j_offset * {{dilation_rate}};
 
                 int j = h*{{output_width}} + w;
                 if (ii >= 0 && ii < {{input_height}} && jj >= 0 && jj < {{input_width}})
diff --git a/src/acetone_nnet/templates/layers/Conv/template_im2row.c.tpl b/src/acetone_nnet/templates/layers/Conv/template_im2row.c.tpl
index ce3f049..769ec86 100644
--- a/src/acetone_nnet/templates/layers/Conv/template_im2row.c.tpl
+++ b/src/acetone_nnet/templates/layers/Conv/template_im2row.c.tpl
@@ -8,8 +8,8 @@
         {
             for (w = 0; w < {{output_width}}; ++w)
             {
-                int ii = h * {{strides}} - {{pad_top}} + i_offset;
-                int jj = w * {{strides}} - {{pad_left}} + j_offset;
+                int ii = h * {{strides}} - {{pad_top}} + i_offset * {{dilation_rate}};
+                int jj = w * {{strides}} - {{pad_left}} + j_offset * {{dilation_rate}};
                 int j = h*{{output_width}} + w;
                 if (ii >= 0 && ii < {{input_height}} && jj >= 0 && jj < {{input_width}})
                     ctx->output_{{road}}[j*{{patches_height}} + i] = ctx->{{output_str}}[(c_offset*{{input_height}} + ii)*{{input_width}} + jj];
-- 
2.43.0


From 2238675feef17eee0cb3907042f546bb5b3ebef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:57 +0000
Subject: [PATCH 004/107] fix: offset the pooling window by the padding of its
 own axis

Rows were shifted by pad_left and columns by pad_top.
---
 src/acetone_nnet/templates/layers/template_Pooling2D.c.tpl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/acetone_nnet/templates/layers/template_Pooling2D.c.tpl b/src/acetone_nnet/templates/layers/template_Pooling2D.c.tpl
index 5bf6825..2f68a14 100644
--- a/src/acetone_nnet/templates/layers/template_Pooling2D.c.tpl
+++ b/src/acetone_nnet/templates/layers/template_Pooling2D.c.tpl
@@ -10,8 +10,8 @@
                 {
                     for (w = 0; w < {{pool_size}}; ++w)
                     {
-                        int ii = i*{{strides}} + h - {{pad_left}};
-                        int jj = j*{{strides}} + w - {{pad_top}};
+                        int ii = i*{{strides}} + h - {{pad_top}};
+                        int jj = j*{{strides}} + w - {{pad_left}};
                         if (ii >= 0 && ii < {{input_height}} && jj >= 0 && jj < {{input_width}})
                         {
                             {{{specific_function}}}
-- 
2.43.0


From fb3a393e8732425b14155dc6fc1af726391e2a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:57 +0000
Subject: [PATCH 005/107] fix: make the channels-last pooling agree with the
 channels-first one

It ignored pad_top, averaged over the padded window instead of the
elements inside the input, and applied the activation to an undeclared
variable.
---
 .../average_pooling/AveragePooling2DDefault.py      |  2 +-
 .../pooling/max_pooling/MaxPooling2DDefault.py      |  2 +-
 .../templates/layers/template_Pooling2D_HWC.c.tpl   | 13 +++++--------
 3 files changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/pooling/average_pooling/AveragePooling2DDefault.py b/src/acetone_nnet/generator/layers/pooling/average_pooling/AveragePooling2DDefault.py
index 38575a5..eea6369 100644
--- a/src/acetone_nnet/generator/layers/pooling/average_pooling/AveragePooling2DDefault.py
+++ b/src/acetone_nnet/generator/layers/pooling/average_pooling/AveragePooling2DDefault.py
@@ -80,7 +80,7 @@ class AveragePooling2DDefault(AveragePooling2D):
             suffix = "_HWC"
             mustach_hash["is_avgpool"] = True
             if self.activation_function.name != "linear":
-                mustach_hash["activation_function"] = self.activation_function.write_activation_str("o_ptr[c]")
+                mustach_hash["activation_function"] = self.activation_function.write_activation_str("out_ptr[c]")
             mustach_hash["specific_function"] = self.specific_function(
             f"f + {self.input_width}*(ii + {self.input_height}*jj)", output_str)
         else:
diff --git a/src/acetone_nnet/generator/layers/pooling/max_pooling/MaxPooling2DDefault.py b/src/acetone_nnet/generator/layers/pooling/max_pooling/MaxPooling2DDefault.py
index ef83e4b..7554713 100644
--- a/src/acetone_nnet/generator/layers/pooling/max_pooling/MaxPooling2DDefault.py
+++ b/src/acetone_nnet/generator/layers/pooling/max_pooling/MaxPooling2DDefault.py
@@ -79,7 +79,7 @@ class MaxPooling2DDefault(MaxPooling2D):
             suffix = "_HWC"
             mustach_hash["is_maxpool"] = True
             if self.activation_function.name != "linear":
-                mustach_hash["activation_function"] = self.activation_function.write_activation_str("o_ptr[c]")
+                mustach_hash["activation_function"] = self.activation_function.write_activation_str("out_ptr[c]")
             mustach_hash["specific_function"] = self.specific_function(
             f"f + {self.input_width}*(ii + {self.input_height}*jj)", output_str)
         else:
diff --git a/src/acetone_nnet/templates/layers/template_Pooling2D_HWC.c.tpl b/src/acetone_nnet/templates/layers/template_Pooling2D_HWC.c.tpl
index cad8b88..9958222 100644
--- a/src/acetone_nnet/templates/layers/template_Pooling2D_HWC.c.tpl
+++ b/src/acetone_nnet/templates/layers/template_Pooling2D_HWC.c.tpl
@@ -1,14 +1,10 @@
     // {{name}}_{{idx}}{{comment}} {{#channels_last}}HWC layout{{/channels_last}} {{#original_name}}(layer {{original_name}} in  input model){{/original_name}}
     {
-        {{#is_avgpool}}
-        // Calcul de l'aire inverse déplacé au début (invariant)
-        float inv_area = 1.0f / (float)({{pool_size}} * {{pool_size}});
-        {{/is_avgpool}}
         for (int oh = 0; oh < {{output_height}}; ++oh) {
-            int temp_h_start = {{pad_left}} - oh * {{strides}};
+            int temp_h_start = {{pad_top}} - oh * {{strides}};
             int kh_start = (0 > temp_h_start) ? 0 : temp_h_start;
             
-            int temp_h_end = {{input_height}} + {{pad_left}} - oh * {{strides}};
+            int temp_h_end = {{input_height}} + {{pad_top}} - oh * {{strides}};
             int kh_end = ({{pool_size}} < temp_h_end) ? {{pool_size}} : temp_h_end;
 
             for (int ow = 0; ow < {{output_width}}; ++ow) {
@@ -27,7 +23,7 @@
 
                 // Spatial window loops
                 for (int kh = kh_start; kh < kh_end; ++kh) {
-                    int ih = oh * {{strides}} + kh - {{pad_left}};
+                    int ih = oh * {{strides}} + kh - {{pad_top}};
                     for (int kw = kw_start; kw < kw_end; ++kw) {
                         int iw = ow * {{strides}} + kw - {{pad_left}};
                         
@@ -46,7 +42,8 @@
                 }
 
                 {{#is_avgpool}}
-                // Averaging
+                // Averaging over the window elements that lie in the input
+                float inv_area = 1.0f / (float)((kh_end - kh_start) * (kw_end - kw_start));
                 for (int c = 0; c < {{input_channels}}; ++c) {
                     out_ptr[c] *= inv_area;
                 }
-- 
2.43.0


From bb17f5e7f45ad3f8b9079890804f72cd7e40dd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:33 +0000
Subject: [PATCH 006/107] fix: accept a Gemm with an alpha and no beta

The type check of beta read it whenever alpha was set.
---
 src/acetone_nnet/generator/layers/gemm/Gemm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/acetone_nnet/generator/layers/gemm/Gemm.py b/src/acetone_nnet/generator/layers/gemm/Gemm.py
index e865827..bfb11f3 100644
--- a/src/acetone_nnet/generator/layers/gemm/Gemm.py
+++ b/src/acetone_nnet/generator/layers/gemm/Gemm.py
@@ -100,7 +100,7 @@ class Gemm(Layer):
         ):
             msg += "Error: alpha type in Gemm (alpha must be int or float)"
             msg += "\n"
-        if self.alpha != [] and (
+        if self.beta != [] and (
             type(self.beta[0]) is not float and type(self.beta[0]) is int
         ):
             msg += "Error: beta type in Gemm (beta must be int or float)"
-- 
2.43.0


From 2c6141609521d1eba5a2ea501713af480f61dd00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:33 +0000
Subject: [PATCH 007/107] fix: import a Gemm node without its C operand

---
 src/acetone_nnet/importers/ONNX_importer/create_layer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index 7217f56..6eef4d6 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -576,9 +576,9 @@ def create_gemm(
     attributes = extract_attributes(node)
     b_tensor = look_for_initializer(node.input[1], model)
     if len(node.input) == 3:  # noqa: PLR2004
-        c_tensor = look_for_initializer(node.input[2], model)
+        bias = onnx.numpy_helper.to_array(look_for_initializer(node.input[2], model))
     else:
-        c_tensor = np.zeros((1, 1))
+        bias = np.zeros((1, 1))
     if "transA" not in attributes:
         attributes["transA"] = 0
     if "transB" not in attributes:
@@ -596,7 +596,7 @@ def create_gemm(
         transA=attributes["transA"],
         transB=attributes["transB"],
         weights=onnx.numpy_helper.to_array(b_tensor),
-        bias=onnx.numpy_helper.to_array(c_tensor),
+        bias=bias,
         input_shape=input_shape,
         output_shape=output_shape,
         activation_function=Linear(),
-- 
2.43.0


From ac79e8d9f5fbb948161ef18d8df3d841a2467847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:47 +0000
Subject: [PATCH 008/107] fix: broadcast the Gemm bias to the output as ONNX
 specifies

The generated code always indexed the bias by output column, and the
shape check compared the axes in reverse order.
---
 src/acetone_nnet/generator/layers/gemm/Gemm.py        |  6 +++---
 src/acetone_nnet/generator/layers/gemm/GemmDefault.py | 11 +++++++++++
 .../templates/layers/Gemm/template_gemm_nn.c.tpl      |  2 +-
 .../templates/layers/Gemm/template_gemm_nt.c.tpl      |  2 +-
 .../templates/layers/Gemm/template_gemm_tn.c.tpl      |  2 +-
 .../templates/layers/Gemm/template_gemm_tt.c.tpl      |  2 +-
 6 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/gemm/Gemm.py b/src/acetone_nnet/generator/layers/gemm/Gemm.py
index bfb11f3..dbdca06 100644
--- a/src/acetone_nnet/generator/layers/gemm/Gemm.py
+++ b/src/acetone_nnet/generator/layers/gemm/Gemm.py
@@ -147,9 +147,9 @@ class Gemm(Layer):
         if self.output_width != self.weights.shape[1 - self.transpo[1]]:
             msg += f"Error: non consistency between output shape and output weight in Gemm ({self.output_width}!={self.weights.shape[1 - self.transpo[1]]})"
             msg += "\n"
-        if any(
-            self.biases.shape[i] != 1 and self.biases.shape[i] != output_shape[3 - i]
-            for i in range(len(self.biases.shape))
+        if len(self.biases.shape) > 2 or any(  # noqa: PLR2004
+            self.biases.shape[-i] != 1 and self.biases.shape[-i] != output_shape[-i]
+            for i in range(1, len(self.biases.shape) + 1)
         ):
             msg = f"Error: biases ({self.biases.shape}) in Gemm not broadcastable to dim ({self.output_height},{self.output_width})"
             msg += "\n"
diff --git a/src/acetone_nnet/generator/layers/gemm/GemmDefault.py b/src/acetone_nnet/generator/layers/gemm/GemmDefault.py
index 4af7e0c..5fc7ba0 100644
--- a/src/acetone_nnet/generator/layers/gemm/GemmDefault.py
+++ b/src/acetone_nnet/generator/layers/gemm/GemmDefault.py
@@ -42,6 +42,13 @@ class GemmDefault(Gemm):
             (1, 0): self.write_gemm_tn,
         }
 
+    def bias_index(self: Self) -> str:
+        """Index, for output element (i, j), of the bias broadcast to the output."""
+        height, width = (1, 1, *self.biases.shape)[-2:]
+        row = f"i*{width}" if height != 1 else ""
+        column = "j" if width != 1 else ""
+        return " + ".join(filter(None, (row, column))) or "0"
+
     # The various ways to compute the operation:
 
     # None of the tensor ar transposed
@@ -69,6 +76,7 @@ class GemmDefault(Gemm):
         )
         mustach_hash["alpha"] = self.alpha
         mustach_hash["beta"] = self.beta
+        mustach_hash["bias_index"] = self.bias_index()
 
         with open(
             self.template_path / "layers" / "Gemm" / "template_gemm_nn.c.tpl"
@@ -101,6 +109,7 @@ class GemmDefault(Gemm):
         )
         mustach_hash["alpha"] = self.alpha
         mustach_hash["beta"] = self.beta
+        mustach_hash["bias_index"] = self.bias_index()
 
         with open(
             self.template_path / "layers" / "Gemm" / "template_gemm_nt.c.tpl"
@@ -133,6 +142,7 @@ class GemmDefault(Gemm):
         )
         mustach_hash["alpha"] = self.alpha
         mustach_hash["beta"] = self.beta
+        mustach_hash["bias_index"] = self.bias_index()
 
         with open(
             self.template_path / "layers" / "Gemm" / "template_gemm_tn.c.tpl"
@@ -165,6 +175,7 @@ class GemmDefault(Gemm):
         )
         mustach_hash["alpha"] = self.alpha
         mustach_hash["beta"] = self.beta
+        mustach_hash["bias_index"] = self.bias_index()
 
         with open(
             self.template_path / "layers" / "Gemm" / "template_gemm_tt.c.tpl"
diff --git a/src/acetone_nnet/templates/layers/Gemm/template_gemm_nn.c.tpl b/src/acetone_nnet/templates/layers/Gemm/template_gemm_nn.c.tpl
index 2186fe0..7119269 100644
--- a/src/acetone_nnet/templates/layers/Gemm/template_gemm_nn.c.tpl
+++ b/src/acetone_nnet/templates/layers/Gemm/template_gemm_nn.c.tpl
@@ -8,7 +8,7 @@
             {
                 output += {{#alpha}}{{.}}*{{/alpha}}ctx->{{A}}[(i * {{k}}) + p]*({{B}}[(p * {{n}}) + j]);
             }
-            output += {{#beta}}{{.}}*{{/beta}}biases_{{name}}_{{idx}}[j];
+            output += {{#beta}}{{.}}*{{/beta}}biases_{{name}}_{{idx}}[{{bias_index}}];
             ctx->tensor_temp[(i * {{n}}) + j] = {{{activation_function}}};
         }
     }
\ No newline at end of file
diff --git a/src/acetone_nnet/templates/layers/Gemm/template_gemm_nt.c.tpl b/src/acetone_nnet/templates/layers/Gemm/template_gemm_nt.c.tpl
index 91d9da8..f61adca 100644
--- a/src/acetone_nnet/templates/layers/Gemm/template_gemm_nt.c.tpl
+++ b/src/acetone_nnet/templates/layers/Gemm/template_gemm_nt.c.tpl
@@ -8,7 +8,7 @@
             {
                 output += {{#alpha}}{{.}}*{{/alpha}}ctx->{{A}}[(i * {{k}}) + p]*({{B}}[(j * {{k}}) + p]);
             }
-            output += {{#beta}}{{.}}*{{/beta}}biases_{{name}}_{{idx}}[j];
+            output += {{#beta}}{{.}}*{{/beta}}biases_{{name}}_{{idx}}[{{bias_index}}];
             ctx->tensor_temp[i*{{n}}+j] = {{{activation_function}}};
         }
     }
\ No newline at end of file
diff --git a/src/acetone_nnet/templates/layers/Gemm/template_gemm_tn.c.tpl b/src/acetone_nnet/templates/layers/Gemm/template_gemm_tn.c.tpl
index ae27567..bff70e4 100644
--- a/src/acetone_nnet/templates/layers/Gemm/template_gemm_tn.c.tpl
+++ b/src/acetone_nnet/templates/layers/Gemm/template_gemm_tn.c.tpl
@@ -8,7 +8,7 @@
             {
                 output += {{#alpha}}{{.}}*{{/alpha}}ctx->{{A}}[p*{{m}}+i]*{{#direct}}*{{/direct}}({{B}}[p*{{n}}+j]);
             }   
-            output += {{#beta}}{{.}}*{{/beta}}biases_{{name}}_{{idx}}[j];
+            output += {{#beta}}{{.}}*{{/beta}}biases_{{name}}_{{idx}}[{{bias_index}}];
             ctx->tensor_temp[i*{{n}} + j] = {{{activation_function}}};
         }
     }
\ No newline at end of file
diff --git a/src/acetone_nnet/templates/layers/Gemm/template_gemm_tt.c.tpl b/src/acetone_nnet/templates/layers/Gemm/template_gemm_tt.c.tpl
index 186f4e8..8d22043 100644
--- a/src/acetone_nnet/templates/layers/Gemm/template_gemm_tt.c.tpl
+++ b/src/acetone_nnet/templates/layers/Gemm/template_gemm_tt.c.tpl
@@ -8,7 +8,7 @@
             {
                 sum += {{#alpha}}{{.}}*{{/alpha}}ctx->{{A}}[p*{{m}} +i]*{{#direct}}*{{/direct}}({{B}}[j*{{k}}+p]);
             }
-            sum += {{#beta}}{{.}}*{{/beta}}biases_{{name}}_{{idx}}[j];
+            sum += {{#beta}}{{.}}*{{/beta}}biases_{{name}}_{{idx}}[{{bias_index}}];
             ctx->tensor_temp[i*{{n}}+j] = {{{activation_function}}};
         }
     }
\ No newline at end of file
-- 
2.43.0


From b21aa2da78291ea3634e6fbe1d7b072a62fe080f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:57 +0000
Subject: [PATCH 009/107] fix: broadcast an unbatched right operand of MatMul
 over the channels

---
 src/acetone_nnet/generator/layers/matmul/MatMulDefault.py | 2 ++
 src/acetone_nnet/templates/layers/template_MatMul.c.tpl   | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/acetone_nnet/generator/layers/matmul/MatMulDefault.py b/src/acetone_nnet/generator/layers/matmul/MatMulDefault.py
index 1f3de4b..6ee3a01 100644
--- a/src/acetone_nnet/generator/layers/matmul/MatMulDefault.py
+++ b/src/acetone_nnet/generator/layers/matmul/MatMulDefault.py
@@ -54,6 +54,8 @@ class MatMulDefault(MatMul):
         mustach_hash["output_width"] = self.output_width
 
         mustach_hash["output_str_left"] = self.previous_layer[0].output_str
+        # A right operand with a single channel is shared by all the channels
+        mustach_hash["right_channel"] = "f" if self.input_shapes[1][1] != 1 else "0"
         mustach_hash["output_str_right"] = self.previous_layer[1].output_str
 
         with open(
diff --git a/src/acetone_nnet/templates/layers/template_MatMul.c.tpl b/src/acetone_nnet/templates/layers/template_MatMul.c.tpl
index 178ca93..090944f 100644
--- a/src/acetone_nnet/templates/layers/template_MatMul.c.tpl
+++ b/src/acetone_nnet/templates/layers/template_MatMul.c.tpl
@@ -8,7 +8,7 @@
                 ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)] = 0;
                 for (k = 0; k < {{shared_dimension}}; ++k)
                 {
-                    ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)] += ctx->{{output_str_left}}[k + {{shared_dimension}}*(i + {{output_height}}*f)]*ctx->{{output_str_right}}[j + {{output_width}}*(k + {{shared_dimension}}*f)];
+                    ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)] += ctx->{{output_str_left}}[k + {{shared_dimension}}*(i + {{output_height}}*f)]*ctx->{{output_str_right}}[j + {{output_width}}*(k + {{shared_dimension}}*{{right_channel}})];
                 }
             }
         }
-- 
2.43.0


From 2c18f256a91f833d25edc4647f6674159c32110d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:17 +0000
Subject: [PATCH 010/107] fix: keep the constants of Sub, Mul and Div as
 operands

Folding them into one constant changed the sign of a Sub constant,
inverted a Div constant twice, and dropped any constant containing the
neutral element.
---
 .../importers/ONNX_importer/create_layer.py   | 81 ++++---------------
 1 file changed, 16 insertions(+), 65 deletions(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index 6eef4d6..6eda635 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -1165,6 +1165,19 @@ def _collect_node_inputs(
     return collected
 
 
+def _broadcast_operands(
+    model: onnx.ModelProto,
+    node: onnx.NodeProto,
+) -> tuple[list[str], np.ndarray]:
+    """Name and 4D shape of the operands of an elementwise node, in order."""
+    names = []
+    shapes = []
+    for name, shape in _collect_node_inputs(model, node):
+        names.append(name)
+        shapes.append([1] * (4 - len(shape)) + list(shape))
+    return names, np.array(shapes)
+
+
 # create a layer Add
 def create_add(
     node: onnx.NodeProto,
@@ -1204,31 +1217,10 @@ def create_div(
     model: onnx.ModelProto,
 ) -> Divide:
     """Create a Divide layer."""
-    constant_length = 4
-
-    input_shapes = []
-    constant = np.ones(get_shape(node.input[0], model))
-    dict_input[idx] = []
-    for input_value in node.input:
-        factor = look_for_initializer(input_value, model)
-        if factor:
-            constant = constant / onnx.numpy_helper.to_array(factor)
-        else:
-            dict_input[idx].append(input_value)
-            input_shapes.append(get_shape(input_value, model))
-
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
+    dict_input[idx], input_shapes = _broadcast_operands(model, node)
     dict_output[node.output[0]] = idx
-    # FIXME It seems like a test is missing here on the values of constant
-    if (constant != np.ones(constant.shape)).all():
-        if len(constant.shape) < constant_length:
-            for _i in range(4 - len(constant.shape)):
-                constant = np.expand_dims(constant, axis=0)
-        input_shapes.append(list(constant.shape))
-    else:
-        constant = None
-    input_shapes = np.array(input_shapes)
     return Divide(
         original_name=node.name,
         idx=idx,
@@ -1236,7 +1228,6 @@ def create_div(
         input_shapes=input_shapes,
         output_shape=output_shape,
         activation_function=Linear(),
-        constant=constant,
     )
 
 
@@ -1249,29 +1240,10 @@ def create_mul(
     model: onnx.ModelProto,
 ) -> Multiply:
     """Create Multiply layer."""
-    constant_length = 4
-
-    input_shapes = []
-    constant = np.ones(get_shape(node.input[0], model))
-    dict_input[idx] = []
-    for input_value in node.input:
-        factor = look_for_initializer(input_value, model)
-        if factor:
-            constant = constant * onnx.numpy_helper.to_array(factor)
-        else:
-            dict_input[idx].append(input_value)
-            input_shapes.append(get_shape(input_value, model))
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
+    dict_input[idx], input_shapes = _broadcast_operands(model, node)
     dict_output[node.output[0]] = idx
-    if (constant != np.ones(constant.shape)).all():
-        if len(constant.shape) < constant_length:
-            for _i in range(4 - len(constant.shape)):
-                constant = np.expand_dims(constant, axis=0)
-        input_shapes.append(list(constant.shape))
-    else:
-        constant = None
-    input_shapes = np.array(input_shapes)
     return Multiply(
         original_name=node.name,
         idx=idx,
@@ -1279,7 +1251,6 @@ def create_mul(
         input_shapes=input_shapes,
         output_shape=output_shape,
         activation_function=Linear(),
-        constant=constant,
     )
 
 
@@ -1292,29 +1263,10 @@ def create_sub(
     model: onnx.ModelProto,
 ) -> Subtract:
     """Create a Subtract layer."""
-    constant_length = 4
-
-    input_shapes = []
-    constant = np.zeros(get_shape(node.input[0], model))
-    dict_input[idx] = []
-    for input_value in node.input:
-        factor = look_for_initializer(input_value, model)
-        if factor:
-            constant = constant - onnx.numpy_helper.to_array(factor)
-        else:
-            dict_input[idx].append(input_value)
-            input_shapes.append(get_shape(input_value, model))
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
+    dict_input[idx], input_shapes = _broadcast_operands(model, node)
     dict_output[node.output[0]] = idx
-    if (constant != np.zeros(constant.shape)).all():
-        if len(constant.shape) < constant_length:
-            for _i in range(4 - len(constant.shape)):
-                constant = np.expand_dims(constant, axis=0)
-        input_shapes.append(list(constant.shape))
-    else:
-        constant = None
-    input_shapes = np.array(input_shapes)
     return Subtract(
         original_name=node.name,
         idx=idx,
@@ -1322,7 +1274,6 @@ def create_sub(
         input_shapes=input_shapes,
         output_shape=output_shape,
         activation_function=Linear(),
-        constant=constant,
     )
 
 
-- 
2.43.0


From a4bdc5e2c687d7ae8e3934e82b6e29e19d3ca497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:40 +0000
Subject: [PATCH 011/107] fix: import Mean nodes, and Max, Min and Mean nodes
 with a constant operand

---
 .../importers/ONNX_importer/create_layer.py   | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index 6eda635..280757f 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -1286,18 +1286,15 @@ def create_max(
     model: onnx.ModelProto,
 ) -> Maximum:
     """Create a Max layer."""
-    input_shapes = []
-    for input_value in node.input:
-        input_shapes.append(get_shape(input_value, model))
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
-    dict_input[idx] = node.input
+    dict_input[idx], input_shapes = _broadcast_operands(model, node)
     dict_output[node.output[0]] = idx
     return Maximum(
         original_name=node.name,
         idx=idx,
         size=size,
-        input_shapes=np.array(input_shapes),
+        input_shapes=input_shapes,
         output_shape=output_shape,
         activation_function=Linear(),
     )
@@ -1312,18 +1309,15 @@ def create_min(
     model: onnx.ModelProto,
 ) -> Minimum:
     """Create a Min layer."""
-    input_shapes = []
-    for input_value in node.input:
-        input_shapes.append(get_shape(input_value, model))
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
-    dict_input[idx] = node.input
+    dict_input[idx], input_shapes = _broadcast_operands(model, node)
     dict_output[node.output[0]] = idx
     return Minimum(
         original_name=node.name,
         idx=idx,
         size=size,
-        input_shapes=np.array(input_shapes),
+        input_shapes=input_shapes,
         output_shape=output_shape,
         activation_function=Linear(),
     )
@@ -1338,12 +1332,9 @@ def create_avg(
     model: onnx.ModelProto,
 ) -> Average:
     """Create an Average layer."""
-    input_shapes = []
-    for input_value in node.input:
-        input_shapes.append(get_shape(input_value, model))
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
-    dict_input[idx] = node.input
+    dict_input[idx], input_shapes = _broadcast_operands(model, node)
     dict_output[node.output[0]] = idx
     return Average(
         original_name=node.name,
-- 
2.43.0


From 73f74841b5a581be2b7a3cecb06560f4643e08d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:08 +0000
Subject: [PATCH 012/107] fix: import Tile, Gather and Reduce nodes whatever
 the storage of their operand

Tile and Reduce nodes iterated over the characters of their input name,
and negative axes and indices were corrected in place in read-only
arrays.
---
 .../importers/ONNX_importer/create_layer.py   | 36 +++++++++----------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index 280757f..03d2ab9 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -495,7 +495,7 @@ def create_gather(
     dict_input[idx] = [node.input[0]]
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
-    indices = onnx.numpy_helper.to_array(look_for_initializer(node.input[1], model))
+    indices = onnx.numpy_helper.to_array(look_for_initializer(node.input[1], model)).copy()
     if "axis" not in attributes:
         attributes["axis"] = 0
     elif attributes["axis"] < 0:
@@ -534,7 +534,7 @@ def create_gather_elements(
     dict_input[idx] = [node.input[0]]
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
-    indices = onnx.numpy_helper.to_array(look_for_initializer(node.input[1], model))
+    indices = onnx.numpy_helper.to_array(look_for_initializer(node.input[1], model)).copy()
     if "axis" not in attributes:
         attributes["axis"] = 0
     elif attributes["axis"] < 0:
@@ -751,7 +751,7 @@ def create_tile(
     input_shape = get_shape(node.input[0], model)
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
-    dict_input[idx] = node.input[0]
+    dict_input[idx] = [node.input[0]]
     dict_output[node.output[0]] = idx
     repeats = onnx.numpy_helper.to_array(look_for_initializer(node.input[1], model))
     repeats = [int(rep) for rep in repeats]
@@ -784,14 +784,14 @@ def create_reduce_sum(
     original_len_shape = len(get_shape(node.input[0],model,extend=False))
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
-    dict_input[idx] = node.input[0]
+    dict_input[idx] = [node.input[0]]
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
     if model.opset_import[0].version < onnx_version_change_implementation:
         if "keepdims" not in attributes:
             attributes["keepdims"] = 1
         attributes["noop_with_empty_axes"] = 0
-        attributes["axes"] = onnx.numpy_helper.to_array(attributes["axes"])
+        attributes["axes"] = list(attributes.get("axes", []))
     else:
         is_axes = 2
 
@@ -802,7 +802,7 @@ def create_reduce_sum(
         if len(node.input) == is_axes:
             attributes["axes"] = onnx.numpy_helper.to_array(
                 look_for_initializer(node.input[1], model),
-            )
+            ).tolist()
         else:
             attributes["axes"] = []
 
@@ -838,14 +838,14 @@ def create_reduce_max(
     original_len_shape = len(get_shape(node.input[0],model,extend=False))
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
-    dict_input[idx] = node.input[0]
+    dict_input[idx] = [node.input[0]]
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
     if model.opset_import[0].version < onnx_version_change_implementation:
         if "keepdims" not in attributes:
             attributes["keepdims"] = 1
         attributes["noop_with_empty_axes"] = 0
-        attributes["axes"] = onnx.numpy_helper.to_array(attributes["axes"])
+        attributes["axes"] = list(attributes.get("axes", []))
     else:
         is_axes = 2
 
@@ -856,7 +856,7 @@ def create_reduce_max(
         if len(node.input) == is_axes:
             attributes["axes"] = onnx.numpy_helper.to_array(
                 look_for_initializer(node.input[1], model),
-            )
+            ).tolist()
         else:
             attributes["axes"] = []
 
@@ -892,14 +892,14 @@ def create_reduce_min(
     original_len_shape = len(get_shape(node.input[0],model,extend=False))
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
-    dict_input[idx] = node.input[0]
+    dict_input[idx] = [node.input[0]]
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
     if model.opset_import[0].version < onnx_version_change_implementation:
         if "keepdims" not in attributes:
             attributes["keepdims"] = 1
         attributes["noop_with_empty_axes"] = 0
-        attributes["axes"] = onnx.numpy_helper.to_array(attributes["axes"])
+        attributes["axes"] = list(attributes.get("axes", []))
     else:
         is_axes = 2
 
@@ -910,7 +910,7 @@ def create_reduce_min(
         if len(node.input) == is_axes:
             attributes["axes"] = onnx.numpy_helper.to_array(
                 look_for_initializer(node.input[1], model),
-            )
+            ).tolist()
         else:
             attributes["axes"] = []
 
@@ -946,14 +946,14 @@ def create_reduce_mean(
     original_len_shape = len(get_shape(node.input[0],model,extend=False))
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
-    dict_input[idx] = node.input[0]
+    dict_input[idx] = [node.input[0]]
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
     if model.opset_import[0].version < onnx_version_change_implementation:
         if "keepdims" not in attributes:
             attributes["keepdims"] = 1
         attributes["noop_with_empty_axes"] = 0
-        attributes["axes"] = onnx.numpy_helper.to_array(attributes["axes"])
+        attributes["axes"] = list(attributes.get("axes", []))
     else:
         is_axes = 2
 
@@ -964,7 +964,7 @@ def create_reduce_mean(
         if len(node.input) == is_axes:
             attributes["axes"] = onnx.numpy_helper.to_array(
                 look_for_initializer(node.input[1], model),
-            )
+            ).tolist()
         else:
             attributes["axes"] = []
 
@@ -1000,14 +1000,14 @@ def create_reduce_prod(
     original_len_shape = len(get_shape(node.input[0],model,extend=False))
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
-    dict_input[idx] = node.input[0]
+    dict_input[idx] = [node.input[0]]
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
     if model.opset_import[0].version < onnx_version_change_implementation:
         if "keepdims" not in attributes:
             attributes["keepdims"] = 1
         attributes["noop_with_empty_axes"] = 0
-        attributes["axes"] = onnx.numpy_helper.to_array(attributes["axes"])
+        attributes["axes"] = list(attributes.get("axes", []))
     else:
         is_axes = 2
 
@@ -1018,7 +1018,7 @@ def create_reduce_prod(
         if len(node.input) == is_axes:
             attributes["axes"] = onnx.numpy_helper.to_array(
                 look_for_initializer(node.input[1], model),
-            )
+            ).tolist()
         else:
             attributes["axes"] = []
 
-- 
2.43.0


From 76b5827651fc12205f3c9eaa2ed0eefe058cc33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:39 +0000
Subject: [PATCH 013/107] fix: reduce the right elements over two axes, the
 batch axis or no axis

ReduceMax and ReduceMin over two axes compared the stale output and
started from an element outside the reduced window; the identity case
read the output buffer; reducing the batch axis reduced everything.
---
 src/acetone_nnet/generator/layers/reduce/Reduce.py    | 11 ++++++-----
 .../templates/layers/template_Reduce.c.tpl            |  4 ++--
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/reduce/Reduce.py b/src/acetone_nnet/generator/layers/reduce/Reduce.py
index 00cb37d..ee47a3a 100644
--- a/src/acetone_nnet/generator/layers/reduce/Reduce.py
+++ b/src/acetone_nnet/generator/layers/reduce/Reduce.py
@@ -169,10 +169,11 @@ class Reduce(Layer):
             mustach_hash["func"] = "*"
 
         if len(which_dim_to_reduc) == 0:
-            if self.noop_with_empty_axes:
+            # Reducing only the (unit) batch axis is the identity
+            if self.noop_with_empty_axes or len(self.axes) > 0:
                 mustach_hash["none"] = True
                 mustach_hash["activation_function"] = self.activation_function.write_activation_str(
-                    f"ctx->output_{self.path}[k]")
+                    f"ctx->{output_str}[k]")
             else:
                 mustach_hash["all"] = True
                 mustach_hash["activation_function"] = self.activation_function.write_activation_str("reduced")
@@ -221,7 +222,7 @@ class Reduce(Layer):
                 mustach_hash["reduced_dimension_2"] = self.input_height
                 mustach_hash["position"] = f"f + {self.input_width}*(j + {self.input_height}*i)"
                 if self.reduce_func in ("Max", "Min"):
-                    mustach_hash["starting_value"] = f"ctx->{output_str}[{self.input_width}*f]"
+                    mustach_hash["starting_value"] = f"ctx->{output_str}[f]"
 
             elif which_dim_to_reduc == "cw":
                 mustach_hash["output_dimension"] = self.output_height
@@ -229,7 +230,7 @@ class Reduce(Layer):
                 mustach_hash["reduced_dimension_2"] = self.input_width
                 mustach_hash["position"] = f"j + {self.input_width}*(f + {self.input_height}*i)"
                 if self.reduce_func in ("Max", "Min"):
-                    mustach_hash["starting_value"] = f"ctx->{output_str}[{self.input_height}*f]"
+                    mustach_hash["starting_value"] = f"ctx->{output_str}[{self.input_width}*f]"
 
             elif which_dim_to_reduc == "hw":
                 mustach_hash["output_dimension"] = self.output_channels
@@ -237,7 +238,7 @@ class Reduce(Layer):
                 mustach_hash["reduced_dimension_2"] = self.input_width
                 mustach_hash["position"] = f"j + {self.input_width}*(i + {self.input_height}*f)"
                 if self.reduce_func in ("Max", "Min"):
-                    mustach_hash["starting_value"] = f"ctx->{output_str}[{self.input_channels}*f]"
+                    mustach_hash["starting_value"] = f"ctx->{output_str}[{self.input_width * self.input_height}*f]"
 
             if self.reduce_func == "Mean":
                 mustach_hash["nb_elements"] = mustach_hash["reduced_dimension_1"] * mustach_hash["reduced_dimension_2"]
diff --git a/src/acetone_nnet/templates/layers/template_Reduce.c.tpl b/src/acetone_nnet/templates/layers/template_Reduce.c.tpl
index a6f7f1e..ca70a3e 100644
--- a/src/acetone_nnet/templates/layers/template_Reduce.c.tpl
+++ b/src/acetone_nnet/templates/layers/template_Reduce.c.tpl
@@ -35,13 +35,13 @@
             for (j = 0; j < {{reduced_dimension_2}}; ++j)
             {
                 {{#Max}}
-                if (ctx->output_{{road}}[{{position}}] > ctx->tensor_temp[f])
+                if (ctx->{{output_str}}[{{position}}] > ctx->tensor_temp[f])
                 {
                     ctx->tensor_temp[f] = ctx->{{output_str}}[{{position}}];
                 }
                 {{/Max}}
                 {{#Min}}
-                if (ctx->output_{{road}}[{{position}}] < ctx->tensor_temp[f])
+                if (ctx->{{output_str}}[{{position}}] < ctx->tensor_temp[f])
                 {
                     ctx->tensor_temp[f] = ctx->{{output_str}}[{{position}}];
                 }
-- 
2.43.0


From 7d4b13801bd6430edef46d677ba770b8797475ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:27 +0000
Subject: [PATCH 014/107] fix: index inside the input in the wrap and reflect
 paddings

Padding by a multiple of the size read past the end in wrap mode, and
reflect mode divided by zero on any axis of size 1.
---
 .../layers/padding/reflect_pad/ReflectPadDefault.py         | 4 ++++
 .../templates/layers/Pad/template_Reflect_Pad.c.tpl         | 6 +++---
 .../templates/layers/Pad/template_Wrap_Pad.c.tpl            | 6 +++---
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/padding/reflect_pad/ReflectPadDefault.py b/src/acetone_nnet/generator/layers/padding/reflect_pad/ReflectPadDefault.py
index 22efb2f..cbd4c7f 100644
--- a/src/acetone_nnet/generator/layers/padding/reflect_pad/ReflectPadDefault.py
+++ b/src/acetone_nnet/generator/layers/padding/reflect_pad/ReflectPadDefault.py
@@ -47,6 +47,10 @@ class ReflectPadDefault(ReflectPad):
         mustach_hash["channels_max"] = self.input_shape[1] - 1
         mustach_hash["height_max"] = self.input_shape[2] - 1
         mustach_hash["width_max"] = self.input_shape[3] - 1
+        # Indices repeat with this period; an axis of size 1 only has index 0
+        mustach_hash["channels_period"] = max(2 * mustach_hash["channels_max"], 1)
+        mustach_hash["height_period"] = max(2 * mustach_hash["height_max"], 1)
+        mustach_hash["width_period"] = max(2 * mustach_hash["width_max"], 1)
 
         with open(self.template_path / "layers" / "Pad" / "template_Reflect_Pad.c.tpl") as template_file:
             template = template_file.read()
diff --git a/src/acetone_nnet/templates/layers/Pad/template_Reflect_Pad.c.tpl b/src/acetone_nnet/templates/layers/Pad/template_Reflect_Pad.c.tpl
index 639089c..9c89250 100644
--- a/src/acetone_nnet/templates/layers/Pad/template_Reflect_Pad.c.tpl
+++ b/src/acetone_nnet/templates/layers/Pad/template_Reflect_Pad.c.tpl
@@ -1,4 +1,4 @@
-                new_f = ({{pads_front}} - f) % (2*{{channels_max}});
+                new_f = ({{pads_front}} - f) % {{channels_period}};
                 if(new_f < 0)
                 {
                     new_f = 2*{{channels_max}} + new_f;
@@ -8,7 +8,7 @@
                     new_f = 2*{{channels_max}} - new_f;
                 }
 
-                new_i = ({{pads_top}} - i) % (2*{{height_max}});
+                new_i = ({{pads_top}} - i) % {{height_period}};
                 if(new_i < 0)
                 {
                     new_i = 2*{{height_max}} + new_i;
@@ -18,7 +18,7 @@
                     new_i = 2*{{height_max}} - new_i;
                 }
 
-                new_j = ({{pads_left}} - j) % (2*{{width_max}});
+                new_j = ({{pads_left}} - j) % {{width_period}};
                 if(new_j < 0)
                 {
                     new_j = 2*{{width_max}} + new_j;
diff --git a/src/acetone_nnet/templates/layers/Pad/template_Wrap_Pad.c.tpl b/src/acetone_nnet/templates/layers/Pad/template_Wrap_Pad.c.tpl
index 5bf4f2f..e79b780 100644
--- a/src/acetone_nnet/templates/layers/Pad/template_Wrap_Pad.c.tpl
+++ b/src/acetone_nnet/templates/layers/Pad/template_Wrap_Pad.c.tpl
@@ -4,7 +4,7 @@
                 }
                 if(f < {{pads_front}})
                 {
-                    new_f = (new_f) % ({{input_channels}}) +  {{input_channels}};
+                    new_f = ((new_f) % ({{input_channels}}) + {{input_channels}}) % ({{input_channels}});
                 }
 
                 if(i >= {{height_and_pad_top}})
@@ -13,7 +13,7 @@
                 }
                 if(i < {{pads_top}})
                 {
-                    new_i = (new_i) % ({{input_height}}) + {{input_height}};
+                    new_i = ((new_i) % ({{input_height}}) + {{input_height}}) % ({{input_height}});
                 }
 
                 if(j >= {{width_and_pad_left}})
@@ -22,5 +22,5 @@
                 }
                 if(j < {{pads_left}})
                 {
-                    new_j = (new_j) % ({{input_width}}) + {{input_width}};
+                    new_j = ((new_j) % ({{input_width}}) + {{input_width}}) % ({{input_width}});
                 }
\ No newline at end of file
-- 
2.43.0


From a502943c2950bbe2a07f5072bc6ad4706c255be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:27 +0000
Subject: [PATCH 015/107] fix: gather a scalar index along the height or width

---
 .../generator/layers/gather/GatherDefault.py       | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/gather/GatherDefault.py b/src/acetone_nnet/generator/layers/gather/GatherDefault.py
index bbfd9ba..f05b06a 100644
--- a/src/acetone_nnet/generator/layers/gather/GatherDefault.py
+++ b/src/acetone_nnet/generator/layers/gather/GatherDefault.py
@@ -55,18 +55,20 @@ class GatherDefault(Gather):
         mustach_hash["input_width"] = self.input_width
         mustach_hash["input_height"] = self.input_height
 
+        # The axes which are not gathered keep their input size, whatever the rank
+        # of the indices
         if self.axis == 1:
             mustach_hash["channels"] = True
-            mustach_hash["output_height"] = self.output_height
-            mustach_hash["output_width"] = self.output_width
+            mustach_hash["output_height"] = self.input_height
+            mustach_hash["output_width"] = self.input_width
         elif self.axis == 2:
             mustach_hash["heights"] = True
-            mustach_hash["output_channels"] = self.output_channels
-            mustach_hash["output_width"] = self.output_width
+            mustach_hash["output_channels"] = self.input_channels
+            mustach_hash["output_width"] = self.input_width
         elif self.axis == 3:
             mustach_hash["widths"] = True
-            mustach_hash["output_channels"] = self.output_channels
-            mustach_hash["output_height"] = self.output_height
+            mustach_hash["output_channels"] = self.input_channels
+            mustach_hash["output_height"] = self.input_height
 
         with open(self.template_path / "layers" / "template_Gather.c.tpl") as template_file:
             template = template_file.read()
-- 
2.43.0


From 97034a07799d51da2a5f643bb4b526d6832486f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:05 +0000
Subject: [PATCH 016/107] fix: apply the axes operand of Pad, and default its
 mode and constant

Pads given for a permutation of the axes were applied to the wrong axes.
---
 .../importers/ONNX_importer/create_layer.py   | 34 +++++++++++--------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index 03d2ab9..b51834f 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -456,24 +456,30 @@ def create_pad(
     ]
     attributes = extract_attributes(node)
 
-    initializer_length = 2
-    if len(initializers) == initializer_length:
-        axes = []
-    else:
-        axes = onnx.numpy_helper.to_array(initializers[2])
-        for i in range(len(axes)):
-            axe = axes[i]
-            if axe < 0:
-                axe = len(input_shape) - axe
-            axes[i] = axe
+    # Gather the amounts of the padded axes into the amounts of the four axes
+    rank = len(get_shape(node.input[0], model, extend=False))
+    if rank > 4:  # noqa: PLR2004
+        msg = f"Error: tensor of rank {rank} in Pad"
+        raise ValueError(msg)
+    pads = [int(pad) for pad in onnx.numpy_helper.to_array(initializers[0])]
+    has_axes = len(initializers) > 2 and initializers[2]  # noqa: PLR2004
+    axes = onnx.numpy_helper.to_array(initializers[2]) if has_axes else range(rank)
+    full_pads = [0] * 8
+    for i, axe in enumerate(axes):
+        position = 4 - rank + int(axe) % rank
+        full_pads[position] = pads[i]
+        full_pads[position + 4] = pads[i + len(axes)]
+    constant_value = 0.0
+    if len(initializers) > 1 and initializers[1]:
+        constant_value = float(onnx.numpy_helper.to_array(initializers[1]))
     return create_pad_obj(
-        mode=attributes["mode"],
+        mode=attributes.get("mode", b"constant"),
         original_name=node.name,
         idx=idx,
         size=size,
-        pads=list(map(int, onnx.numpy_helper.to_array(initializers[0]))),
-        constant_value=float(onnx.numpy_helper.to_array(initializers[1])),
-        axes=axes,
+        pads=full_pads,
+        constant_value=constant_value,
+        axes=[],
         input_shape=list(map(int, input_shape)),
         activation_function=Linear(),
     )
-- 
2.43.0


From 469d890f86ac1ba6ee34318fc934f928bc84b2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:12 +0000
Subject: [PATCH 017/107] fix: compute the align_corners coordinates over the
 reals

They were truncated by an integer division, which also divided by zero
on an axis resized to 1.
---
 src/acetone_nnet/generator/layers/resize/Resize.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/resize/Resize.py b/src/acetone_nnet/generator/layers/resize/Resize.py
index b9cc327..771c891 100644
--- a/src/acetone_nnet/generator/layers/resize/Resize.py
+++ b/src/acetone_nnet/generator/layers/resize/Resize.py
@@ -319,9 +319,10 @@ class Resize(Layer):
             length_original = self.input_width
             length_resized = self.output_width
 
-        s = (f"{coord_original} = {coord_resized}*({length_original} - 1)"
-             f"/({length_resized} - 1);")
-        return s
+        if length_resized == 1:
+            return f"{coord_original} = 0;"
+        return (f"{coord_original} = {coord_resized}*({length_original} - 1.)"
+                f"/({length_resized} - 1.);")
 
     def align_corners_implem(
             self: Self,
@@ -336,6 +337,8 @@ class Resize(Layer):
             length_original = self.input_width
             length_resized = self.output_width
 
+        if length_resized == 1:
+            return 0
         return coordinate * (length_original - 1) / (length_resized - 1)
 
     def asymmetric(
-- 
2.43.0


From da2ebe6d1b3d7b73139c8f11d9e9095069e589e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:12 +0000
Subject: [PATCH 018/107] fix: interpolate between neighbours in the linear
 resize of a vector

It interpolated between the first and last element of the axis.
---
 .../layers/Resize/template_ResizeLinear1D.c.tpl  | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/acetone_nnet/templates/layers/Resize/template_ResizeLinear1D.c.tpl b/src/acetone_nnet/templates/layers/Resize/template_ResizeLinear1D.c.tpl
index 6fd876a..31d7120 100644
--- a/src/acetone_nnet/templates/layers/Resize/template_ResizeLinear1D.c.tpl
+++ b/src/acetone_nnet/templates/layers/Resize/template_ResizeLinear1D.c.tpl
@@ -1,20 +1,20 @@
     // {{name}}_{{idx}}{{comment}} {{#original_name}}(layer {{original_name}} in  input model){{/original_name}}
-    x1 = {{len_dimension}};
-    x0 = 0;
-
     for (f = 0; f < {{output_channels}}; ++f)
     {
-        f11 = ctx->{{output_str}}[x0 + {{dimension}}*f];
-        f22 = ctx->{{output_str}}[x1 + {{dimension}}*f];
-
         for (i = 0; i < {{output_height}}; ++i)
         {
             for(j = 0; j < {{output_width}}; ++j)
             {
                 {{{coordinate_transformation_mode}}}
-                x = x<x0 ? x0 : (x>x1 ? x1: x);
+                x = x<0 ? 0 : (x>{{len_dimension}} ? {{len_dimension}}: x);
+
+                x0 = floor(x);
+                x1 = x0 + 1;
+
+                f11 = ctx->{{output_str}}[x0 + {{dimension}}*f];
+                f22 = x1 >= {{dimension}} ? 0 : ctx->{{output_str}}[x1 + {{dimension}}*f];
 
-                ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)] = (f11*(x1 - x) + f22*(x - x0))/(x1 - x0);
+                ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)] = f11*(x1 - x) + f22*(x - x0);
                 ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)] = {{{activation_function}}};
             }
         }
-- 
2.43.0


From bc9c9d12b6244764e9e21ba4a9afde3c7b679bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:12 +0000
Subject: [PATCH 019/107] fix: keep the nearest element inside the input of a
 resize

---
 .../generator/layers/resize/resize_nearest/ResizeNearest.py    | 3 +++
 .../layers/resize/resize_nearest/ResizeNearestDefault.py       | 2 ++
 .../templates/layers/Resize/template_ResizeNearest.c.tpl       | 2 ++
 3 files changed, 7 insertions(+)

diff --git a/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearest.py b/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearest.py
index fdf8b18..d70d036 100644
--- a/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearest.py
+++ b/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearest.py
@@ -88,5 +88,8 @@ class ResizeNearest(Resize):
                     y = self.coordinate_transformation_mode_implem_mapping[self.coordinate_transformation_mode](j, 3)
                     y0 = self.nearest_mode_implem_mapping[self.nearest_mode](y)
 
+                    x0 = max(0, min(self.input_height - 1, x0))
+                    y0 = max(0, min(self.input_width - 1, y0))
+
                     output[f, i, j] = input_array[f, x0, y0]
         return output
diff --git a/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearestDefault.py b/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearestDefault.py
index 66df2fd..17a6c4d 100644
--- a/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearestDefault.py
+++ b/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearestDefault.py
@@ -74,6 +74,8 @@ class ResizeNearestDefault(ResizeNearest):
         mustach_hash["output_channels"] = self.output_channels
         mustach_hash["output_height"] = self.output_height
         mustach_hash["output_width"] = self.output_width
+        mustach_hash["input_height"] = self.input_height
+        mustach_hash["input_width"] = self.input_width
         mustach_hash["coordinate_transformation_mode_x"] = self.coordinate_transformation_mode_mapping[
             self.coordinate_transformation_mode]("i", 2, "x")
         mustach_hash["coordinate_transformation_mode_y"] = self.coordinate_transformation_mode_mapping[
diff --git a/src/acetone_nnet/templates/layers/Resize/template_ResizeNearest.c.tpl b/src/acetone_nnet/templates/layers/Resize/template_ResizeNearest.c.tpl
index 243cd4c..749ed6e 100644
--- a/src/acetone_nnet/templates/layers/Resize/template_ResizeNearest.c.tpl
+++ b/src/acetone_nnet/templates/layers/Resize/template_ResizeNearest.c.tpl
@@ -9,6 +9,8 @@
                 {{{coordinate_transformation_mode_y}}}
                 {{nearest_mode_x}}
                 {{nearest_mode_y}}
+                x0 = x0 < 0 ? 0 : (x0 >= {{input_height}} ? {{input_height}} - 1 : x0);
+                y0 = y0 < 0 ? 0 : (y0 >= {{input_width}} ? {{input_width}} - 1 : y0);
                 ctx->tensor_temp[j + {{output_width}}*(i + {{output_height}}*f)] = {{{activation_function}}};
             }
         }
-- 
2.43.0


From 7cca5756509fffc06ce85486e5d037a7bd3f355f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:23 +0000
Subject: [PATCH 020/107] fix: make the half_pixel_symmetric resize compile and
 keep its center

---
 .../generator/layers/resize/Resize.py         | 29 +++++++------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/resize/Resize.py b/src/acetone_nnet/generator/layers/resize/Resize.py
index 771c891..5bf6da2 100644
--- a/src/acetone_nnet/generator/layers/resize/Resize.py
+++ b/src/acetone_nnet/generator/layers/resize/Resize.py
@@ -242,19 +242,21 @@ class Resize(Layer):
             coord_original: str,
     ) -> str:
         """Generate the half-pixel-symmetric coordinate transformation code."""
+        offset = self.half_pixel_symmetric_offset(coord_dim)
+        return (f"{coord_original} = {offset} + ({coord_resized} + 0.5)"
+                f"/{self.scale[coord_dim]} - 0.5;")
+
+    def half_pixel_symmetric_offset(self: Self, coord_dim: int) -> float:
+        """Compute the offset keeping the center of the tensor in place."""
         if coord_dim == 2:
-            target_length = self.output_height * self.scale[2]
             input_length = self.input_height
+            output_length = self.output_height
         else:
-            target_length = self.output_width * self.scale[3]
             input_length = self.input_width
+            output_length = self.output_width
 
-        s = f"float adjustment = {int(target_length)}/{target_length};\n"
-        s += f"                float center = {input_length}/2;\n"
-        s += "                float offset = center*(1 - adjustment);\n"
-        s += (f"                {coord_original} = offset + ({coord_resized} + 0.5)"
-              f"/{self.scale[coord_dim]} - 0.5;")
-        return s
+        adjustment = output_length / (input_length * float(self.scale[coord_dim]))
+        return input_length / 2 * (1 - adjustment)
 
     def half_pixel_symmetric_implem(
             self: Self,
@@ -262,16 +264,7 @@ class Resize(Layer):
             coordinate_dimension: int,
     ) -> float:
         """Compute the half-pixel-symmetric coordinate transformation code."""
-        if coordinate_dimension == 2:
-            target_length = self.output_height * self.scale[2]
-            input_length = self.input_height
-        else:
-            target_length = self.output_width * self.scale[3]
-            input_length = self.input_width
-
-        adjustment = int(target_length) / target_length
-        center = input_length / 2
-        offset = center * (1 - adjustment)
+        offset = self.half_pixel_symmetric_offset(coordinate_dimension)
         return offset + (coordinate + 0.5) / self.scale[coordinate_dimension] - 0.5
 
     def pytorch_half_pixel(
-- 
2.43.0


From 292409c8a7ab7d099b99ee1febfe621b3338b244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:27 +0000
Subject: [PATCH 021/107] fix: apply the axes of Resize and refuse the variants
 it does not implement

---
 .../importers/ONNX_importer/create_layer.py   | 24 ++++++++++++++-----
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index b51834f..1909687 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -364,11 +364,6 @@ def resize_set_default_attributes_values(
     """Set default value in attributes."""
     if "axes" not in attributes:
         attributes["axes"] = []
-    else:
-        for i in range(len(attributes["axes"])):
-            axe = attributes["axes"][i]
-            if axe < 0:
-                axe = len(input_shape) - axe
     if "coordinate_transformation_mode" not in attributes:
         attributes["coordinate_transformation_mode"] = "half_pixel"
     if "exclude_outside" not in attributes:
@@ -414,6 +409,23 @@ def create_resize(
         targ_size = onnx.numpy_helper.to_array(initializers[1])
         bool_resize = 1
 
+    # Gather the sizes of the resized axes into the sizes of the four axes
+    if attributes["axes"]:
+        rank = len(get_shape(node.input[0], model, extend=False))
+        full_size = [1.0] * 4 if bool_resize else [int(dim) for dim in input_shape]
+        for i, axe in enumerate(attributes["axes"]):
+            full_size[4 - rank + axe % rank] = targ_size[i]
+        targ_size = np.array(full_size)
+
+    if (
+        attributes["exclude_outside"]
+        or attributes.get("antialias", 0)
+        or any(output_shape[i] != input_shape[i] for i in range(2))
+        or (bool_resize and any(targ_size[i] != 1 for i in range(2)))
+    ):
+        msg = f"Error: Resize {node.name} excludes the outside, is antialiased or resizes its channels"
+        raise ValueError(msg)
+
     roi = onnx.numpy_helper.to_array(initializers[0]) if initializers[0] else []
 
     return create_resize_obj(
@@ -422,7 +434,7 @@ def create_resize(
         idx=idx,
         size=size,
         input_shape=input_shape,
-        axes=attributes["axes"],
+        axes=[],
         coordinate_transformation_mode=attributes["coordinate_transformation_mode"],
         exclude_outside=attributes["exclude_outside"],
         keep_aspect_ratio_policy=attributes["keep_aspect_ratio_policy"],
-- 
2.43.0


From cd9f21cddf4384fd80e8a7d5a19ab6ad664b3f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:27 +0000
Subject: [PATCH 022/107] fix: print the missing bounds of Clip as C infinities

---
 .../generator/activation_functions.py          | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/src/acetone_nnet/generator/activation_functions.py b/src/acetone_nnet/generator/activation_functions.py
index afa6338..ee96dfb 100644
--- a/src/acetone_nnet/generator/activation_functions.py
+++ b/src/acetone_nnet/generator/activation_functions.py
@@ -267,19 +267,9 @@ class Clip(ActivationFunctions):
         """Generate the string to print."""
         # output = condition ? value_if_true : value_if_false
         # output = input > max ? max : (input < min ? min : input)
+        high = str(self.max).replace("inf", "INFINITY")
+        low = str(self.min).replace("inf", "INFINITY")
         return (
-            local_var
-            + " > "
-            + str(self.max)
-            + " ? "
-            + str(self.max)
-            + " : ("
-            + local_var
-            + " < "
-            + str(self.min)
-            + " ? "
-            + str(self.min)
-            + " : "
-            + local_var
-            + ")"
+            f"{local_var} > {high} ? {high} : "
+            f"({local_var} < {low} ? {low} : {local_var})"
         )
-- 
2.43.0


From 7a03c530cd13b54abdf2eabf6822617d8d4cb4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:27 +0000
Subject: [PATCH 023/107] fix: do not fuse an activation into the input layer

---
 .../pattern_matching/patterns/FuseActivationLayers.py       | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/acetone_nnet/pattern_matching/patterns/FuseActivationLayers.py b/src/acetone_nnet/pattern_matching/patterns/FuseActivationLayers.py
index 560173d..b6610e5 100644
--- a/src/acetone_nnet/pattern_matching/patterns/FuseActivationLayers.py
+++ b/src/acetone_nnet/pattern_matching/patterns/FuseActivationLayers.py
@@ -21,7 +21,7 @@
 from typing_extensions import Self
 
 from acetone_nnet.generator.activation_functions import Linear
-from acetone_nnet.generator.layers import ActivationLayer
+from acetone_nnet.generator.layers import ActivationLayer, InputLayer
 from acetone_nnet.ir import Layer
 from acetone_nnet.pattern_matching.Pattern import (
     Pattern,
@@ -51,12 +51,12 @@ class FuseActivationLayer(Pattern):
 
         #Check if the previous layer:
         #   - exists
-        #   - is not an activation layer
+        #   - is not an activation layer nor an input layer
         #   - can be fused with an activation function
         #   - only has one child
         if len(layer.previous_layer) != 1:
             return False
-        if isinstance(layer.previous_layer[0], ActivationLayer):
+        if isinstance(layer.previous_layer[0], (ActivationLayer, InputLayer)):
             return False
         if not hasattr(layer.previous_layer[0], "activation_function"):
             return False
-- 
2.43.0


From db6fa6cdbf9af58af59a98b17facf1a62cf85ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:27 +0000
Subject: [PATCH 024/107] fix: normalise the axes ONNX specifies in Softmax

---
 .../importers/ONNX_importer/create_layer.py   | 25 +++++++++++--------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index 1909687..f280c57 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -244,22 +244,27 @@ def create_softmax(
     dict_input[idx] = node.input
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
-    if "axis" not in attributes:
-        if model.opset_import[0].version < onnx_version_change_implementation:
-            attributes["axis"] = 1
-        else:
-            attributes["axis"] = len(output_shape) - 1
-    elif attributes["axis"] < 0:
-        attributes["axis"] = len(output_shape) + attributes["axis"]
-    else:
-        attributes["axis"] = 4 + attributes["axis"] - len(input_shape)
+    rank = len(input_shape)
+    flatten = model.opset_import[0].version < onnx_version_change_implementation
+    axis = attributes.get("axis", 1 if flatten else -1) % rank
+    if flatten:
+        # The axes from axis onwards are normalised together
+        axes = [i for i in range(axis, rank) if input_shape[i] != 1]
+        if len(axes) > 1:
+            msg = f"Error: Softmax {node.name} over several axes"
+            raise ValueError(msg)
+        axis = axes[0] if axes else axis
+    axis += 4 - rank
+    if size in output_shape and output_shape[axis] != size:
+        msg = f"Error: Softmax {node.name} over an axis of length 1"
+        raise ValueError(msg)
 
     return Softmax(
         original_name=node.name,
         idx=idx,
         size=size,
         output_shape=output_shape,
-        axis=attributes["axis"],
+        axis=axis,
     )
 
 
-- 
2.43.0


From d4bf55dcc288c5c19178f1f56db74b4b13f2b5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:43 +0000
Subject: [PATCH 025/107] fix: use the winograd tiles of direct_block on even
 outputs only

---
 .../layers/convolution/Conv2Ddirect_block.py      | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/convolution/Conv2Ddirect_block.py b/src/acetone_nnet/generator/layers/convolution/Conv2Ddirect_block.py
index 4cb4020..3df8ee7 100644
--- a/src/acetone_nnet/generator/layers/convolution/Conv2Ddirect_block.py
+++ b/src/acetone_nnet/generator/layers/convolution/Conv2Ddirect_block.py
@@ -31,11 +31,20 @@ import numpy as np
 class Conv2Ddirect_block(Conv2D):
     """Implements Conv2D using the six-loops algorithm (direct conv) with blocking of channels."""
 
+    def is_winograd(self: Self) -> bool:
+        """Check if the convolution is computed by tiles of 2x2 outputs."""
+        return (
+            self.kernel_h == 3
+            and self.kernel_w == 3
+            and self.strides == 1
+            and self.output_height % 2 == 0
+            and self.output_width % 2 == 0
+        )
+
     def transform_to_6d_blocked_layout(self):
         '''
         converts weight shape to layout dedicated to optimized template
         '''
-        even_image = self.input_width%2==0
         K, C, KH, KW = self.weights.shape
         assert C==self.input_channels//self.group
         assert K==self.nb_filters
@@ -49,7 +58,7 @@ class Conv2Ddirect_block(Conv2D):
             layout = layout.reshape(nb_k, self.block_k, C) #no bloc_c for 1x1 conv
             return layout.transpose(0, 2, 1).copy("C")
         #case winograd 3x3 stride 1
-        elif layout.shape[2]==3 and layout.shape[3]==3 and self.strides==1 and even_image:
+        elif self.is_winograd():
             w_orig = layout
             G = np.array([[1.0, 0.0, 0.0], [0.5, 0.5, 0.5], [0.5, -0.5, 0.5], [0.0, 0.0, 1.0]],dtype=np.float32)
             w_win = np.einsum('ij,okjl,ml->okim',G,layout,G,optimize=True)
@@ -111,7 +120,7 @@ class Conv2Ddirect_block(Conv2D):
         elif self.kernel_h==1 and self.kernel_w==1 and self.padding==1:
             tpl = "template_Conv1x1_block.c.tpl"
         #case 3x3, stride 1, even size, winograd
-        elif self.kernel_h==3 and self.kernel_w==3 and self.strides==1 and self.input_width%2==0:
+        elif self.is_winograd():
             tpl = "template_Conv3x3_winograd.c.tpl"
         else:
             tpl = "template_Conv_direct_block.c.tpl"
-- 
2.43.0


From ef3718da10d7e23b735109c397305bc220d0e55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:43 +0000
Subject: [PATCH 026/107] fix: convert the layout of an output computed by an
 activation layer

---
 src/acetone_nnet/generator/neural_network.py | 30 ++++++++++++++------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index 09d0eb7..6bfb41c 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -47,12 +47,14 @@ from typing_extensions import Self
 
 from acetone_nnet import templates
 from acetone_nnet.importers.parser import parser
+from acetone_nnet.ir import Layer
 from acetone_nnet.pattern_matching.PatternMatcher import pattern_matcher
 from acetone_nnet.quantize import qform
 from acetone_nnet.quantize.activation import QuantizeShiftActivation
 from acetone_nnet.templates.template_makefile import TemplateMakefile
 from acetone_nnet.versioning.versioning import versioning
 from .layers import (
+    ActivationLayer,
     InputLayer,
     AveragePooling2D,
     BatchNormalization,
@@ -372,6 +374,18 @@ class CodeGenerator(ABC):
         """Return the input shape of the model."""
         return self.layers[0].input_shape
 
+    @staticmethod
+    def get_image_shape(layer: Layer) -> tuple[int, int, int] | None:
+        """Return the channels, height and width of the output of a layer, if any."""
+        while isinstance(layer, ActivationLayer):
+            # The output has the shape and the layout of the input
+            layer = layer.previous_layer[0]
+        if hasattr(layer, "output_channels"):
+            return layer.output_channels, layer.output_height, layer.output_width
+        if isinstance(layer, InputLayer) and len(layer.input_shape) == 4:  # noqa: PLR2004
+            return tuple(layer.input_shape[1:])
+        return None
+
     def _initialise_dataset(
         self: Self,
         dataset_or_path: np.ndarray | str | Path | None,
@@ -571,10 +585,9 @@ class CodeGenerator(ABC):
                 nn_output = layer_output
 
                 # Write results in text files to compare prediction.
-                if (self.data_format == "channels_last") and hasattr(
-                    layer,
-                    "output_channels",
-                ):
+                output_shape = self.get_image_shape(layer)
+                if self.data_format == "channels_last" and output_shape is not None:
+                    nn_output = np.reshape(nn_output, output_shape)
                     nn_output = np.transpose(nn_output, (1, 2, 0))
                 nn_output = np.reshape(nn_output, -1)
 
@@ -929,10 +942,11 @@ class CodeGenerator(ABC):
 
         # Generate code to output graph data
         output_hash = {"path": self.layers[-1].path}
-        if hasattr(self.layers[-1], "output_channels"):
-            output_hash["output_height"] = self.layers[-1].output_height
-            output_hash["output_width"] = self.layers[-1].output_width
-            output_hash["output_channels"] = self.layers[-1].output_channels
+        output_shape = self.get_image_shape(self.layers[-1])
+        if output_shape is not None:
+            output_hash["output_channels"] = output_shape[0]
+            output_hash["output_height"] = output_shape[1]
+            output_hash["output_width"] = output_shape[2]
             if (self.data_format == "channels_first") and (self.gen_data_format=="channels_last"):
                 output_hash["channels_last_to_first"] = True
             elif (self.data_format == "channels_last") and (self.gen_data_format=="channels_first"):
-- 
2.43.0


From 1cf96239f5704e57af304ebcbf769d3179ccd766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:16 +0000
Subject: [PATCH 027/107] fix: refuse implementations that do not use the
 generated data layout

---
 src/acetone_nnet/generator/layers/__init__.py |  1 +
 src/acetone_nnet/generator/neural_network.py  | 29 +++++++++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/src/acetone_nnet/generator/layers/__init__.py b/src/acetone_nnet/generator/layers/__init__.py
index 416e113..7c1cc02 100644
--- a/src/acetone_nnet/generator/layers/__init__.py
+++ b/src/acetone_nnet/generator/layers/__init__.py
@@ -68,6 +68,7 @@ from .convolution import (
     Conv2DGemmTarget,
     Conv2DIndirectGemm,
     Conv2DStdGemm,
+    Conv2Ddirect_block,
 )
 from .dense import Dense, DenseDefault
 from .flatten import Flatten, FlattenDefault
diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index 6bfb41c..f3c7f31 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -66,6 +66,7 @@ from .layers import (
     Conv2DGemmTarget,
     Conv2DIndirectGemm,
     Conv2DStdGemm,
+    Conv2Ddirect_block,
     Dense,
     Gather,
     GatherElements,
@@ -199,6 +200,7 @@ class CodeGenerator(ABC):
         }
         self.versions = self.select_layers_implementation(versions)
         self.layers = versioning(self.layers, self.versions)
+        self.check_data_layout()
 
         self.quantize_layers()
 
@@ -356,6 +358,33 @@ class CodeGenerator(ABC):
                         break
         return selected_implementations
 
+    def check_data_layout(self: Self) -> None:
+        """Check that the selected implementations use the generated data layout."""
+
+        def has_layout(layer: Layer) -> bool:
+            # Both layouts are the same with only one channel or one position
+            shape = self.get_image_shape(layer)
+            return shape is not None and shape[0] > 1 and shape[1] * shape[2] > 1
+
+        for layer in self.layers:
+            if isinstance(layer, InputLayer | ActivationLayer) or not any(
+                has_layout(tensor) for tensor in (layer, *layer.previous_layer)
+            ):
+                continue
+            layout = "channels_first"
+            if isinstance(layer, Conv2Ddirect_block) or (
+                isinstance(layer, Pooling2D) and layer.version == "channels_last"
+            ):
+                layout = "channels_last"
+            elif isinstance(layer, Broadcast) and layer.constant is None and all(
+                self.get_image_shape(tensor) == self.get_image_shape(layer)
+                for tensor in layer.previous_layer
+            ):
+                layout = self.gen_data_format
+            if layout != self.gen_data_format:
+                msg = f"Error: {layer.name} {layer.idx} is not implemented in {self.gen_data_format}"
+                raise ValueError(msg)
+
     def load_debug_target(
         self: Self,
         debug_mode: str | None,
-- 
2.43.0


From c1c8fc38538fe8eee841940cbc407786bda034bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:06 +0000
Subject: [PATCH 028/107] fix: pool the in-bounds elements of padded windows in
 the reference inference

---
 .../generator/layers/pooling/Pooling2D.py     | 23 +++++++++----------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/pooling/Pooling2D.py b/src/acetone_nnet/generator/layers/pooling/Pooling2D.py
index 802675f..86c6907 100644
--- a/src/acetone_nnet/generator/layers/pooling/Pooling2D.py
+++ b/src/acetone_nnet/generator/layers/pooling/Pooling2D.py
@@ -145,18 +145,17 @@ class Pooling2D(Layer):
 
         output = np.zeros((self.input_channels, self.output_height, self.output_width))
 
-        if self.pad_right and self.pad_left and self.pad_top and self.pad_bottom:
-            input_padded = np.zeros((self.input_channels, self.input_height + self.pad_top + self.pad_bottom,
-                                     self.input_width + self.pad_left + self.pad_right))
-            input_padded[:, self.pad_top:-self.pad_bottom, self.pad_left:-self.pad_right] = input_array
-        else:
-            input_padded = input_array
-
         for c in range(self.input_channels):
             for i in range(self.output_height):
                 for j in range(self.output_width):
-                    output[c, i, j] = self.pooling_function(
-                        input_padded[c, i * self.strides:i * self.strides + self.pool_size,
-                        j * self.strides:j * self.strides + self.pool_size])
-
-        return output
\ No newline at end of file
+                    # Only the elements of the window inside the input count
+                    top = i * self.strides - self.pad_top
+                    left = j * self.strides - self.pad_left
+                    window = input_array[
+                        c,
+                        max(top, 0):max(top + self.pool_size, 0),
+                        max(left, 0):max(left + self.pool_size, 0),
+                    ]
+                    output[c, i, j] = self.pooling_function(window)
+
+        return self.activation_function.compute(output)
\ No newline at end of file
-- 
2.43.0


From 72a7675716f1c86a0a6b34df44dccdd4f588ddf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:32 +0000
Subject: [PATCH 029/107] fix: broadcast the operands of elementwise layers in
 the reference inference

---
 src/acetone_nnet/generator/layers/broadcast/add/Add.py    | 4 ++--
 .../generator/layers/broadcast/average/Average.py         | 8 +++++---
 .../generator/layers/broadcast/divide/Divide.py           | 2 +-
 .../generator/layers/broadcast/maximum/Maximum.py         | 8 +++++---
 .../generator/layers/broadcast/minimum/Minimum.py         | 8 +++++---
 .../generator/layers/broadcast/multiply/Multiply.py       | 2 +-
 .../generator/layers/broadcast/subtract/Subtract.py       | 2 +-
 7 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/broadcast/add/Add.py b/src/acetone_nnet/generator/layers/broadcast/add/Add.py
index 6e5ba75..22d218b 100644
--- a/src/acetone_nnet/generator/layers/broadcast/add/Add.py
+++ b/src/acetone_nnet/generator/layers/broadcast/add/Add.py
@@ -118,14 +118,14 @@ class Add(Layer):
                 .astype(dtype=getattr(self, "temp_pydtype", input_arrays[0].dtype))
             )
             for i in range(1, len(input_arrays)):
-                output += np.reshape(input_arrays[i], self.input_shapes[i][1:])
+                output = output + np.reshape(input_arrays[i], self.input_shapes[i][1:])
             """ checks that accumulator does not overflow in low precision integer """
             if np.issubdtype(input_arrays[0].dtype,np.integer):
                 out_i64 = (
                     np.copy(input_arrays[0])
                     .reshape(self.input_shapes[0][1:])
                     .astype(dtype=np.int64))
-                out_i64 += np.reshape(input_arrays[i], self.input_shapes[i][1:]).astype(dtype=np.int64)
+                out_i64 = out_i64 + np.reshape(input_arrays[i], self.input_shapes[i][1:]).astype(dtype=np.int64)
                 if (output != out_i64).all():
                     logging.warning("Add integer overflow !!!")
         else:
diff --git a/src/acetone_nnet/generator/layers/broadcast/average/Average.py b/src/acetone_nnet/generator/layers/broadcast/average/Average.py
index befd1f7..1f67e42 100644
--- a/src/acetone_nnet/generator/layers/broadcast/average/Average.py
+++ b/src/acetone_nnet/generator/layers/broadcast/average/Average.py
@@ -113,9 +113,11 @@ class Average(Layer):
 
     def forward_path_layer(self: Self, input_arrays: np.ndarray) -> np.ndarray:
         """Compute output of layer."""
-        output = input_arrays[0]
-        for input_array in input_arrays[1:]:
-            output += input_array
+        if len(self.previous_layer) == 1:
+            input_arrays = [input_arrays]
+        output = np.reshape(input_arrays[0], self.input_shapes[0][1:])
+        for i in range(1, len(input_arrays)):
+            output = output + np.reshape(input_arrays[i], self.input_shapes[i][1:])
         return self.activation_function.compute(output / (len(input_arrays)))
 
     def generate_inference_code_layer(self: Self) -> str:
diff --git a/src/acetone_nnet/generator/layers/broadcast/divide/Divide.py b/src/acetone_nnet/generator/layers/broadcast/divide/Divide.py
index 29f1557..d67a028 100644
--- a/src/acetone_nnet/generator/layers/broadcast/divide/Divide.py
+++ b/src/acetone_nnet/generator/layers/broadcast/divide/Divide.py
@@ -131,7 +131,7 @@ class Divide(Layer):
         if len(self.previous_layer) > 1:
             output = np.copy(input_arrays[0]).reshape(self.input_shapes[0][1:])
             for i in range(1, len(input_arrays)):
-                output /= np.reshape(input_arrays[i], self.input_shapes[i][1:])
+                output = output / np.reshape(input_arrays[i], self.input_shapes[i][1:])
         else:
             output = np.reshape(input_arrays, self.input_shapes[0][1:])
         return self.activation_function.compute(output / constant)
diff --git a/src/acetone_nnet/generator/layers/broadcast/maximum/Maximum.py b/src/acetone_nnet/generator/layers/broadcast/maximum/Maximum.py
index d36fe5e..1546f59 100644
--- a/src/acetone_nnet/generator/layers/broadcast/maximum/Maximum.py
+++ b/src/acetone_nnet/generator/layers/broadcast/maximum/Maximum.py
@@ -124,9 +124,11 @@ class Maximum(Layer):
 
     def forward_path_layer(self: Self, input_arrays: np.ndarray) -> np.ndarray:
         """Compute output of layer."""
-        maxi = input_arrays[0]
-        for input_array in input_arrays[1:]:
-            maxi = np.maximum(maxi, input_array)
+        if len(self.previous_layer) == 1:
+            input_arrays = [input_arrays]
+        maxi = np.reshape(input_arrays[0], self.input_shapes[0][1:])
+        for i in range(1, len(input_arrays)):
+            maxi = np.maximum(maxi, np.reshape(input_arrays[i], self.input_shapes[i][1:]))
         return self.activation_function.compute(maxi)
 
     def generate_inference_code_layer(self: Self) -> str:
diff --git a/src/acetone_nnet/generator/layers/broadcast/minimum/Minimum.py b/src/acetone_nnet/generator/layers/broadcast/minimum/Minimum.py
index 479c5e0..be19bc1 100644
--- a/src/acetone_nnet/generator/layers/broadcast/minimum/Minimum.py
+++ b/src/acetone_nnet/generator/layers/broadcast/minimum/Minimum.py
@@ -124,9 +124,11 @@ class Minimum(Layer):
 
     def forward_path_layer(self: Self, input_arrays: np.ndarray) -> np.ndarray:
         """Compute output of layer."""
-        mini = input_arrays[0]
-        for input_array in input_arrays[1:]:
-            mini = np.minimum(mini, input_array)
+        if len(self.previous_layer) == 1:
+            input_arrays = [input_arrays]
+        mini = np.reshape(input_arrays[0], self.input_shapes[0][1:])
+        for i in range(1, len(input_arrays)):
+            mini = np.minimum(mini, np.reshape(input_arrays[i], self.input_shapes[i][1:]))
         return self.activation_function.compute(mini)
 
     def generate_inference_code_layer(self: Self) -> str:
diff --git a/src/acetone_nnet/generator/layers/broadcast/multiply/Multiply.py b/src/acetone_nnet/generator/layers/broadcast/multiply/Multiply.py
index 392e569..6f5444c 100644
--- a/src/acetone_nnet/generator/layers/broadcast/multiply/Multiply.py
+++ b/src/acetone_nnet/generator/layers/broadcast/multiply/Multiply.py
@@ -131,7 +131,7 @@ class Multiply(Layer):
         if len(self.previous_layer) > 1:
             output = np.copy(input_arrays[0]).reshape(self.input_shapes[0][1:])
             for i in range(1, len(input_arrays)):
-                output *= np.reshape(input_arrays[i], self.input_shapes[i][1:])
+                output = output * np.reshape(input_arrays[i], self.input_shapes[i][1:])
         else:
             output = np.reshape(input_arrays, self.input_shapes[0][1:])
         return self.activation_function.compute(output * constant)
diff --git a/src/acetone_nnet/generator/layers/broadcast/subtract/Subtract.py b/src/acetone_nnet/generator/layers/broadcast/subtract/Subtract.py
index db4bde4..e98e39c 100644
--- a/src/acetone_nnet/generator/layers/broadcast/subtract/Subtract.py
+++ b/src/acetone_nnet/generator/layers/broadcast/subtract/Subtract.py
@@ -131,7 +131,7 @@ class Subtract(Layer):
         if len(self.previous_layer) > 1:
             output = np.copy(input_arrays[0]).reshape(self.input_shapes[0][1:])
             for i in range(1, len(input_arrays)):
-                output -= np.reshape(input_arrays[i], self.input_shapes[i][1:])
+                output = output - np.reshape(input_arrays[i], self.input_shapes[i][1:])
         else:
             output = np.reshape(input_arrays, self.input_shapes[0][1:])
         return self.activation_function.compute(output - constant)
-- 
2.43.0


From 4242e424893915e495d022989f311c341e6878ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:32 +0000
Subject: [PATCH 030/107] fix: apply the dilation and groups of Conv2D in the
 reference inference

---
 .../generator/layers/convolution/Conv2D.py            | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/convolution/Conv2D.py b/src/acetone_nnet/generator/layers/convolution/Conv2D.py
index 09d82eb..b6854ad 100644
--- a/src/acetone_nnet/generator/layers/convolution/Conv2D.py
+++ b/src/acetone_nnet/generator/layers/convolution/Conv2D.py
@@ -267,15 +267,20 @@ class Conv2D(Layer):
         else:
             input_padded = input_array
 
+        group_channels = self.input_channels // self.group
+        group_filters = self.nb_filters // self.group
+        span_h = (self.kernel_h - 1) * self.dilation_rate + 1
+        span_w = (self.kernel_w - 1) * self.dilation_rate + 1
         for f in range(self.nb_filters):
+            first_channel = (f // group_filters) * group_channels
             for i in range(self.output_height):
                 for j in range(self.output_width):
                     w = (
                         self.weights[f, :, :, :]
                         * input_padded[
-                            ::self.group,
-                            i * self.strides : i * self.strides + self.kernel_h,
-                            j * self.strides : j * self.strides + self.kernel_w,
+                            first_channel : first_channel + group_channels,
+                            i * self.strides : i * self.strides + span_h : self.dilation_rate,
+                            j * self.strides : j * self.strides + span_w : self.dilation_rate,
                         ]
                     )
                     output[f, i, j] = np.sum(w) + self.biases[f]
-- 
2.43.0


From 911bd7867dbd166e7a11c10f2e84c3c6969cdcaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:50 +0000
Subject: [PATCH 031/107] fix: apply the fused activation of data movement
 layers in the reference inference

---
 src/acetone_nnet/generator/layers/gather/Gather.py          | 4 +++-
 .../generator/layers/gather_elements/GatherElements.py      | 2 +-
 .../generator/layers/reduce/reduce_max/ReduceMax.py         | 6 +++---
 .../generator/layers/reduce/reduce_mean/ReduceMean.py       | 6 +++---
 .../generator/layers/reduce/reduce_min/ReduceMin.py         | 6 +++---
 .../generator/layers/reduce/reduce_prod/ReduceProd.py       | 6 +++---
 .../generator/layers/reduce/reduce_sum/ReduceSum.py         | 6 +++---
 .../generator/layers/resize/resize_cubic/ResizeCubic.py     | 2 +-
 .../generator/layers/resize/resize_linear/ResizeLinear.py   | 2 +-
 .../generator/layers/resize/resize_nearest/ResizeNearest.py | 2 +-
 src/acetone_nnet/generator/layers/tile/Tile.py              | 2 +-
 src/acetone_nnet/generator/layers/transpose/Transpose.py    | 2 +-
 12 files changed, 24 insertions(+), 22 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/gather/Gather.py b/src/acetone_nnet/generator/layers/gather/Gather.py
index 55a87d0..1697c08 100644
--- a/src/acetone_nnet/generator/layers/gather/Gather.py
+++ b/src/acetone_nnet/generator/layers/gather/Gather.py
@@ -130,4 +130,6 @@ class Gather(Layer):
             self.input_channels,
             self.input_height,
             self.input_width)
-        return np.take(input_array, indices=self.indices, axis=self.axis - 1)
\ No newline at end of file
+        return self.activation_function.compute(
+            np.take(input_array, indices=self.indices, axis=self.axis - 1),
+        )
\ No newline at end of file
diff --git a/src/acetone_nnet/generator/layers/gather_elements/GatherElements.py b/src/acetone_nnet/generator/layers/gather_elements/GatherElements.py
index 127a1d6..acd32da 100644
--- a/src/acetone_nnet/generator/layers/gather_elements/GatherElements.py
+++ b/src/acetone_nnet/generator/layers/gather_elements/GatherElements.py
@@ -155,4 +155,4 @@ class GatherElements(Layer):
                         output[f, i, j] = input_array[f, self.indices[0, f, i, j], j]
                     elif self.axis == 3:
                         output[f, i, j] = input_array[f, i, self.indices[0, f, i, j]]
-        return output
\ No newline at end of file
+        return self.activation_function.compute(output)
\ No newline at end of file
diff --git a/src/acetone_nnet/generator/layers/reduce/reduce_max/ReduceMax.py b/src/acetone_nnet/generator/layers/reduce/reduce_max/ReduceMax.py
index 4a71509..2608dea 100644
--- a/src/acetone_nnet/generator/layers/reduce/reduce_max/ReduceMax.py
+++ b/src/acetone_nnet/generator/layers/reduce/reduce_max/ReduceMax.py
@@ -137,9 +137,9 @@ class ReduceMax(Layer):
         input_array = input_array.reshape(1, self.input_channels, self.input_height, self.input_width)
         if self.axes == ():
             if self.noop_with_empty_axes:
-                return input_array
-            return np.max(input_array, axis=None, keepdims=self.keepdims)
-        return np.max(input_array, axis=self.axes, keepdims=self.keepdims)
+                return self.activation_function.compute(input_array)
+            return self.activation_function.compute(np.max(input_array, axis=None, keepdims=self.keepdims))
+        return self.activation_function.compute(np.max(input_array, axis=self.axes, keepdims=self.keepdims))
 
 
     def generate_inference_code_layer(self: Self) -> str:
diff --git a/src/acetone_nnet/generator/layers/reduce/reduce_mean/ReduceMean.py b/src/acetone_nnet/generator/layers/reduce/reduce_mean/ReduceMean.py
index a24ff1b..17bbf06 100644
--- a/src/acetone_nnet/generator/layers/reduce/reduce_mean/ReduceMean.py
+++ b/src/acetone_nnet/generator/layers/reduce/reduce_mean/ReduceMean.py
@@ -119,9 +119,9 @@ class ReduceMean(Layer):
         input_array = input_array.reshape(1, self.input_channels, self.input_height, self.input_width)
         if self.axes == ():
             if self.noop_with_empty_axes:
-                return input_array
-            return np.mean(input_array, axis=None, keepdims=self.keepdims)
-        return np.mean(input_array, axis=self.axes, keepdims=self.keepdims)
+                return self.activation_function.compute(input_array)
+            return self.activation_function.compute(np.mean(input_array, axis=None, keepdims=self.keepdims))
+        return self.activation_function.compute(np.mean(input_array, axis=self.axes, keepdims=self.keepdims))
 
     def generate_inference_code_layer(self: Self) -> str:
         """Generate computation code for layer."""
diff --git a/src/acetone_nnet/generator/layers/reduce/reduce_min/ReduceMin.py b/src/acetone_nnet/generator/layers/reduce/reduce_min/ReduceMin.py
index 8a864e2..413b0e7 100644
--- a/src/acetone_nnet/generator/layers/reduce/reduce_min/ReduceMin.py
+++ b/src/acetone_nnet/generator/layers/reduce/reduce_min/ReduceMin.py
@@ -123,6 +123,6 @@ class ReduceMin(Layer):
         input_array = input_array.reshape(1, self.input_channels, self.input_height, self.input_width)
         if self.axes == ():
             if self.noop_with_empty_axes:
-                return input_array
-            return np.min(input_array, axis=None, keepdims=self.keepdims)
-        return np.min(input_array, axis=self.axes, keepdims=self.keepdims)
\ No newline at end of file
+                return self.activation_function.compute(input_array)
+            return self.activation_function.compute(np.min(input_array, axis=None, keepdims=self.keepdims))
+        return self.activation_function.compute(np.min(input_array, axis=self.axes, keepdims=self.keepdims))
\ No newline at end of file
diff --git a/src/acetone_nnet/generator/layers/reduce/reduce_prod/ReduceProd.py b/src/acetone_nnet/generator/layers/reduce/reduce_prod/ReduceProd.py
index 881090c..05a0a19 100644
--- a/src/acetone_nnet/generator/layers/reduce/reduce_prod/ReduceProd.py
+++ b/src/acetone_nnet/generator/layers/reduce/reduce_prod/ReduceProd.py
@@ -124,6 +124,6 @@ class ReduceProd(Layer):
         input_array = input_array.reshape(1, self.input_channels, self.input_height, self.input_width)
         if self.axes == ():
             if self.noop_with_empty_axes:
-                return input_array
-            return np.multiply.reduce(input_array, axis=None, keepdims=self.keepdims)
-        return np.multiply.reduce(input_array, axis=self.axes, keepdims=self.keepdims)
\ No newline at end of file
+                return self.activation_function.compute(input_array)
+            return self.activation_function.compute(np.multiply.reduce(input_array, axis=None, keepdims=self.keepdims))
+        return self.activation_function.compute(np.multiply.reduce(input_array, axis=self.axes, keepdims=self.keepdims))
\ No newline at end of file
diff --git a/src/acetone_nnet/generator/layers/reduce/reduce_sum/ReduceSum.py b/src/acetone_nnet/generator/layers/reduce/reduce_sum/ReduceSum.py
index 66bfbfb..d791707 100644
--- a/src/acetone_nnet/generator/layers/reduce/reduce_sum/ReduceSum.py
+++ b/src/acetone_nnet/generator/layers/reduce/reduce_sum/ReduceSum.py
@@ -124,6 +124,6 @@ class ReduceSum(Layer):
         input_array = input_array.reshape(1, self.input_channels, self.input_height, self.input_width)
         if self.axes == ():
             if self.noop_with_empty_axes:
-                return input_array
-            return np.add.reduce(input_array, axis=None, keepdims=self.keepdims)
-        return np.add.reduce(input_array, axis=self.axes, keepdims=self.keepdims)
\ No newline at end of file
+                return self.activation_function.compute(input_array)
+            return self.activation_function.compute(np.add.reduce(input_array, axis=None, keepdims=self.keepdims))
+        return self.activation_function.compute(np.add.reduce(input_array, axis=self.axes, keepdims=self.keepdims))
\ No newline at end of file
diff --git a/src/acetone_nnet/generator/layers/resize/resize_cubic/ResizeCubic.py b/src/acetone_nnet/generator/layers/resize/resize_cubic/ResizeCubic.py
index eab6b2e..91ea620 100644
--- a/src/acetone_nnet/generator/layers/resize/resize_cubic/ResizeCubic.py
+++ b/src/acetone_nnet/generator/layers/resize/resize_cubic/ResizeCubic.py
@@ -99,7 +99,7 @@ class ResizeCubic(Resize):
                                        + coeff2 * self.cubic_interpolation_1_d(input_array, f, x0, y0, x - x0)
                                        + coeff3 * self.cubic_interpolation_1_d(input_array, f, x0, y0 + 1, x - x0)
                                        + coeff4 * self.cubic_interpolation_1_d(input_array, f, x0, y0 + 2, x - x0))
-        return output
+        return self.activation_function.compute(output)
 
     def generate_inference_code_layer(self: Self) -> str:
         """Generate computation code for layer."""
diff --git a/src/acetone_nnet/generator/layers/resize/resize_linear/ResizeLinear.py b/src/acetone_nnet/generator/layers/resize/resize_linear/ResizeLinear.py
index c980e42..9a35a99 100644
--- a/src/acetone_nnet/generator/layers/resize/resize_linear/ResizeLinear.py
+++ b/src/acetone_nnet/generator/layers/resize/resize_linear/ResizeLinear.py
@@ -73,4 +73,4 @@ class ResizeLinear(Resize):
                                         + f12 * (x1 - x) * (y - y0) + f22 * (x - x0) * (y - y0))
                                        / ((x1 - x0) * (y1 - y0)))
 
-        return output
+        return self.activation_function.compute(output)
diff --git a/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearest.py b/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearest.py
index d70d036..9dd8394 100644
--- a/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearest.py
+++ b/src/acetone_nnet/generator/layers/resize/resize_nearest/ResizeNearest.py
@@ -92,4 +92,4 @@ class ResizeNearest(Resize):
                     y0 = max(0, min(self.input_width - 1, y0))
 
                     output[f, i, j] = input_array[f, x0, y0]
-        return output
+        return self.activation_function.compute(output)
diff --git a/src/acetone_nnet/generator/layers/tile/Tile.py b/src/acetone_nnet/generator/layers/tile/Tile.py
index af388e9..56d2812 100644
--- a/src/acetone_nnet/generator/layers/tile/Tile.py
+++ b/src/acetone_nnet/generator/layers/tile/Tile.py
@@ -107,4 +107,4 @@ class Tile(Layer):
     ) -> np.ndarray:
         """Compute output of layer."""
         input_array = input_array.reshape((self.input_channels, self.input_height, self.input_width))
-        return np.tile(input_array, self.repeats[1:])
\ No newline at end of file
+        return self.activation_function.compute(np.tile(input_array, self.repeats[1:]))
\ No newline at end of file
diff --git a/src/acetone_nnet/generator/layers/transpose/Transpose.py b/src/acetone_nnet/generator/layers/transpose/Transpose.py
index b29936f..cee3d6c 100644
--- a/src/acetone_nnet/generator/layers/transpose/Transpose.py
+++ b/src/acetone_nnet/generator/layers/transpose/Transpose.py
@@ -117,4 +117,4 @@ class Transpose(Layer):
             input_array,
             (1, self.input_channels, self.input_height, self.input_width),
         )
-        return np.transpose(input_array, self.perm)
\ No newline at end of file
+        return self.activation_function.compute(np.transpose(input_array, self.perm))
\ No newline at end of file
-- 
2.43.0


From bec047606f2049396446a24094a8f743b3e58be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:50 +0000
Subject: [PATCH 032/107] fix: leave the axis of Softmax unchanged by the
 reference inference

---
 src/acetone_nnet/generator/layers/softmax/Softmax.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/softmax/Softmax.py b/src/acetone_nnet/generator/layers/softmax/Softmax.py
index bc792ff..75634ed 100644
--- a/src/acetone_nnet/generator/layers/softmax/Softmax.py
+++ b/src/acetone_nnet/generator/layers/softmax/Softmax.py
@@ -103,9 +103,10 @@ class Softmax(Layer):
         """Compute output of layer."""
         if not self.one_dimension:
             input_array = input_array.reshape(1, self.output_channels, self.output_height, self.output_width)
+            axis = self.axis
         else:
             input_array = input_array.flatten()
-            self.axis = -1
+            axis = -1
 
         exp = np.exp(input_array, dtype=float)
-        return exp / np.sum(exp, keepdims=True, axis=self.axis)
\ No newline at end of file
+        return exp / np.sum(exp, keepdims=True, axis=axis)
\ No newline at end of file
-- 
2.43.0


From b03204cd513472a48cd6fb9979305f33ca89d3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:43 +0000
Subject: [PATCH 033/107] fix: accept negative pads in the reference inference

---
 .../generator/layers/padding/Pad.py             | 17 +++++++++++++++++
 .../layers/padding/constant_pad/ConstantPad.py  |  6 +-----
 .../layers/padding/edge_pad/EdgePad.py          |  7 +------
 .../layers/padding/reflect_pad/ReflectPad.py    |  6 +-----
 .../layers/padding/wrap_pad/WrapPad.py          |  6 +-----
 5 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/src/acetone_nnet/generator/layers/padding/Pad.py b/src/acetone_nnet/generator/layers/padding/Pad.py
index 859fe71..a0cb13d 100644
--- a/src/acetone_nnet/generator/layers/padding/Pad.py
+++ b/src/acetone_nnet/generator/layers/padding/Pad.py
@@ -114,6 +114,23 @@ class Pad(Layer):
                 )
                 raise ValueError(msg)
 
+    def pad_array(self: Self, input_array: np.ndarray, **kwargs) -> np.ndarray:
+        """Pad the array in numpy's nomenclature, negative pads removing elements."""
+        input_array = input_array.reshape(self.input_shape[1], self.input_shape[2], self.input_shape[3])
+        nb_dim = len(self.pads) // 2
+        pad_width = [(int(self.pads[i]), int(self.pads[i + nb_dim])) for i in range(1, nb_dim)]
+        padded = np.pad(
+            input_array,
+            pad_width=[(max(before, 0), max(after, 0)) for before, after in pad_width],
+            **kwargs,
+        )
+        return padded[
+            tuple(
+                slice(max(-before, 0), dim - max(-after, 0))
+                for (before, after), dim in zip(pad_width, padded.shape, strict=True)
+            )
+        ]
+
     def forward_path_layer(
             self: Self,
             input_array: np.ndarray,
diff --git a/src/acetone_nnet/generator/layers/padding/constant_pad/ConstantPad.py b/src/acetone_nnet/generator/layers/padding/constant_pad/ConstantPad.py
index 05cfdff..16a0ac5 100644
--- a/src/acetone_nnet/generator/layers/padding/constant_pad/ConstantPad.py
+++ b/src/acetone_nnet/generator/layers/padding/constant_pad/ConstantPad.py
@@ -44,11 +44,7 @@ class ConstantPad(Pad):
             input_array: np.ndarray,
     ) -> np.ndarray:
         """Compute output of layer."""
-        input_array = input_array.reshape(self.input_shape[1], self.input_shape[2], self.input_shape[3])
-        nb_dim = len(self.pads) // 2
-        pad_width = [(self.pads[i], self.pads[i + nb_dim]) for i in
-                     range(1, nb_dim)]  # Constructing the pads accordingly to the numpy nomenclature
         logging.info(f'[ConstantPad] value {self.constant_value}')
         return self.activation_function.compute(
-            np.pad(input_array, pad_width=pad_width, mode="constant", constant_values=self.constant_value),
+            self.pad_array(input_array, mode="constant", constant_values=self.constant_value),
         )
\ No newline at end of file
diff --git a/src/acetone_nnet/generator/layers/padding/edge_pad/EdgePad.py b/src/acetone_nnet/generator/layers/padding/edge_pad/EdgePad.py
index 3013269..f5e559d 100644
--- a/src/acetone_nnet/generator/layers/padding/edge_pad/EdgePad.py
+++ b/src/acetone_nnet/generator/layers/padding/edge_pad/EdgePad.py
@@ -44,11 +44,6 @@ class EdgePad(Pad):
             input_array: np.ndarray,
     ) -> np.ndarray:
         """Compute output of layer."""
-        input_array = input_array.reshape(self.input_shape[1], self.input_shape[2], self.input_shape[3])
-        nb_dim = len(self.pads) // 2
-        pad_width = [(self.pads[i], self.pads[i + nb_dim]) for i in
-                     range(1, nb_dim)]  # Constructing the pads accordingly to the numpy nomenclature
-
         return self.activation_function.compute(
-            np.pad(input_array, pad_width=pad_width, mode="edge"),
+            self.pad_array(input_array, mode="edge"),
         )
diff --git a/src/acetone_nnet/generator/layers/padding/reflect_pad/ReflectPad.py b/src/acetone_nnet/generator/layers/padding/reflect_pad/ReflectPad.py
index 34dbe20..24ad38d 100644
--- a/src/acetone_nnet/generator/layers/padding/reflect_pad/ReflectPad.py
+++ b/src/acetone_nnet/generator/layers/padding/reflect_pad/ReflectPad.py
@@ -44,10 +44,6 @@ class ReflectPad(Pad):
             input_array: np.ndarray,
     ) -> np.ndarray:
         """Compute output of layer."""
-        input_array = input_array.reshape(self.input_shape[1], self.input_shape[2], self.input_shape[3])
-        nb_dim = len(self.pads) // 2
-        pad_width = [(self.pads[i], self.pads[i + nb_dim]) for i in
-                     range(1, nb_dim)]  # Constructing the pads accordingly to the numpy nomenclature
         return self.activation_function.compute(
-            np.pad(input_array, pad_width=pad_width, mode="reflect"),
+            self.pad_array(input_array, mode="reflect"),
         )
\ No newline at end of file
diff --git a/src/acetone_nnet/generator/layers/padding/wrap_pad/WrapPad.py b/src/acetone_nnet/generator/layers/padding/wrap_pad/WrapPad.py
index 8826595..8e2fc52 100644
--- a/src/acetone_nnet/generator/layers/padding/wrap_pad/WrapPad.py
+++ b/src/acetone_nnet/generator/layers/padding/wrap_pad/WrapPad.py
@@ -46,10 +46,6 @@ class WrapPad(Pad):
             input_array: np.ndarray,
     ) -> np.ndarray:
         """Compute output of layer."""
-        input_array = input_array.reshape(self.input_shape[1], self.input_shape[2], self.input_shape[3])
-        nb_dim = len(self.pads) // 2
-        pad_width = [(self.pads[i], self.pads[i + nb_dim]) for i in
-                     range(1, nb_dim)]  # Constructing the pads accordingly to the numpy nomenclature
         return self.activation_function.compute(
-            np.pad(input_array, pad_width=pad_width, mode="wrap"),
+            self.pad_array(input_array, mode="wrap"),
         )
-- 
2.43.0


From f0e22b22038279165f651882eb9c82cf020d89a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:27 +0000
Subject: [PATCH 034/107] fix: free the buffers of a tensor read twice by a
 layer once

---
 src/acetone_nnet/graph/graph_interpretor.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/acetone_nnet/graph/graph_interpretor.py b/src/acetone_nnet/graph/graph_interpretor.py
index 0663cf2..ad593c0 100644
--- a/src/acetone_nnet/graph/graph_interpretor.py
+++ b/src/acetone_nnet/graph/graph_interpretor.py
@@ -93,7 +93,10 @@ def assign_liveliness_index(execution_order: list[Layer]) -> dict[int, int]:
         for p in n.previous_layer:
             assert p.idx in indexes
             # Check all consumers of a tensor have been executed (except the current one)
-            if all(s.idx in indexes for s in p.next_layer if s.idx != n.idx):
+            # A layer may read the same tensor twice: free its index only once
+            if indexes[p.idx] not in available_indexes and all(
+                s.idx in indexes for s in p.next_layer if s.idx != n.idx
+            ):
                 available_indexes.appendleft(indexes[p.idx])
         # TODO Assign index before liberating predecessors' outputs
         # Reuse any available index for the node, or create a new one if none
@@ -117,8 +120,11 @@ def assign_cst(
         visited_layers.add(layer.idx)
         # Free cst if all successors have been visited
         for parent in layer.previous_layer:
-            if parent.idx in dict_cst and all(
-                s.idx in visited_layers for s in parent.next_layer
+            # A layer may read the same tensor twice: free its cst only once
+            if (
+                parent.idx in dict_cst
+                and dict_cst[parent.idx] not in available_indexes
+                and all(s.idx in visited_layers for s in parent.next_layer)
             ):
                 available_indexes.appendleft(dict_cst[parent.idx])
         # Allocate cst if layer has more than one child
-- 
2.43.0


From e149d7455b219c4124cc946d036d1149559438e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:24 +0000
Subject: [PATCH 035/107] fix: apply the activation fused into a Softmax along
 an axis

---
 src/acetone_nnet/generator/layers/softmax/SoftmaxDefault.py | 6 +++++-
 src/acetone_nnet/templates/layers/template_Softmax.c.tpl    | 1 +
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/acetone_nnet/generator/layers/softmax/SoftmaxDefault.py b/src/acetone_nnet/generator/layers/softmax/SoftmaxDefault.py
index 9bdc014..e31cb6a 100644
--- a/src/acetone_nnet/generator/layers/softmax/SoftmaxDefault.py
+++ b/src/acetone_nnet/generator/layers/softmax/SoftmaxDefault.py
@@ -80,7 +80,11 @@ class SoftmaxDefault(Softmax):
                 mustach_hash["reduced_position_2"] = f"j + {self.output_width}*(i + {self.output_height}*f)"
                 mustach_hash["softmax_indice"] = f"i + {self.output_height}*f"
 
-        mustach_hash["activation_function"] = self.activation_function.write_activation_str(f"ctx->output_{self.path}[j]")
+        mustach_hash["activation_function"] = self.activation_function.write_activation_str(
+            f"ctx->output_{self.path}[j]"
+            if self.one_dimension
+            else f"ctx->output_{self.path}[j + {self.output_width}*(i +  {self.output_height}*f)]",
+        )
 
         with open(self.template_path / "layers" / "template_Softmax.c.tpl") as template_file:
             template = template_file.read()
diff --git a/src/acetone_nnet/templates/layers/template_Softmax.c.tpl b/src/acetone_nnet/templates/layers/template_Softmax.c.tpl
index 3715fc7..019067c 100644
--- a/src/acetone_nnet/templates/layers/template_Softmax.c.tpl
+++ b/src/acetone_nnet/templates/layers/template_Softmax.c.tpl
@@ -29,6 +29,7 @@
             for (j = 0; j < {{output_width}}; ++j)
             {
                 ctx->output_{{road}}[j + {{output_width}}*(i +  {{output_height}}*f)] = exp(ctx->{{output_str}}[j + {{output_width}}*(i +  {{output_height}}*f)])/ctx->tensor_temp[{{softmax_indice}}];
+                ctx->output_{{road}}[j + {{output_width}}*(i +  {{output_height}}*f)] = {{{activation_function}}};
             }
         }
     }
-- 
2.43.0


From 4b7c3ab938db1684b52376ce74a1fdc4f652c606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:24 +0000
Subject: [PATCH 036/107] fix: fuse a batch normalisation into the convolution
 it reads, with read-only weights

---
 .../pattern_matching/patterns/FuseConvBatchNorm.py          | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/acetone_nnet/pattern_matching/patterns/FuseConvBatchNorm.py b/src/acetone_nnet/pattern_matching/patterns/FuseConvBatchNorm.py
index 5a7daf5..4590f3a 100644
--- a/src/acetone_nnet/pattern_matching/patterns/FuseConvBatchNorm.py
+++ b/src/acetone_nnet/pattern_matching/patterns/FuseConvBatchNorm.py
@@ -75,11 +75,11 @@ class FuseConvBatchNorm(Pattern):
     ) -> tuple[str, int]:
         """Apply the pattern to the layer."""
         batch_norm: BatchNormalization = layers[index]
-        conv: Conv2D = layers[index - 1]
+        conv: Conv2D = batch_norm.previous_layer[0]
 
         # Retrieve the constant
-        weights: np.array = conv.weights
-        biases = conv.biases
+        weights: np.array = np.array(conv.weights)
+        biases = np.array(conv.biases)
 
         scale = batch_norm.scale
         bias = batch_norm.biases
-- 
2.43.0


From 2a4b58c13165cd09b890e38367faa3ac46e616de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:24 +0000
Subject: [PATCH 037/107] fix: shift the indices of the layers after the one a
 pattern removes

---
 src/acetone_nnet/pattern_matching/Pattern.py             | 9 +++++++--
 .../pattern_matching/patterns/FuseActivationLayers.py    | 2 +-
 .../pattern_matching/patterns/FuseConvBatchNorm.py       | 2 +-
 .../pattern_matching/patterns/FuseMatMulAdd.py           | 4 ++--
 .../pattern_matching/patterns/FuseSigmoidMul.py          | 2 +-
 5 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/acetone_nnet/pattern_matching/Pattern.py b/src/acetone_nnet/pattern_matching/Pattern.py
index d3e06e2..fc64fd3 100644
--- a/src/acetone_nnet/pattern_matching/Pattern.py
+++ b/src/acetone_nnet/pattern_matching/Pattern.py
@@ -56,10 +56,15 @@ def update_indices(
         layers: list[Layer],
         shift: int,
         dict_cst: dict[int,int],
+        removed_idx: int | None = None,
 ) -> None:
-    """Update the indices of the layers after index by shifting them of shift."""
+    """Update the indices of the layers after index by shifting them of shift.
+
+    The position of a layer in the list says nothing of its idx: removed_idx is the
+    idx of the layer taken out of the list, whose successors are shifted.
+    """
     nb_layers = len(layers)
-    ref = layers[index].idx
+    ref = layers[index].idx if removed_idx is None else removed_idx
 
     if index >= nb_layers:
         m = f"Index out of bound ({index} > {nb_layers})"
diff --git a/src/acetone_nnet/pattern_matching/patterns/FuseActivationLayers.py b/src/acetone_nnet/pattern_matching/patterns/FuseActivationLayers.py
index b6610e5..6f4f60a 100644
--- a/src/acetone_nnet/pattern_matching/patterns/FuseActivationLayers.py
+++ b/src/acetone_nnet/pattern_matching/patterns/FuseActivationLayers.py
@@ -86,7 +86,7 @@ class FuseActivationLayer(Pattern):
 
         # Updating the list of layers
         layers.pop(index)
-        update_indices(index - 1, layers, 1, dict_cst)
+        update_indices(index - 1, layers, 1, dict_cst, activation_layer.idx)
 
         return self.pattern.format(
             layer.idx,
diff --git a/src/acetone_nnet/pattern_matching/patterns/FuseConvBatchNorm.py b/src/acetone_nnet/pattern_matching/patterns/FuseConvBatchNorm.py
index 4590f3a..dc5e650 100644
--- a/src/acetone_nnet/pattern_matching/patterns/FuseConvBatchNorm.py
+++ b/src/acetone_nnet/pattern_matching/patterns/FuseConvBatchNorm.py
@@ -104,7 +104,7 @@ class FuseConvBatchNorm(Pattern):
 
         # Updating the list of layers
         layers.pop(index)
-        update_indices(index - 1, layers, 1, dict_cst)
+        update_indices(index - 1, layers, 1, dict_cst, batch_norm.idx)
 
         return self.pattern.format(index - 1, index, index - 1), layers.index(conv)
 
diff --git a/src/acetone_nnet/pattern_matching/patterns/FuseMatMulAdd.py b/src/acetone_nnet/pattern_matching/patterns/FuseMatMulAdd.py
index 8e18e08..7abc9e5 100644
--- a/src/acetone_nnet/pattern_matching/patterns/FuseMatMulAdd.py
+++ b/src/acetone_nnet/pattern_matching/patterns/FuseMatMulAdd.py
@@ -116,8 +116,8 @@ class MatMulAddToDense(Pattern):
 
         # Updating the list of layers
         layers[index] = dense
-        layers.pop(index + 1)
-        update_indices(index, layers, 1, dict_cst)
+        layers.remove(add)
+        update_indices(index, layers, 1, dict_cst, add.idx)
 
         return self.pattern.format(index, index + 1, index), layers.index(dense)
 
diff --git a/src/acetone_nnet/pattern_matching/patterns/FuseSigmoidMul.py b/src/acetone_nnet/pattern_matching/patterns/FuseSigmoidMul.py
index 7d4d79a..47a53a2 100644
--- a/src/acetone_nnet/pattern_matching/patterns/FuseSigmoidMul.py
+++ b/src/acetone_nnet/pattern_matching/patterns/FuseSigmoidMul.py
@@ -118,7 +118,7 @@ class SigmoidMultiplyToSilu(Pattern):
         # Updating the list of layers
         layers[index] = silu
         layers.remove(multiply)
-        update_indices(index, layers, 1, dict_cst)
+        update_indices(index, layers, 1, dict_cst, multiply.idx)
 
         return (self.pattern.format(layer.idx, sigmoid.idx, multiply.idx, silu.idx),
                 layers.index(layer))
-- 
2.43.0


From 9c4ac0580b113290b09ffe13df10f019f5a55cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:24 +0000
Subject: [PATCH 038/107] fix: allocate the outputs of the layers again after
 fusing layers

---
 src/acetone_nnet/generator/neural_network.py | 3 +++
 src/acetone_nnet/graph/graph_interpretor.py  | 9 +++++++++
 2 files changed, 12 insertions(+)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index f3c7f31..40695b1 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -46,6 +46,7 @@ else:
 from typing_extensions import Self
 
 from acetone_nnet import templates
+from acetone_nnet.graph.graph_interpretor import allocate_outputs
 from acetone_nnet.importers.parser import parser
 from acetone_nnet.ir import Layer
 from acetone_nnet.pattern_matching.PatternMatcher import pattern_matcher
@@ -161,6 +162,8 @@ class CodeGenerator(ABC):
         
         if self.optimization:
             self.layers, self.log = pattern_matcher.match(self.layers, self.dict_cst)
+            # Fusing layers changes when their outputs are computed and last read
+            self.maxpath, self.dict_cst = allocate_outputs(self.layers)
 
         if self.log:
             logging.info(f"Pattern Matching:\n {self.log}")
diff --git a/src/acetone_nnet/graph/graph_interpretor.py b/src/acetone_nnet/graph/graph_interpretor.py
index ad593c0..9d65486 100644
--- a/src/acetone_nnet/graph/graph_interpretor.py
+++ b/src/acetone_nnet/graph/graph_interpretor.py
@@ -55,6 +55,15 @@ def tri_topo(dnn: list) -> tuple[list[Layer], int, dict[int, int]]:
     return sorted_layers, max_path, dict_cst
 
 
+def allocate_outputs(sorted_layers: list[Layer]) -> tuple[int, dict[int, int]]:
+    """Allocate the outputs of topologically sorted layers."""
+    assign_liveliness_index(sorted_layers)
+    dict_cst = assign_cst(sorted_layers)
+    for layer in sorted_layers:
+        layer.find_output_str(dict_cst)
+    return max(i.path for i in sorted_layers) + 1, dict_cst
+
+
 def parcours_prof_topo(
     sorted_layers: list[Layer],
     layer: Layer,
-- 
2.43.0


From 304489e9b8a26365c8af440fe238c37cb31aa0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:07 +0000
Subject: [PATCH 039/107] fix: import single-channel PyTorch tensors in the
 channels-first memory format

---
 .../importers/PYTORCH_importer/parse_pytorch.py     | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py b/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
index 202e0de..ce213c6 100644
--- a/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
+++ b/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
@@ -42,6 +42,15 @@ import torch.export
 import torch.nn as nn
 from typing import Any, Union, Tuple, List
 
+def find_memory_format(tensor: torch.Tensor) -> str:
+    """Find the memory format of a tensor, a tensor contiguous in both being channels_first."""
+    if tensor.dim() != 4 or tensor.is_contiguous():
+        return "channels_first"
+    if tensor.is_contiguous(memory_format=torch.channels_last):
+        return "channels_last"
+    return "channels_first"
+
+
 # 1. Base Visitor Class (Standard FX Traversal)
 class FXGraphVisitor:
     def visit(self, graph_module: torch.fx.GraphModule):
@@ -124,7 +133,7 @@ class ShapeAwareVisitor(FXGraphVisitor):
             idx=self.idx,
             size=node.meta['val'].numel(),
             input_shape=node.meta['val'].shape,
-            data_format="channels_last" if node.meta['val'].is_contiguous(memory_format=torch.channels_last) else "channels_first",
+            data_format=find_memory_format(node.meta['val']),
         )
         self.data_format = this_layer.data_format
         logging.info(f"[LAYOUT] : {self.data_format}")
@@ -160,7 +169,7 @@ class ShapeAwareVisitor(FXGraphVisitor):
         elif "conv2d" in target_name:
             #first call to conv2d is expected to decide memory layout format based on its input tensor
             if not hasattr(self,"data_format"):
-                self.data_format = "channels_last" if self.module.state_dict()[node.args[1].target].is_contiguous(memory_format=torch.channels_last) else "channels_first"
+                self.data_format = find_memory_format(self.module.state_dict()[node.args[1].target])
                 logging.info(f"[LAYOUT] : {self.data_format}")
             stride = node.args[3][0] if len(node.args) > 3 else 1
             padding = node.args[4] + node.args[4] if len(node.args) > 4 else [0,0,0,0]
-- 
2.43.0


From f2d1f675f537e29c2408dd8d6831429efa351ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:07 +0000
Subject: [PATCH 040/107] fix: fuse PyTorch activations and batch
 normalisations only into layers nothing else reads

---
 .../PYTORCH_importer/parse_pytorch.py         | 68 ++++++++++++++++---
 1 file changed, 59 insertions(+), 9 deletions(-)

diff --git a/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py b/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
index ce213c6..27d4eb0 100644
--- a/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
+++ b/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
@@ -4,6 +4,7 @@ import numpy as np
 
 from acetone_nnet.generator import (
     ActivationFunctions,
+    ActivationLayer,
     Add,
     Clip,
     Average,
@@ -83,6 +84,8 @@ class ShapeAwareVisitor(FXGraphVisitor):
         self.indent = "  "
         self.idx=0
         self.layerdic: dict[str:Layer] = {}
+        # The node whose value a layer computes, once other nodes are fused into it
+        self.last_node: dict[int, str] = {}
     def _format_shape(self, val: Any) -> str:
         """
         Recursively extracts shape and dtype from FakeTensors stored in meta['val'].
@@ -117,6 +120,41 @@ class ShapeAwareVisitor(FXGraphVisitor):
         left_col = f"{self.indent}[{kind}] {node_name:<15} {extra}"
         logging.info(f"{left_col:<60} -> {shape_info}")
 
+    def _register(self, node: torch.fx.Node, layer: Layer, inputs: list):
+        """Add to the network the layer computing the node from the input nodes."""
+        for i in inputs:
+            self.layerdic[i.name][0].next_layer.append(layer)
+            layer.previous_layer.append(self.layerdic[i.name][0])
+        self.layerdic[node.name] = (layer, node.meta['val'].shape)
+        self.idx += 1
+
+    def _can_fuse(self, node: torch.fx.Node) -> bool:
+        """Check that a function of the node only can be fused into the layer computing it."""
+        layer = self.layerdic[node.name][0]
+        return (
+            not isinstance(layer, (InputLayer, ActivationLayer))
+            and isinstance(layer.activation_function, Linear)
+            and self.last_node.get(layer.idx, layer.original_name) == node.name
+            and len(node.users) == 1
+        )
+
+    def _add_activation(self, node: torch.fx.Node, function: ActivationFunctions):
+        """Set the activation of the previous layer, or add an activation layer."""
+        parent = node.args[0]
+        if self._can_fuse(parent):
+            layer = self.layerdic[parent.name][0]
+            layer.activation_function = function
+            self.layerdic[node.name] = self.layerdic[parent.name]
+            self.last_node[layer.idx] = node.name
+        else:
+            layer = ActivationLayer(
+                original_name=node.name,
+                idx=self.idx,
+                size=node.meta['val'].numel(),
+                activation_function=function,
+            )
+            self._register(node, layer, [parent])
+
     # --- Visitor Implementation ---
 
     def visit(self, graph_module: torch.fx.GraphModule):
@@ -158,14 +196,9 @@ class ShapeAwareVisitor(FXGraphVisitor):
             self.layerdic[node.name] = (this_layer, node.meta['val'].shape)
             self.idx+=1
         elif "relu" in target_name:
-            self.layerdic[node.args[0].name][0].activation_function=ReLu() # set previous layer activation 
-            self.layerdic[node.name] = self.layerdic[node.args[0].name] # register 
+            self._add_activation(node, ReLu())
         elif "clamp" in target_name:
-            self.layerdic[node.args[0].name][0].activation_function=Clip( # set previous layer activation 
-                max_value=node.args[2],
-                min_value=node.args[1]
-            )
-            self.layerdic[node.name] = self.layerdic[node.args[0].name] # register 
+            self._add_activation(node, Clip(max_value=node.args[2], min_value=node.args[1]))
         elif "conv2d" in target_name:
             #first call to conv2d is expected to decide memory layout format based on its input tensor
             if not hasattr(self,"data_format"):
@@ -198,13 +231,30 @@ class ShapeAwareVisitor(FXGraphVisitor):
             self.layerdic[node.name] = (this_layer, node.meta['val'].shape)
             self.idx+=1
         elif "batch_norm" in target_name:
-            # Fusing batch normalization to previous conv2d https://pytorch-cn.com/tutorials/intermediate/fx_conv_bn_fuser.html
-            self.layerdic[node.name] = self.layerdic[node.args[0].name]
             bn_w = self.module.state_dict()[node.args[1].target]
             bn_b = self.module.state_dict()[node.args[2].target]
             bn_rm = self.module.state_dict()[node.args[3].target]
             bn_rv = self.module.state_dict()[node.args[4].target]
             bn_eps = node.args[7]
+            if not (isinstance(self.layerdic[node.args[0].name][0], Conv2D) and self._can_fuse(node.args[0])):
+                shape = node.meta['val'].shape
+                this_layer = BatchNormalization(
+                    original_name=node.name,
+                    idx=self.idx,
+                    size=node.meta['val'].numel(),
+                    input_shape=list(self.layerdic[node.args[0].name][1]),
+                    epsilon=bn_eps,
+                    scale=bn_w.numpy(),
+                    biases=bn_b.numpy(),
+                    mean=bn_rm.numpy(),
+                    var=bn_rv.numpy(),
+                    activation_function=Linear(),
+                )
+                self._register(node, this_layer, [node.args[0]])
+                return
+            # Fusing batch normalization to previous conv2d https://pytorch-cn.com/tutorials/intermediate/fx_conv_bn_fuser.html
+            self.layerdic[node.name] = self.layerdic[node.args[0].name]
+            self.last_node[self.layerdic[node.name][0].idx] = node.name
             bn_var_rsqrt = torch.rsqrt(bn_rv + bn_eps)
             conv_w = torch.from_numpy(self.layerdic[node.args[0].name][0].weights)
             conv_b = torch.from_numpy(self.layerdic[node.args[0].name][0].biases)
-- 
2.43.0


From 5b8fad578df65d97792bba1166f08548858cfdff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:07 +0000
Subject: [PATCH 041/107] fix: import PyTorch convolutions with rectangular
 kernels or without bias

---
 src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py b/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
index 27d4eb0..2616594 100644
--- a/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
+++ b/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
@@ -216,14 +216,14 @@ class ShapeAwareVisitor(FXGraphVisitor):
                     padding=padding,
                     strides=stride,
                     group=group,
-                    kernel_h=self.module.state_dict()[node.args[1].target].shape[-1],
+                    kernel_h=self.module.state_dict()[node.args[1].target].shape[-2],
                     kernel_w=self.module.state_dict()[node.args[1].target].shape[-1],
                     dilation_rate=dilation,
                     nb_filters=node.meta['val'].shape[1],
                     input_shape=self.layerdic[node.args[0].name][1],
                     output_shape=node.meta['val'].shape,
                     weights=self.module.state_dict()[node.args[1].target].numpy(),
-                    biases=self.module.state_dict()[node.args[2].target].numpy() if node.args[2] is not None else np.zeros(node.meta['val'].shape[1],dtype=np.float32),
+                    biases=self.module.state_dict()[node.args[2].target].numpy() if len(node.args) > 2 and node.args[2] is not None else np.zeros(node.meta['val'].shape[1],dtype=np.float32),
                     activation_function=Linear()
                 )
             self.layerdic[node.args[0].name][0].next_layer.append(this_layer)
-- 
2.43.0


From 23589b6164a997b8d7b9691565744a5a8aefbb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:07 +0000
Subject: [PATCH 042/107] fix: import PyTorch max poolings with their default
 stride

---
 src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py b/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
index 2616594..667be99 100644
--- a/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
+++ b/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
@@ -300,7 +300,8 @@ class ShapeAwareVisitor(FXGraphVisitor):
             self.layerdic[node.name] = self.layerdic[node.args[0].name]
         elif "max_pool2d" in target_name:
             kernel = node.args[1][0] if len(node.args) > 1 else 1
-            stride = node.args[2][0] if len(node.args) > 2 else 1
+            # The stride defaults to the kernel size
+            stride = node.args[2][0] if len(node.args) > 2 and len(node.args[2]) else kernel
             padding = node.args[3] + node.args[3] if len(node.args) > 3 else [0,0,0,0]
             dilation = node.args[4][0] if len(node.args) > 4 else 1
             this_layer = MaxPooling2D(
-- 
2.43.0


From 95471248ccf55b2b990da4a6d59886a971b283a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:07 +0000
Subject: [PATCH 043/107] fix: import PyTorch linear layers without bias

---
 src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py b/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
index 667be99..b7fb0cb 100644
--- a/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
+++ b/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
@@ -188,7 +188,7 @@ class ShapeAwareVisitor(FXGraphVisitor):
                 idx=self.idx,
                 size=node.meta['val'].numel(),
                 weights=self.module.state_dict()[node.args[1].target].numpy().T,
-                biases=self.module.state_dict()[node.args[2].target].numpy(),
+                biases=self.module.state_dict()[node.args[2].target].numpy() if len(node.args) > 2 and node.args[2] is not None else np.zeros(node.meta['val'].shape[-1], dtype=np.float32),
                 activation_function=Linear()
             )
             self.layerdic[node.args[0].name][0].next_layer.append(this_layer)
-- 
2.43.0


From 42d1ff5867de94db736c140ae5ea4d33eaca844e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:07 +0000
Subject: [PATCH 044/107] fix: import PyTorch concatenations along negative or
 default dimensions

---
 src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py b/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
index b7fb0cb..2181db9 100644
--- a/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
+++ b/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
@@ -284,7 +284,7 @@ class ShapeAwareVisitor(FXGraphVisitor):
                     original_name=node.name,
                     idx=self.idx,
                     size=node.meta['val'].numel(),
-                    axis=node.args[1],
+                    axis=node.args[1] % node.meta['val'].dim() if len(node.args) > 1 else 0,
                     input_shapes=[self.layerdic[node.args[0][i].name][1] for i in range(len(node.args[0]))],
                     output_shape=node.meta['val'].shape,
                     activation_function=Linear(),
-- 
2.43.0


From 482af81de163a448bd25fd465ae8104f22eccbb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:10 +0000
Subject: [PATCH 045/107] fix: refuse PyTorch functions and arguments the
 importer does not implement

---
 .../PYTORCH_importer/parse_pytorch.py         | 65 +++++++++++++++----
 1 file changed, 54 insertions(+), 11 deletions(-)

diff --git a/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py b/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
index 2181db9..754fa29 100644
--- a/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
+++ b/src/acetone_nnet/importers/PYTORCH_importer/parse_pytorch.py
@@ -52,6 +52,12 @@ def find_memory_format(tensor: torch.Tensor) -> str:
     return "channels_first"
 
 
+def refuse(node: torch.fx.Node, reason: str):
+    """Refuse a node the generated code would not compute."""
+    msg = f"Error: {node.target} ({node.name}) not supported: {reason}\n"
+    raise TypeError(msg)
+
+
 # 1. Base Visitor Class (Standard FX Traversal)
 class FXGraphVisitor:
     def visit(self, graph_module: torch.fx.GraphModule):
@@ -182,7 +188,20 @@ class ShapeAwareVisitor(FXGraphVisitor):
     def visit_call_function(self, node: torch.fx.Node):
         target_name = node.target.__name__ if hasattr(node.target, '__name__') else str(node.target)
         self._print_node("FUNC", node, f"call: {target_name}(args={node.args})")
-        if "linear" in target_name:
+        if not any(i.name in self.layerdic for i in node.all_input_nodes):
+            # Nothing in the network depends on the node's operands (batch counters...)
+            logging.info(f"{target_name} bypassed: {node.name}")
+            return
+        # aten operators are named function.overload, with a trailing _ when in place
+        function = target_name.split(".")[0]
+        if function.endswith("_") and (
+            node.args[0].name not in self.layerdic or len(node.args[0].users) > 1
+        ):
+            refuse(node, "in place modification of a tensor read elsewhere")
+        function = function.rstrip("_")
+        if function == "linear":
+            if node.meta['val'].numel() != node.meta['val'].shape[-1]:
+                refuse(node, "linear function of several vectors")
             this_layer = Dense(
                 original_name=node.name,
                 idx=self.idx,
@@ -195,11 +214,18 @@ class ShapeAwareVisitor(FXGraphVisitor):
             this_layer.previous_layer.append(self.layerdic[node.args[0].name][0])
             self.layerdic[node.name] = (this_layer, node.meta['val'].shape)
             self.idx+=1
-        elif "relu" in target_name:
+        elif function == "relu":
             self._add_activation(node, ReLu())
-        elif "clamp" in target_name:
+        elif function == "clamp":
+            if len(node.args) != 3 or node.kwargs or any(isinstance(b, torch.fx.Node) or b is None for b in node.args[1:]):
+                refuse(node, "missing or computed bound")
             self._add_activation(node, Clip(max_value=node.args[2], min_value=node.args[1]))
-        elif "conv2d" in target_name:
+        elif function == "conv2d":
+            if len(node.args) > 4 and isinstance(node.args[4], str):
+                refuse(node, f"padding {node.args[4]}")
+            for arg in (3, 5):
+                if len(node.args) > arg and len(set(node.args[arg])) > 1:
+                    refuse(node, f"different strides or dilations {node.args[arg]}")
             #first call to conv2d is expected to decide memory layout format based on its input tensor
             if not hasattr(self,"data_format"):
                 self.data_format = find_memory_format(self.module.state_dict()[node.args[1].target])
@@ -230,7 +256,9 @@ class ShapeAwareVisitor(FXGraphVisitor):
             this_layer.previous_layer.append(self.layerdic[node.args[0].name][0])
             self.layerdic[node.name] = (this_layer, node.meta['val'].shape)
             self.idx+=1
-        elif "batch_norm" in target_name:
+        elif function == "batch_norm":
+            if node.args[5]:
+                refuse(node, "batch normalization in training mode")
             bn_w = self.module.state_dict()[node.args[1].target]
             bn_b = self.module.state_dict()[node.args[2].target]
             bn_rm = self.module.state_dict()[node.args[3].target]
@@ -262,7 +290,9 @@ class ShapeAwareVisitor(FXGraphVisitor):
             conv_b = (conv_b - bn_rm) * bn_var_rsqrt * bn_w + bn_b
             self.layerdic[node.args[0].name][0].weights = conv_w.numpy().astype(np.float32)
             self.layerdic[node.args[0].name][0].biases = conv_b.numpy().astype(np.float32)
-        elif "add" in target_name:
+        elif function == "add":
+            if node.kwargs or len(node.args) != 2 or not all(isinstance(i, torch.fx.Node) and i.name in self.layerdic for i in node.args):
+                refuse(node, "operands other than two computed tensors")
             if node.args[0].name in self.layerdic.keys(): # bypass bn2_num_batches_tracked + 1
                 this_layer =  Add(
                     original_name=node.name,
@@ -279,7 +309,9 @@ class ShapeAwareVisitor(FXGraphVisitor):
                 self.idx+=1
             else:
                 logging.info(f"Add layer bypassed: {node.args[0].name}")
-        elif "cat" in target_name:
+        elif function == "cat":
+            if not all(i.name in self.layerdic for i in node.args[0]):
+                refuse(node, "operands other than computed tensors")
             this_layer = Concatenate(
                     original_name=node.name,
                     idx=self.idx,
@@ -294,11 +326,17 @@ class ShapeAwareVisitor(FXGraphVisitor):
                 this_layer.previous_layer.append(self.layerdic[node.args[0][i].name][0])
             self.layerdic[node.name] = (this_layer, node.meta['val'].shape)
             self.idx+=1
-        elif "dropout" in target_name:
+        elif function == "dropout":
+            if node.args[2]:
+                refuse(node, "dropout in training mode")
             self.layerdic[node.name] = self.layerdic[node.args[0].name]
-        elif "flatten" in target_name:
+        elif function == "flatten":
             self.layerdic[node.name] = self.layerdic[node.args[0].name]
-        elif "max_pool2d" in target_name:
+        elif function == "max_pool2d":
+            if any(len(node.args) > arg and len(set(node.args[arg])) > 1 for arg in (1, 2)):
+                refuse(node, "different kernel sizes or strides")
+            if len(node.args) > 4 and set(node.args[4]) != {1}:
+                refuse(node, f"dilation {node.args[4]}")
             kernel = node.args[1][0] if len(node.args) > 1 else 1
             # The stride defaults to the kernel size
             stride = node.args[2][0] if len(node.args) > 2 and len(node.args[2]) else kernel
@@ -320,7 +358,10 @@ class ShapeAwareVisitor(FXGraphVisitor):
             this_layer.previous_layer.append(self.layerdic[node.args[0].name][0])
             self.layerdic[node.name] = (this_layer, node.meta['val'].shape)
             self.idx+=1
-        elif "adaptive_avg_pool2d" in target_name:
+        elif function == "adaptive_avg_pool2d":
+            shape = self.layerdic[node.args[0].name][1]
+            if tuple(node.meta['val'].shape[-2:]) != (1, 1) or shape[-1] != shape[-2]:
+                refuse(node, f"average pooling of {tuple(shape)} into {tuple(node.meta['val'].shape)}")
             this_layer = AveragePooling2D(
                 original_name=node.name,
                 idx=self.idx,
@@ -337,6 +378,8 @@ class ShapeAwareVisitor(FXGraphVisitor):
             this_layer.previous_layer.append(self.layerdic[node.args[0].name][0])
             self.layerdic[node.name] = (this_layer, node.meta['val'].shape)
             self.idx+=1
+        else:
+            refuse(node, "function not supported")
 
     def visit_call_module(self, node: torch.fx.Node):
         self._print_node("MODULE", node, f"mod: {node.target}")
-- 
2.43.0


From 406bc2c8cec0bb89c6aaccb09541543e79eaf38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:56 +0000
Subject: [PATCH 046/107] fix: give the input layer of JSON models its name

---
 src/acetone_nnet/importers/JSON_importer/parser_JSON.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/acetone_nnet/importers/JSON_importer/parser_JSON.py b/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
index 378d7e6..fd98415 100644
--- a/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
+++ b/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
@@ -113,6 +113,7 @@ def load_json(
     layers = []
 
     l_temp = InputLayer(
+        model["config"]["layers"][0]["config"]["name"],
         0,
         model["config"]["layers"][0]["config"]["size"],
         model["config"]["layers"][0]["config"]["input_shape"],
-- 
2.43.0


From 7754b6f7f33f77e8d25405625433ea91e7d0ccc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:26 +0000
Subject: [PATCH 047/107] fix: reorder the weights of JSON convolutions

---
 src/acetone_nnet/importers/JSON_importer/parser_JSON.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/acetone_nnet/importers/JSON_importer/parser_JSON.py b/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
index fd98415..24a9e0f 100644
--- a/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
+++ b/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
@@ -162,7 +162,8 @@ def load_json(
                 nb_filters=layer["config"]["filters"],
                 input_shape=layer["config"]["input_shape"],
                 output_shape=layer["config"]["output_shape"],
-                weights=np.array(data_type_py(layer["weights"])),
+                # Reorder the weights from [C,H,W,F] into [F,C,H,W]
+                weights=np.moveaxis(data_type_py(layer["weights"]), -1, 0),
                 biases=data_type_py(layer["biases"]),
                 activation_function=create_actv_function_obj(
                     layer["config"]["activation"],
-- 
2.43.0


From e0c37bb5a013cfabffec8302f15a696e82d53725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:26 +0000
Subject: [PATCH 048/107] fix: add the batch normalisations of JSON models to
 the network

---
 src/acetone_nnet/importers/JSON_importer/parser_JSON.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/acetone_nnet/importers/JSON_importer/parser_JSON.py b/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
index 24a9e0f..a824bfa 100644
--- a/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
+++ b/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
@@ -304,7 +304,7 @@ def load_json(
             )
 
         elif layer["class_name"] == "BatchNormalization":
-            BatchNormalization(
+            current_layer = BatchNormalization(
                 original_name=layer["config"]["name"],
                 idx=layer["config"]["idx"],
                 size=layer["config"]["size"],
-- 
2.43.0


From 15352c4e1cf4763ae51bb62ad019d23a4a7fe1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:26 +0000
Subject: [PATCH 049/107] fix: connect JSON layers to the softmax their operand
 ends with, past removed layers

---
 .../importers/JSON_importer/parser_JSON.py    | 27 +++++++++++--------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/acetone_nnet/importers/JSON_importer/parser_JSON.py b/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
index a824bfa..c9c71db 100644
--- a/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
+++ b/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
@@ -121,6 +121,8 @@ def load_json(
     )
 
     layers.append(l_temp)
+    # The layers computing the outputs of the model's layers
+    outputs = [l_temp]
 
     nb_softmax_layers = 0
 
@@ -208,7 +210,7 @@ def load_json(
         elif layer["class_name"] == "Add":
             current_layer = Add(
                 original_name=layer["config"]["name"],
-                idx=layer["config"]["idx"],
+                idx=idx,
                 size=layer["config"]["size"],
                 input_shapes=layer["config"]["input_shape"],
                 output_shape=layer["config"]["output_shape"],
@@ -218,7 +220,7 @@ def load_json(
         elif layer["class_name"] == "Multiply":
             current_layer = Multiply(
                 original_name=layer["config"]["name"],
-                idx=layer["config"]["idx"],
+                idx=idx,
                 size=layer["config"]["size"],
                 input_shapes=layer["config"]["input_shape"],
                 output_shape=layer["config"]["output_shape"],
@@ -228,7 +230,7 @@ def load_json(
         elif layer["class_name"] == "Subtract":
             current_layer = Subtract(
                 original_name=layer["config"]["name"],
-                idx=layer["config"]["idx"],
+                idx=idx,
                 size=layer["config"]["size"],
                 input_shapes=layer["config"]["input_shape"],
                 output_shape=layer["config"]["output_shape"],
@@ -241,7 +243,7 @@ def load_json(
                 axis = 1 if axis == 3 else axis + 1
             current_layer = Concatenate(
                 original_name=layer["config"]["name"],
-                idx=layer["config"]["idx"],
+                idx=idx,
                 size=layer["config"]["size"],
                 axis=axis,
                 input_shapes=layer["config"]["input_shape"],
@@ -252,7 +254,7 @@ def load_json(
         elif layer["class_name"] == "Maximum":
             current_layer = Maximum(
                 original_name=layer["config"]["name"],
-                idx=layer["config"]["idx"],
+                idx=idx,
                 size=layer["config"]["size"],
                 input_shapes=layer["config"]["input_shape"],
                 output_shape=layer["config"]["output_shape"],
@@ -262,7 +264,7 @@ def load_json(
         elif layer["class_name"] == "Minimum":
             current_layer = Minimum(
                 original_name=layer["config"]["name"],
-                idx=layer["config"]["idx"],
+                idx=idx,
                 size=layer["config"]["size"],
                 input_shapes=layer["config"]["input_shape"],
                 output_shape=layer["config"]["output_shape"],
@@ -272,7 +274,7 @@ def load_json(
         elif layer["class_name"] == "Average":
             current_layer = Average(
                 original_name=layer["config"]["name"],
-                idx=layer["config"]["idx"],
+                idx=idx,
                 size=layer["config"]["size"],
                 input_shapes=layer["config"]["input_shape"],
                 output_shape=layer["config"]["output_shape"],
@@ -294,7 +296,7 @@ def load_json(
 
             current_layer = ConstantPad(
                 original_name=layer["config"]["name"],
-                idx=layer["config"]["idx"],
+                idx=idx,
                 size=layer["config"]["size"],
                 pads=pads,
                 constant_value=0,
@@ -306,7 +308,7 @@ def load_json(
         elif layer["class_name"] == "BatchNormalization":
             current_layer = BatchNormalization(
                 original_name=layer["config"]["name"],
-                idx=layer["config"]["idx"],
+                idx=idx,
                 size=layer["config"]["size"],
                 input_shape=layer["config"]["input_shape"],
                 epsilon=layer["config"]["epsilon"],
@@ -322,14 +324,15 @@ def load_json(
             or "Dropout" in layer["class_name"]
             or layer["class_name"] == "Reshape"
         ):
+            outputs.append(outputs[layer["config"]["prev_layer_idx"][0]])
             continue
 
         else:
             raise TypeError("Error: layer" + layer["class_name"] + " not supported\n")
 
         for i in layer["config"]["prev_layer_idx"]:
-            current_layer.previous_layer.append(layers[i])
-            layers[i].next_layer.append(current_layer)
+            current_layer.previous_layer.append(outputs[i])
+            outputs[i].next_layer.append(current_layer)
 
         l_temp = current_layer
         layers.append(current_layer)
@@ -349,6 +352,8 @@ def load_json(
             l_temp = current_layer
             layers.append(current_layer)
 
+        outputs.append(current_layer)
+
     layers, max_road, dict_cst = graph_interpretor.tri_topo(layers)
     layers = [x.find_output_str(dict_cst) for x in layers]
     print("Finished model initialization.")
-- 
2.43.0


From 687a6ef9262e51d6b8e3c1c543f8f4321a06f2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:26 +0000
Subject: [PATCH 050/107] fix: import JSON concatenations along negative axes

---
 src/acetone_nnet/importers/JSON_importer/parser_JSON.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/acetone_nnet/importers/JSON_importer/parser_JSON.py b/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
index c9c71db..bde7f65 100644
--- a/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
+++ b/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
@@ -238,7 +238,7 @@ def load_json(
             )
 
         elif layer["class_name"] == "Concatenate":
-            axis = layer["config"]["axis"]
+            axis = layer["config"]["axis"] % len(layer["config"]["output_shape"])
             if data_format == "channels_last":
                 axis = 1 if axis == 3 else axis + 1
             current_layer = Concatenate(
-- 
2.43.0


From ddda4491516babe64f1aa1942728d65790f80e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:20 +0000
Subject: [PATCH 051/107] fix: import the elementwise layers of JSON models

---
 .../importers/JSON_importer/parser_JSON.py         | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/acetone_nnet/importers/JSON_importer/parser_JSON.py b/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
index bde7f65..17d11b2 100644
--- a/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
+++ b/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
@@ -212,7 +212,7 @@ def load_json(
                 original_name=layer["config"]["name"],
                 idx=idx,
                 size=layer["config"]["size"],
-                input_shapes=layer["config"]["input_shape"],
+                input_shapes=np.array(layer["config"]["input_shape"]),
                 output_shape=layer["config"]["output_shape"],
                 activation_function=Linear(),
             )
@@ -222,7 +222,7 @@ def load_json(
                 original_name=layer["config"]["name"],
                 idx=idx,
                 size=layer["config"]["size"],
-                input_shapes=layer["config"]["input_shape"],
+                input_shapes=np.array(layer["config"]["input_shape"]),
                 output_shape=layer["config"]["output_shape"],
                 activation_function=Linear(),
             )
@@ -232,7 +232,7 @@ def load_json(
                 original_name=layer["config"]["name"],
                 idx=idx,
                 size=layer["config"]["size"],
-                input_shapes=layer["config"]["input_shape"],
+                input_shapes=np.array(layer["config"]["input_shape"]),
                 output_shape=layer["config"]["output_shape"],
                 activation_function=Linear(),
             )
@@ -246,7 +246,7 @@ def load_json(
                 idx=idx,
                 size=layer["config"]["size"],
                 axis=axis,
-                input_shapes=layer["config"]["input_shape"],
+                input_shapes=np.array(layer["config"]["input_shape"]),
                 output_shape=layer["config"]["output_shape"],
                 activation_function=Linear(),
             )
@@ -256,7 +256,7 @@ def load_json(
                 original_name=layer["config"]["name"],
                 idx=idx,
                 size=layer["config"]["size"],
-                input_shapes=layer["config"]["input_shape"],
+                input_shapes=np.array(layer["config"]["input_shape"]),
                 output_shape=layer["config"]["output_shape"],
                 activation_function=Linear(),
             )
@@ -266,7 +266,7 @@ def load_json(
                 original_name=layer["config"]["name"],
                 idx=idx,
                 size=layer["config"]["size"],
-                input_shapes=layer["config"]["input_shape"],
+                input_shapes=np.array(layer["config"]["input_shape"]),
                 output_shape=layer["config"]["output_shape"],
                 activation_function=Linear(),
             )
@@ -276,7 +276,7 @@ def load_json(
                 original_name=layer["config"]["name"],
                 idx=idx,
                 size=layer["config"]["size"],
-                input_shapes=layer["config"]["input_shape"],
+                input_shapes=np.array(layer["config"]["input_shape"]),
                 output_shape=layer["config"]["output_shape"],
                 activation_function=Linear(),
             )
-- 
2.43.0


From 2c81f776c3c448af157b939fc55d5d0688394fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:20 +0000
Subject: [PATCH 052/107] fix: pad only the height and width of JSON zero
 paddings of one value

---
 src/acetone_nnet/importers/JSON_importer/parser_JSON.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/acetone_nnet/importers/JSON_importer/parser_JSON.py b/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
index 17d11b2..5a5ea2b 100644
--- a/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
+++ b/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
@@ -284,7 +284,7 @@ def load_json(
         elif layer["class_name"] == "ZeroPadding2D":
             pads = layer["config"]["padding"]
             if type(pads) is int:
-                pads = [pads for i in range(8)]
+                pads = [0, 0, pads, pads, 0, 0, pads, pads]
             else:
                 if type(pads[0]) is int:
                     pad_top, pad_bottom = pads[0], pads[0]
-- 
2.43.0


From 8744e790c3eb24f4fa7e2a827750c4db48fd068e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:20 +0000
Subject: [PATCH 053/107] fix: refuse JSON normalisation layers instead of
 skipping them

---
 src/acetone_nnet/importers/JSON_importer/parser_JSON.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/acetone_nnet/importers/JSON_importer/parser_JSON.py b/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
index 5a5ea2b..2c0ff10 100644
--- a/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
+++ b/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
@@ -320,8 +320,7 @@ def load_json(
             )
 
         elif (
-            "Normalization" in layer["class_name"]
-            or "Dropout" in layer["class_name"]
+            "Dropout" in layer["class_name"]
             or layer["class_name"] == "Reshape"
         ):
             outputs.append(outputs[layer["config"]["prev_layer_idx"][0]])
-- 
2.43.0


From aa7a6ecc0b839d2cc91e0ccb2c67a3daf5e43e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:20 +0000
Subject: [PATCH 054/107] fix: apply the softmax of JSON convolutions along
 their last axis

---
 src/acetone_nnet/importers/JSON_importer/parser_JSON.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/acetone_nnet/importers/JSON_importer/parser_JSON.py b/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
index 2c0ff10..0ec7ff1 100644
--- a/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
+++ b/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
@@ -339,12 +339,15 @@ def load_json(
         # Separated method to generate softmax
         if add_softmax_layer:
             nb_softmax_layers += 1
+            axis = None
+            if len(layer["config"]["output_shape"]) == 4:
+                axis = 1 if data_format == "channels_last" else 3
             current_layer = Softmax(
                 original_name=f"Softmax_{idx+1}",
                 idx=idx + 1,
                 size=l_temp.size,
                 output_shape=layer["config"]["output_shape"],
-                axis=None,
+                axis=axis,
             )
             l_temp.next_layer.append(current_layer)
             current_layer.previous_layer.append(l_temp)
-- 
2.43.0


From fd094f19d19c9b83e3826e5f830944513d92ef5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:23 +0000
Subject: [PATCH 055/107] fix: enlarge dilated kernels in the automatic padding
 rules

---
 src/acetone_nnet/ir/layer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/acetone_nnet/ir/layer.py b/src/acetone_nnet/ir/layer.py
index 5856c45..aa345e0 100644
--- a/src/acetone_nnet/ir/layer.py
+++ b/src/acetone_nnet/ir/layer.py
@@ -127,8 +127,8 @@ class Layer(ABCHasTraits):
         if isinstance(padding, str):
             # Compute 'same' padding tensorflow
 
-            filter_height = kernel_h - (kernel_h - 1) * (dilation_rate - 1)
-            filter_width = kernel_w - (kernel_w - 1) * (dilation_rate - 1)
+            filter_height = kernel_h + (kernel_h - 1) * (dilation_rate - 1)
+            filter_width = kernel_w + (kernel_w - 1) * (dilation_rate - 1)
 
             # The total padding applied along the height and width is computed as:
             if padding in ("VALID", "valid"):
-- 
2.43.0


From b6f168643320f004869adbb3ed0902913af79598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:20 +0000
Subject: [PATCH 056/107] fix: define the test inputs once when they are read
 at run time

---
 src/acetone_nnet/templates/template_main_file.c.tpl           | 4 ++++
 src/acetone_nnet/templates/template_test_dataset_header.c.tpl | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/acetone_nnet/templates/template_main_file.c.tpl b/src/acetone_nnet/templates/template_main_file.c.tpl
index 2fe02ca..d3653d4 100644
--- a/src/acetone_nnet/templates/template_main_file.c.tpl
+++ b/src/acetone_nnet/templates/template_main_file.c.tpl
@@ -14,6 +14,10 @@
 {{/min}}
 
 struct timeval GetTimeStamp();
+{{#read_input}}
+
+{{data_type}} nn_test_inputs[nb_samples][nn_input_size];
+{{/read_input}}
 
 int main(int argc, char** argv)
 {
diff --git a/src/acetone_nnet/templates/template_test_dataset_header.c.tpl b/src/acetone_nnet/templates/template_test_dataset_header.c.tpl
index ac70931..6e5d090 100644
--- a/src/acetone_nnet/templates/template_test_dataset_header.c.tpl
+++ b/src/acetone_nnet/templates/template_test_dataset_header.c.tpl
@@ -5,6 +5,6 @@
 #define nn_input_size {{nb_inputs}}
 #define nn_output_size {{nb_outputs}}
 
-{{^read_input}}extern{{/read_input}} {{data_type}} nn_test_inputs[nb_samples][nn_input_size];
+extern {{data_type}} nn_test_inputs[nb_samples][nn_input_size];
 
 #endif
\ No newline at end of file
-- 
2.43.0


From 3393fb1e02b364138a0a63effd5f1c97a90777de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:20 +0000
Subject: [PATCH 057/107] fix: read run-time inputs in the network's data type

---
 src/acetone_nnet/generator/neural_network.py        | 6 ++++++
 src/acetone_nnet/templates/template_main_file.c.tpl | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index 40695b1..a50cd21 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -738,6 +738,12 @@ class CodeGenerator(ABC):
                     {
                         "data_type": self.data_type,
                         "read_input": self.read_ext_input,
+                        "read_format": {
+                            "double": "%lf",
+                            "int": "%d",
+                            "long int": "%ld",
+                            "short": "%hd",
+                        }.get(self.data_type, "%f"),
                         "verbose": self.verbose,
                         "format": (
                             "%d"
diff --git a/src/acetone_nnet/templates/template_main_file.c.tpl b/src/acetone_nnet/templates/template_main_file.c.tpl
index d3653d4..c65dbed 100644
--- a/src/acetone_nnet/templates/template_main_file.c.tpl
+++ b/src/acetone_nnet/templates/template_main_file.c.tpl
@@ -33,7 +33,7 @@ int main(int argc, char** argv)
     {
         for (j = 0; j < nn_input_size; ++j)
         {
-            fscanf(input_file, "%f", &nn_test_inputs[i][j]);
+            fscanf(input_file, "{{read_format}}", &nn_test_inputs[i][j]);
         }
     }
     fclose(input_file);
-- 
2.43.0


From 27a61382265dcaae683338b790d97401c022e762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:20 +0000
Subject: [PATCH 058/107] fix: give batch_loop the network's data type

---
 src/acetone_nnet/templates/template_train_hook_file.c.tpl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/acetone_nnet/templates/template_train_hook_file.c.tpl b/src/acetone_nnet/templates/template_train_hook_file.c.tpl
index 7bbd6a5..22c8202 100644
--- a/src/acetone_nnet/templates/template_train_hook_file.c.tpl
+++ b/src/acetone_nnet/templates/template_train_hook_file.c.tpl
@@ -4,7 +4,7 @@
 #include "inference.h"
 #include "test_dataset.h"
 
-void batch_loop(float * restrict predictions, float * restrict nn_input, int batch_size)
+void batch_loop({{data_type}} * restrict predictions, {{data_type}} * restrict nn_input, int batch_size)
 {
     int i,j;
     for (j = 0; j < batch_size; j+=MAX_BATCH_SIZE){
-- 
2.43.0


From 2ae07ea464edb549ae59216d83a1f22952c2f563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:20 +0000
Subject: [PATCH 059/107] fix: count the samples read from a dataset file

---
 src/acetone_nnet/generator/neural_network.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index a50cd21..3c26537 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -444,6 +444,7 @@ class CodeGenerator(ABC):
                 self.nb_tests = dataset.shape[0]
             case Path() | str() as path:
                 d = self._load_dataset(Path(path), self.data_type_py, nb_tests)
+                self.nb_tests = d.shape[0]
             case _:
                 raise ValueError
         return d
-- 
2.43.0


From 8b6e3bea61acc80017820d182c84d7d45f8bab4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:20 +0000
Subject: [PATCH 060/107] fix: initialise the dataset of externally fed
 networks

---
 src/acetone_nnet/generator/neural_network.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index 3c26537..9ef5f87 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -526,7 +526,6 @@ class CodeGenerator(ABC):
             dataset = self._initialise_dataset(
                 dataset_or_path=dataset_or_path,
                 nb_tests=self.nb_tests,
-                data_type=self.data_type_py,
             )
         else:
             dataset = self.test_dataset
-- 
2.43.0


From d1860cdb0207d9f771ee2568383bc9e6ae1d2394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:29 +0000
Subject: [PATCH 061/107] fix: keep the caller's input when normalising it

---
 .../normalization/template_pre_processing.c.tpl          | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/acetone_nnet/templates/normalization/template_pre_processing.c.tpl b/src/acetone_nnet/templates/normalization/template_pre_processing.c.tpl
index 12419d3..3b26ebc 100644
--- a/src/acetone_nnet/templates/normalization/template_pre_processing.c.tpl
+++ b/src/acetone_nnet/templates/normalization/template_pre_processing.c.tpl
@@ -1,18 +1,19 @@
     // pre-processing for the normalization
+    float nn_normalized[{{input_size}}];
     for (i = 0; i < {{input_size}}; ++i) 
     { 
         if ( nn_input[i] < input_min[i]){
-            nn_input[i] = (input_min[i]-input_mean[i])/input_range[i];
+            nn_normalized[i] = (input_min[i]-input_mean[i])/input_range[i];
         }
         else
         {
             if (nn_input[i] > input_max[i]){
-                nn_input[i] = (input_max[i]-input_mean[i])/input_range[i];
+                nn_normalized[i] = (input_max[i]-input_mean[i])/input_range[i];
             }
             else
             {
-                nn_input[i] = (nn_input[i]-input_mean[i])/input_range[i];
+                nn_normalized[i] = (nn_input[i]-input_mean[i])/input_range[i];
             }
         }
     }
-    
\ No newline at end of file
+    nn_input = nn_normalized;
-- 
2.43.0


From 21578409ca4fbed41da445864a0df247b04ddf55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:21 +0000
Subject: [PATCH 062/107] fix: equal infinities agree and a NaN does not reset
 the maxima

---
 src/acetone_nnet/cli/compare.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/acetone_nnet/cli/compare.py b/src/acetone_nnet/cli/compare.py
index 3dc3abb..6cabad6 100644
--- a/src/acetone_nnet/cli/compare.py
+++ b/src/acetone_nnet/cli/compare.py
@@ -20,6 +20,7 @@
 """
 
 import argparse
+import math
 import sys
 from pathlib import Path
 
@@ -33,10 +34,12 @@ def compare_floats(
     abs_th: float = sys.float_info.min,
 ) -> tuple[bool, float, float]:
     """Compare a-b to abs_th."""
-    diff = abs(a - b)
-
     if a == b:
-        return True, diff, 0.0
+        return True, 0.0, 0.0
+
+    diff = abs(a - b)
+    if math.isnan(diff):
+        return False, math.inf, math.inf
 
     norm = min((abs(a) + abs(b)), sys.float_info.max)
     rel_diff = diff / (norm / 2) if norm != 0 else 0.0
-- 
2.43.0


From f9a83939fed3e3b77860f3757e3b5245119338e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:21 +0000
Subject: [PATCH 063/107] fix: compare values in double precision and without
 dividing by an underflow

---
 src/acetone_nnet/cli/compare.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/acetone_nnet/cli/compare.py b/src/acetone_nnet/cli/compare.py
index 6cabad6..8166ca7 100644
--- a/src/acetone_nnet/cli/compare.py
+++ b/src/acetone_nnet/cli/compare.py
@@ -34,6 +34,7 @@ def compare_floats(
     abs_th: float = sys.float_info.min,
 ) -> tuple[bool, float, float]:
     """Compare a-b to abs_th."""
+    a, b = float(a), float(b)
     if a == b:
         return True, 0.0, 0.0
 
@@ -42,7 +43,7 @@ def compare_floats(
         return False, math.inf, math.inf
 
     norm = min((abs(a) + abs(b)), sys.float_info.max)
-    rel_diff = diff / (norm / 2) if norm != 0 else 0.0
+    rel_diff = 2 * (diff / norm) if norm != 0 else 0.0
     if diff < max(abs_th, epsilon * norm):
         return True, diff, rel_diff
 
-- 
2.43.0


From b41d99e2ab6b0f2b9c5b15966e4de4abe4970113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:21 +0000
Subject: [PATCH 064/107] fix: lines with different numbers of values do not
 agree

---
 src/acetone_nnet/cli/compare.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/acetone_nnet/cli/compare.py b/src/acetone_nnet/cli/compare.py
index 8166ca7..0bb07d8 100644
--- a/src/acetone_nnet/cli/compare.py
+++ b/src/acetone_nnet/cli/compare.py
@@ -70,8 +70,8 @@ def compare_lines(
     values_f2 = preprocess_line(line_f2, precision)
     max_diff = 0.0
     max_rel_diff = 0.0
-    length = len(values_f1)
-    line_comparison = True
+    length = min(len(values_f1), len(values_f2))
+    line_comparison = len(values_f1) == len(values_f2)
 
     for j in range(length):
         float_comparison, diff, rel_diff = compare_floats(values_f1[j], values_f2[j])
-- 
2.43.0


From d961de68698a4e409cfe06fd479f0eda6c4e8dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:21 +0000
Subject: [PATCH 065/107] fix: compare exactly the requested samples, a missing
 one is no agreement

---
 src/acetone_nnet/cli/compare.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/acetone_nnet/cli/compare.py b/src/acetone_nnet/cli/compare.py
index 0bb07d8..f0ce45e 100644
--- a/src/acetone_nnet/cli/compare.py
+++ b/src/acetone_nnet/cli/compare.py
@@ -98,11 +98,12 @@ def compare_files(
     max_diff_file = 0.0
     max_rel_diff_file = 0.0
     line_comparison = True
+    nb_compared = 0
 
     for line_f1, line_f2, line_counter in zip(
         f1,
         f2,
-        range(nb_tests + 1),
+        range(nb_tests),
         strict=False,
     ):
         float_comparison, max_diff_line, max_rel_diff_line = (
@@ -113,13 +114,12 @@ def compare_files(
         max_diff_file = max(max_diff_line, max_diff_file)
         max_rel_diff_file = max(max_rel_diff_line, max_rel_diff_file)
 
-        if line_counter == int(nb_tests):
-            break
+        nb_compared = line_counter + 1
 
     f1.close()
     f2.close()
 
-    if line_comparison:
+    if line_comparison and nb_compared == nb_tests:
         return True, max_diff_file, max_rel_diff_file
 
     return False, max_diff_file, max_rel_diff_file
-- 
2.43.0


From 308ea20ba470fe1a91be54743a7dab9a58b7457d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:05 +0000
Subject: [PATCH 066/107] fix: write binary parameters and samples in the data
 type of the program

---
 src/acetone_nnet/generator/neural_network.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index 9ef5f87..64e688c 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -704,7 +704,9 @@ class CodeGenerator(ABC):
         """Generate C code for graph test dataset."""
         if self.bin_dataset:
             with Path.open(output_dir / "test_dataset.dat", "w+") as test_dataset_bin:
-                self.test_dataset.copy("C").tofile(test_dataset_bin)
+                np.asarray(
+                    self.test_dataset, dtype=self.data_type_py,
+                ).tofile(test_dataset_bin)
         elif not self.read_ext_input:
             # Generate test source file
             dataset = "{"
@@ -1208,7 +1210,9 @@ class CodeGenerator(ABC):
                 #print(f"{s} {symtab[s].shape} {symtab[s].dtype}")
                 parameters_bin.seek(align_up(parameters_bin.tell(),self.target_page_size),0)
                 self.symtab += f"--add-symbol {s}=.rodata:{parameters_bin.tell()} "
-                symtab[s].tofile(parameters_bin)
+                np.asarray(
+                    symtab[s], dtype=self.data_type_py,
+                ).tofile(parameters_bin)
         logging.info("Generated parameter .dat file.")
 
     def generate_parameter_file(self: Self, output_dir: Path) -> None:
-- 
2.43.0


From 7b59e70751c3d274b7b07aeb3fcf6faac79f8219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:05 +0000
Subject: [PATCH 067/107] fix: link binary programs without parameters

---
 src/acetone_nnet/generator/neural_network.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index 64e688c..33eb4db 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -1206,6 +1206,8 @@ class CodeGenerator(ABC):
 
         with Path.open(output_dir / "parameters.dat", "w+") as parameters_bin:
             self.symtab = ""
+            if not symtab:
+                parameters_bin.write("\0")  # objcopy refuses an empty file
             for s in symtab:
                 #print(f"{s} {symtab[s].shape} {symtab[s].dtype}")
                 parameters_bin.seek(align_up(parameters_bin.tell(),self.target_page_size),0)
-- 
2.43.0


From 8c4e28898351a68b15becbc5dd03b67fc50449c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:05 +0000
Subject: [PATCH 068/107] fix: write infinite and undefined values as C
 constants

---
 src/acetone_nnet/generator/neural_network.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index 33eb4db..895cd03 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -638,6 +638,8 @@ class CodeGenerator(ABC):
     def data2c(self, d):
         if np.issubdtype(self.data_type_py, np.integer):
             return str(d)
+        if not np.isfinite(d):
+            return "(0.0/0.0)" if np.isnan(d) else f"({'-' if d < 0 else ''}1.0/0.0)"
         if self.to_hex:
             return float.hex(float(d)).replace("0000000p", "p")
         return str(float(d))
-- 
2.43.0


From 548269523b541a56b86f31bd22c00298f3d5d75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:20 +0000
Subject: [PATCH 069/107] fix: dump the layer outputs of the context in debug
 mode

---
 src/acetone_nnet/templates/template_source_file.c.tpl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/acetone_nnet/templates/template_source_file.c.tpl b/src/acetone_nnet/templates/template_source_file.c.tpl
index 3d9f9a1..963a695 100644
--- a/src/acetone_nnet/templates/template_source_file.c.tpl
+++ b/src/acetone_nnet/templates/template_source_file.c.tpl
@@ -100,7 +100,7 @@ int inference(inference_t *ctx, {{data_type}} prediction[{{output_size}}], {{dat
     fprintf(fp, "{{name}} {{idx}} {{to_transpose}} {{channels}} {{height}} {{width}}\n");
     for (k = 0; k < {{size}}; ++k)
     {
-        fprintf(fp,"%.9g ", output_{{path}}[k]);
+        fprintf(fp,"%.9g ", ctx->output_{{path}}[k]);
         if (k == {{size}} - 1)
         {
             fprintf(fp, "\n");
-- 
2.43.0


From 5b29807afa02191ecabd8d1a3d43eff1d92b37dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:12 +0000
Subject: [PATCH 070/107] fix: close the debug file after each inference

---
 src/acetone_nnet/templates/template_source_file.c.tpl | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/acetone_nnet/templates/template_source_file.c.tpl b/src/acetone_nnet/templates/template_source_file.c.tpl
index 963a695..3e489b8 100644
--- a/src/acetone_nnet/templates/template_source_file.c.tpl
+++ b/src/acetone_nnet/templates/template_source_file.c.tpl
@@ -130,5 +130,8 @@ int inference(inference_t *ctx, {{data_type}} prediction[{{output_size}}], {{dat
 
 
 {{{post_processing}}}
+    {{#debug_file}}
+    fclose(fp);
+    {{/debug_file}}
     return 0;
 }
\ No newline at end of file
-- 
2.43.0


From 87da4596929b1101347fce5c6935e602dfc974d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:12 +0000
Subject: [PATCH 071/107] fix: dump values in the data type of the program

---
 src/acetone_nnet/generator/neural_network.py          | 6 ++++++
 src/acetone_nnet/templates/template_source_file.c.tpl | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index 895cd03..ea47b56 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -938,6 +938,12 @@ class CodeGenerator(ABC):
 
         if self.debug_mode in ["onnx", "keras"]:
             mustach_hash["debug_file"] = output_dir / "debug_file.txt"
+            mustach_hash["debug_format"] = {
+                "double": "%.17g",
+                "int": "%d",
+                "long int": "%ld",
+                "short": "%hd",
+            }.get(self.data_type, "%.9g")
 
         if self.debug_mode in ["time"]:
             mustach_hash["time"] = True
diff --git a/src/acetone_nnet/templates/template_source_file.c.tpl b/src/acetone_nnet/templates/template_source_file.c.tpl
index 3e489b8..5bfa108 100644
--- a/src/acetone_nnet/templates/template_source_file.c.tpl
+++ b/src/acetone_nnet/templates/template_source_file.c.tpl
@@ -100,7 +100,7 @@ int inference(inference_t *ctx, {{data_type}} prediction[{{output_size}}], {{dat
     fprintf(fp, "{{name}} {{idx}} {{to_transpose}} {{channels}} {{height}} {{width}}\n");
     for (k = 0; k < {{size}}; ++k)
     {
-        fprintf(fp,"%.9g ", ctx->output_{{path}}[k]);
+        fprintf(fp,"{{debug_format}} ", ctx->output_{{path}}[k]);
         if (k == {{size}} - 1)
         {
             fprintf(fp, "\n");
-- 
2.43.0


From 445b79d021337161fb43020fd4d5dd3ae7da3a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:54 +0000
Subject: [PATCH 072/107] fix: extract the reference outputs of layers with
 large indices

---
 src/acetone_nnet/debug/debug_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/acetone_nnet/debug/debug_tools.py b/src/acetone_nnet/debug/debug_tools.py
index 71423d4..5873a5a 100644
--- a/src/acetone_nnet/debug/debug_tools.py
+++ b/src/acetone_nnet/debug/debug_tools.py
@@ -142,7 +142,7 @@ def extract_outputs_python(
     targets = []
     for indices in targets_indices:
         for i in range(len(result_python[1])):
-            if indices == int(result_python[1][i][-1]):
+            if indices == int(result_python[1][i].split(" ")[-1]):
                 outputs.append(result_python[0][i])
                 targets.append(result_python[1][i])
 
-- 
2.43.0


From 82ca1a7dcf8e20218e2e75169a1b2a2da955dac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:09 +0000
Subject: [PATCH 073/107] fix: dump channels-last outputs in the layout of the
 model

---
 src/acetone_nnet/generator/neural_network.py          | 11 ++++++++++-
 src/acetone_nnet/templates/template_source_file.c.tpl |  2 +-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index ea47b56..2bddae6 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -973,7 +973,16 @@ class CodeGenerator(ABC):
                 layer_hash["name"] = layer.name
                 layer_hash["idx"] = layer.idx
                 layer_hash["to_transpose"] = 0
-                if (self.data_format == "channels_last") and (
+                layer_hash["debug_index"] = "k"
+                output_shape = self.get_image_shape(layer)
+                if self.gen_data_format == "channels_last":
+                    if self.data_format == "channels_first" and output_shape is not None:
+                        # Dump the output in the layout of the model
+                        channels, height, width = output_shape
+                        layer_hash["debug_index"] = (
+                            f"k % {height * width} * {channels} + k / {height * width}"
+                        )
+                elif (self.data_format == "channels_last") and (
                     hasattr(layer, "output_channels")
                 ):
                     layer_hash["to_transpose"] = 1
diff --git a/src/acetone_nnet/templates/template_source_file.c.tpl b/src/acetone_nnet/templates/template_source_file.c.tpl
index 5bfa108..03d5c95 100644
--- a/src/acetone_nnet/templates/template_source_file.c.tpl
+++ b/src/acetone_nnet/templates/template_source_file.c.tpl
@@ -100,7 +100,7 @@ int inference(inference_t *ctx, {{data_type}} prediction[{{output_size}}], {{dat
     fprintf(fp, "{{name}} {{idx}} {{to_transpose}} {{channels}} {{height}} {{width}}\n");
     for (k = 0; k < {{size}}; ++k)
     {
-        fprintf(fp,"{{debug_format}} ", ctx->output_{{path}}[k]);
+        fprintf(fp,"{{debug_format}} ", ctx->output_{{path}}[{{debug_index}}]);
         if (k == {{size}} - 1)
         {
             fprintf(fp, "\n");
-- 
2.43.0


From 1c602516b4db4fa4a33e2ff84fc14e48a7cff300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:40 +0000
Subject: [PATCH 074/107] fix: export the padding amounts in the order of ONNX

---
 .../exporters/ONNX_exporter/acetone_to_onnx_layer.py          | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py b/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
index ad8e864..28ae7d7 100644
--- a/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
+++ b/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
@@ -209,7 +209,7 @@ def export_conv2d(
         inputs=inputs_name,
         outputs=[output_name],
         kernel_shape=(conv2d_layer.kernel_h, conv2d_layer.kernel_w),
-        pads=(conv2d_layer.pad_right, conv2d_layer.pad_left, conv2d_layer.pad_bottom, conv2d_layer.pad_top),
+        pads=(conv2d_layer.pad_top, conv2d_layer.pad_left, conv2d_layer.pad_bottom, conv2d_layer.pad_right),
         strides=(conv2d_layer.strides,conv2d_layer.strides),
         dilations=(conv2d_layer.dilation_rate, conv2d_layer.dilation_rate),
     )
@@ -424,7 +424,7 @@ def export_pool(
         outputs=[output_name],
         strides=(pool_layer.strides, pool_layer.strides),
         kernel_shape=(pool_layer.pool_size, pool_layer.pool_size),
-        pads=(pool_layer.pad_right, pool_layer.pad_left, pool_layer.pad_bottom, pool_layer.pad_top)
+        pads=(pool_layer.pad_top, pool_layer.pad_left, pool_layer.pad_bottom, pool_layer.pad_right)
     )
 
     return node, []
-- 
2.43.0


From c8af71cdc804bd52f8987d2c25722d24e264755a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:40 +0000
Subject: [PATCH 075/107] fix: export the indices of Gather as integers

---
 .../exporters/ONNX_exporter/acetone_to_onnx_layer.py          | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py b/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
index 28ae7d7..9e06243 100644
--- a/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
+++ b/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
@@ -297,7 +297,7 @@ def export_gather(
     indices = create_initializer_tensor(
         name=indices_name,
         tensor_array=gather_layer.indices,
-        data_type=tensor_dtype,
+        data_type=onnx.TensorProto.INT64,
     )
     initializer = [indices]
 
@@ -324,7 +324,7 @@ def export_gather_elements(
     indices = create_initializer_tensor(
         name=indices_name,
         tensor_array=gather_elements_layer.indices,
-        data_type=tensor_dtype,
+        data_type=onnx.TensorProto.INT64,
     )
     initializer = [indices]
 
-- 
2.43.0


From 108e83f12648b363070562c2fdb736e89d178b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:40 +0000
Subject: [PATCH 076/107] fix: export the repeats of Tile as integers

---
 .../exporters/ONNX_exporter/acetone_to_onnx_layer.py            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py b/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
index 9e06243..467eb2f 100644
--- a/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
+++ b/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
@@ -570,7 +570,7 @@ def export_tile(
     repeat = create_initializer_tensor(
         name=repeat_name,
         tensor_array=np.array(tile_layer.repeats),
-        data_type=tensor_dtype,
+        data_type=onnx.TensorProto.INT64,
     )
     initializer = [repeat]
 
-- 
2.43.0


From 09cc9aa3c712d91a30cf4e624d3125c3dd696302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:40 +0000
Subject: [PATCH 077/107] fix: export Average layers as Mean nodes

---
 .../exporters/ONNX_exporter/acetone_to_onnx_layer.py            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py b/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
index 467eb2f..d54e1b1 100644
--- a/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
+++ b/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
@@ -144,7 +144,7 @@ def export_broadcast(
 ) -> tuple[onnx.NodeProto, list[onnx.TensorProto]]:
     """Export ACETONE broadcastable layer to an ONNX broadcastable layer (Add, Average, Divide, Maximum, Minimum, Multiply, Subtract)."""
     tensor_dtype = np_dtype_to_tensor_dtype(np.dtype(dtype_py.__name__))
-    op_type = broadcast_layer.name[:3]
+    op_type = "Mean" if broadcast_layer.name == "Average" else broadcast_layer.name[:3]
     initializer = []
 
     output_name, inputs_name = generate_input_output_name(broadcast_layer)
-- 
2.43.0


From cf2b1a1203adda5f7fc7be26a7ca60e240d18967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:40 +0000
Subject: [PATCH 078/107] fix: export the coefficients of Gemm as floats

---
 .../exporters/ONNX_exporter/acetone_to_onnx_layer.py          | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py b/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
index d54e1b1..a4a13c8 100644
--- a/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
+++ b/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
@@ -347,8 +347,8 @@ def export_gemm(
         op_type="Gemm",
         inputs=inputs_name,
         outputs=[output_name],
-        alpha=1 if not gemm_layer.alpha else gemm_layer.alpha[0],
-        beta=1 if not gemm_layer.beta else gemm_layer.beta[0],
+        alpha=1.0 if not gemm_layer.alpha else float(gemm_layer.alpha[0]),
+        beta=1.0 if not gemm_layer.beta else float(gemm_layer.beta[0]),
         transA=gemm_layer.transpo[0],
         transB=gemm_layer.transpo[1],
     )
-- 
2.43.0


From 39c85cc789b9c88ec4890ab5b865840a1cda4d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:41 +0000
Subject: [PATCH 079/107] fix: export axes from the end of the shape

---
 .../exporters/ONNX_exporter/acetone_to_onnx_layer.py      | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py b/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
index a4a13c8..bb2fa0e 100644
--- a/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
+++ b/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
@@ -186,7 +186,7 @@ def export_concatenate(
         "Concat",
         inputs_name,
         [output_name],
-        axis=concatenate_layer.axis,
+        axis=concatenate_layer.axis - 4,
         name=concatenate_layer.original_name
     )
 
@@ -291,7 +291,7 @@ def export_gather(
         op_type="Gather",
         inputs=inputs_name,
         outputs=[output_name],
-        axis=gather_layer.axis,
+        axis=gather_layer.axis - 4,
     )
 
     indices = create_initializer_tensor(
@@ -318,7 +318,7 @@ def export_gather_elements(
         op_type="GatherElements",
         inputs=inputs_name,
         outputs=[output_name],
-        axis=gather_elements_layer.axis,
+        axis=gather_elements_layer.axis - 4,
     )
 
     indices = create_initializer_tensor(
@@ -543,7 +543,7 @@ def export_reduce(
 
     axes = create_initializer_tensor(
         name=axes_name,
-        tensor_array=np.array(reduce_layer.axes),
+        tensor_array=np.array([axis - 4 for axis in reduce_layer.axes]),
         data_type=onnx.TensorProto.INT64,
     )
     initializer = [axes]
-- 
2.43.0


From 47ed5bd74d6258977127033fb2ea867005a69647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:41 +0000
Subject: [PATCH 080/107] fix: export the axis of Softmax

---
 .../exporters/ONNX_exporter/acetone_to_onnx_layer.py             | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py b/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
index bb2fa0e..648b76d 100644
--- a/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
+++ b/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
@@ -441,6 +441,7 @@ def export_softmax(
         op_type="Softmax",
         inputs=inputs_name,
         outputs=[output_name],
+        axis=-1 if softmax_layer.axis is None else softmax_layer.axis - 4,
     )
 
     return node, []
-- 
2.43.0


From f4cfc78661c92f5bc6668e9ea59eef8319903d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:59 +0000
Subject: [PATCH 081/107] fix: export constant layers as initializers

---
 .../ONNX_exporter/acetone_to_onnx_layer.py    | 34 +++++++------------
 .../exporters/ONNX_exporter/exporter_onnx.py  |  7 +++-
 2 files changed, 19 insertions(+), 22 deletions(-)

diff --git a/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py b/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
index 648b76d..1af9370 100644
--- a/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
+++ b/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
@@ -32,6 +32,7 @@ from acetone_nnet.generator.layers import (
     Average,
     BatchNormalization,
     Concatenate,
+    ConstantLayer,
     ConstantPad,
     Conv2D,
     Dense,
@@ -192,6 +193,17 @@ def export_concatenate(
 
     return node, []
 
+def export_constant(
+        constant_layer: ConstantLayer,
+        dtype_py:np.dtype,
+) -> onnx.TensorProto:
+    """Export ACETONE Constant layer to an ONNX initializer."""
+    return create_initializer_tensor(
+        name=f"{constant_layer.name}_{constant_layer.idx}",
+        tensor_array=constant_layer.constant,
+        data_type=np_dtype_to_tensor_dtype(np.dtype(dtype_py.__name__)),
+    )
+
 def export_conv2d(
         conv2d_layer: Conv2D,
         dtype_py:np.dtype,
@@ -374,18 +386,8 @@ def export_matmul(
 ) -> tuple[onnx.NodeProto, list[onnx.TensorProto]]:
     """Export ACETONE MatMul layer to an ONNX MatMul layer."""
     tensor_dtype = np_dtype_to_tensor_dtype(np.dtype(dtype_py.__name__))
-    initializer = []
 
     output_name, inputs_name = generate_input_output_name(matmul_layer)
-    weight_name = f"{matmul_layer.name}_{matmul_layer.idx}_weight"
-    if matmul_layer.side == 1:
-        temp = [weight_name]
-        temp.extend(inputs_name)
-        inputs_name = temp
-    elif matmul_layer.side == 0:
-        inputs_name.append(weight_name)
-    else:
-        pass
     node = make_node(
         name=matmul_layer.original_name,
         op_type="MatMul",
@@ -393,17 +395,7 @@ def export_matmul(
         outputs=[output_name],
     )
 
-    if matmul_layer.weights is not None:
-        weight_value = matmul_layer.weights
-        weight_value = np.reshape(weight_value, (weight_value.shape[-2],weight_value.shape[-1]))
-        weight = create_initializer_tensor(
-            name=weight_name,
-            tensor_array=weight_value,
-            data_type=tensor_dtype,
-        )
-        initializer.append(weight)
-
-    return node, initializer
+    return node, []
 
 def export_pool(
         pool_layer: Pooling2D,
diff --git a/src/acetone_nnet/exporters/ONNX_exporter/exporter_onnx.py b/src/acetone_nnet/exporters/ONNX_exporter/exporter_onnx.py
index da9975c..8e57ed0 100644
--- a/src/acetone_nnet/exporters/ONNX_exporter/exporter_onnx.py
+++ b/src/acetone_nnet/exporters/ONNX_exporter/exporter_onnx.py
@@ -23,10 +23,11 @@ import onnx
 from onnx import helper
 
 from acetone_nnet.generator.activation_functions import Linear
-from acetone_nnet.generator.layers import ActivationLayer
+from acetone_nnet.generator.layers import ActivationLayer, ConstantLayer
 from acetone_nnet.ir import Layer
 
 from .acetone_to_onnx_layer import (
+    export_constant,
     export_input,
     export_output,
     list_activation_exporters,
@@ -46,6 +47,10 @@ def onnx_exporter(
     outputs = []
 
     for layer in list_layer:
+        if isinstance(layer, ConstantLayer):
+            initializers.append(export_constant(layer, datatype_py))
+            continue
+
         if not layer.previous_layer:
             inputs.append(export_input(layer, datatype_py))
 
-- 
2.43.0


From 4a3242700a49b65b98a3735628ece3887c0ba69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:59 +0000
Subject: [PATCH 082/107] fix: export the shapes of the outputs computed by the
 nodes

---
 .../ONNX_exporter/acetone_to_onnx_layer.py       | 16 ++--------------
 .../exporters/ONNX_exporter/exporter_onnx.py     |  8 +++++++-
 2 files changed, 9 insertions(+), 15 deletions(-)

diff --git a/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py b/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
index 1af9370..f224c8a 100644
--- a/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
+++ b/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
@@ -894,20 +894,8 @@ def export_output(
     """Export ACETONE Input layer to ONNX input value info."""
     tensor_dtype = np_dtype_to_tensor_dtype(np.dtype(datatype_py.__name__))
 
-    shape = [1,1,1,1]
-
-    if isinstance(output_layer, Softmax) and output_layer.one_dimension:
-        axis = -1 if output_layer.axis is None else output_layer.axis
-        shape[axis] = output_layer.size
-    elif isinstance(output_layer, InputLayer):
-        shape = output_layer.input_shape
-    else:
-        if hasattr(output_layer, "output_channels"):
-            shape[1] = output_layer.output_channels
-        if hasattr(output_layer, "output_height"):
-            shape[2]  = output_layer.output_height
-        if hasattr(output_layer, "output_width"):
-            shape[3]  = output_layer.output_width
+    # Other shapes are known from the node computing the output
+    shape = output_layer.input_shape if isinstance(output_layer, InputLayer) else None
 
     return make_tensor_value_info(
         name=f"{output_layer.name}_{output_layer.idx}",
diff --git a/src/acetone_nnet/exporters/ONNX_exporter/exporter_onnx.py b/src/acetone_nnet/exporters/ONNX_exporter/exporter_onnx.py
index 8e57ed0..e2279d1 100644
--- a/src/acetone_nnet/exporters/ONNX_exporter/exporter_onnx.py
+++ b/src/acetone_nnet/exporters/ONNX_exporter/exporter_onnx.py
@@ -81,5 +81,11 @@ def onnx_exporter(
         outputs=outputs,
         initializer=initializers,
     )
-    return helper.make_model(graph)
+    model = helper.make_model(graph)
+
+    # Complete the outputs with the shapes computed by their nodes
+    inferred = onnx.shape_inference.infer_shapes(model)
+    for output, inferred_output in zip(model.graph.output, inferred.graph.output, strict=True):
+        output.CopyFrom(inferred_output)
+    return model
 
-- 
2.43.0


From e2008fd72077c343376f22f5d8b9dd19b7516d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:59 +0000
Subject: [PATCH 083/107] fix: export the scales of Resize as floats, and no
 empty axes

---
 .../exporters/ONNX_exporter/acetone_to_onnx_layer.py         | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py b/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
index f224c8a..253103a 100644
--- a/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
+++ b/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
@@ -496,7 +496,6 @@ def export_resize(
         op_type="Resize",
         inputs=inputs_name,
         outputs=[output_name],
-        axes=resize_layer.axes,
         coordinate_transformation_mode=resize_layer.coordinate_transformation_mode,
         cubic_coeff_a=resize_layer.cubic_coeff_a,
         exclude_outside=resize_layer.exclude_outside,
@@ -508,8 +507,8 @@ def export_resize(
 
     scale = create_initializer_tensor(
         name=scale_name,
-        tensor_array=np.array(resize_layer.scale),
-        data_type=tensor_dtype,
+        tensor_array=np.array(resize_layer.scale, dtype=np.float32),
+        data_type=onnx.TensorProto.FLOAT,
     )
     initializer = [scale]
 
-- 
2.43.0


From 9b81f0755a7b1dda8a22325efbe25aa02d72137a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:59 +0000
Subject: [PATCH 084/107] fix: export the padded axes and their amounts

---
 .../ONNX_exporter/acetone_to_onnx_layer.py    | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py b/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
index 253103a..0029b32 100644
--- a/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
+++ b/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
@@ -447,7 +447,7 @@ def export_pad(
 
     output_name, inputs_name = generate_input_output_name(pad_layer)
     pads_name = f"{pad_layer.name}_{pad_layer.idx}_pads"
-    axes_name = f"{pad_layer.name}_{pad_layer.idx}_axes" if pad_layer.axes else ""
+    axes_name = f"{pad_layer.name}_{pad_layer.idx}_axes"
     constant_name = f"{pad_layer.name}_{pad_layer.idx}_constant" if pad_layer.constant_value is not None else ""
     inputs_name.extend([pads_name, constant_name, axes_name])
     node = make_node(
@@ -458,19 +458,19 @@ def export_pad(
         mode=pad_layer.mode,
     )
 
+    # The amounts of the padded axes, counted from the end of the shape
+    padded = [i for i in range(4) if pad_layer.pads[i] or pad_layer.pads[i + 4]]
     pads = create_initializer_tensor(
         name=pads_name,
-        tensor_array=np.array(pad_layer.pads),
+        tensor_array=np.array([pad_layer.pads[i] for i in padded] + [pad_layer.pads[i + 4] for i in padded]),
         data_type=onnx.TensorProto.INT64,
     )
-    initializer = [pads]
-    if pad_layer.axes :
-        axes = create_initializer_tensor(
-            name=axes_name,
-            tensor_array=np.array(pad_layer.axes),
-            data_type=onnx.TensorProto.INT64,
-        )
-        initializer.append(axes)
+    axes = create_initializer_tensor(
+        name=axes_name,
+        tensor_array=np.array([i - 4 for i in padded]),
+        data_type=onnx.TensorProto.INT64,
+    )
+    initializer = [pads, axes]
     if pad_layer.constant_value is not None:
         constant = create_initializer_tensor(
             name=constant_name,
-- 
2.43.0


From 63703a6585e04cdcc61824e4d93b79b6ae073dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:59 +0000
Subject: [PATCH 085/107] fix: export the parameters of activation layers

---
 .../ONNX_exporter/acetone_to_onnx_layer.py      | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py b/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
index 0029b32..f428bf9 100644
--- a/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
+++ b/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
@@ -627,13 +627,28 @@ def export_activation(
         def silu(tensor: np.array) -> np.array:
             return tensor / (1 + np.exp(-tensor))
 
+    initializer = []
+    attributes = {}
+    if op_tye == "LeakyRelu":
+        attributes["alpha"] = float(activation_layer.activation_function.alpha)
+    elif op_tye == "Clip":
+        for bound in ("min", "max"):
+            bound_name = f"{activation_layer.name}_{activation_layer.idx}_clip_{bound}"
+            inputs_name.append(bound_name)
+            initializer.append(create_initializer_tensor(
+                name=bound_name,
+                tensor_array=np.array(getattr(activation_layer.activation_function, bound)),
+                data_type=tensor_dtype,
+            ))
+
     node = make_node(
         name=activation_layer.original_name,
         op_type=op_tye,
         inputs=inputs_name,
         outputs=[output_name],
+        **attributes,
     )
-    return node, []
+    return node, initializer
 
 ###### Dict of all the exporters ######
 list_exporters = {
-- 
2.43.0


From 790536750256c52143e69390ddc8fa71939d29f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:22 +0000
Subject: [PATCH 086/107] fix: export the sizes that Resize is given

---
 .../ONNX_exporter/acetone_to_onnx_layer.py          | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py b/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
index f428bf9..b454bfa 100644
--- a/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
+++ b/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
@@ -489,8 +489,15 @@ def export_resize(
     tensor_dtype = np_dtype_to_tensor_dtype(np.dtype(dtype_py.__name__))
 
     output_name, inputs_name = generate_input_output_name(resize_layer)
+    output_size = [resize_layer.output_channels, resize_layer.output_height, resize_layer.output_width]
+    input_size = [resize_layer.input_channels, resize_layer.input_height, resize_layer.input_width]
+    # A scale deduced from the output size is not exact enough to compute it again
+    from_size = all(
+        scale == output_dim / input_dim
+        for scale, output_dim, input_dim in zip(resize_layer.scale[1:], output_size, input_size, strict=True)
+    )
     scale_name = f"{resize_layer.name}_{resize_layer.idx}_scale"
-    inputs_name.extend(["",scale_name,""])
+    inputs_name.extend(["", "", scale_name] if from_size else ["", scale_name])
     node = make_node(
         name=resize_layer.original_name,
         op_type="Resize",
@@ -507,8 +514,8 @@ def export_resize(
 
     scale = create_initializer_tensor(
         name=scale_name,
-        tensor_array=np.array(resize_layer.scale, dtype=np.float32),
-        data_type=onnx.TensorProto.FLOAT,
+        tensor_array=np.array([1, *output_size] if from_size else resize_layer.scale),
+        data_type=onnx.TensorProto.INT64 if from_size else onnx.TensorProto.FLOAT,
     )
     initializer = [scale]
 
-- 
2.43.0


From e9a21722008b2ae1ab88d2dade96ff37254eaf50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:05 +0000
Subject: [PATCH 087/107] fix: export Dense layers as nodes that ONNX defines

---
 .../ONNX_exporter/acetone_to_onnx_layer.py    | 31 +++++++++----------
 .../exporters/ONNX_exporter/exporter_onnx.py  |  2 +-
 2 files changed, 16 insertions(+), 17 deletions(-)

diff --git a/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py b/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
index b454bfa..3c3bafd 100644
--- a/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
+++ b/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
@@ -240,35 +240,34 @@ def export_conv2d(
 def export_dense(
         dense_layer: Dense,
         dtype_py:np.dtype,
-) -> tuple[onnx.NodeProto, list[onnx.TensorProto]]:
-    """Export ACETONE dense layer to an ONNX dense layer.
-
-    The custom dense layer is made with onnxruntime_extension. (see: https://onnxruntime.ai/docs/extensions/add-op.html).
-    """
+) -> tuple[list[onnx.NodeProto], list[onnx.TensorProto]]:
+    """Export ACETONE dense layer to an ONNX MatMul layer followed by an Add layer."""
     tensor_dtype = np_dtype_to_tensor_dtype(np.dtype(dtype_py.__name__))
-    @onnx_op(op_type="Dense",
-             inputs=[tensor_dtype,tensor_dtype,tensor_dtype],
-             outputs=[tensor_dtype])
-    def dense(tensor:np.array,weight:np.array,bias:np.array) -> np.array:
-        return np.dot(tensor,weight) + bias
 
     output_name, inputs_name = generate_input_output_name(dense_layer)
     weight_name = f"{dense_layer.name}_{dense_layer.idx}_weight"
     bias_name = f"{dense_layer.name}_{dense_layer.idx}_bias"
-    inputs_name.extend([weight_name,bias_name])
-    node = make_node(
-        "Dense", inputs_name, [output_name], name=dense_layer.original_name
-    )
+    product_name = f"{dense_layer.name}_{dense_layer.idx}_product"
+    nodes = [
+        make_node(
+            "MatMul", [*inputs_name, weight_name], [product_name], name=f"{dense_layer.original_name}_product",
+        ),
+        make_node(
+            "Add", [product_name, bias_name], [output_name], name=dense_layer.original_name,
+        ),
+    ]
 
     weights = create_initializer_tensor(
-        name=weight_name, tensor_array=dense_layer.weights, data_type=tensor_dtype,
+        name=weight_name,
+        tensor_array=np.reshape(dense_layer.weights, (-1, dense_layer.size)),
+        data_type=tensor_dtype,
     )
     biases = create_initializer_tensor(
         name=bias_name, tensor_array=dense_layer.biases, data_type=tensor_dtype,
     )
     initializer = [weights, biases]
 
-    return node, initializer
+    return nodes, initializer
 
 def export_flatten(
         flatten_layer: Flatten,
diff --git a/src/acetone_nnet/exporters/ONNX_exporter/exporter_onnx.py b/src/acetone_nnet/exporters/ONNX_exporter/exporter_onnx.py
index e2279d1..9f52385 100644
--- a/src/acetone_nnet/exporters/ONNX_exporter/exporter_onnx.py
+++ b/src/acetone_nnet/exporters/ONNX_exporter/exporter_onnx.py
@@ -60,7 +60,7 @@ def onnx_exporter(
         exporter = list_exporters.get(layer.name, None)
         if exporter is not None:
             node, initializer = exporter(layer, datatype_py)
-            nodes.append(node)
+            nodes.extend(node if isinstance(node, list) else [node])
             initializers.extend(initializer)
 
         if (hasattr(layer, "activation_function")
-- 
2.43.0


From 3a7287da75b7917b201c55619f4a990261edcaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:06 +0000
Subject: [PATCH 088/107] fix: export additions of more than two tensors as Sum
 nodes

---
 .../exporters/ONNX_exporter/acetone_to_onnx_layer.py            | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py b/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
index 3c3bafd..34a1852 100644
--- a/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
+++ b/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
@@ -168,6 +168,8 @@ def export_broadcast(
         )
         initializer.append(constant)
 
+    if op_type == "Add" and len(inputs_name) > 2:  # noqa: PLR2004
+        op_type = "Sum"
     node = make_node(
         op_type, inputs_name, [output_name], name=broadcast_layer.original_name,
     )
-- 
2.43.0


From 4dea397b5fb6618eb78ce48ebaa63fff7e8c90e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:35 +0000
Subject: [PATCH 089/107] fix: export Flatten in the order of channels-last
 models

---
 .../ONNX_exporter/acetone_to_onnx_layer.py     | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py b/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
index 34a1852..0d8c69c 100644
--- a/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
+++ b/src/acetone_nnet/exporters/ONNX_exporter/acetone_to_onnx_layer.py
@@ -279,15 +279,27 @@ def export_flatten(
     tensor_dtype = np_dtype_to_tensor_dtype(np.dtype(dtype_py.__name__))
 
     output_name, inputs_name = generate_input_output_name(flatten_layer)
-    node = make_node(
+    nodes = []
+    if flatten_layer.data_format == "channels_last":
+        # The order of the original model
+        transposed_name = f"{flatten_layer.name}_{flatten_layer.idx}_channels_last"
+        nodes.append(make_node(
+            name=f"{flatten_layer.original_name}_channels_last",
+            op_type="Transpose",
+            inputs=inputs_name,
+            outputs=[transposed_name],
+            perm=(0, 2, 3, 1),
+        ))
+        inputs_name = [transposed_name]
+    nodes.append(make_node(
         name=flatten_layer.original_name,
         op_type="Flatten",
         inputs=inputs_name,
         outputs=[output_name],
         axis=0,
-    )
+    ))
 
-    return node, []
+    return nodes, []
 
 def export_gather(
         gather_layer: Gather,
-- 
2.43.0


From c1bd3ca0d7fdd0ccc8ee1f980f96f971654e4efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:34 +0000
Subject: [PATCH 090/107] fix: refuse ONNX convolutions with uneven strides or
 dilations

---
 .../importers/ONNX_importer/create_layer.py        | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index f280c57..03219d9 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -174,6 +174,19 @@ def get_shape(
     return shape
 
 
+# The layers have the same stride (dilation, kernel size) along both spatial dimensions
+def check_uniform(
+    node: onnx.NodeProto,
+    attributes: dict[str, Any],
+    names: tuple[str, ...],
+) -> None:
+    """Refuse the attributes that differ from one spatial dimension to the other."""
+    for name in names:
+        if len(set(attributes.get(name, []))) > 1:
+            msg = f"Error: {name} {list(attributes[name])} of {node.op_type} {node.name} not supported"
+            raise ValueError(msg)
+
+
 # Return the size of the layer when given the list output_shape
 def find_size(output_shape: list) -> int:
     """Compute the size of a tensor."""
@@ -287,6 +300,7 @@ def create_conv(
         for initializer_name in node.input[1:]
     ]
     attributes = extract_attributes(node)
+    check_uniform(node, attributes, ("strides", "dilations"))
     if "dilations" not in attributes:
         attributes["dilations"] = [1]
     if "group" not in attributes:
-- 
2.43.0


From eccd2c86deefce621aba5f98c35ef8fbbb98fca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:34 +0000
Subject: [PATCH 091/107] fix: refuse ONNX poolings with oblong kernels, uneven
 strides or dilations

---
 .../importers/ONNX_importer/create_layer.py          | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index 03219d9..d2fbc9b 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -1095,8 +1095,10 @@ def create_max_pool(
     dict_input[idx] = node.input
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
-    if "dilations" not in attributes:
-        attributes["dilations"] = [1]
+    check_uniform(node, attributes, ("kernel_shape", "strides"))
+    if any(dilation != 1 for dilation in attributes.get("dilations", [])):
+        msg = f"Error: dilations of {node.op_type} {node.name} not supported"
+        raise ValueError(msg)
     if ("auto_pad" not in attributes) or (attributes["auto_pad"].decode() == "NOTSET"):
         if "pads" not in attributes:
             attributes["auto_pad"] = "VALID"
@@ -1134,8 +1136,10 @@ def create_average_pool(
     dict_input[idx] = [node.input[0]]
     dict_output[node.output[0]] = idx
     attributes = extract_attributes(node)
-    if "dilations" not in attributes:
-        attributes["dilations"] = [1]
+    check_uniform(node, attributes, ("kernel_shape", "strides"))
+    if any(dilation != 1 for dilation in attributes.get("dilations", [])):
+        msg = f"Error: dilations of {node.op_type} {node.name} not supported"
+        raise ValueError(msg)
     if ("auto_pad" not in attributes) or (attributes["auto_pad"].decode() == "NOTSET"):
         if "pads" not in attributes:
             attributes["auto_pad"] = "VALID"
-- 
2.43.0


From c59c49394e58f1c178d57468b97f2929e56c92ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:34 +0000
Subject: [PATCH 092/107] fix: refuse ONNX average poolings that count the
 padding

---
 src/acetone_nnet/importers/ONNX_importer/create_layer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index d2fbc9b..2c19419 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -1147,6 +1147,11 @@ def create_average_pool(
             attributes["auto_pad"] = attributes["pads"]
     else:
         attributes["auto_pad"] = attributes["auto_pad"].decode()
+    if attributes.get("count_include_pad", 0) and attributes["auto_pad"] != "VALID" and (
+        isinstance(attributes["auto_pad"], str) or any(attributes["auto_pad"])
+    ):
+        msg = f"Error: padding counted in the averages of {node.op_type} {node.name} not supported"
+        raise ValueError(msg)
     if "strides" not in attributes:
         attributes["strides"] = [1, 1]
     return AveragePooling2D(
-- 
2.43.0


From 5649c99bcb77771f03b57925452a69c89fbedd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:54 +0000
Subject: [PATCH 093/107] fix: refuse ONNX tensors of rank 5 in reductions,
 gathers and global poolings

---
 .../importers/ONNX_importer/create_layer.py   | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index 2c19419..42a501e 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -174,6 +174,17 @@ def get_shape(
     return shape
 
 
+# The tensors of the layers have four dimensions
+def check_rank(
+    node: onnx.NodeProto,
+    shape: list[int],
+) -> None:
+    """Refuse the tensors of more than four dimensions."""
+    if len(shape) > 4:  # noqa: PLR2004
+        msg = f"Error: tensor of rank {len(shape)} in {node.op_type} {node.name}"
+        raise ValueError(msg)
+
+
 # The layers have the same stride (dilation, kernel size) along both spatial dimensions
 def check_uniform(
     node: onnx.NodeProto,
@@ -526,6 +537,7 @@ def create_gather(
 ) -> Gather:
     """Create a Gather layer."""
     input_shape = get_shape(node.input[0], model)
+    check_rank(node, input_shape)
     output_shape = get_shape(node.output[0], model)
     original_len_shape = len(get_shape(node.input[0], model, extend=False))
     size = find_size(output_shape)
@@ -565,6 +577,7 @@ def create_gather_elements(
 ) -> GatherElements:
     """Create a GatherElements layer."""
     input_shape = get_shape(node.input[0], model)
+    check_rank(node, input_shape)
     output_shape = get_shape(node.output[0], model)
     original_len_shape = len(get_shape(node.input[0], model, extend=False))
     size = find_size(output_shape)
@@ -818,6 +831,7 @@ def create_reduce_sum(
     onnx_version_change_implementation = 13
 
     input_shape = get_shape(node.input[0], model)
+    check_rank(node, input_shape)
     original_len_shape = len(get_shape(node.input[0],model,extend=False))
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
@@ -872,6 +886,7 @@ def create_reduce_max(
     onnx_version_change_implementation = 18
 
     input_shape = get_shape(node.input[0], model)
+    check_rank(node, input_shape)
     original_len_shape = len(get_shape(node.input[0],model,extend=False))
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
@@ -926,6 +941,7 @@ def create_reduce_min(
     onnx_version_change_implementation = 18
 
     input_shape = get_shape(node.input[0], model)
+    check_rank(node, input_shape)
     original_len_shape = len(get_shape(node.input[0],model,extend=False))
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
@@ -980,6 +996,7 @@ def create_reduce_mean(
     onnx_version_change_implementation = 18
 
     input_shape = get_shape(node.input[0], model)
+    check_rank(node, input_shape)
     original_len_shape = len(get_shape(node.input[0],model,extend=False))
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
@@ -1034,6 +1051,7 @@ def create_reduce_prod(
     onnx_version_change_implementation = 18
 
     input_shape = get_shape(node.input[0], model)
+    check_rank(node, input_shape)
     original_len_shape = len(get_shape(node.input[0],model,extend=False))
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
@@ -1177,6 +1195,7 @@ def create_global_average_pool(
 ) -> AveragePooling2D:
     """Create a GlobalAveragePool layer."""
     input_shape = get_shape(node.input[0], model)
+    check_rank(node, input_shape)
     output_shape = get_shape(node.output[0], model)
     size = find_size(output_shape)
     dict_input[idx] = node.input
-- 
2.43.0


From a0eb506c2341760481557902ca63e8ee826b3aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:54 +0000
Subject: [PATCH 094/107] fix: scalar biases of ONNX Gemm nodes

---
 src/acetone_nnet/importers/ONNX_importer/create_layer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index 42a501e..2467329 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -626,7 +626,7 @@ def create_gemm(
     attributes = extract_attributes(node)
     b_tensor = look_for_initializer(node.input[1], model)
     if len(node.input) == 3:  # noqa: PLR2004
-        bias = onnx.numpy_helper.to_array(look_for_initializer(node.input[2], model))
+        bias = np.atleast_1d(onnx.numpy_helper.to_array(look_for_initializer(node.input[2], model)))
     else:
         bias = np.zeros((1, 1))
     if "transA" not in attributes:
-- 
2.43.0


From aff8238a9ab995b8323e8f0be88b9a616c42730b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:54 +0000
Subject: [PATCH 095/107] fix: refuse ONNX paddings with computed values

---
 src/acetone_nnet/importers/ONNX_importer/create_layer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index 2467329..98d6e9b 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -512,7 +512,7 @@ def create_pad(
         full_pads[position] = pads[i]
         full_pads[position + 4] = pads[i + len(axes)]
     constant_value = 0.0
-    if len(initializers) > 1 and initializers[1]:
+    if len(initializers) > 1 and node.input[2]:
         constant_value = float(onnx.numpy_helper.to_array(initializers[1]))
     return create_pad_obj(
         mode=attributes.get("mode", b"constant"),
-- 
2.43.0


From 1d6b98986e56cbdfacbb77207acb4cf1d24f8e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:54 +0000
Subject: [PATCH 096/107] fix: refuse ONNX models with several inputs or
 outputs

---
 .../importers/ONNX_importer/parser_ONNX.py        | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py b/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
index aaecadb..beaa6a1 100644
--- a/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
+++ b/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
@@ -85,13 +85,20 @@ def load_onnx(
     # Indices of the layer
     idx = 0
 
+    # Create constant for all initializers
+    init_dict = {i.name:i for i in model.graph.initializer}
+
+    # The generated code has one input and one output tensor
+    inputs = [i for i in model.graph.input if i.name not in init_dict]
+    if len(inputs) != 1 or len(model.graph.output) != 1:
+        msg = f"Error: {len(inputs)} inputs and {len(model.graph.output)} outputs (must be one of each)"
+        raise ValueError(msg)
+
     # Creating and adding all the input layers to the list
-    for i in model.graph.input:
+    for i in inputs:
         layers.append(create_input_layer(i, idx, dict_output))
         idx += 1
 
-    # Create constant for all initializers
-    init_dict = {i.name:i for i in model.graph.initializer}
     '''for initializer in model.graph.initializer:
         layers.append(
             create_initializer_layer(
@@ -145,7 +152,7 @@ def load_onnx(
             parent.next_layer.append(layer)
 
     data_type = onnx.helper.tensor_dtype_to_np_dtype(
-        model.graph.input[0].type.tensor_type.elem_type,
+        inputs[0].type.tensor_type.elem_type,
     )
 
     data_type, data_type_py = find_data_type(str(data_type))
-- 
2.43.0


From 6ccf79d64b785e61135cfcd980cc1276cbeaf6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:54 +0000
Subject: [PATCH 097/107] fix: leave out the ONNX nodes that the output does
 not depend on

---
 .../importers/ONNX_importer/parser_ONNX.py             | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py b/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
index beaa6a1..6717ddd 100644
--- a/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
+++ b/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
@@ -109,8 +109,16 @@ def load_onnx(
         )
         idx += 1'''
 
+    # Nodes that the output does not depend on are left out
+    needed = {o.name for o in model.graph.output}
+    nodes = []
+    for node in reversed(model.graph.node):
+        if needed.intersection(node.output):
+            needed.update(name for name in node.input if name)
+            nodes.insert(0, node)
+
     # Going through all the nodes to create the layers and add them to the list
-    for node in model.graph.node:
+    for node in nodes:
         if node.op_type in layer_type:
             # If the node is a useful layer, we add it to the list
             layers.append(
-- 
2.43.0


From ada3f4582dac91bd0430d468f33d835870200304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:04 +0000
Subject: [PATCH 098/107] fix: refuse ONNX reductions along a batch axis

---
 .../importers/ONNX_importer/create_layer.py    | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index 98d6e9b..1ed269d 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -185,6 +185,19 @@ def check_rank(
         raise ValueError(msg)
 
 
+# The layers process one element of the batch
+def check_batch(
+    node: onnx.NodeProto,
+    shape: list[int],
+    attributes: dict[str, Any],
+) -> None:
+    """Refuse the reductions along a batch axis of more than one element."""
+    axes = attributes["axes"]
+    if shape[0] > 1 and (0 in axes or not (axes or attributes["noop_with_empty_axes"])):
+        msg = f"Error: {node.op_type} {node.name} reduces a batch axis of length {shape[0]}"
+        raise ValueError(msg)
+
+
 # The layers have the same stride (dilation, kernel size) along both spatial dimensions
 def check_uniform(
     node: onnx.NodeProto,
@@ -863,6 +876,7 @@ def create_reduce_sum(
         else:
             attributes["axes"][i] = len(input_shape) + attributes["axes"][i] - original_len_shape
 
+    check_batch(node, input_shape, attributes)
     return ReduceSum(
         original_name=node.name,
         idx=idx,
@@ -918,6 +932,7 @@ def create_reduce_max(
         else:
             attributes["axes"][i] = len(input_shape) + attributes["axes"][i] - original_len_shape
 
+    check_batch(node, input_shape, attributes)
     return ReduceMax(
         original_name=node.name,
         idx=idx,
@@ -973,6 +988,7 @@ def create_reduce_min(
         else:
             attributes["axes"][i] = len(input_shape) + attributes["axes"][i] - original_len_shape
 
+    check_batch(node, input_shape, attributes)
     return ReduceMin(
         original_name=node.name,
         idx=idx,
@@ -1028,6 +1044,7 @@ def create_reduce_mean(
         else:
             attributes["axes"][i] = len(input_shape) + attributes["axes"][i] - original_len_shape
 
+    check_batch(node, input_shape, attributes)
     return ReduceMean(
         original_name=node.name,
         idx=idx,
@@ -1083,6 +1100,7 @@ def create_reduce_prod(
         else:
             attributes["axes"][i] = len(input_shape) + attributes["axes"][i] - original_len_shape
 
+    check_batch(node, input_shape, attributes)
     return ReduceProd(
         original_name=node.name,
         idx=idx,
-- 
2.43.0


From ba6238c057b85e91ccd07beb227259445b1b43e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:04 +0000
Subject: [PATCH 099/107] fix: refuse ONNX LRN and Shape nodes

---
 src/acetone_nnet/importers/ONNX_importer/create_layer.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/acetone_nnet/importers/ONNX_importer/create_layer.py b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
index 1ed269d..888ebbc 100644
--- a/src/acetone_nnet/importers/ONNX_importer/create_layer.py
+++ b/src/acetone_nnet/importers/ONNX_importer/create_layer.py
@@ -1552,8 +1552,6 @@ unused_layers = {
     "Constant": create_initializer,
     "Unsqueeze": bypass,
     "Reshape": bypass,
-    "LRN": bypass,
-    "Shape": bypass,
     "Flatten": bypass,
 }
 
-- 
2.43.0


From a492d21a8c36407abacdeba576e064b6d7f0f348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:45 +0000
Subject: [PATCH 100/107] fix: refuse ONNX models whose input has unknown
 dimensions

---
 src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py b/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
index 6717ddd..1126246 100644
--- a/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
+++ b/src/acetone_nnet/importers/ONNX_importer/parser_ONNX.py
@@ -94,6 +94,10 @@ def load_onnx(
         msg = f"Error: {len(inputs)} inputs and {len(model.graph.output)} outputs (must be one of each)"
         raise ValueError(msg)
 
+    if any(dim.dim_value < 1 for dim in inputs[0].type.tensor_type.shape.dim[1:]):
+        msg = f"Error: unknown dimensions in the shape of input {inputs[0].name}"
+        raise ValueError(msg)
+
     # Creating and adding all the input layers to the list
     for i in inputs:
         layers.append(create_input_layer(i, idx, dict_output))
-- 
2.43.0


From a785c01980616e010d6a960ce002cb720480a37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:49 +0000
Subject: [PATCH 101/107] fix: refuse JSON layers with uneven strides,
 dilations or pools

---
 .../importers/JSON_importer/parser_JSON.py    | 21 +++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/acetone_nnet/importers/JSON_importer/parser_JSON.py b/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
index 0ec7ff1..2ff5830 100644
--- a/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
+++ b/src/acetone_nnet/importers/JSON_importer/parser_JSON.py
@@ -88,6 +88,15 @@ def create_resize_obj(
     raise ValueError("Error: resize mode " + mode + " not implemented")
 
 
+def uniform(layer: dict, attribute: str) -> int:
+    """Return the value of an attribute, which must be the same along both spatial dimensions."""
+    values = layer["config"][attribute]
+    if len(set(values)) > 1:
+        msg = f"Error: {attribute} {values} of layer {layer['config']['name']} not supported"
+        raise ValueError(msg)
+    return values[0]
+
+
 def load_json(
     file_to_parse: str | Path,
 ) -> (list[Layer], str, type, str, int, dict[int, int]):
@@ -157,10 +166,10 @@ def load_json(
                 idx=idx,
                 size=layer["config"]["size"],
                 padding=layer["config"]["padding"],
-                strides=layer["config"]["strides"][0],
+                strides=uniform(layer, "strides"),
                 kernel_h=layer["config"]["kernel_size"][0],
                 kernel_w=layer["config"]["kernel_size"][1],
-                dilation_rate=layer["config"]["dilation_rate"][0],
+                dilation_rate=uniform(layer, "dilation_rate"),
                 nb_filters=layer["config"]["filters"],
                 input_shape=layer["config"]["input_shape"],
                 output_shape=layer["config"]["output_shape"],
@@ -178,8 +187,8 @@ def load_json(
                 idx=idx,
                 size=layer["config"]["size"],
                 padding=layer["config"]["padding"],
-                strides=layer["config"]["strides"][0],
-                pool_size=layer["config"]["pool_size"][0],
+                strides=uniform(layer, "strides"),
+                pool_size=uniform(layer, "pool_size"),
                 input_shape=layer["config"]["input_shape"],
                 output_shape=layer["config"]["output_shape"],
                 activation_function=Linear(),
@@ -191,8 +200,8 @@ def load_json(
                 idx=idx,
                 size=layer["config"]["size"],
                 padding=layer["config"]["padding"],
-                strides=layer["config"]["strides"][0],
-                pool_size=layer["config"]["pool_size"][0],
+                strides=uniform(layer, "strides"),
+                pool_size=uniform(layer, "pool_size"),
                 input_shape=layer["config"]["input_shape"],
                 output_shape=layer["config"]["output_shape"],
                 activation_function=Linear(),
-- 
2.43.0


From a5a5e1008829811106428c507d29341674ce7913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:17 +0000
Subject: [PATCH 102/107] fix: refuse output formats with more fraction bits
 than the product

---
 src/acetone_nnet/quantize/activation.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/acetone_nnet/quantize/activation.py b/src/acetone_nnet/quantize/activation.py
index c550242..96bf0ec 100644
--- a/src/acetone_nnet/quantize/activation.py
+++ b/src/acetone_nnet/quantize/activation.py
@@ -54,8 +54,6 @@ class QuantizeShiftActivation(ActivationFunctions):
         (_, mout) = qform.parse_q_format(qout)
         qshift = min + mparam - mout
         if qshift < 0:
-            logging.warning(
-                f"{self} qpost_shift invalid {qshift}, take 0",
-            )
-            qshift = 0
+            msg = f"Error: output format {qout} has more fraction bits than {qin} x {qparam}"
+            raise ValueError(msg)
         return qshift
-- 
2.43.0


From 4585ad74b5272bb25b4d8af63165cc6f20def521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:17 +0000
Subject: [PATCH 103/107] fix: refuse Q formats followed by a newline

---
 src/acetone_nnet/quantize/qform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/acetone_nnet/quantize/qform.py b/src/acetone_nnet/quantize/qform.py
index 14e0184..8496093 100644
--- a/src/acetone_nnet/quantize/qform.py
+++ b/src/acetone_nnet/quantize/qform.py
@@ -22,8 +22,8 @@ def parse_q_format(q_string: str) -> tuple[int, int] | None:
     # - \. matches the literal character '.'. The backslash escapes the dot,
     #   which is a special character in regex (matches any character).
     # - (\d+) captures one or more digits. This is the second capturing group (for y).
-    # - $ asserts position at the end of the string.
-    pattern = r"^Q(-?\d+)\.(\d+)$"
+    # - \Z asserts position at the end of the string (and not before a final newline).
+    pattern = r"^Q(-?\d+)\.(\d+)\Z"
 
     # Use re.match() to find a match at the beginning of the string.
     match = re.match(pattern, q_string)
-- 
2.43.0


From aef4ae3c09e07ea2188bacec26beade7497c2127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:17 +0000
Subject: [PATCH 104/107] fix: warn about every quantised constant that is
 truncated

---
 src/acetone_nnet/generator/neural_network.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index 2bddae6..094105f 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -1165,21 +1165,21 @@ class CodeGenerator(ABC):
                         l.weights = weights.astype(
                             self.data_type_py,
                         )
-                        if (weights != l.weights).all():
+                        if (weights != l.weights).any():
                             logging.warning("Weights MSB truncated")
                     if hasattr(l, "biases"):
                         biases = np.rint(l.biases * (2**m))
                         l.biases = biases.astype(
                             self.data_type_py,
                         )
-                        if (biases != l.biases).all():
+                        if (biases != l.biases).any():
                             logging.warning("Biases MSB truncated")
                     if hasattr(l, "constant") and l.constant is not None:
                         constant = np.rint(l.constant * (2**m))
                         l.constant = constant.astype(
                             self.data_type_py,
                         )
-                        if (constant != l.constant).all():
+                        if (constant != l.constant).any():
                             logging.warning("Constant MSB truncated")
                     l.qin = layer_qconf["in"]
                     l.qout = layer_qconf["out"]
-- 
2.43.0


From 63d7c7278989669a32814b65ed02c39cedcdb5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:17 +0000
Subject: [PATCH 105/107] fix: refuse quantised MatMul layers without a format
 (fused layers change their name)

---
 src/acetone_nnet/generator/neural_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index 094105f..f70f161 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -1188,7 +1188,7 @@ class CodeGenerator(ABC):
                     l.cdtype = self.target_cfg["quantization"]["dtype"]
 
                 except KeyError:
-                    if hasattr(l, "weights") or hasattr(l, "biases"):
+                    if isinstance(l, MatMul) or hasattr(l, "weights") or hasattr(l, "biases"):
                         raise KeyError(
                             f"Cannot quantize layer {l.name}_{l.idx}, missing data in target config",
                         )
-- 
2.43.0


From 8302bc1dd202df6907bd93a57c74ea071b5564e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:47 +0000
Subject: [PATCH 106/107] fix: refuse quantised layers that have no fixed-point
 implementation

---
 src/acetone_nnet/generator/neural_network.py | 35 ++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index f70f161..51dc6bc 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -46,6 +46,7 @@ else:
 from typing_extensions import Self
 
 from acetone_nnet import templates
+from acetone_nnet.generator.activation_functions import Linear, ReLu
 from acetone_nnet.graph.graph_interpretor import allocate_outputs
 from acetone_nnet.importers.parser import parser
 from acetone_nnet.ir import Layer
@@ -57,6 +58,7 @@ from acetone_nnet.versioning.versioning import versioning
 from .layers import (
     ActivationLayer,
     InputLayer,
+    Average,
     AveragePooling2D,
     BatchNormalization,
     Broadcast,
@@ -69,13 +71,20 @@ from .layers import (
     Conv2DStdGemm,
     Conv2Ddirect_block,
     Dense,
+    Divide,
     Gather,
     GatherElements,
     Gemm,
+    LSTM,
     MatMul,
     MaxPooling2D,
+    Multiply,
     Pooling2D,
     Reduce,
+    ReduceMean,
+    ReduceProd,
+    ReduceSum,
+    Resize,
     ResizeCubic,
     ResizeLinear,
     ResizeNearest,
@@ -1135,12 +1144,38 @@ class CodeGenerator(ABC):
             header_file.write(pystache.render(template, mustach_hash))
         logging.info("Generated function header file.")
 
+    # Layers whose arithmetic does not follow the fixed-point formats
+    unquantized_layers = (
+        AveragePooling2D,
+        BatchNormalization,
+        Conv2D,
+        Dense,
+        Gemm,
+        Average,
+        Divide,
+        Multiply,
+        LSTM,
+        ReduceMean,
+        ReduceProd,
+        ReduceSum,
+        Resize,
+        Softmax,
+    )
+
     def quantize_layers(self):
         """Use the target_cfg file fixed point notation Qn.m to quantize MatMul and Add parameters
         and compute the rescaling (integer shift right) in MatMul
         """
         if self.target_cfg is not None:
             for l in self.layers:
+                activation = getattr(l, "activation_function", Linear())
+                if isinstance(l, self.unquantized_layers) or not isinstance(
+                    activation,
+                    (Linear, ReLu),
+                ):
+                    raise NotImplementedError(
+                        f"{l.name}_{l.idx} ({activation.name}) has no fixed-point implementation",
+                    )
                 try:
                     layer_qconf = self.target_cfg["quantization"]["layers"][
                         l.original_name
-- 
2.43.0


From a001a5729f8cd0a6e437bba93f2bc47358ceb50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:47 +0000
Subject: [PATCH 107/107] fix: refuse quantised additions of operands that are
 not aligned

---
 src/acetone_nnet/generator/neural_network.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/acetone_nnet/generator/neural_network.py b/src/acetone_nnet/generator/neural_network.py
index 51dc6bc..b860d9f 100644
--- a/src/acetone_nnet/generator/neural_network.py
+++ b/src/acetone_nnet/generator/neural_network.py
@@ -57,6 +57,7 @@ from acetone_nnet.templates.template_makefile import TemplateMakefile
 from acetone_nnet.versioning.versioning import versioning
 from .layers import (
     ActivationLayer,
+    Add,
     InputLayer,
     Average,
     AveragePooling2D,
@@ -89,6 +90,7 @@ from .layers import (
     ResizeLinear,
     ResizeNearest,
     Softmax,
+    Subtract,
 )
 
 from torch.export import ExportedProgram
@@ -1193,6 +1195,12 @@ class CodeGenerator(ABC):
                                 qout=layer_qconf["out"],
                                 activation_function=l.activation_function,
                             )
+                        elif isinstance(l, (Add, Subtract)):
+                            # The operands are added as they are
+                            if len({qform.parse_q_format(layer_qconf[k])[1] for k in ("in", "params", "out")}) > 1:
+                                raise ValueError(
+                                    f"{l.name}_{l.idx} needs formats with the same number of fraction bits",
+                                )
 
                     (_, m) = qform.parse_q_format(l.qparam)
                     if hasattr(l, "weights"):
-- 
2.43.0

