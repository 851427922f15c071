From cd2f8d4b2736b69dc6b9dd74e296c8cde6bdcefd Mon Sep 17 00:00:00 2001
From: rv <rv@x>
Date: Thu, 19 Nov 2026 16:16:08 +0000
Subject: [PATCH 001/126] fix: size of the filler in front of a registered
 channel range

---
 .../mutables/mutable_channel/mutable_channel_container.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/models/mutables/mutable_channel/mutable_channel_container.py b/mmrazor/models/mutables/mutable_channel/mutable_channel_container.py
index 5706d07..f9eeecc 100644
--- a/mmrazor/models/mutables/mutable_channel/mutable_channel_container.py
+++ b/mmrazor/models/mutables/mutable_channel/mutable_channel_container.py
@@ -115,7 +115,7 @@ class MutableChannelContainer(BaseMutableChannel):
         for start, end in copy.copy(self.mutable_channels):
             if last_end < start:
                 self.register_mutable(
-                    SimpleMutableChannel(last_end - start), last_end, start)
+                    SimpleMutableChannel(start - last_end), last_end, start)
             last_end = end
         if last_end < self.num_channels:
             self.register_mutable(
-- 
2.43.0


From b0cb09f058fdd5bd7c2a631780f92c6b85ed48ff Mon Sep 17 00:00:00 2001
From: rv <rv@x>
Date: Thu, 19 Nov 2026 16:33:19 +0000
Subject: [PATCH 002/126] fix: grouped dynamic convolution with a searchable
 kernel size

The weight was reshaped to the largest kernel size after the kernel had
already been cropped.
---
 .../architectures/dynamic_ops/mixins/dynamic_conv_mixins.py     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_conv_mixins.py b/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_conv_mixins.py
index cf63ec1..84459b7 100644
--- a/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_conv_mixins.py
+++ b/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_conv_mixins.py
@@ -189,7 +189,7 @@ class DynamicConvMixin(DynamicChannelMixin):
             weight = weight.flatten(0, 1)
             weight = weight[mask]
             weight = weight.reshape(
-                [self.groups * out_per_group, in_per_group, *self.kernel_size])
+                [self.groups * out_per_group, in_per_group, *weight.shape[1:]])
 
         bias = self.bias[out_mask] if self.bias is not None else None
         return weight, bias
-- 
2.43.0


From 5275c57204afecaa42f5537b58c65bb15a90acd3 Mon Sep 17 00:00:00 2001
From: rv <rv@x>
Date: Thu, 19 Nov 2026 16:33:19 +0000
Subject: [PATCH 003/126] fix: DynamicLayerNorm without a mutable, and its full
 width

forward raised KeyError before a mutable was registered and replaced
`normalized_shape` (hence `num_features`) with the current choice.
---
 .../architectures/dynamic_ops/bricks/dynamic_norm.py      | 8 ++++----
 .../dynamic_ops/mixins/dynamic_layernorm_mixins.py        | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_norm.py b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_norm.py
index eb5dd3b..7ddcdf1 100644
--- a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_norm.py
+++ b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_norm.py
@@ -247,11 +247,11 @@ class DynamicLayerNorm(LayerNorm, DynamicLayerNormMixin):
         self._check_input_dim(input)
 
         weight, bias = self.get_dynamic_params()
-        self.normalized_shape = (
-            self.mutable_num_features.activated_channels, )
+        normalized_shape = self.normalized_shape
+        if self.mutable_num_features is not None:
+            normalized_shape = (self.mutable_num_features.activated_channels, )
 
-        return F.layer_norm(input, self.normalized_shape, weight, bias,
-                            self.eps)
+        return F.layer_norm(input, normalized_shape, weight, bias, self.eps)
 
     def _check_input_dim(self, input: Tensor) -> None:
         """Check if input dimension is valid."""
diff --git a/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_layernorm_mixins.py b/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_layernorm_mixins.py
index 785be99..c513d41 100644
--- a/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_layernorm_mixins.py
+++ b/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_layernorm_mixins.py
@@ -29,7 +29,7 @@ class DynamicLayerNormMixin(DynamicChannelMixin):
     def mutable_num_features(self):
         """Mutable number of features."""
         assert hasattr(self, 'mutable_attrs')
-        return self.mutable_attrs['num_features']
+        return getattr(self.mutable_attrs, 'num_features', None)
 
     def register_mutable_attr(self, attr, mutable):
         """Register attribute of mutable."""
-- 
2.43.0


From 49d5e96ed7e498f64bb4b7a9c6617553ce15d77d Mon Sep 17 00:00:00 2001
From: rv <rv@x>
Date: Thu, 19 Nov 2026 16:33:19 +0000
Subject: [PATCH 004/126] fix: dynamic ops raised KeyError before their
 mutables are registered

DynamicSequential, DynamicRelativePosition2D and DynamicMultiheadAttention
tested for a missing mutable, but the accessor raised.
---
 .../dynamic_ops/bricks/dynamic_container.py   |  8 +++++---
 .../bricks/dynamic_multi_head_attention.py    | 20 ++++++++++++-------
 .../bricks/dynamic_relative_position.py       |  2 +-
 3 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_container.py b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_container.py
index 3696fe3..7e53308 100644
--- a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_container.py
+++ b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_container.py
@@ -27,7 +27,7 @@ class DynamicSequential(Sequential, DynamicMixin):
     def mutable_depth(self):
         """Mutable depth."""
         assert hasattr(self, 'mutable_attrs')
-        return self.mutable_attrs['depth']
+        return getattr(self.mutable_attrs, 'depth', None)
 
     def register_mutable_attr(self: Sequential, attr: str,
                               mutable: BaseMutable):
@@ -58,7 +58,7 @@ class DynamicSequential(Sequential, DynamicMixin):
         self.check_if_mutables_fixed()
 
         if self.mutable_depth is None:
-            fixed_depth = len(self)
+            fixed_depth = self.pure_module_nums
         else:
             fixed_depth = self.get_current_choice(self.mutable_depth)
 
@@ -79,7 +79,9 @@ class DynamicSequential(Sequential, DynamicMixin):
     def forward(self, x: Tensor) -> Tensor:
         """Forward of Dynamic Sequential."""
         if self.mutable_depth is None:
-            return self(x)
+            for module in self.pure_modules():
+                x = module(x)
+            return x
 
         current_depth = self.get_current_choice(self.mutable_depth)
         passed_module_nums = 0
diff --git a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_multi_head_attention.py b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_multi_head_attention.py
index 8dcd6de..411d5a3 100644
--- a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_multi_head_attention.py
+++ b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_multi_head_attention.py
@@ -60,19 +60,19 @@ class DynamicMultiheadAttention(MultiheadAttention, DynamicChannelMixin):
     def mutable_num_heads(self):
         """Mutable number of heads."""
         assert hasattr(self, 'mutable_attrs')
-        return self.mutable_attrs['num_heads']
+        return getattr(self.mutable_attrs, 'num_heads', None)
 
     @property
     def mutable_embed_dims(self):
         """Mutable embedding dimension."""
         assert hasattr(self, 'mutable_attrs')
-        return self.mutable_attrs['embed_dims']
+        return getattr(self.mutable_attrs, 'embed_dims', None)
 
     @property
     def mutable_q_embed_dims(self):
         """Mutable intermediate embedding dimension."""
         assert hasattr(self, 'mutable_attrs')
-        return self.mutable_attrs['q_embed_dims']
+        return getattr(self.mutable_attrs, 'q_embed_dims', None)
 
     def register_mutable_attr(self, attr: str, mutable: BaseMutable):
         """Register attribute of mutable."""
@@ -145,7 +145,7 @@ class DynamicMultiheadAttention(MultiheadAttention, DynamicChannelMixin):
         if self.mutable_q_embed_dims is not None:
             in_features = self.mutable_q_embed_dims.activated_channels
         else:
-            in_features = self.embed_dims
+            in_features = self.q_embed_dims
 
         if self.mutable_embed_dims is not None:
             out_features = self.mutable_embed_dims.activated_channels
@@ -177,7 +177,7 @@ class DynamicMultiheadAttention(MultiheadAttention, DynamicChannelMixin):
         if self.mutable_q_embed_dims is not None:
             out_features = self.mutable_q_embed_dims.activated_channels
         else:
-            out_features = self.mutable_q_embed_dims
+            out_features = self.q_embed_dims
 
         weight = w.weight[:out_features, :in_features]
         bias = w.bias[:out_features] if w.bias is not None else None
@@ -242,8 +242,14 @@ class DynamicMultiheadAttention(MultiheadAttention, DynamicChannelMixin):
         k_w, k_b = self._get_dynamic_qkv_params(self.w_ks)
         v_w, v_b = self._get_dynamic_qkv_params(self.w_vs)
 
-        q_embed_dims = self.mutable_q_embed_dims.activated_channels
-        num_heads = self.mutable_num_heads.current_choice
+        if self.mutable_q_embed_dims is not None:
+            q_embed_dims = self.mutable_q_embed_dims.activated_channels
+        else:
+            q_embed_dims = self.q_embed_dims
+        if self.mutable_num_heads is not None:
+            num_heads = self.mutable_num_heads.current_choice
+        else:
+            num_heads = self.num_heads
 
         q = F.linear(x, q_w, q_b).view(B, N, num_heads,
                                        q_embed_dims // num_heads)
diff --git a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_relative_position.py b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_relative_position.py
index 572880a..459c1c4 100644
--- a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_relative_position.py
+++ b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_relative_position.py
@@ -43,7 +43,7 @@ class DynamicRelativePosition2D(RelativePosition2D, DynamicChannelMixin):
     def mutable_head_dims(self):
         """Mutable head dimension."""
         assert hasattr(self, 'mutable_attrs')
-        return self.mutable_attrs['head_dims']
+        return getattr(self.mutable_attrs, 'head_dims', None)
 
     def register_mutable_attr(self, attr: str, mutable: BaseMutable):
         """Register attribute of mutable."""
-- 
2.43.0


From e510988ce7aeb16afe2e3c8017a811ae660b71a0 Mon Sep 17 00:00:00 2001
From: rv <rv@x>
Date: Thu, 19 Nov 2026 16:33:19 +0000
Subject: [PATCH 005/126] fix: exported relative position keeps its maximal
 distance

---
 .../dynamic_ops/bricks/dynamic_relative_position.py             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_relative_position.py b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_relative_position.py
index 459c1c4..7b5f640 100644
--- a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_relative_position.py
+++ b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_relative_position.py
@@ -82,7 +82,7 @@ class DynamicRelativePosition2D(RelativePosition2D, DynamicChannelMixin):
 
         self.current_head_dim = self.mutable_head_dims.activated_channels
         static_relative_position = self.static_op_factory(
-            self.current_head_dim)
+            self.current_head_dim, self.max_relative_position)
         static_relative_position.embeddings_table_v = \
             nn.Parameter(
                 self.embeddings_table_v[:, :self.current_head_dim].clone())
-- 
2.43.0


From 3a427adfe652696310fce8aca4cea8ef6c8d7472 Mon Sep 17 00:00:00 2001
From: rv <rv@x>
Date: Thu, 19 Nov 2026 16:33:19 +0000
Subject: [PATCH 006/126] fix: exported attention keeps scale, biases and
 dropout rates

---
 .../bricks/dynamic_multi_head_attention.py    | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_multi_head_attention.py b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_multi_head_attention.py
index 411d5a3..1c4c01b 100644
--- a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_multi_head_attention.py
+++ b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_multi_head_attention.py
@@ -201,20 +201,25 @@ class DynamicMultiheadAttention(MultiheadAttention, DynamicChannelMixin):
             embed_dims=embed_dims,
             num_heads=num_heads,
             input_dims=None,
+            attn_drop_rate=self.attn_drop.p,
+            proj_drop_rate=self.proj_drop.p,
             relative_position=self.relative_position,
-            max_relative_position=self.max_relative_position)
+            max_relative_position=self.max_relative_position,
+            qkv_bias=q_b is not None,
+            qk_scale=self.scale,
+            proj_bias=proj_b is not None)
 
         static_mha.w_qs.weight = nn.Parameter(q_w.clone())
-        static_mha.w_qs.bias = nn.Parameter(q_b.clone())
-
         static_mha.w_ks.weight = nn.Parameter(k_w.clone())
-        static_mha.w_ks.bias = nn.Parameter(k_b.clone())
-
         static_mha.w_vs.weight = nn.Parameter(v_w.clone())
-        static_mha.w_vs.bias = nn.Parameter(v_b.clone())
+        if q_b is not None:
+            static_mha.w_qs.bias = nn.Parameter(q_b.clone())
+            static_mha.w_ks.bias = nn.Parameter(k_b.clone())
+            static_mha.w_vs.bias = nn.Parameter(v_b.clone())
 
         static_mha.proj.weight = nn.Parameter(proj_w.clone())
-        static_mha.proj.bias = nn.Parameter(proj_b.clone())
+        if proj_b is not None:
+            static_mha.proj.bias = nn.Parameter(proj_b.clone())
 
         if self.relative_position:
             static_mha.rel_pos_embed_k = self.rel_pos_embed_k.to_static_op()
-- 
2.43.0


From 67ffc0a1f2b58aee2cf25e9e8f86e1347f7d9d02 Mon Sep 17 00:00:00 2001
From: rv <rv@x>
Date: Thu, 19 Nov 2026 16:33:19 +0000
Subject: [PATCH 007/126] fix: DynamicPatchEmbed keeps patch size and input
 channels

The stride was always 16 and the input always had 3 channels.
---
 .../dynamic_ops/bricks/dynamic_embed.py       | 26 ++++++++++++++-----
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_embed.py b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_embed.py
index f255d24..e9701c8 100644
--- a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_embed.py
+++ b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_embed.py
@@ -47,7 +47,7 @@ class DynamicPatchEmbed(PatchEmbed, DynamicChannelMixin):
     def mutable_embed_dims(self):
         """Mutable embedding dimension."""
         assert hasattr(self, 'mutable_attrs')
-        return self.mutable_attrs['embed_dims']
+        return getattr(self.mutable_attrs, 'embed_dims', None)
 
     def register_mutable_attr(self: PatchEmbed, attr: str,
                               mutable: BaseMutable):
@@ -106,14 +106,26 @@ class DynamicPatchEmbed(PatchEmbed, DynamicChannelMixin):
         weight, bias = self._get_dynamic_params()
         static_patch_embed = self.static_op_factory(
             img_size=self.img_size,
-            in_channels=3,
-            embed_dims=self.mutable_embed_dims.activated_channels)
+            in_channels=self.projection.in_channels,
+            embed_dims=self.mutable_embed_dims.activated_channels,
+            conv_cfg=self._get_conv_cfg(self.projection))
 
         static_patch_embed.projection.weight = nn.Parameter(weight.clone())
-        static_patch_embed.projection.bias = nn.Parameter(bias.clone())
+        if bias is not None:
+            static_patch_embed.projection.bias = nn.Parameter(bias.clone())
 
         return static_patch_embed
 
+    @staticmethod
+    def _get_conv_cfg(projection: nn.Conv2d) -> Dict:
+        """Get the config of the projection."""
+        return dict(
+            kernel_size=projection.kernel_size,
+            stride=projection.stride,
+            padding=projection.padding,
+            dilation=projection.dilation,
+            bias=projection.bias is not None)
+
     @property
     def static_op_factory(self):
         """Corresponding Pytorch OP."""
@@ -125,10 +137,10 @@ class DynamicPatchEmbed(PatchEmbed, DynamicChannelMixin):
 
         dynamic_patch_embed = cls(
             img_size=module.img_size,
-            in_channels=3,
+            in_channels=module.projection.in_channels,
             embed_dims=module.embed_dims,
             norm_cfg=None,
-            conv_cfg=None,
+            conv_cfg=cls._get_conv_cfg(module.projection),
             init_cfg=None)
 
         # TODO mutable_attr should be inherited from its `__base__` class
@@ -144,7 +156,7 @@ class DynamicPatchEmbed(PatchEmbed, DynamicChannelMixin):
             x,
             weight,
             bias,
-            stride=16,
+            stride=self.projection.stride,
             padding=self.projection.padding,
             dilation=self.projection.dilation).flatten(2).transpose(1, 2)
 
-- 
2.43.0


From d32b297922cfb2ecc44e652afd2b8bb1f543db7f Mon Sep 17 00:00:00 2001
From: rv <rv@x>
Date: Thu, 19 Nov 2026 16:33:19 +0000
Subject: [PATCH 008/126] fix: exported batch norm keeps its number of tracked
 batches

With momentum=None the statistics of the exported operator restarted.
---
 .../models/architectures/dynamic_ops/mixins/dynamic_mixins.py   | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_mixins.py b/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_mixins.py
index 2a610e5..383c1ba 100644
--- a/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_mixins.py
+++ b/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_mixins.py
@@ -276,6 +276,8 @@ class DynamicBatchNormMixin(DynamicChannelMixin):
             static_bn.running_var.copy_(running_var)
             static_bn.running_var = static_bn.running_var.to(
                 running_var.device)
+        if self.num_batches_tracked is not None:
+            static_bn.num_batches_tracked.copy_(self.num_batches_tracked)
         if weight is not None:
             static_bn.weight = nn.Parameter(weight)
         if bias is not None:
-- 
2.43.0


From 834de34c72ea79e950e93d0f55f5e23d4dc3f89f Mon Sep 17 00:00:00 2001
From: rv <rv@x>
Date: Thu, 19 Nov 2026 16:33:19 +0000
Subject: [PATCH 009/126] fix: FuseConv2d silently replaced other padding modes
 by zeros

Reject them, as the other dynamic convolutions do.
---
 mmrazor/models/architectures/dynamic_ops/bricks/dynamic_conv.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_conv.py b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_conv.py
index 4604ccb..d9c525c 100644
--- a/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_conv.py
+++ b/mmrazor/models/architectures/dynamic_ops/bricks/dynamic_conv.py
@@ -197,6 +197,7 @@ class FuseConv2d(nn.Conv2d, FuseConvMixin):
 
     def __init__(self, *args, **kwargs) -> None:
         super().__init__(*args, **kwargs)
+        assert self.padding_mode == 'zeros'
         self.mutable_attrs: Dict[str, BaseMutable] = nn.ModuleDict()
 
     @classmethod
-- 
2.43.0


From 95a1633231ea4b32fac28e26dc407fae3b47fce8 Mon Sep 17 00:00:00 2001
From: rv <rv@x>
Date: Thu, 19 Nov 2026 16:36:16 +0000
Subject: [PATCH 010/126] fix: channel ratios lost a channel to rounding

int(num_channels * (n / num_channels)) is n - 1 for some n, so setting a
mutable channel to its own current ratio pruned a channel.
---
 .../mutables/mutable_channel/sequential_mutable_channel.py     | 3 ++-
 .../mutable_channel/units/sequential_mutable_channel_unit.py   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/mutables/mutable_channel/sequential_mutable_channel.py b/mmrazor/models/mutables/mutable_channel/sequential_mutable_channel.py
index c2b4f92..bdf0481 100644
--- a/mmrazor/models/mutables/mutable_channel/sequential_mutable_channel.py
+++ b/mmrazor/models/mutables/mutable_channel/sequential_mutable_channel.py
@@ -137,4 +137,5 @@ class SquentialMutableChannel(SimpleMutableChannel):
         if isinstance(choice, int):
             return choice
         else:
-            return max(1, int(self.num_channels * choice))
+            # tolerate the rounding error of n / num_channels
+            return max(1, int(self.num_channels * choice + 1e-6))
diff --git a/mmrazor/models/mutables/mutable_channel/units/sequential_mutable_channel_unit.py b/mmrazor/models/mutables/mutable_channel/units/sequential_mutable_channel_unit.py
index d32c5fe..bd9a78f 100644
--- a/mmrazor/models/mutables/mutable_channel/units/sequential_mutable_channel_unit.py
+++ b/mmrazor/models/mutables/mutable_channel/units/sequential_mutable_channel_unit.py
@@ -149,7 +149,8 @@ class SequentialMutableChannelUnit(MutableChannelUnit):
         if isinstance(choice, int):
             return choice
         else:
-            return max(1, int(self.num_channels * choice))
+            # tolerate the rounding error of n / num_channels
+            return max(1, int(self.num_channels * choice + 1e-6))
 
     def _make_divisible_info(self, choice, new_choice):
         logger = MMLogger.get_current_instance()
-- 
2.43.0


From 6b3b5e6e753142049c97a42b3e0fe8e8dee94705 Mon Sep 17 00:00:00 2001
From: rv <rv@x>
Date: Thu, 19 Nov 2026 16:36:16 +0000
Subject: [PATCH 011/126] fix: OneShotMutableChannel shared its candidate list

The candidates were sorted and completed in place: in the caller's list, and
in the default argument, so a second channel without candidates got those of
the first one.
---
 .../mutables/mutable_channel/oneshot_mutable_channel.py       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/mutables/mutable_channel/oneshot_mutable_channel.py b/mmrazor/models/mutables/mutable_channel/oneshot_mutable_channel.py
index 3265b79..533bf75 100644
--- a/mmrazor/models/mutables/mutable_channel/oneshot_mutable_channel.py
+++ b/mmrazor/models/mutables/mutable_channel/oneshot_mutable_channel.py
@@ -23,10 +23,10 @@ class OneShotMutableChannel(SquentialMutableChannel):
                  choice_mode='number',
                  **kwargs):
         super().__init__(num_channels, choice_mode, **kwargs)
-        candidate_choices.sort()
-        self.candidate_choices = candidate_choices
+        candidate_choices = sorted(candidate_choices)
         if candidate_choices == []:
             candidate_choices.append(num_channels if self.is_num_mode else 1.0)
+        self.candidate_choices = candidate_choices
 
     @property
     def current_choice(self) -> Union[int, float]:
-- 
2.43.0


From 8b3a967cdd00c833336e94a378d1057602fab2d4 Mon Sep 17 00:00:00 2001
From: rv <rv@x>
Date: Thu, 19 Nov 2026 16:36:16 +0000
Subject: [PATCH 012/126] fix: fixing a channel mutable with its own or its
 dumped choice

In ratio mode OneShotMutableChannel rejected its own current choice and the
number of channels it dumps; SquentialMutableChannel.fix_chosen(None) failed.
---
 .../mutables/mutable_channel/oneshot_mutable_channel.py     | 6 +++++-
 .../mutables/mutable_channel/sequential_mutable_channel.py  | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/mutables/mutable_channel/oneshot_mutable_channel.py b/mmrazor/models/mutables/mutable_channel/oneshot_mutable_channel.py
index 533bf75..ec5ac0a 100644
--- a/mmrazor/models/mutables/mutable_channel/oneshot_mutable_channel.py
+++ b/mmrazor/models/mutables/mutable_channel/oneshot_mutable_channel.py
@@ -36,7 +36,11 @@ class OneShotMutableChannel(SquentialMutableChannel):
     @current_choice.setter
     def current_choice(self, choice: Union[int, float]):
         """Set current choice."""
-        assert choice in self.candidate_choices
+        # compare numbers of channels: the current ratio and a dumped choice
+        # need not be one of the candidate ratios literally
+        assert self._ratio2num(choice) in [
+            self._ratio2num(candidate) for candidate in self.candidate_choices
+        ]
         SquentialMutableChannel.current_choice.fset(  # type: ignore
             self,  # type: ignore
             choice)  # type: ignore
diff --git a/mmrazor/models/mutables/mutable_channel/sequential_mutable_channel.py b/mmrazor/models/mutables/mutable_channel/sequential_mutable_channel.py
index bdf0481..138d667 100644
--- a/mmrazor/models/mutables/mutable_channel/sequential_mutable_channel.py
+++ b/mmrazor/models/mutables/mutable_channel/sequential_mutable_channel.py
@@ -61,7 +61,7 @@ class SquentialMutableChannel(SimpleMutableChannel):
 
     def fix_chosen(self, chosen=...):
         """Fix chosen."""
-        if chosen is ...:
+        if chosen is ... or chosen is None:
             chosen = self.current_choice
         assert self.is_fixed is False
         self.current_choice = chosen
-- 
2.43.0


From e440aeda471dcf2ef8738d120a8f78bd13c7c323 Mon Sep 17 00:00:00 2001
From: rv <rv@x>
Date: Thu, 19 Nov 2026 16:36:16 +0000
Subject: [PATCH 013/126] fix: range of a channel mutable registered to a
 module

The default end was derived from the current choice (a ratio, a mask, or the
channels of a pruned mutable) instead of the size of the mutable.
---
 .../mutables/mutable_channel/mutable_channel_container.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/models/mutables/mutable_channel/mutable_channel_container.py b/mmrazor/models/mutables/mutable_channel/mutable_channel_container.py
index f9eeecc..0038f31 100644
--- a/mmrazor/models/mutables/mutable_channel/mutable_channel_container.py
+++ b/mmrazor/models/mutables/mutable_channel/mutable_channel_container.py
@@ -81,7 +81,7 @@ class MutableChannelContainer(BaseMutableChannel):
         """Register a BaseMutableChannel to a module with
         MutableChannelContainers."""
         if end == -1:
-            end = mutable.current_choice + start
+            end = mutable.current_mask.size(0) + start
         if is_to_output_channel:
             container: MutableChannelContainer = module.get_mutable_attr(
                 'out_channels')
-- 
2.43.0


From 137777037cf5816b7fbb0612574bf1cda6ce1e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:00 +0000
Subject: [PATCH 014/126] fix: dynamic ops inside a dynamic sequential were
 left dynamic

The children of the replaced container were converted instead of those of its
static replacement.
---
 mmrazor/structures/subnet/fix_subnet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/structures/subnet/fix_subnet.py b/mmrazor/structures/subnet/fix_subnet.py
index 56b33be..fff97d6 100644
--- a/mmrazor/structures/subnet/fix_subnet.py
+++ b/mmrazor/structures/subnet/fix_subnet.py
@@ -17,7 +17,7 @@ def _dynamic_to_static(model: nn.Module) -> None:
     def traverse_children(module: nn.Module) -> None:
         for name, mutable in module.items():
             if isinstance(mutable, DynamicMixin):
-                module[name] = mutable.to_static_op()
+                mutable = module[name] = mutable.to_static_op()
             if hasattr(mutable, '_modules'):
                 traverse_children(mutable._modules)
 
-- 
2.43.0


From c34cf10ebd11cde36375949a0ef9623f9b557e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:00 +0000
Subject: [PATCH 015/126] fix: exported operators keep training or evaluation
 mode

The static operators of a model exported in evaluation mode were in training
mode, so its batch norms normalized with batch statistics.
---
 mmrazor/structures/subnet/fix_subnet.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mmrazor/structures/subnet/fix_subnet.py b/mmrazor/structures/subnet/fix_subnet.py
index fff97d6..404f009 100644
--- a/mmrazor/structures/subnet/fix_subnet.py
+++ b/mmrazor/structures/subnet/fix_subnet.py
@@ -17,7 +17,9 @@ def _dynamic_to_static(model: nn.Module) -> None:
     def traverse_children(module: nn.Module) -> None:
         for name, mutable in module.items():
             if isinstance(mutable, DynamicMixin):
+                training = mutable.training
                 mutable = module[name] = mutable.to_static_op()
+                mutable.training = training
             if hasattr(mutable, '_modules'):
                 traverse_children(mutable._modules)
 
-- 
2.43.0


From 9c704b02b32c401f62106d6f4be92d4ad3ee1357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:00 +0000
Subject: [PATCH 016/126] fix: prefix of mutable names in load_fix_subnet

lstrip removes any leading characters contained in the prefix.
---
 mmrazor/structures/subnet/fix_subnet.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mmrazor/structures/subnet/fix_subnet.py b/mmrazor/structures/subnet/fix_subnet.py
index 404f009..eb610c6 100644
--- a/mmrazor/structures/subnet/fix_subnet.py
+++ b/mmrazor/structures/subnet/fix_subnet.py
@@ -80,7 +80,9 @@ def _load_fix_subnet_by_mutable(model: nn.Module,
             chosen = subnet_dict.get(alias, None)
         else:
             if prefix:
-                mutable_name = name.lstrip(prefix)
+                # not lstrip, which removes a set of characters
+                mutable_name = name[len(prefix):] \
+                    if name.startswith(prefix) else name
             elif extra_prefix:
                 mutable_name = extra_prefix + name
             else:
-- 
2.43.0


From bd8dc4e99c5e9cee9cf2dd7c79612d5e8c1ac87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:06 +0000
Subject: [PATCH 017/126] fix: OneHotMutableOP fixed its second candidate
 instead of the best one

---
 .../mutables/mutable_module/diff_mutable_module.py     | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mmrazor/models/mutables/mutable_module/diff_mutable_module.py b/mmrazor/models/mutables/mutable_module/diff_mutable_module.py
index e524ec6..6bfd433 100644
--- a/mmrazor/models/mutables/mutable_module/diff_mutable_module.py
+++ b/mmrazor/models/mutables/mutable_module/diff_mutable_module.py
@@ -311,11 +311,11 @@ class OneHotMutableOP(DiffMutableOP):
 
         if not self.is_fixed:
             self.arch_weights = self.sample_weights(arch_param, probs)
-            sorted_param = torch.topk(probs, 2)
-            index = (
-                sorted_param[0][0] - sorted_param[0][1] >= self.fix_threshold)
-            if index:
-                self.fix_chosen(self.choices[index])
+            values, indices = torch.topk(probs, min(2, len(probs)))
+            # a single candidate has no competitor
+            margin = values[0] - values[1:].sum()
+            if margin >= self.fix_threshold:
+                self.fix_chosen(self.choices[indices[0].item()])
 
         if self.is_fixed:
             index = self.choices.index(self._chosen[0])
-- 
2.43.0


From e547754f1a79adc6c8f4405c94e1d753a51f815d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:19 +0000
Subject: [PATCH 018/126] fix: fix_chosen of a fixed mutable, or with an
 unknown choice, had effects

---
 .../mutables/mutable_channel/base_mutable_channel.py   |  6 +++---
 .../mutables/mutable_module/diff_mutable_module.py     | 10 ++++++++--
 .../mutables/mutable_module/one_shot_mutable_module.py |  3 +++
 3 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/mmrazor/models/mutables/mutable_channel/base_mutable_channel.py b/mmrazor/models/mutables/mutable_channel/base_mutable_channel.py
index 65d5a44..a3b2f4e 100644
--- a/mmrazor/models/mutables/mutable_channel/base_mutable_channel.py
+++ b/mmrazor/models/mutables/mutable_channel/base_mutable_channel.py
@@ -50,14 +50,14 @@ class BaseMutableChannel(BaseMutable, DerivedMethodMixin):
 
     def fix_chosen(self, chosen=None):
         """Fix the mutable  with chosen."""
-        if chosen is not None:
-            self.current_choice = chosen
-
         if self.is_fixed:
             raise AttributeError(
                 'The mode of current MUTABLE is `fixed`. '
                 'Please do not call `fix_chosen` function again.')
 
+        if chosen is not None:
+            self.current_choice = chosen
+
         self.is_fixed = True
 
     def dump_chosen(self) -> DumpChosen:
diff --git a/mmrazor/models/mutables/mutable_module/diff_mutable_module.py b/mmrazor/models/mutables/mutable_module/diff_mutable_module.py
index 6bfd433..df2e57b 100644
--- a/mmrazor/models/mutables/mutable_module/diff_mutable_module.py
+++ b/mmrazor/models/mutables/mutable_module/diff_mutable_module.py
@@ -221,6 +221,9 @@ class DiffMutableOP(DiffMutableModule):
         if isinstance(chosen, str):
             chosen = [chosen]
 
+        assert len(chosen) > 0 and all(c in self.choices for c in chosen), \
+            f'Expected choices in {self.choices}, but got: {chosen}'
+
         for c in self.choices:
             if c not in chosen:
                 self._candidates.pop(c)
@@ -496,13 +499,16 @@ class DiffChoiceRoute(DiffMutableModule):
         Args:
             chosen (list(str)): the chosen key in ``MUTABLE``.
         """
-        self._unfixed_choices = self.choices
-
         if self.is_fixed:
             raise AttributeError(
                 'The mode of current MUTABLE is `fixed`. '
                 'Please do not call `fix_chosen` function again.')
 
+        assert len(chosen) > 0 and all(c in self.choices for c in chosen), \
+            f'Expected choices in {self.choices}, but got: {chosen}'
+
+        self._unfixed_choices = self.choices
+
         for c in self.choices:
             if c not in chosen:
                 self._candidates.pop(c)
diff --git a/mmrazor/models/mutables/mutable_module/one_shot_mutable_module.py b/mmrazor/models/mutables/mutable_module/one_shot_mutable_module.py
index 434b050..15eb5e0 100644
--- a/mmrazor/models/mutables/mutable_module/one_shot_mutable_module.py
+++ b/mmrazor/models/mutables/mutable_module/one_shot_mutable_module.py
@@ -231,6 +231,9 @@ class OneShotMutableOP(OneShotMutableModule):
                 'The mode of current MUTABLE is `fixed`. '
                 'Please do not call `fix_chosen` function again.')
 
+        assert chosen in self.choices, \
+            f'Expected choice in {self.choices}, but got: {chosen}'
+
         for c in self.choices:
             if c != chosen:
                 self._candidates.pop(c)
-- 
2.43.0


From 5fcf54e0c26d5e2811090d9dcade4ddf414d623e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:28 +0000
Subject: [PATCH 019/126] fix: mutables derived with a searchable ratio ignored
 its changes

---
 mmrazor/models/mutables/derived_mutable.py    | 85 +++++++++----------
 .../sequential_mutable_channel.py             |  3 +-
 2 files changed, 39 insertions(+), 49 deletions(-)

diff --git a/mmrazor/models/mutables/derived_mutable.py b/mmrazor/models/mutables/derived_mutable.py
index ac8a8c6..573fc23 100644
--- a/mmrazor/models/mutables/derived_mutable.py
+++ b/mmrazor/models/mutables/derived_mutable.py
@@ -42,34 +42,39 @@ class MutableChannelProtocol(MutableProtocol):  # pragma: no cover
         """Current mask."""
 
 
-def _expand_choice_fn(mutable: MutableProtocol,
-                      expand_ratio: Union[int, float]) -> Callable:
+def _current_ratio(ratio: Union[int, float, BaseMutable]):
+    """Current value of a ratio, which may be a mutable itself."""
+    return ratio.current_choice if isinstance(ratio, BaseMutable) else ratio
+
+
+def _expand_choice_fn(
+        mutable: MutableProtocol,
+        expand_ratio: Union[int, float, BaseMutable]) -> Callable:
     """Helper function to build `choice_fn` for expand derived mutable."""
 
     def fn():
-        return int(mutable.current_choice * expand_ratio)
+        return int(mutable.current_choice * _current_ratio(expand_ratio))
 
     return fn
 
 
 def _expand_mask_fn(
         mutable: MutableProtocol,
-        expand_ratio: Union[int, float]) -> Callable:  # pragma: no cover
+        expand_ratio: Union[int, float,
+                            BaseMutable]) -> Callable:  # pragma: no cover
     """Helper function to build `mask_fn` for expand derived mutable."""
     if not hasattr(mutable, 'current_mask'):
         raise ValueError('mutable must have attribute `currnet_mask`')
 
     def fn():
         mask = mutable.current_mask
-        if isinstance(expand_ratio, int):
-            expand_num_channels = mask.size(0) * expand_ratio
-            expand_choice = mutable.current_choice * expand_ratio
-        elif isinstance(expand_ratio, float):
-            expand_num_channels = int(mask.size(0) * expand_ratio)
-            expand_choice = int(mutable.current_choice * expand_ratio)
+        if isinstance(expand_ratio, BaseMutable):
+            max_ratio = max(expand_ratio.choices)
         else:
-            raise NotImplementedError(
-                f'Not support type of expand_ratio: {type(expand_ratio)}')
+            max_ratio = expand_ratio
+        expand_num_channels = int(mask.size(0) * max_ratio)
+        expand_choice = int(mutable.current_choice *
+                            _current_ratio(expand_ratio))
         expand_mask = torch.zeros(expand_num_channels).bool()
         expand_mask[:expand_choice] = True
 
@@ -86,18 +91,19 @@ def _divide_and_divise(x: int, ratio: int, divisor: int = 8) -> int:
 
 
 def _divide_choice_fn(mutable: MutableProtocol,
-                      ratio: int,
+                      ratio: Union[int, BaseMutable],
                       divisor: int = 8) -> Callable:
     """Helper function to build `choice_fn` for divide derived mutable."""
 
     def fn():
-        return _divide_and_divise(mutable.current_choice, ratio, divisor)
+        return _divide_and_divise(mutable.current_choice,
+                                  int(_current_ratio(ratio)), divisor)
 
     return fn
 
 
 def _divide_mask_fn(mutable: MutableProtocol,
-                    ratio: int,
+                    ratio: Union[int, BaseMutable],
                     divisor: int = 8) -> Callable:  # pragma: no cover
     """Helper function to build `mask_fn` for divide derived mutable."""
     if not hasattr(mutable, 'current_mask'):
@@ -105,9 +111,14 @@ def _divide_mask_fn(mutable: MutableProtocol,
 
     def fn():
         mask = mutable.current_mask
-        divide_num_channels = _divide_and_divise(mask.size(0), ratio, divisor)
-        divide_choice = _divide_and_divise(mutable.current_choice, ratio,
-                                           divisor)
+        if isinstance(ratio, BaseMutable):
+            min_ratio = int(min(ratio.choices))
+        else:
+            min_ratio = ratio
+        divide_num_channels = _divide_and_divise(
+            mask.size(0), min_ratio, divisor)
+        divide_choice = _divide_and_divise(mutable.current_choice,
+                                           int(_current_ratio(ratio)), divisor)
         divide_mask = torch.zeros(divide_num_channels).bool()
         divide_mask[:divide_choice] = True
 
@@ -146,28 +157,15 @@ class DerivedMethodMixin:
             expand_ratio: Union[int, BaseMutable, float]) -> 'DerivedMutable':
         """Derive expand mutable, usually used with `expand_ratio`."""
         # avoid circular import
-        if isinstance(expand_ratio, int):
-            choice_fn = _expand_choice_fn(self, expand_ratio=expand_ratio)
-        elif isinstance(expand_ratio, float):
+        if isinstance(expand_ratio, (int, float, BaseMutable)):
             choice_fn = _expand_choice_fn(self, expand_ratio=expand_ratio)
-        elif isinstance(expand_ratio, BaseMutable):
-            current_ratio = expand_ratio.current_choice
-            choice_fn = _expand_choice_fn(self, expand_ratio=current_ratio)
         else:
             raise NotImplementedError(
                 f'Not support type of ratio: {type(expand_ratio)}')
 
         mask_fn: Optional[Callable] = None
         if hasattr(self, 'current_mask'):
-            if isinstance(expand_ratio, int):
-                mask_fn = _expand_mask_fn(self, expand_ratio=expand_ratio)
-            elif isinstance(expand_ratio, float):
-                mask_fn = _expand_mask_fn(self, expand_ratio=expand_ratio)
-            elif isinstance(expand_ratio, BaseMutable):
-                mask_fn = _expand_mask_fn(self, expand_ratio=current_ratio)
-            else:
-                raise NotImplementedError(
-                    f'Not support type of ratio: {type(expand_ratio)}')
+            mask_fn = _expand_mask_fn(self, expand_ratio=expand_ratio)
 
         return DerivedMutable(choice_fn=choice_fn, mask_fn=mask_fn)
 
@@ -178,27 +176,19 @@ class DerivedMethodMixin:
         from .mutable_channel import BaseMutableChannel
 
         # avoid circular import
-        if isinstance(ratio, int):
-            choice_fn = _divide_choice_fn(self, ratio=ratio, divisor=divisor)
-            current_ratio = ratio
-        elif isinstance(ratio, float):
-            current_ratio = int(ratio)
-            choice_fn = _divide_choice_fn(self, ratio=current_ratio, divisor=1)
-        elif isinstance(ratio, BaseMutable):
-            current_ratio = int(ratio.current_choice)
-            choice_fn = _divide_choice_fn(self, ratio=current_ratio, divisor=1)
-        else:
+        if isinstance(ratio, float):
+            ratio = int(ratio)
+        elif not isinstance(ratio, (int, BaseMutable)):
             raise NotImplementedError(
                 f'Not support type of ratio: {type(ratio)}')
+        choice_fn = _divide_choice_fn(self, ratio=ratio, divisor=divisor)
 
         mask_fn: Optional[Callable] = None
         if isinstance(self, BaseMutableChannel) and hasattr(
                 self, 'current_mask'):
-            mask_fn = _divide_mask_fn(
-                self, ratio=current_ratio, divisor=divisor)
+            mask_fn = _divide_mask_fn(self, ratio=ratio, divisor=divisor)
         elif getattr(self, 'mask_fn', None):  # OneShotMutableChannel
-            mask_fn = _divide_mask_fn(
-                self, ratio=current_ratio, divisor=divisor)
+            mask_fn = _divide_mask_fn(self, ratio=ratio, divisor=divisor)
 
         return DerivedMutable(choice_fn=choice_fn, mask_fn=mask_fn)
 
@@ -206,6 +196,7 @@ class DerivedMethodMixin:
     def derive_concat_mutable(
             mutables: Iterable[MutableChannelProtocol]) -> 'DerivedMutable':
         """Derive concat mutable, usually used with `torch.cat`."""
+        mutables = list(mutables)
         for mutable in mutables:
             if not hasattr(mutable, 'current_mask'):
                 raise RuntimeError('Source mutable of concat derived mutable '
diff --git a/mmrazor/models/mutables/mutable_channel/sequential_mutable_channel.py b/mmrazor/models/mutables/mutable_channel/sequential_mutable_channel.py
index 138d667..f1078ad 100644
--- a/mmrazor/models/mutables/mutable_channel/sequential_mutable_channel.py
+++ b/mmrazor/models/mutables/mutable_channel/sequential_mutable_channel.py
@@ -120,8 +120,7 @@ class SquentialMutableChannel(SimpleMutableChannel):
 
         from ..mutable_value import OneShotMutableValue
         if isinstance(other, OneShotMutableValue):
-            ratio = other.current_choice
-            return self.derive_divide_mutable(ratio)
+            return self.derive_divide_mutable(other)
 
         raise TypeError(f'Unsupported type {type(other)} for div!')
 
-- 
2.43.0


From 7da102413d33df8ac1f9462efa1b53708b3251d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:28 +0000
Subject: [PATCH 020/126] fix: deriving from a derived mutable without mask
 raised

---
 mmrazor/models/mutables/derived_mutable.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mmrazor/models/mutables/derived_mutable.py b/mmrazor/models/mutables/derived_mutable.py
index 573fc23..99bc8f0 100644
--- a/mmrazor/models/mutables/derived_mutable.py
+++ b/mmrazor/models/mutables/derived_mutable.py
@@ -47,6 +47,13 @@ def _current_ratio(ratio: Union[int, float, BaseMutable]):
     return ratio.current_choice if isinstance(ratio, BaseMutable) else ratio
 
 
+def _has_mask(mutable: MutableProtocol) -> bool:
+    """Whether a mutable has a mask, also if it is derived."""
+    if isinstance(mutable, DerivedMutable):
+        return mutable.mask_fn is not None
+    return hasattr(mutable, 'current_mask')
+
+
 def _expand_choice_fn(
         mutable: MutableProtocol,
         expand_ratio: Union[int, float, BaseMutable]) -> Callable:
@@ -164,7 +171,7 @@ class DerivedMethodMixin:
                 f'Not support type of ratio: {type(expand_ratio)}')
 
         mask_fn: Optional[Callable] = None
-        if hasattr(self, 'current_mask'):
+        if _has_mask(self):
             mask_fn = _expand_mask_fn(self, expand_ratio=expand_ratio)
 
         return DerivedMutable(choice_fn=choice_fn, mask_fn=mask_fn)
-- 
2.43.0


From 534ebd7b3ab7b7e3cd37be05b1a84cd53f8ed795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:07 +0000
Subject: [PATCH 021/126] fix: endless recursion on strings when tracing source
 mutables

---
 mmrazor/models/mutables/derived_mutable.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mmrazor/models/mutables/derived_mutable.py b/mmrazor/models/mutables/derived_mutable.py
index 99bc8f0..a5e9e85 100644
--- a/mmrazor/models/mutables/derived_mutable.py
+++ b/mmrazor/models/mutables/derived_mutable.py
@@ -409,7 +409,9 @@ class DerivedMutable(BaseMutable, DerivedMethodMixin):
             elif isinstance(mutable, dict):
                 add_mutables_dfs(mutable.values())
                 add_mutables_dfs(mutable.keys())
-            elif isinstance(mutable, Iterable):
+            # characters of a string are strings again
+            elif isinstance(mutable, Iterable) and not isinstance(
+                    mutable, (str, bytes)):
                 for m in mutable:
                     add_mutables_dfs(m)
 
-- 
2.43.0


From 46a23181d14f4aefd21286ad09c6fc9445d458a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:43 +0000
Subject: [PATCH 022/126] fix: custom search groups given by alias raised
 KeyError

---
 mmrazor/models/mutators/group_mixin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/mutators/group_mixin.py b/mmrazor/models/mutators/group_mixin.py
index 569f01e..48380b4 100644
--- a/mmrazor/models/mutators/group_mixin.py
+++ b/mmrazor/models/mutators/group_mixin.py
@@ -159,8 +159,8 @@ class GroupMixin():
                     group_mutables.append(name2mutable[item])
                     grouped_mutable_names.append(item)
 
-            # TODO: fix prefix when constructing custom groups.
-            prefix = name2mutable[item].mutable_prefix
+            # an item may be an alias, which is no module name
+            prefix = group_mutables[0].mutable_prefix
             group_name = prefix + '_' + str(current_group_nums)
             search_groups[group_name] = group_mutables
             current_group_nums += 1
-- 
2.43.0


From 83f90d6cad7c6aa0735f658d4c710a7f40880055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:32 +0000
Subject: [PATCH 023/126] fix: rounding a channel choice up could exceed the
 width of the unit

---
 .../units/sequential_mutable_channel_unit.py                | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/mutables/mutable_channel/units/sequential_mutable_channel_unit.py b/mmrazor/models/mutables/mutable_channel/units/sequential_mutable_channel_unit.py
index bd9a78f..a34b4a8 100644
--- a/mmrazor/models/mutables/mutable_channel/units/sequential_mutable_channel_unit.py
+++ b/mmrazor/models/mutables/mutable_channel/units/sequential_mutable_channel_unit.py
@@ -134,8 +134,10 @@ class SequentialMutableChannelUnit(MutableChannelUnit):
     def _make_divisible(self, choice_int: int):
         """Make the choice divisible."""
         from mmrazor.models.utils import make_divisible
-        return make_divisible(choice_int, self.divisor, self.min_value,
-                              self.min_ratio)
+        choice = make_divisible(choice_int, self.divisor, self.min_value,
+                                self.min_ratio)
+        # rounding up must not exceed the width of the unit
+        return min(choice, self.num_channels)
 
     def _num2ratio(self, choice: Union[int, float]) -> float:
         """Convert the a number choice to a ratio choice."""
-- 
2.43.0


From fa7d3db1db2c6d0591646c58b94e64188ef4809c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:32 +0000
Subject: [PATCH 024/126] fix: one-shot and slimmable units lost the choice of
 their config; switchable norms of group convs had the wrong widths

---
 .../mutable_channel/units/one_shot_mutable_channel_unit.py  | 3 ++-
 .../mutable_channel/units/slimmable_channel_unit.py         | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/mmrazor/models/mutables/mutable_channel/units/one_shot_mutable_channel_unit.py b/mmrazor/models/mutables/mutable_channel/units/one_shot_mutable_channel_unit.py
index 220d49b..440abff 100644
--- a/mmrazor/models/mutables/mutable_channel/units/one_shot_mutable_channel_unit.py
+++ b/mmrazor/models/mutables/mutable_channel/units/one_shot_mutable_channel_unit.py
@@ -52,6 +52,7 @@ class OneShotMutableChannelUnit(SequentialMutableChannelUnit):
                                                      choice_mode)
 
         self.unit_predefined = False
+        self.current_choice = self.max_choice
 
     @classmethod
     def init_from_mutable_channel(cls, mutable_channel: OneShotMutableChannel):
@@ -60,13 +61,13 @@ class OneShotMutableChannelUnit(SequentialMutableChannelUnit):
                    mutable_channel.choice_mode)
         mutable_channel.candidate_choices = unit.candidate_choices
         unit.mutable_channel = mutable_channel
+        unit.current_choice = unit.max_choice
         return unit
 
     def prepare_for_pruning(self, model: nn.Module):
         """Prepare for pruning."""
         if not self.unit_predefined:
             super().prepare_for_pruning(model)
-        self.current_choice = self.max_choice
 
     # ~
 
diff --git a/mmrazor/models/mutables/mutable_channel/units/slimmable_channel_unit.py b/mmrazor/models/mutables/mutable_channel/units/slimmable_channel_unit.py
index a51dce8..3253774 100644
--- a/mmrazor/models/mutables/mutable_channel/units/slimmable_channel_unit.py
+++ b/mmrazor/models/mutables/mutable_channel/units/slimmable_channel_unit.py
@@ -55,5 +55,7 @@ class SlimmableChannelUnit(OneShotMutableChannelUnit):
         for channel in list(self.output_related) + list(self.input_related):
             if isinstance(channel.module, dynamic_ops.SwitchableBatchNorm2d) \
                     and len(channel.module.candidate_bn) == 0:
-                channel.module.init_candidates(candidates)
-        self.current_choice = self.max_choice
+                # the module can have several channels per channel of the unit
+                ratio = channel.module.num_features // self.num_channels
+                channel.module.init_candidates(
+                    [candidate * ratio for candidate in candidates])
-- 
2.43.0


From 3948983f6c914c18156f4ddf48f391f43a6199f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:32 +0000
Subject: [PATCH 025/126] fix: OneShotChannelMutator could not be used with its
 default config

---
 .../mutators/channel_mutator/one_shot_channel_mutator.py     | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mmrazor/models/mutators/channel_mutator/one_shot_channel_mutator.py b/mmrazor/models/mutators/channel_mutator/one_shot_channel_mutator.py
index cc008b0..5888613 100644
--- a/mmrazor/models/mutators/channel_mutator/one_shot_channel_mutator.py
+++ b/mmrazor/models/mutators/channel_mutator/one_shot_channel_mutator.py
@@ -15,14 +15,13 @@ class OneShotChannelMutator(ChannelMutator[OneShotMutableChannelUnit]):
     Args:
         channel_unit_cfg (Union[dict, Type[ChannelUnitType]], optional):
             Config of MutableChannelUnits. Defaults to
-            dict( type='OneShotMutableChannelUnit',
-            default_args=dict( num_blocks=8, min_blocks=2 ) ).
+            dict( type='OneShotMutableChannelUnit', default_args=dict() ).
     """
 
     def __init__(self,
                  channel_unit_cfg: Union[dict, Type[ChannelUnitType]] = dict(
                      type='OneShotMutableChannelUnit',
-                     default_args=dict(num_blocks=8, min_blocks=2)),
+                     default_args=dict()),
                  **kwargs) -> None:
 
         super().__init__(channel_unit_cfg, **kwargs)
-- 
2.43.0


From 945ae20c8b61603385867379445ed97fd683d78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:32 +0000
Subject: [PATCH 026/126] fix: channel mutators changed the config they were
 built from

---
 .../channel_mutator/channel_mutator.py        | 27 ++++++++++++-------
 mmrazor/structures/subnet/fix_subnet.py       |  2 +-
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/mmrazor/models/mutators/channel_mutator/channel_mutator.py b/mmrazor/models/mutators/channel_mutator/channel_mutator.py
index 910992e..157d870 100644
--- a/mmrazor/models/mutators/channel_mutator/channel_mutator.py
+++ b/mmrazor/models/mutators/channel_mutator/channel_mutator.py
@@ -273,7 +273,7 @@ class ChannelMutator(BaseMutator, Generic[ChannelUnitType]):
             args = copy.copy(self.unit_default_args)
             if unit.name in self.units_cfg and \
                     'init_args' in self.units_cfg[unit.name]:
-                args = self.units_cfg[unit.name]['init_args']
+                args.update(self.units_cfg[unit.name]['init_args'])
             mutable_unit = self.unit_class.init_from_channel_unit(unit, args)
             mutable_units.append(mutable_unit)
         return mutable_units
@@ -328,9 +328,12 @@ class ChannelMutator(BaseMutator, Generic[ChannelUnitType]):
             config = fileio.load(config)
         assert isinstance(config, dict)
 
+        # do not change the config of the user, which may be used again
         if 'Analyzer' in self.parse_cfg['type']:
-            self.parse_cfg.pop('from_cfg')
-            tracer = TASK_UTILS.build(self.parse_cfg)
+            tracer = TASK_UTILS.build({
+                key: value
+                for key, value in self.parse_cfg.items() if key != 'from_cfg'
+            })
             unit_configs = tracer.analyze(model)
 
         units = []
@@ -338,14 +341,14 @@ class ChannelMutator(BaseMutator, Generic[ChannelUnitType]):
             init_args = copy.deepcopy(self.unit_default_args)
             if 'init_args' in config[unit_key]:
                 init_args.update(config[unit_key]['init_args'])
-            config[unit_key]['init_args'] = init_args
-            if 'channels' in config[unit_key]:
-                unit = self.unit_class.init_from_cfg(model, config[unit_key])
+            unit_cfg = dict(config[unit_key], init_args=init_args)
+            if 'channels' in unit_cfg:
+                unit = self.unit_class.init_from_cfg(model, unit_cfg)
                 unit.name = unit_key
             else:
                 try:
                     unit = self._prepare_unit_from_init_cfg(
-                        model, config[unit_key], unit_configs[unit_key])
+                        model, unit_cfg, unit_configs[unit_key])
                 except ValueError:
                     raise ValueError(
                         'Initializing channel_mutator from the config needs'
@@ -368,7 +371,13 @@ class ChannelMutator(BaseMutator, Generic[ChannelUnitType]):
 
         units = self.unit_class.init_from_predefined_model(model)
 
+        unit_predefined = self.unit_default_args.get('unit_predefined', False)
+        # it is not an argument of units, do not change the user's config
+        self.unit_default_args = {
+            key: value
+            for key, value in self.unit_default_args.items()
+            if key != 'unit_predefined'
+        }
         for unit in units:
-            unit.unit_predefined = self.unit_default_args.pop(
-                'unit_predefined', False)
+            unit.unit_predefined = unit_predefined
         return units
diff --git a/mmrazor/structures/subnet/fix_subnet.py b/mmrazor/structures/subnet/fix_subnet.py
index eb610c6..3795fca 100644
--- a/mmrazor/structures/subnet/fix_subnet.py
+++ b/mmrazor/structures/subnet/fix_subnet.py
@@ -121,7 +121,7 @@ def _load_fix_subnet_by_mutator(model: nn.Module, mutator_cfg: Dict) -> None:
                          f'but got mutator_cfg:'
                          f'{mutator_cfg}')
     mutator = MODELS.build(mutator_cfg)
-    mutator.parse_cfg['from_cfg'] = True
+    mutator.parse_cfg = dict(mutator.parse_cfg, from_cfg=True)
     mutator.prepare_from_supernet(model)
 
 
-- 
2.43.0


From bbcc4c83b390c9bc1bc2704ea879d24076b11076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:18 +0000
Subject: [PATCH 027/126] fix: the resource estimator ignored its own settings
 when no config was given per call

It also passed an unknown keyword to the latency measurement and kept the
separate return of the last separate estimate.
---
 .../estimators/resource_estimator.py          | 37 ++++++++++---------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/mmrazor/models/task_modules/estimators/resource_estimator.py b/mmrazor/models/task_modules/estimators/resource_estimator.py
index ac5292d..b9a59f9 100644
--- a/mmrazor/models/task_modules/estimators/resource_estimator.py
+++ b/mmrazor/models/task_modules/estimators/resource_estimator.py
@@ -108,7 +108,8 @@ class ResourceEstimator(BaseEstimator):
             latency_cfg (dict): Cfg for estimating latency. Default to None.
 
             NOTE: If the `flops_params_cfg` and `latency_cfg` are both None,
-            this method will only estimate FLOPs/params with default settings.
+            this method will only estimate FLOPs/params with the settings of
+            the estimator.
 
         Returns:
             Dict[str, Union[float, str]]): A dict that contains the resource
@@ -117,18 +118,19 @@ class ResourceEstimator(BaseEstimator):
         resource_metrics = dict()
         measure_latency = True if latency_cfg else False
 
-        if flops_params_cfg:
-            flops_params_cfg = {**self.flops_params_cfg, **flops_params_cfg}
-            self._check_flops_params_cfg(flops_params_cfg)
-            flops_params_cfg = self._set_default_resource_params(
-                flops_params_cfg)
-        else:
-            flops_params_cfg = self.flops_params_cfg
+        flops_params_cfg = {
+            **self.flops_params_cfg,
+            **(flops_params_cfg or dict())
+        }
+        self._check_flops_params_cfg(flops_params_cfg)
+        flops_params_cfg = self._set_default_resource_params(flops_params_cfg)
 
         if latency_cfg:
             latency_cfg = {**self.latency_cfg, **latency_cfg}
             self._check_latency_cfg(latency_cfg)
-            latency_cfg = self._set_default_resource_params(latency_cfg)
+            latency_cfg.setdefault('input_shape', self.input_shape)
+            latency_cfg.setdefault('as_strings', self.as_strings)
+            latency_cfg.setdefault('unit', self.units.get('latency', 'ms'))
         else:
             latency_cfg = self.latency_cfg
 
@@ -162,16 +164,15 @@ class ResourceEstimator(BaseEstimator):
                 params results (string | float format) of each modules in the
                 ``flops_params_cfg['spec_modules']``.
         """
-        if flops_params_cfg:
-            flops_params_cfg = {**self.flops_params_cfg, **flops_params_cfg}
-            self._check_flops_params_cfg(flops_params_cfg)
-            flops_params_cfg = self._set_default_resource_params(
-                flops_params_cfg)
-        else:
-            flops_params_cfg = self.flops_params_cfg
+        flops_params_cfg = {
+            **self.flops_params_cfg,
+            **(flops_params_cfg or dict())
+        }
+        self._check_flops_params_cfg(flops_params_cfg)
+        flops_params_cfg = self._set_default_resource_params(flops_params_cfg)
         flops_params_cfg['seperate_return'] = True
 
-        assert len(flops_params_cfg['spec_modules']), (
+        assert len(flops_params_cfg.get('spec_modules', [])), (
             'spec_modules can not be empty when calling '
             f'`estimate_separation_modules` of {self.__class__.__name__} ')
 
@@ -206,7 +207,7 @@ class ResourceEstimator(BaseEstimator):
         """Set default attributes for the input cfgs.
 
         Args:
-            cfg (dict): flops_params_cfg or latency_cfg.
+            cfg (dict): flops_params_cfg.
         """
         default_common_settings = ['input_shape', 'units', 'as_strings']
         for key in default_common_settings:
-- 
2.43.0


From ed864b829c56b0a8111b87fa185da8f93fb9efdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:18 +0000
Subject: [PATCH 028/126] fix: FLOPs of deconvolution bias and of Upsample were
 wrong for non-square maps and batches

---
 .../estimators/counters/op_counters/deconv_layer_counter.py     | 2 +-
 .../estimators/counters/op_counters/upsample_layer_counter.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/task_modules/estimators/counters/op_counters/deconv_layer_counter.py b/mmrazor/models/task_modules/estimators/counters/op_counters/deconv_layer_counter.py
index 0426fbb..646365a 100644
--- a/mmrazor/models/task_modules/estimators/counters/op_counters/deconv_layer_counter.py
+++ b/mmrazor/models/task_modules/estimators/counters/op_counters/deconv_layer_counter.py
@@ -32,7 +32,7 @@ class ConvTranspose2dCounter(BaseCounter):
         bias_flops = 0
         if module.bias is not None:
             output_height, output_width = output.shape[2:]
-            bias_flops = out_channels * batch_size * output_height * output_height  # noqa: E501
+            bias_flops = out_channels * batch_size * output_height * output_width  # noqa: E501
         overall_flops = overall_conv_flops + bias_flops
 
         module.__flops__ += int(overall_flops)
diff --git a/mmrazor/models/task_modules/estimators/counters/op_counters/upsample_layer_counter.py b/mmrazor/models/task_modules/estimators/counters/op_counters/upsample_layer_counter.py
index 12958b6..30a0a9a 100644
--- a/mmrazor/models/task_modules/estimators/counters/op_counters/upsample_layer_counter.py
+++ b/mmrazor/models/task_modules/estimators/counters/op_counters/upsample_layer_counter.py
@@ -11,7 +11,7 @@ class UpsampleCounter(BaseCounter):
     @staticmethod
     def add_count_hook(module, input, output):
         """Calculate FLOPs and params based on the size of input & output."""
-        output_size = output[0]
+        output_size = output
         batch_size = output_size.shape[0]
         output_elements_count = batch_size
         for val in output_size.shape[1:]:
-- 
2.43.0


From 6c426d4a72b539d53f070496046a6d95269af9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:37 +0000
Subject: [PATCH 029/126] fix: FLOPs of a pruned depthwise convolution were
 counted quadratically

---
 .../estimators/counters/op_counters/conv_layer_counter.py      | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mmrazor/models/task_modules/estimators/counters/op_counters/conv_layer_counter.py b/mmrazor/models/task_modules/estimators/counters/op_counters/conv_layer_counter.py
index d410e39..cacbdb5 100644
--- a/mmrazor/models/task_modules/estimators/counters/op_counters/conv_layer_counter.py
+++ b/mmrazor/models/task_modules/estimators/counters/op_counters/conv_layer_counter.py
@@ -93,6 +93,9 @@ class DynamicConv2dCounter(ConvCounter):
             in_channels = module.in_channels
 
         groups = module.groups
+        if groups == module.in_channels == module.out_channels:
+            # depth-wise conv keeps one group per activated channel
+            groups = in_channels
 
         filters_per_channel = out_channels / groups
         conv_per_position_flops = \
-- 
2.43.0


From ab2148de14bb99a05a199dd2b25e976821e73e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:53 +0000
Subject: [PATCH 030/126] fix: the parameters of a module called more than once
 were counted once per call

---
 .../counters/flops_params_counter.py           | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/mmrazor/models/task_modules/estimators/counters/flops_params_counter.py b/mmrazor/models/task_modules/estimators/counters/flops_params_counter.py
index 4a3e44d..f1ca421 100644
--- a/mmrazor/models/task_modules/estimators/counters/flops_params_counter.py
+++ b/mmrazor/models/task_modules/estimators/counters/flops_params_counter.py
@@ -417,7 +417,7 @@ def start_flops_params_count(self, disabled_counters):
                     counter = TASK_UTILS.build(
                         dict(type=counter_type, _scope_='mmrazor'))
                     handle = module.register_forward_hook(
-                        counter.add_count_hook)
+                        partial(count_with_shared_params, counter))
 
                     module.__flops_params_handle__ = handle
                 else:
@@ -448,6 +448,19 @@ def reset_flops_params_count(self):
 
 
 # ---- Internal functions
+def count_with_shared_params(counter, module, input, output):
+    """Call the counter of the module.
+
+    FLOPs add up when a module is called more than once in a forward pass, its
+    parameters do not.
+    """
+    params = module.__params__
+    counter.add_count_hook(module, input, output)
+    if getattr(module, '__params_counted__', False):
+        module.__params__ = params
+    module.__params_counted__ = True
+
+
 def empty_flops_params_counter_hook(module, input, output):
     """Empty flops and params variables of the module."""
     module.__flops__ += 0
@@ -502,6 +515,7 @@ def add_flops_params_counter_variable_or_reset(module):
                   ' ptflops can affect your code!')
         module.__flops__ = 0
         module.__params__ = 0
+        module.__params_counted__ = False
 
 
 counter_warning_list = []
@@ -551,6 +565,8 @@ def remove_flops_params_counter_hook_function(module):
         del module.__flops__
     if hasattr(module, '__params__'):
         del module.__params__
+    if hasattr(module, '__params_counted__'):
+        del module.__params_counted__
 
 
 def get_modules_list() -> List:
-- 
2.43.0


From 77bf6a171ddfc6bb3cda79961df8f68e40ea7802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:20:24 +0000
Subject: [PATCH 031/126] fix: a failed resource measurement left its counting
 hooks on the model

---
 .../counters/flops_params_counter.py          | 46 +++++++++++--------
 1 file changed, 26 insertions(+), 20 deletions(-)

diff --git a/mmrazor/models/task_modules/estimators/counters/flops_params_counter.py b/mmrazor/models/task_modules/estimators/counters/flops_params_counter.py
index f1ca421..65ce5e7 100644
--- a/mmrazor/models/task_modules/estimators/counters/flops_params_counter.py
+++ b/mmrazor/models/task_modules/estimators/counters/flops_params_counter.py
@@ -80,24 +80,35 @@ def get_model_flops_params(model,
         raise AssertionError('`seperate_return` can only be set to True when '
                              '`spec_modules` are not empty.')
 
+    module_names = [name for name, _ in model.named_modules()]
+    for module in spec_modules:
+        assert module in module_names, \
+            f'All modules in spec_modules should be in the measured ' \
+            f'flops_params_model. Got module `{module}` in spec_modules.'
+
     flops_params_model = add_flops_params_counting_methods(model)
     flops_params_model.eval()
     flops_params_model.start_flops_params_count(disabled_counters)
-    if input_constructor:
-        input = input_constructor(input_shape)
-        _ = flops_params_model(**input)
-    else:
-        try:
-            batch = torch.ones(()).new_empty(
-                tuple(input_shape),
-                dtype=next(flops_params_model.parameters()).dtype,
-                device=next(flops_params_model.parameters()).device)
-        except StopIteration:
-            # Avoid StopIteration for models which have no parameters,
-            # like `nn.Relu()`, `nn.AvgPool2d`, etc.
-            batch = torch.ones(()).new_empty(tuple(input_shape))
-
-        _ = flops_params_model(batch)
+    try:
+        if input_constructor:
+            input = input_constructor(input_shape)
+            _ = flops_params_model(**input)
+        else:
+            try:
+                batch = torch.ones(()).new_empty(
+                    tuple(input_shape),
+                    dtype=next(flops_params_model.parameters()).dtype,
+                    device=next(flops_params_model.parameters()).device)
+            except StopIteration:
+                # Avoid StopIteration for models which have no parameters,
+                # like `nn.Relu()`, `nn.AvgPool2d`, etc.
+                batch = torch.ones(()).new_empty(tuple(input_shape))
+
+            _ = flops_params_model(batch)
+    except Exception:
+        # leave no counting hooks behind
+        flops_params_model.stop_flops_params_count()
+        raise
 
     flops_count, params_count = \
         flops_params_model.compute_average_flops_params_cost()
@@ -120,11 +131,6 @@ def get_model_flops_params(model,
 
     if len(spec_modules):
         flops_count, params_count = 0.0, 0.0
-        module_names = [name for name, _ in flops_params_model.named_modules()]
-        for module in spec_modules:
-            assert module in module_names, \
-                f'All modules in spec_modules should be in the measured ' \
-                f'flops_params_model. Got module `{module}` in spec_modules.'
         spec_modules_resources: Dict[str, dict] = dict()
         accumulate_sub_module_flops_params(flops_params_model, units=units)
         for name, module in flops_params_model.named_modules():
-- 
2.43.0


From 884139af43ee261fa89bb1931c7f88ac2218824d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:59 +0000
Subject: [PATCH 032/126] fix: the metric predictor used np.int, which numpy
 removed

---
 mmrazor/models/task_modules/predictor/metric_predictor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/task_modules/predictor/metric_predictor.py b/mmrazor/models/task_modules/predictor/metric_predictor.py
index 796c3ac..fba9fcf 100644
--- a/mmrazor/models/task_modules/predictor/metric_predictor.py
+++ b/mmrazor/models/task_modules/predictor/metric_predictor.py
@@ -106,7 +106,7 @@ class MetricPredictor:
                     f'`DumpChosen.meta` of current {key} should not be None '
                     'when converting the search space.')
                 onehot = np.zeros(
-                    len(choice.meta['all_choices']), dtype=np.int)
+                    len(choice.meta['all_choices']), dtype=int)
                 _chosen_index = choice.meta['all_choices'].index(choice.chosen)
             else:
                 if key is not None:
@@ -119,7 +119,7 @@ class MetricPredictor:
                 else:
                     assert len(self.search_groups[index]) == 1
                     choices = self.search_groups[index][0].choices
-                onehot = np.zeros(len(choices), dtype=np.int)
+                onehot = np.zeros(len(choices), dtype=int)
                 _chosen_index = choices.index(choice)
             onehot[_chosen_index] = 1
 
-- 
2.43.0


From 344e67cf66416a652fd768260502cb663ca07c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:59 +0000
Subject: [PATCH 033/126] fix: a predictor loaded from a checkpoint was never
 used by the search

---
 mmrazor/engine/runner/evolution_search_loop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/engine/runner/evolution_search_loop.py b/mmrazor/engine/runner/evolution_search_loop.py
index 644385e..bfd621c 100644
--- a/mmrazor/engine/runner/evolution_search_loop.py
+++ b/mmrazor/engine/runner/evolution_search_loop.py
@@ -439,5 +439,5 @@ class EvolutionSearchLoop(EpochBasedTrainLoop, CalibrateBNMixin):
                     osp.join(self.runner.work_dir, 'predictor'))
                 self.runner.logger.info(
                     f'Predictor pre-trained, saved in {predictor_dir}.')
-            self.use_predictor = True
             self.candidates = Candidates()
+        self.use_predictor = True
-- 
2.43.0


From d4e3c118fb8fb0f5bacd26b4736a6d7ef99f84fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:59 +0000
Subject: [PATCH 034/126] fix: the metric predictor encoded a model in another
 order than its training data

---
 .../models/task_modules/predictor/metric_predictor.py    | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mmrazor/models/task_modules/predictor/metric_predictor.py b/mmrazor/models/task_modules/predictor/metric_predictor.py
index fba9fcf..81e4766 100644
--- a/mmrazor/models/task_modules/predictor/metric_predictor.py
+++ b/mmrazor/models/task_modules/predictor/metric_predictor.py
@@ -10,7 +10,6 @@ except ImportError:
     stats = get_placeholder('scipy')
 
 from mmrazor.registry import TASK_UTILS
-from mmrazor.structures import export_fix_subnet
 from mmrazor.utils.typing import DumpChosen
 from .handler import RBFHandler
 
@@ -73,8 +72,12 @@ class MetricPredictor:
             'cause the model of handler in predictor needs to be initialized.')
 
         if self.initialize:
-            model, _ = export_fix_subnet(model)
-            data = self.preprocess(np.array([self.model2vector(model)]))
+            # in the order of the search groups, as the training data
+            choices = {
+                name: mutables[0].current_choice
+                for name, mutables in self.search_groups.items()
+            }
+            data = self.preprocess(np.array([self.model2vector(choices)]))
             score = float(np.squeeze(self.handler.predict(data)))
             if metric.get(self.score_key_list[0], None):
                 metric.update({self.score_key_list[1]: score})
-- 
2.43.0


From a3d22c8fb568c336f1d91230dc7e1f3c2a489354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:59 +0000
Subject: [PATCH 035/126] fix: a saved MLP predictor could not be loaded by a
 new one

---
 .../models/task_modules/predictor/handler/mlp_handler.py  | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/task_modules/predictor/handler/mlp_handler.py b/mmrazor/models/task_modules/predictor/handler/mlp_handler.py
index e1bd797..b3bc127 100644
--- a/mmrazor/models/task_modules/predictor/handler/mlp_handler.py
+++ b/mmrazor/models/task_modules/predictor/handler/mlp_handler.py
@@ -132,8 +132,12 @@ class MLPHandler(BaseHandler):
 
     def load(self, path: str) -> None:
         """Load predictor's pretrained weights."""
-        self.model.load_state_dict(
-            torch.load(path, map_location='cpu')['state_dict'])
+        state_dict = torch.load(path, map_location='cpu')['state_dict']
+        in_features = state_dict['fc1.weight'].shape[1]
+        if in_features != self.model.fc1.in_features:
+            self.model.fc1 = nn.Linear(in_features,
+                                       self.model.fc1.out_features)
+        self.model.load_state_dict(state_dict)
 
     def save(self, path: str) -> str:
         """Save predictor and return saved path for diff suffix."""
-- 
2.43.0


From 822cce023aafa7e8b1099b54ea0b5e6164338531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:59 +0000
Subject: [PATCH 036/126] fix: a resumed distributed search restored its state
 on the first rank only

---
 .../engine/runner/evolution_search_loop.py    | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/mmrazor/engine/runner/evolution_search_loop.py b/mmrazor/engine/runner/evolution_search_loop.py
index bfd621c..27175e3 100644
--- a/mmrazor/engine/runner/evolution_search_loop.py
+++ b/mmrazor/engine/runner/evolution_search_loop.py
@@ -298,15 +298,18 @@ class EvolutionSearchLoop(EpochBasedTrainLoop, CalibrateBNMixin):
 
     def _resume(self):
         """Resume searching."""
+        searcher_resume = [None]
         if self.runner.rank == 0:
-            searcher_resume = fileio.load(self.resume_from)
-            for k in searcher_resume.keys():
-                setattr(self, k, searcher_resume[k])
-            epoch_start = int(searcher_resume['_epoch'])
-            self._max_epochs = self._max_epochs - epoch_start
-            self.runner.logger.info('#' * 100)
-            self.runner.logger.info(f'Resume from epoch: {epoch_start}')
-            self.runner.logger.info('#' * 100)
+            searcher_resume = [fileio.load(self.resume_from)]
+        # every rank goes on from the same state
+        broadcast_object_list(searcher_resume)
+        for k, v in searcher_resume[0].items():
+            setattr(self, k, v)
+        epoch_start = int(self._epoch)
+        self._max_epochs = self._max_epochs - epoch_start
+        self.runner.logger.info('#' * 100)
+        self.runner.logger.info(f'Resume from epoch: {epoch_start}')
+        self.runner.logger.info('#' * 100)
 
     def _save_best_fix_subnet(self):
         """Save best subnet in searched top-k candidates."""
-- 
2.43.0


From 122314e8d4794c0e183d17389c1ea313c2b3b0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:58 +0000
Subject: [PATCH 037/126] fix: BN calibration took the number of keys of a
 batch for its size

---
 .../engine/runner/utils/calibrate_bn_mixin.py   | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/mmrazor/engine/runner/utils/calibrate_bn_mixin.py b/mmrazor/engine/runner/utils/calibrate_bn_mixin.py
index 3e0fe49..6849b69 100644
--- a/mmrazor/engine/runner/utils/calibrate_bn_mixin.py
+++ b/mmrazor/engine/runner/utils/calibrate_bn_mixin.py
@@ -76,12 +76,19 @@ class CalibrateBNMixin:
             f'Total sample number for calibration: {calibrate_sample_num}')
         remaining = calibrate_sample_num
         for data_batch in dataloader:
-            if len(data_batch) >= remaining:
-                data_batch = data_batch[:remaining]
-            if isinstance(data_batch, torch.Tensor):
-                data_batch_nums = len(data_batch)
-            else:
+            if isinstance(data_batch, dict):
                 data_batch_nums = len(data_batch['inputs'])
+            else:
+                data_batch_nums = len(data_batch)
+            if data_batch_nums > remaining:
+                if isinstance(data_batch, dict):
+                    data_batch = {
+                        k: v[:remaining]
+                        for k, v in data_batch.items()
+                    }
+                else:
+                    data_batch = data_batch[:remaining]
+                data_batch_nums = remaining
             if dist.is_initialized() and dist.is_available():
                 data_batch_tensor = torch.tensor(
                     [data_batch_nums], device=self.runner.model.device)
-- 
2.43.0


From 67e626fcb932be1f91a24f2230f7360a0ef072b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:58 +0000
Subject: [PATCH 038/126] fix: BN calibration failed on BatchNorm1d and
 BatchNorm3d

---
 mmrazor/engine/runner/utils/calibrate_bn_mixin.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mmrazor/engine/runner/utils/calibrate_bn_mixin.py b/mmrazor/engine/runner/utils/calibrate_bn_mixin.py
index 6849b69..3bc525d 100644
--- a/mmrazor/engine/runner/utils/calibrate_bn_mixin.py
+++ b/mmrazor/engine/runner/utils/calibrate_bn_mixin.py
@@ -51,8 +51,9 @@ class CalibrateBNMixin:
             var_average_meter: AverageMeter = bn_module.__var_average_meter__
 
             real_input = input[0]
-            mean = real_input.mean((0, 2, 3))
-            var = real_input.var((0, 2, 3), unbiased=True)
+            dims = [d for d in range(real_input.dim()) if d != 1]
+            mean = real_input.mean(dims)
+            var = real_input.var(dims, unbiased=True)
 
             mean_average_meter.update(mean, real_input.size(0))
             var_average_meter.update(var, real_input.size(0))
-- 
2.43.0


From eed3ae32397b03bd205b9d04a011ab096f359bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:58 +0000
Subject: [PATCH 039/126] fix: BN calibration left its meters on layers that
 were not chosen

---
 mmrazor/engine/runner/utils/calibrate_bn_mixin.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mmrazor/engine/runner/utils/calibrate_bn_mixin.py b/mmrazor/engine/runner/utils/calibrate_bn_mixin.py
index 3bc525d..74197f1 100644
--- a/mmrazor/engine/runner/utils/calibrate_bn_mixin.py
+++ b/mmrazor/engine/runner/utils/calibrate_bn_mixin.py
@@ -116,6 +116,8 @@ class CalibrateBNMixin:
                         var_average_meter.count == 0
                     self.runner.logger.debug(
                         f'layer {name} is not chosen, ignored')
+                    del module.__mean_average_meter__
+                    del module.__var_average_meter__
                     continue
 
                 calibrated_bn_mean = mean_average_meter.avg
-- 
2.43.0


From d0983e4e681a7cd138514927a1e13dea1590cf76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:58 +0000
Subject: [PATCH 040/126] fix: BN calibration weighted the ranks wrongly when
 their batches differ in size

---
 mmrazor/engine/runner/utils/calibrate_bn_mixin.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mmrazor/engine/runner/utils/calibrate_bn_mixin.py b/mmrazor/engine/runner/utils/calibrate_bn_mixin.py
index 74197f1..6b9e1a5 100644
--- a/mmrazor/engine/runner/utils/calibrate_bn_mixin.py
+++ b/mmrazor/engine/runner/utils/calibrate_bn_mixin.py
@@ -22,13 +22,15 @@ class AverageMeter:
 
     def update(self, val: Any, batch_size: int = 1) -> None:
         if dist.is_initialized() and dist.is_available():
+            # average over all ranks, weighted with their batch sizes
+            val *= batch_size
             dist.all_reduce(val, dist.ReduceOp.SUM, async_op=False)
             batch_size_tensor = torch.tensor([batch_size], device=val.device)
             dist.all_reduce(
                 batch_size_tensor, dist.ReduceOp.SUM, async_op=False)
             total_batch_size = batch_size_tensor.item()
 
-            val /= (total_batch_size / batch_size)
+            val /= total_batch_size
             batch_size = total_batch_size
 
         self.sum += val * batch_size
-- 
2.43.0


From 6833e9dd2b294641877a1dfb55444c9698f40cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:58 +0000
Subject: [PATCH 041/126] fix: BN calibration wrote the statistics of chosen
 channels to the first ones

---
 mmrazor/engine/runner/utils/calibrate_bn_mixin.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/mmrazor/engine/runner/utils/calibrate_bn_mixin.py b/mmrazor/engine/runner/utils/calibrate_bn_mixin.py
index 6b9e1a5..ef45657 100644
--- a/mmrazor/engine/runner/utils/calibrate_bn_mixin.py
+++ b/mmrazor/engine/runner/utils/calibrate_bn_mixin.py
@@ -141,8 +141,15 @@ class CalibrateBNMixin:
                     'l2 norm of original running var: '
                     f'{module.running_var[:feature_dim].norm()}, ')
 
-                module.running_mean[:feature_dim].copy_(calibrated_bn_mean)
-                module.running_var[:feature_dim].copy_(calibrated_bn_var)
+                if hasattr(module, '_get_num_features_mask'):
+                    # the channels that were chosen
+                    mask = module._get_num_features_mask()
+                    module.running_mean.masked_scatter_(
+                        mask, calibrated_bn_mean)
+                    module.running_var.masked_scatter_(mask, calibrated_bn_var)
+                else:
+                    module.running_mean.copy_(calibrated_bn_mean)
+                    module.running_var.copy_(calibrated_bn_var)
 
                 del module.__mean_average_meter__
                 del module.__var_average_meter__
-- 
2.43.0


From 00139b918089178bb67cdb2ca6d61f5d7fa65056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:22 +0000
Subject: [PATCH 042/126] fix: recorder and delivery managers left a source
 wrapped when two of them shared it

---
 .../task_modules/delivery/delivery_manager.py   | 17 ++++++++++++++---
 .../task_modules/recorder/recorder_manager.py   | 17 ++++++++++++++---
 2 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/mmrazor/models/task_modules/delivery/delivery_manager.py b/mmrazor/models/task_modules/delivery/delivery_manager.py
index 592d891..6818150 100644
--- a/mmrazor/models/task_modules/delivery/delivery_manager.py
+++ b/mmrazor/models/task_modules/delivery/delivery_manager.py
@@ -1,5 +1,6 @@
 # Copyright (c) OpenMMLab. All rights reserved.
 import copy
+import sys
 from typing import Dict, Optional
 
 from mmrazor.registry import TASK_UTILS
@@ -104,10 +105,20 @@ class DistillDeliveryManager:
 
     def __enter__(self) -> None:
         """Enter the context manager."""
-        for delivery in self.deliveries.values():
-            delivery.__enter__()
+        entered = []
+        try:
+            for delivery in self.deliveries.values():
+                delivery.__enter__()
+                entered.append(delivery)
+        except BaseException:
+            # leave nothing wrapped when one of the deliveries can not start
+            for delivery in reversed(entered):
+                delivery.__exit__(*sys.exc_info())
+            raise
 
     def __exit__(self, exc_type, exc_value, traceback) -> None:
         """Exit the context manager."""
-        for delivery in self.deliveries.values():
+        # Deliveries may wrap the same source, so they have to be undone in the
+        # reverse order.
+        for delivery in reversed(list(self.deliveries.values())):
             delivery.__exit__(exc_type, exc_value, traceback)
diff --git a/mmrazor/models/task_modules/recorder/recorder_manager.py b/mmrazor/models/task_modules/recorder/recorder_manager.py
index 30fbbb3..07e5133 100644
--- a/mmrazor/models/task_modules/recorder/recorder_manager.py
+++ b/mmrazor/models/task_modules/recorder/recorder_manager.py
@@ -1,5 +1,6 @@
 # Copyright (c) OpenMMLab. All rights reserved.
 import copy
+import sys
 from typing import Dict, Optional
 
 from torch import nn
@@ -107,10 +108,20 @@ class RecorderManager:
 
     def __enter__(self):
         """Enter the context manager."""
-        for recorder in self.recorders.values():
-            recorder.__enter__()
+        entered = []
+        try:
+            for recorder in self.recorders.values():
+                recorder.__enter__()
+                entered.append(recorder)
+        except BaseException:
+            # leave nothing wrapped when one of the recorders can not start
+            for recorder in reversed(entered):
+                recorder.__exit__(*sys.exc_info())
+            raise
 
     def __exit__(self, exc_type, exc_value, traceback):
         """Exit the context manager."""
-        for recorder in self.recorders.values():
+        # Recorders may wrap the same source, so they have to be undone in the
+        # reverse order.
+        for recorder in reversed(list(self.recorders.values())):
             recorder.__exit__(exc_type, exc_value, traceback)
-- 
2.43.0


From 724f064d08a627c258b758f9e545773b0858a287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:22 +0000
Subject: [PATCH 043/126] fix: method recorders and deliveries undid each other
 on a shared or inherited method

---
 .../task_modules/delivery/method_outputs_delivery.py     | 9 ++++++++-
 .../task_modules/recorder/method_outputs_recorder.py     | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/task_modules/delivery/method_outputs_delivery.py b/mmrazor/models/task_modules/delivery/method_outputs_delivery.py
index fa9f6c4..67e728d 100644
--- a/mmrazor/models/task_modules/delivery/method_outputs_delivery.py
+++ b/mmrazor/models/task_modules/delivery/method_outputs_delivery.py
@@ -125,6 +125,10 @@ class MethodOutputsDelivery(DistillDelivery):
 
         Wrap the origin method.
         """
+        # The method may have been wrapped by another delivery or recorder
+        # since this delivery was built.
+        self.origin_method = getattr(self.imported_cls, self.method_name)
+        self._inherited = self.method_name not in vars(self.imported_cls)
         wrapped_method = self.deliver_wrapper(self.origin_method)
         setattr(self.imported_cls, self.method_name, wrapped_method)
 
@@ -133,7 +137,10 @@ class MethodOutputsDelivery(DistillDelivery):
 
         Reset the origin method.
         """
-        setattr(self.imported_cls, self.method_name, self.origin_method)
+        if self._inherited:
+            delattr(self.imported_cls, self.method_name)
+        else:
+            setattr(self.imported_cls, self.method_name, self.origin_method)
 
     def deliver_wrapper(self, origin_method: Callable) -> Callable:
         """Wrap the specific method to make the intermediate results of the
diff --git a/mmrazor/models/task_modules/recorder/method_outputs_recorder.py b/mmrazor/models/task_modules/recorder/method_outputs_recorder.py
index 6d3fb65..4cf859d 100644
--- a/mmrazor/models/task_modules/recorder/method_outputs_recorder.py
+++ b/mmrazor/models/task_modules/recorder/method_outputs_recorder.py
@@ -148,6 +148,10 @@ class MethodOutputsRecorder(BaseRecorder):
         super().__enter__()
 
         imported_cls = self.imported_class
+        # The method may have been wrapped by another recorder or delivery
+        # since this recorder was built.
+        self.origin_method = getattr(imported_cls, self.method_name)
+        self._inherited = self.method_name not in vars(imported_cls)
         origin_method = self.origin_method
         # add record wrapper to origin method.
         record_method = self.method_record_wrapper(origin_method,
@@ -164,4 +168,7 @@ class MethodOutputsRecorder(BaseRecorder):
         origin_method = self.origin_method
 
         # restore the origin method
-        setattr(imported_cls, self.method_name, origin_method)
+        if self._inherited:
+            delattr(imported_cls, self.method_name)
+        else:
+            setattr(imported_cls, self.method_name, origin_method)
-- 
2.43.0


From 4ddf4d65d446c1a576837096a013d81b6ed9ca18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:37 +0000
Subject: [PATCH 044/126] fix: inputs recorders dropped what a function takes
 by **kwargs

---
 .../models/task_modules/recorder/function_inputs_recorder.py  | 4 ++++
 .../models/task_modules/recorder/method_inputs_recorder.py    | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/mmrazor/models/task_modules/recorder/function_inputs_recorder.py b/mmrazor/models/task_modules/recorder/function_inputs_recorder.py
index e7bbdd8..2bd0ef1 100644
--- a/mmrazor/models/task_modules/recorder/function_inputs_recorder.py
+++ b/mmrazor/models/task_modules/recorder/function_inputs_recorder.py
@@ -63,6 +63,10 @@ class FunctionInputsRecorder(FunctionOutputsRecorder):
             for keyword in func_input_params:
                 if keyword in kwargs:
                     inputs.append(kwargs[keyword])
+            # collected by ``**kwargs`` of the function
+            for keyword, value in kwargs.items():
+                if keyword not in func_input_params:
+                    inputs.append(value)
             # assume a func execute N times, there will be N inputs need to
             # save.
             data_buffer.append(inputs)
diff --git a/mmrazor/models/task_modules/recorder/method_inputs_recorder.py b/mmrazor/models/task_modules/recorder/method_inputs_recorder.py
index 44cb418..e57bebd 100644
--- a/mmrazor/models/task_modules/recorder/method_inputs_recorder.py
+++ b/mmrazor/models/task_modules/recorder/method_inputs_recorder.py
@@ -75,6 +75,10 @@ class MethodInputsRecorder(MethodOutputsRecorder):
             for keyword in method_input_params:
                 if keyword in kwargs:
                     inputs.append(kwargs[keyword])
+            # collected by ``**kwargs`` of the method
+            for keyword, value in kwargs.items():
+                if keyword not in method_input_params:
+                    inputs.append(value)
             # Assume a func execute N times, there will be N inputs need to
             # save.
             data_buffer.append(inputs)
-- 
2.43.0


From 9875530377d2b4e2a00d148cd70f81002cbfedfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:45 +0000
Subject: [PATCH 045/126] fix: in-place modules inside an in-place block were
 left in place

---
 mmrazor/models/algorithms/base.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mmrazor/models/algorithms/base.py b/mmrazor/models/algorithms/base.py
index 5bb9839..574bf22 100644
--- a/mmrazor/models/algorithms/base.py
+++ b/mmrazor/models/algorithms/base.py
@@ -199,9 +199,10 @@ class BaseAlgorithm(BaseModel):
         if isinstance(architecture, nn.Module):
             if hasattr(eval(varstr), 'inplace'):
                 eval(varstr).inplace = False
-            else:
-                self.set_module_inplace_false(architecture._modules,
-                                              varstr + '._modules')
+            # A module with the attribute (e.g. ``ConvModule``) may have
+            # children with it.
+            self.set_module_inplace_false(architecture._modules,
+                                          varstr + '._modules')
         elif isinstance(architecture, OrderedDict):
             for key, value in architecture.items():
                 self.set_module_inplace_false(value, varstr + f"['{key}']")
-- 
2.43.0


From 9438fbfe168522b6ee2f727266f433f2b443a86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:50 +0000
Subject: [PATCH 046/126] fix: data-free distillation needed a wrapped
 generator

---
 .../distill/configurable/datafree_distillation.py   | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/mmrazor/models/algorithms/distill/configurable/datafree_distillation.py b/mmrazor/models/algorithms/distill/configurable/datafree_distillation.py
index 1aff807..0e33bc1 100644
--- a/mmrazor/models/algorithms/distill/configurable/datafree_distillation.py
+++ b/mmrazor/models/algorithms/distill/configurable/datafree_distillation.py
@@ -78,6 +78,13 @@ class DataFreeDistillation(BaseAlgorithm):
         """Alias for ``architecture``."""
         return self.architecture
 
+    @property
+    def latent_dim(self) -> int:
+        """Dimension of the latent data of the (possibly wrapped)
+        generator."""
+        generator = getattr(self.generator, 'module', self.generator)
+        return generator.latent_dim
+
     def train_step(self, data: Dict[str, List[dict]],
                    optim_wrapper: OptimWrapper) -> Dict[str, torch.Tensor]:
         """Train step for DataFreeDistillation.
@@ -120,7 +127,7 @@ class DataFreeDistillation(BaseAlgorithm):
 
         for _ in range(self.student_iter):
             fakeimg_init = torch.randn(
-                (batch_size, self.generator.module.latent_dim))
+                (batch_size, self.latent_dim))
             fakeimg = self.generator(fakeimg_init, batch_size).detach()
 
             with optimizer.optim_context(self.student):
@@ -151,7 +158,7 @@ class DataFreeDistillation(BaseAlgorithm):
         """
         batch_size = len(data['inputs'])
         fakeimg_init = torch.randn(
-            (batch_size, self.generator.module.latent_dim))
+            (batch_size, self.latent_dim))
         fakeimg = self.generator(fakeimg_init, batch_size)
 
         with optimizer.optim_context(self.generator):
@@ -192,7 +199,7 @@ class DAFLDataFreeDistillation(DataFreeDistillation):
 
         # fakeimg initialization and revised by generator.
         fakeimg_init = torch.randn(
-            (batch_size, self.generator.module.latent_dim))
+            (batch_size, self.latent_dim))
         fakeimg = self.generator(fakeimg_init, batch_size)
         pseudo_data = self.data_preprocessor(data, True)
         pseudo_data_samples = pseudo_data['data_samples']
-- 
2.43.0


From 140774faa5a4587d535521a8230311ac74c90ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:50 +0000
Subject: [PATCH 047/126] fix: the generator's loss moved the student in
 data-free distillation

---
 .../distill/configurable/datafree_distillation.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/algorithms/distill/configurable/datafree_distillation.py b/mmrazor/models/algorithms/distill/configurable/datafree_distillation.py
index 0e33bc1..0a3ab0a 100644
--- a/mmrazor/models/algorithms/distill/configurable/datafree_distillation.py
+++ b/mmrazor/models/algorithms/distill/configurable/datafree_distillation.py
@@ -85,6 +85,17 @@ class DataFreeDistillation(BaseAlgorithm):
         generator = getattr(self.generator, 'module', self.generator)
         return generator.latent_dim
 
+    def _update_generator(self, loss: torch.Tensor,
+                          optimizer: OPTIMIZERS) -> None:
+        """Update the generator, without leaving the gradients of its loss in
+        the student."""
+        grads = [(param, param.grad) for param in self.student.parameters()]
+        for param, _ in grads:
+            param.grad = None
+        optimizer.update_params(loss)
+        for param, grad in grads:
+            param.grad = grad
+
     def train_step(self, data: Dict[str, List[dict]],
                    optim_wrapper: OptimWrapper) -> Dict[str, torch.Tensor]:
         """Train step for DataFreeDistillation.
@@ -173,7 +184,7 @@ class DataFreeDistillation(BaseAlgorithm):
             loss_generator = self.generator_distiller.compute_distill_losses()
 
         generator_loss, generator_loss_vars = self.parse_losses(loss_generator)
-        optimizer.update_params(generator_loss)
+        self._update_generator(generator_loss, optimizer)
         log_vars = dict(add_prefix(generator_loss_vars, 'generator'))
 
         return generator_loss, log_vars
@@ -230,7 +241,7 @@ class DAFLDataFreeDistillation(DataFreeDistillation):
         distill_loss, distill_log_vars = self.parse_losses(loss_distill)
         log_vars.update(add_prefix(distill_log_vars, 'distill'))
 
-        optim_wrapper['generator'].update_params(generator_loss)
+        self._update_generator(generator_loss, optim_wrapper['generator'])
         optim_wrapper['architecture'].update_params(distill_loss)
 
         return log_vars
-- 
2.43.0


From fe7d6272d9053449ef102c5f176a49905609bff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:08 +0000
Subject: [PATCH 048/126] fix: CRDLoss ignored its loss weight

---
 mmrazor/models/losses/crd_loss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/models/losses/crd_loss.py b/mmrazor/models/losses/crd_loss.py
index 4ca81aa..f99db84 100644
--- a/mmrazor/models/losses/crd_loss.py
+++ b/mmrazor/models/losses/crd_loss.py
@@ -62,7 +62,7 @@ class CRDLoss(nn.Module):
         s_loss = self.criterion_s_t(out_s)
         t_loss = self.criterion_s_t(out_t)
         loss = s_loss + t_loss
-        return loss
+        return self.loss_weight * loss
 
 
 class ContrastLoss(nn.Module):
-- 
2.43.0


From 070aec7e5c3d735b3288944c5933bdf2c6122c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:08 +0000
Subject: [PATCH 049/126] fix: DKDLoss summed whatever the reduction

---
 mmrazor/models/losses/decoupled_kd.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/losses/decoupled_kd.py b/mmrazor/models/losses/decoupled_kd.py
index 2aeff6a..4269782 100644
--- a/mmrazor/models/losses/decoupled_kd.py
+++ b/mmrazor/models/losses/decoupled_kd.py
@@ -105,8 +105,10 @@ class DKDLoss(nn.Module):
     ) -> torch.Tensor:
         """Calculate the KL Divergence."""
         kl_loss = F.kl_div(
-            preds_S, preds_T, size_average=False,
-            reduction=self.reduction) * self.tau**2
+            preds_S, preds_T, reduction=self.reduction) * self.tau**2
+        if self.reduction == 'none':
+            # The two parts differ in the number of classes.
+            kl_loss = kl_loss.sum(dim=1)
         return kl_loss
 
     def _cat_mask(
-- 
2.43.0


From 9aa05189e1f4ef45e6f30c9abb81db4196da282f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:08 +0000
Subject: [PATCH 050/126] fix: L2Loss was nan when a feature is all zero

---
 mmrazor/models/losses/l2_loss.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mmrazor/models/losses/l2_loss.py b/mmrazor/models/losses/l2_loss.py
index 5531312..163a9a7 100644
--- a/mmrazor/models/losses/l2_loss.py
+++ b/mmrazor/models/losses/l2_loss.py
@@ -1,6 +1,7 @@
 # Copyright (c) OpenMMLab. All rights reserved.
 import torch
 import torch.nn as nn
+import torch.nn.functional as F
 
 from mmrazor.registry import MODELS
 
@@ -72,4 +73,4 @@ class L2Loss(nn.Module):
                 shape (N, C, H, W) or shape (N, C).
         """
         feature = feature.view(feature.size(0), -1)
-        return feature / feature.norm(2, dim=1, keepdim=True) * self.mult
+        return F.normalize(feature, p=2, dim=1) * self.mult
-- 
2.43.0


From 91c62d8dc04a6b80da69d10bdf71d116cbd826ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:08 +0000
Subject: [PATCH 051/126] fix: PKDLoss did not resize features that differ in
 width only

---
 mmrazor/models/losses/pkd_loss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/models/losses/pkd_loss.py b/mmrazor/models/losses/pkd_loss.py
index febc05c..5254021 100644
--- a/mmrazor/models/losses/pkd_loss.py
+++ b/mmrazor/models/losses/pkd_loss.py
@@ -65,7 +65,7 @@ class PKDLoss(nn.Module):
 
         for pred_S, pred_T in zip(preds_S, preds_T):
             size_S, size_T = pred_S.shape[2:], pred_T.shape[2:]
-            if size_S[0] != size_T[0]:
+            if size_S != size_T:
                 if self.resize_stu:
                     pred_S = F.interpolate(pred_S, size_T, mode='bilinear')
                 else:
-- 
2.43.0


From 42174ce242ff10304afb35e9150e250c9a454426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:45 +0000
Subject: [PATCH 052/126] fix: the relation connectors pooled twice

---
 mmrazor/models/architectures/connectors/fbkd_connector.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mmrazor/models/architectures/connectors/fbkd_connector.py b/mmrazor/models/architectures/connectors/fbkd_connector.py
index db9007e..9ab55bb 100644
--- a/mmrazor/models/architectures/connectors/fbkd_connector.py
+++ b/mmrazor/models/architectures/connectors/fbkd_connector.py
@@ -47,9 +47,10 @@ class NonLocal2dMaxpoolNstride(NonLocal2d):
                  zeros_init: bool = True,
                  **kwargs) -> None:
         """Inits the NonLocal2dMaxpoolNstride module."""
+        # The maxpooling is added below, not by ``NonLocal2d`` (stride 2).
         super().__init__(
             in_channels=in_channels,
-            sub_sample=sub_sample,
+            sub_sample=False,
             conv_cfg=conv_cfg,
             norm_cfg=norm_cfg,
             reduction=reduction,
@@ -57,6 +58,7 @@ class NonLocal2dMaxpoolNstride(NonLocal2d):
             zeros_init=zeros_init,
             **kwargs)
         self.norm_cfg = norm_cfg
+        self.sub_sample = sub_sample
 
         if sub_sample:
             max_pool_layer = nn.MaxPool2d(
-- 
2.43.0


From 5f6b01042b48cb51677c275e1c09fa498b452939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:03 +0000
Subject: [PATCH 053/126] fix: distances of equal features had nan gradients

---
 mmrazor/models/losses/fbkd_loss.py | 10 +++++-----
 mmrazor/models/losses/l2_loss.py   |  7 +++----
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/mmrazor/models/losses/fbkd_loss.py b/mmrazor/models/losses/fbkd_loss.py
index 66115c0..efae2e4 100644
--- a/mmrazor/models/losses/fbkd_loss.py
+++ b/mmrazor/models/losses/fbkd_loss.py
@@ -26,13 +26,13 @@ def mask_l2_loss(
     Returns:
         diff (torch.Tensor): l2 loss with two attention mask.
     """
-    diff = (tensor_a - tensor_b)**2
+    diff = tensor_a - tensor_b
     if saptial_attention_mask is not None:
-        diff = diff * saptial_attention_mask
+        diff = diff * saptial_attention_mask**0.5
     if channel_attention_mask is not None:
-        diff = diff * channel_attention_mask
-    diff = torch.sum(diff)**0.5
-    return diff
+        diff = diff * channel_attention_mask**0.5
+    # Unlike a square root, the norm has a gradient where it is zero.
+    return torch.norm(diff)
 
 
 @MODELS.register_module()
diff --git a/mmrazor/models/losses/l2_loss.py b/mmrazor/models/losses/l2_loss.py
index 163a9a7..108b7fe 100644
--- a/mmrazor/models/losses/l2_loss.py
+++ b/mmrazor/models/losses/l2_loss.py
@@ -52,12 +52,11 @@ class L2Loss(nn.Module):
             s_feature = self.normalize_feature(s_feature)
             t_feature = self.normalize_feature(t_feature)
 
-        loss = torch.sum(torch.pow(torch.sub(s_feature, t_feature), 2))
-
-        # Calculate l2_loss as dist.
         if self.dist:
-            loss = torch.sqrt(loss)
+            # Unlike sqrt, it has a gradient when the features are equal.
+            loss = torch.dist(s_feature, t_feature)
         else:
+            loss = torch.sum(torch.pow(torch.sub(s_feature, t_feature), 2))
             if self.div_element:
                 loss = loss / s_feature.numel()
             else:
-- 
2.43.0


From 0acac6d480be4e14ff2c0d5cee61f421a9d2e592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:45 +0000
Subject: [PATCH 054/126] fix: each level of DARTS was updated with the other
 level's gradients

---
 mmrazor/models/algorithms/nas/darts.py | 39 +++++++++++++++++++++++---
 1 file changed, 35 insertions(+), 4 deletions(-)

diff --git a/mmrazor/models/algorithms/nas/darts.py b/mmrazor/models/algorithms/nas/darts.py
index b110f47..9914730 100644
--- a/mmrazor/models/algorithms/nas/darts.py
+++ b/mmrazor/models/algorithms/nas/darts.py
@@ -1,6 +1,7 @@
 # Copyright (c) OpenMMLab. All rights reserved.
 import copy
 import os
+from contextlib import contextmanager
 from typing import Dict, List, Optional, Union
 
 import torch
@@ -17,6 +18,31 @@ from ..base import BaseAlgorithm
 VALID_MUTATOR_TYPE = Union[NasMutator, Dict]
 
 
+@contextmanager
+def _only_grads_of(optim_wrapper: OptimWrapperDict, name: str):
+    """Leave the gradients of the other optimizers' parameters alone.
+
+    The loss of one level (architecture or mutator) also reaches the parameters
+    of the other level, whose optimizer must not see these gradients.
+    """
+    own = {
+        param
+        for group in optim_wrapper[name].param_groups
+        for param in group['params']
+    }
+    others = [
+        param for wrapper in optim_wrapper.values()
+        for group in wrapper.param_groups for param in group['params']
+        if param not in own
+    ]
+    grads = [param.grad for param in others]
+    for param in others:
+        param.grad = None
+    yield
+    for param, grad in zip(others, grads):
+        param.grad = grad
+
+
 @MODELS.register_module()
 class Darts(BaseAlgorithm):
     """Implementation of `DARTS <https://arxiv.org/abs/1806.09055>`_
@@ -133,7 +159,8 @@ class Darts(BaseAlgorithm):
                         mode='loss')
                 mutator_losses, mutator_log_vars = self.parse_losses(
                     mutator_loss)
-                optim_wrapper['mutator'].update_params(mutator_losses)
+                with _only_grads_of(optim_wrapper, 'mutator'):
+                    optim_wrapper['mutator'].update_params(mutator_losses)
                 log_vars.update(add_prefix(mutator_log_vars, 'mutator'))
 
             # Update the parameter of supernet
@@ -145,7 +172,8 @@ class Darts(BaseAlgorithm):
                     supernet_batch_inputs, supernet_data_samples, mode='loss')
             supernet_losses, supernet_log_vars = self.parse_losses(
                 supernet_loss)
-            optim_wrapper['architecture'].update_params(supernet_losses)
+            with _only_grads_of(optim_wrapper, 'architecture'):
+                optim_wrapper['architecture'].update_params(supernet_losses)
             log_vars.update(add_prefix(supernet_log_vars, 'supernet'))
 
         else:
@@ -374,7 +402,8 @@ class DartsDDP(MMDistributedDataParallel):
 
                     mutator_losses, mutator_log_vars = self.module.parse_losses(  # noqa: E501
                         mutator_loss)
-                    optim_wrapper['mutator'].update_params(mutator_losses)
+                    with _only_grads_of(optim_wrapper, 'mutator'):
+                        optim_wrapper['mutator'].update_params(mutator_losses)
                     log_vars.update(add_prefix(mutator_log_vars, 'mutator'))
 
             # Update the parameter of supernet
@@ -389,7 +418,9 @@ class DartsDDP(MMDistributedDataParallel):
                 supernet_losses, supernet_log_vars = self.module.parse_losses(
                     supernet_loss)
 
-                optim_wrapper['architecture'].update_params(supernet_losses)
+                with _only_grads_of(optim_wrapper, 'architecture'):
+                    optim_wrapper['architecture'].update_params(
+                        supernet_losses)
                 log_vars.update(add_prefix(supernet_log_vars, 'supernet'))
 
         else:
-- 
2.43.0


From d605a623a2e755f42dcf23188fd31ce6302af171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:02 +0000
Subject: [PATCH 055/126] fix: unrolled DARTS ignored the virtual step and got
 no second order gradient

---
 mmrazor/models/algorithms/nas/darts.py | 73 ++++++++++++++++----------
 1 file changed, 46 insertions(+), 27 deletions(-)

diff --git a/mmrazor/models/algorithms/nas/darts.py b/mmrazor/models/algorithms/nas/darts.py
index 9914730..e5a6272 100644
--- a/mmrazor/models/algorithms/nas/darts.py
+++ b/mmrazor/models/algorithms/nas/darts.py
@@ -2,7 +2,7 @@
 import copy
 import os
 from contextlib import contextmanager
-from typing import Dict, List, Optional, Union
+from typing import Dict, List, Optional, Tuple, Union
 
 import torch
 from mmengine.model import BaseModel, MMDistributedDataParallel
@@ -43,6 +43,25 @@ def _only_grads_of(optim_wrapper: OptimWrapperDict, name: str):
         param.grad = grad
 
 
+def _get_grads(algorithm: BaseAlgorithm, optim_wrapper: OptimWrapper,
+               loss: torch.Tensor) -> Tuple[List[torch.Tensor], ...]:
+    """Get the gradients of a loss for the weights and the arch params.
+
+    It is no part of the accumulation of ``optim_wrapper``, and leaves no
+    gradients behind.
+    """
+    inner_count = optim_wrapper._inner_count
+    algorithm.zero_grad()
+    optim_wrapper.backward(loss)
+    optim_wrapper._inner_count = inner_count
+    grads = tuple([
+        torch.zeros_like(param) if param.grad is None else param.grad.clone()
+        for param in module.parameters()
+    ] for module in (algorithm.architecture, algorithm.mutator))
+    algorithm.zero_grad()
+    return grads
+
+
 @MODELS.register_module()
 class Darts(BaseAlgorithm):
     """Implementation of `DARTS <https://arxiv.org/abs/1806.09055>`_
@@ -142,11 +161,13 @@ class Darts(BaseAlgorithm):
 
             # Update the parameter of mutator
             if self.unroll:
-                with optim_wrapper['mutator'].optim_context(self):
+                with optim_wrapper['mutator'].optim_context(self), \
+                        _only_grads_of(optim_wrapper, 'mutator'):
                     optim_wrapper['mutator'].zero_grad()
                     mutator_log_vars = self._unrolled_backward(
                         mutator_data, supernet_data, optim_wrapper)
-                optim_wrapper['mutator'].step()
+                    optim_wrapper['mutator'].step()
+                    optim_wrapper['mutator'].zero_grad()
                 log_vars.update(add_prefix(mutator_log_vars, 'mutator'))
             else:
                 with optim_wrapper['mutator'].optim_context(self):
@@ -212,9 +233,8 @@ class Darts(BaseAlgorithm):
         # the gradients of mutator loss. The gradients of model and arch
         # can directly obtained. For more information, please refer to
         # https://github.com/open-mmlab/mmengine/blob/main/mmengine/optim/optimizer/optimizer_wrapper.py
-        optim_wrapper['mutator'].backward(mutator_losses)
-        d_model = [param.grad for param in self.architecture.parameters()]
-        d_arch = [param.grad for param in self.mutator.parameters()]
+        d_model, d_arch = _get_grads(self, optim_wrapper['mutator'],
+                                     mutator_losses)
 
         # compute hessian and final gradients
         hessian = self._compute_hessian(backup_params, d_model, supernet_data,
@@ -242,13 +262,15 @@ class Darts(BaseAlgorithm):
             supernet_batch_inputs, supernet_data_samples, mode='loss')
         supernet_loss, _ = self.parse_losses(supernet_loss)
 
-        optim_wrapper.backward(supernet_loss)
-        gradients = [param.grad for param in self.architecture.parameters()]
+        gradients, _ = _get_grads(self, optim_wrapper, supernet_loss)
 
         with torch.no_grad():
             for w, g in zip(self.architecture.parameters(), gradients):
-                m = optim_wrapper.optimizer.state[w].get('momentum_buffer', 0.)
-                w = w - lr * (momentum * m + g + weight_decay * w)
+                if not w.requires_grad:
+                    continue
+                m = optim_wrapper.optimizer.state[w].get('momentum_buffer')
+                m = 0. if m is None else m
+                w -= lr * (momentum * m + g + weight_decay * w)
 
     def _restore_weights(self, backup_params):
         """restore weight from backup params."""
@@ -289,8 +311,7 @@ class Darts(BaseAlgorithm):
                 supernet_batch_inputs, supernet_data_samples, mode='loss')
             supernet_loss, _ = self.parse_losses(supernet_loss)
 
-            optim_wrapper.backward(supernet_loss)
-            dalpha = [param.grad for param in self.mutator.parameters()]
+            _, dalpha = _get_grads(self, optim_wrapper, supernet_loss)
             dalphas.append(dalpha)
 
         # dalpha { L_trn(w+) }, # dalpha { L_trn(w-) }
@@ -383,11 +404,13 @@ class DartsDDP(MMDistributedDataParallel):
 
             # Update the parameter of mutator
             if self.module.unroll:
-                with optim_wrapper['mutator'].optim_context(self):
+                with optim_wrapper['mutator'].optim_context(self), \
+                        _only_grads_of(optim_wrapper, 'mutator'):
                     optim_wrapper['mutator'].zero_grad()
                     mutator_log_vars = self._unrolled_backward(
                         mutator_data, supernet_data, optim_wrapper)
-                optim_wrapper['mutator'].step()
+                    optim_wrapper['mutator'].step()
+                    optim_wrapper['mutator'].zero_grad()
                 log_vars.update(add_prefix(mutator_log_vars, 'mutator'))
             else:
                 with optim_wrapper['mutator'].optim_context(self):
@@ -462,11 +485,8 @@ class DartsDDP(MMDistributedDataParallel):
         # the gradients of mutator loss. The gradients of model and arch
         # can directly obtained. For more information, please refer to
         # https://github.com/open-mmlab/mmengine/blob/main/mmengine/optim/optimizer/optimizer_wrapper.py
-        optim_wrapper['mutator'].backward(mutator_losses)
-        d_model = [
-            param.grad for param in self.module.architecture.parameters()
-        ]
-        d_arch = [param.grad for param in self.module.mutator.parameters()]
+        d_model, d_arch = _get_grads(self.module, optim_wrapper['mutator'],
+                                     mutator_losses)
 
         # compute hessian and final gradients
         hessian = self._compute_hessian(backup_params, d_model, supernet_data,
@@ -494,15 +514,15 @@ class DartsDDP(MMDistributedDataParallel):
             supernet_batch_inputs, supernet_data_samples, mode='loss')
         supernet_loss, _ = self.module.parse_losses(supernet_loss)
 
-        optim_wrapper.backward(supernet_loss)
-        gradients = [
-            param.grad for param in self.module.architecture.parameters()
-        ]
+        gradients, _ = _get_grads(self.module, optim_wrapper, supernet_loss)
 
         with torch.no_grad():
             for w, g in zip(self.module.architecture.parameters(), gradients):
-                m = optim_wrapper.optimizer.state[w].get('momentum_buffer', 0.)
-                w = w - lr * (momentum * m + g + weight_decay * w)
+                if not w.requires_grad:
+                    continue
+                m = optim_wrapper.optimizer.state[w].get('momentum_buffer')
+                m = 0. if m is None else m
+                w -= lr * (momentum * m + g + weight_decay * w)
 
     def _restore_weights(self, backup_params):
         """restore weight from backup params."""
@@ -543,8 +563,7 @@ class DartsDDP(MMDistributedDataParallel):
                 supernet_batch_inputs, supernet_data_samples, mode='loss')
             supernet_loss, _ = self.module.parse_losses(supernet_loss)
 
-            optim_wrapper.backward(supernet_loss)
-            dalpha = [param.grad for param in self.module.mutator.parameters()]
+            _, dalpha = _get_grads(self.module, optim_wrapper, supernet_loss)
             dalphas.append(dalpha)
 
         # dalpha { L_trn(w+) }, # dalpha { L_trn(w-) }
-- 
2.43.0


From 99996580b37d4fa027b899186ef4c53b5a8d94db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:08 +0000
Subject: [PATCH 056/126] fix: DSNAS handled the gradients of its arch params
 after their update

---
 mmrazor/models/algorithms/nas/dsnas.py | 34 +++++++++++++++-----------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/mmrazor/models/algorithms/nas/dsnas.py b/mmrazor/models/algorithms/nas/dsnas.py
index e5937ba..373546a 100644
--- a/mmrazor/models/algorithms/nas/dsnas.py
+++ b/mmrazor/models/algorithms/nas/dsnas.py
@@ -161,8 +161,6 @@ class DSNAS(BaseAlgorithm):
                     self.parse_losses(mutator_loss)
                 optim_wrapper['mutator'].update_params(mutator_losses)
                 log_vars.update(add_prefix(mutator_log_vars, 'mutator'))
-                # handle the grad of arch params & weights
-                self.handle_grads()
 
         else:
             # Enable automatic mixed precision training context.
@@ -219,7 +217,9 @@ class DSNAS(BaseAlgorithm):
             if isinstance(module, BaseMutable):
                 k = module.mutable_prefix + '_' + \
                     str(self.search_space_name_list.index(name))
-                probs = F.softmax(self.mutator.arch_params[k], -1)
+                arch_param = self.handle_grads(self.mutator.arch_params[k],
+                                               module)
+                probs = F.softmax(arch_param, -1)
                 arch_loss += torch.log(
                     (module.arch_weights * probs).sum(-1)).sum()
 
@@ -244,15 +244,23 @@ class DSNAS(BaseAlgorithm):
 
         return mutator_loss
 
-    def handle_grads(self):
-        """Handle grads of arch params & arch weights."""
-        for name, module in self.architecture.named_modules():
-            if isinstance(module, BaseMutable):
-                k = module.mutable_prefix + '_' + \
-                    str(self.search_space_name_list.index(name))
-                self.mutator.arch_params[k].grad.data.mul_(
-                    module.arch_weights.grad.data.sum())
-                module.arch_weights.grad.zero_()
+    def handle_grads(self, arch_param: torch.Tensor,
+                     module: BaseMutable) -> torch.Tensor:
+        """Let the grads of arch params be multiplied by the grads of the arch
+        weights sampled in the last forward.
+
+        Args:
+            arch_param (torch.Tensor): The arch param of ``module``.
+            module (BaseMutable): The module the arch weights are sampled for.
+
+        Returns:
+            torch.Tensor: The arch param to compute the mutator loss with.
+        """
+        arch_param = arch_param.clone()
+        if arch_param.requires_grad and module.arch_weights.grad is not None:
+            credit = module.arch_weights.grad.sum()
+            arch_param.register_hook(lambda grad: grad * credit)
+        return arch_param
 
 
 @MODEL_WRAPPERS.register_module()
@@ -316,8 +324,6 @@ class DSNASDDP(MMDistributedDataParallel):
                     self.module.parse_losses(mutator_loss)
                 optim_wrapper['mutator'].update_params(mutator_losses)
                 log_vars.update(add_prefix(mutator_log_vars, 'mutator'))
-                # handle the grad of arch params & weights
-                self.module.handle_grads()
 
         else:
             # Enable automatic mixed precision training context.
-- 
2.43.0


From 6b343325e78956bda1c79b5bb101f6a709dafa52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:08 +0000
Subject: [PATCH 057/126] fix: DSNAS could not start finetuning on one device
 or resume it

---
 mmrazor/models/algorithms/nas/dsnas.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/mmrazor/models/algorithms/nas/dsnas.py b/mmrazor/models/algorithms/nas/dsnas.py
index 373546a..7a1240d 100644
--- a/mmrazor/models/algorithms/nas/dsnas.py
+++ b/mmrazor/models/algorithms/nas/dsnas.py
@@ -4,9 +4,8 @@ import os
 from typing import Any, Dict, List, Optional, Union
 
 import torch
-import torch.distributed as dist
 import torch.nn.functional as F
-from mmengine.dist import get_dist_info
+from mmengine.dist import broadcast, get_dist_info
 from mmengine.logging import MessageHub
 from mmengine.model import BaseModel, MMDistributedDataParallel
 from mmengine.optim import OptimWrapper, OptimWrapperDict
@@ -130,10 +129,10 @@ class DSNAS(BaseAlgorithm):
             cur_epoch = self.message_hub.get_info('epoch')
             need_update_mutator = self.need_update_mutator(cur_epoch)
 
-            if cur_epoch == self.finetune_epochs and self.is_supernet:
+            if cur_epoch >= self.finetune_epochs and self.is_supernet:
                 # synchronize arch params to start the finetune stage.
                 for k, v in self.mutator.arch_params.items():
-                    dist.broadcast(v, src=0)
+                    broadcast(v.data, src=0)
                 self._fix_archtecture()
                 self.is_supernet = False
 
@@ -292,11 +291,11 @@ class DSNASDDP(MMDistributedDataParallel):
             need_update_mutator = self.module.need_update_mutator(cur_epoch)
 
             # TODO process the input
-            if cur_epoch == self.module.finetune_epochs and \
+            if cur_epoch >= self.module.finetune_epochs and \
                self.module.is_supernet:
                 # synchronize arch params to start the finetune stage.
                 for k, v in self.module.mutator.arch_params.items():
-                    dist.broadcast(v, src=0)
+                    broadcast(v.data, src=0)
                 self.module._fix_archtecture()
                 self.module.is_supernet = False
 
-- 
2.43.0


From 76c6919dad237878be93c1f6908f30062f16c3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:08 +0000
Subject: [PATCH 058/126] fix: DSNAS looked up the arch params of grouped
 modules by a wrong name

---
 mmrazor/models/algorithms/nas/dsnas.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/mmrazor/models/algorithms/nas/dsnas.py b/mmrazor/models/algorithms/nas/dsnas.py
index 7a1240d..e580913 100644
--- a/mmrazor/models/algorithms/nas/dsnas.py
+++ b/mmrazor/models/algorithms/nas/dsnas.py
@@ -212,12 +212,15 @@ class DSNAS(BaseAlgorithm):
         """
         arch_loss = 0.0
         flops_loss = 0.0
+        group_names = {
+            module: group_name
+            for group_name, group in self.mutator.search_groups.items()
+            for module in group
+        }
         for name, module in self.architecture.named_modules():
             if isinstance(module, BaseMutable):
-                k = module.mutable_prefix + '_' + \
-                    str(self.search_space_name_list.index(name))
-                arch_param = self.handle_grads(self.mutator.arch_params[k],
-                                               module)
+                arch_param = self.handle_grads(
+                    self.mutator.arch_params[group_names[module]], module)
                 probs = F.softmax(arch_param, -1)
                 arch_loss += torch.log(
                     (module.arch_weights * probs).sum(-1)).sum()
-- 
2.43.0


From 88bb0c19abff8d6c0f44f5d7199007f0456ed327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:51 +0000
Subject: [PATCH 059/126] fix: DSNAS crashed once a module was fixed during
 search

---
 mmrazor/models/algorithms/nas/dsnas.py                | 11 ++++++-----
 .../mutables/mutable_module/diff_mutable_module.py    |  3 +++
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/mmrazor/models/algorithms/nas/dsnas.py b/mmrazor/models/algorithms/nas/dsnas.py
index e580913..ea911f0 100644
--- a/mmrazor/models/algorithms/nas/dsnas.py
+++ b/mmrazor/models/algorithms/nas/dsnas.py
@@ -210,25 +210,26 @@ class DSNAS(BaseAlgorithm):
         Returns:
             Dict: Loss of the mutator.
         """
-        arch_loss = 0.0
-        flops_loss = 0.0
+        # modules may be fixed during search, and have nothing to learn then
+        arch_loss = flops_loss = 0.0 * sum(
+            param.sum() for param in self.mutator.arch_params.values())
         group_names = {
             module: group_name
             for group_name, group in self.mutator.search_groups.items()
             for module in group
         }
         for name, module in self.architecture.named_modules():
-            if isinstance(module, BaseMutable):
+            if isinstance(module, BaseMutable) and not module.is_fixed:
                 arch_param = self.handle_grads(
                     self.mutator.arch_params[group_names[module]], module)
                 probs = F.softmax(arch_param, -1)
-                arch_loss += torch.log(
+                arch_loss = arch_loss + torch.log(
                     (module.arch_weights * probs).sum(-1)).sum()
 
                 # get the index of op with max arch weights.
                 index = (module.arch_weights == 1).nonzero().item()
                 _module_key = name + '._candidates.' + module.choices[index]
-                flops_loss += probs[index] * \
+                flops_loss = flops_loss + probs[index] * \
                     self.mutable_module_resources[_module_key]['flops']
 
         mutator_loss = dict(arch_loss=arch_loss / self.world_size)
diff --git a/mmrazor/models/mutables/mutable_module/diff_mutable_module.py b/mmrazor/models/mutables/mutable_module/diff_mutable_module.py
index df2e57b..bb2cd22 100644
--- a/mmrazor/models/mutables/mutable_module/diff_mutable_module.py
+++ b/mmrazor/models/mutables/mutable_module/diff_mutable_module.py
@@ -233,6 +233,9 @@ class DiffMutableOP(DiffMutableModule):
 
     def sample_choice(self, arch_param: Tensor) -> str:
         """Sample choice based on arch_parameters."""
+        if self.is_fixed and len(self.choices) == 1:
+            # `arch_param` still is that of all the candidates
+            return self.choices[0]
         return self.choices[torch.argmax(arch_param).item()]
 
     def dump_chosen(self) -> DumpChosen:
-- 
2.43.0


From 8300a5fc6a8cc04a950713ef14947de40735070c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:07 +0000
Subject: [PATCH 060/126] fix: DSNAS took the resources of candidates that were
 not sampled for zero

---
 mmrazor/models/algorithms/nas/dsnas.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mmrazor/models/algorithms/nas/dsnas.py b/mmrazor/models/algorithms/nas/dsnas.py
index ea911f0..18ed4b9 100644
--- a/mmrazor/models/algorithms/nas/dsnas.py
+++ b/mmrazor/models/algorithms/nas/dsnas.py
@@ -76,9 +76,11 @@ class DSNAS(BaseAlgorithm):
         # Before using it, you must do some preparation according to
         # the supernet.
         self.mutator.prepare_from_supernet(self.architecture)
-        self.mutator.prepare_arch_params()
 
+        # with arch params only the sampled candidates would be run
         self.mutable_module_resources = self._get_module_resources()
+        self.mutator.prepare_arch_params()
+
         self.search_space_name_list = list(self.mutator._name2mutable.keys())
 
         self.is_supernet = True
-- 
2.43.0


From edf93e6b54fd82c7bab21993049ec3ee02c62d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:22 +0000
Subject: [PATCH 061/126] fix: fused convolutions mangled kernels that are not
 square

---
 .../dynamic_ops/mixins/dynamic_conv_mixins.py      | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_conv_mixins.py b/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_conv_mixins.py
index 84459b7..f223dd2 100644
--- a/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_conv_mixins.py
+++ b/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_conv_mixins.py
@@ -474,16 +474,14 @@ class FuseConvMixin(DynamicConvMixin):
 
         weight = self.weight[:, 0:mutable_in_channels, :, :]
         if self.groups == 1:
-            cout, cin, k, _ = weight.shape
-            fused_weight = torch.mm(choice,
-                                    weight.reshape(cout,
-                                                   -1)).reshape(-1, cin, k, k)
+            cout, cin, kh, kw = weight.shape
+            fused_weight = torch.mm(choice, weight.reshape(cout, -1)).reshape(
+                -1, cin, kh, kw)
         elif self.groups == self.in_channels == self.out_channels:
             # depth-wise conv
-            cout, cin, k, _ = weight.shape
-            fused_weight = torch.mm(choice,
-                                    weight.reshape(cout,
-                                                   -1)).reshape(-1, cin, k, k)
+            cout, cin, kh, kw = weight.shape
+            fused_weight = torch.mm(choice, weight.reshape(cout, -1)).reshape(
+                -1, cin, kh, kw)
         else:
             raise NotImplementedError(
                 'Current `ChannelMutator` only support pruning the depth-wise '
-- 
2.43.0


From bc283cc34a20210cccbb384e3fc24d45175d52bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:22 +0000
Subject: [PATCH 062/126] fix: fused convolutions paired filters with other
 input channels

---
 .../architectures/dynamic_ops/mixins/dynamic_conv_mixins.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_conv_mixins.py b/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_conv_mixins.py
index f223dd2..4bae985 100644
--- a/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_conv_mixins.py
+++ b/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_conv_mixins.py
@@ -472,8 +472,12 @@ class FuseConvMixin(DynamicConvMixin):
                 mutable_out_channels == self.out_channels:
             return weight, bias
 
-        weight = self.weight[:, 0:mutable_in_channels, :, :]
+        weight = self.weight
         if self.groups == 1:
+            if 'in_channels' in self.mutable_attrs:
+                # the kept channels need not be the first ones
+                in_mask = self.mutable_attrs['in_channels'].current_mask
+                weight = weight[:, in_mask.to(weight.device)]
             cout, cin, kh, kw = weight.shape
             fused_weight = torch.mm(choice, weight.reshape(cout, -1)).reshape(
                 -1, cin, kh, kw)
-- 
2.43.0


From 5a7f74c80b2f1007a222c7299010154e8cf93345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:22 +0000
Subject: [PATCH 063/126] fix: the importance of DCFF filters was no KL
 divergence

---
 .../dynamic_ops/mixins/dynamic_conv_mixins.py             | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_conv_mixins.py b/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_conv_mixins.py
index 4bae985..4754d29 100644
--- a/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_conv_mixins.py
+++ b/mmrazor/models/architectures/dynamic_ops/mixins/dynamic_conv_mixins.py
@@ -552,16 +552,16 @@ class FuseConvMixin(DynamicConvMixin):
         softmax = nn.Softmax(dim=1)
         layeri_softmaxp = softmax(layeri_negaEudist / tau)
 
-        # KL = [c, 1, c] * ([c, 1 ,c] / [c, c, 1]).log()
-        #    = [c, 1, c] * ([c, 1, c].log() - [c, c, 1].log())
+        # KL = [c, 1, c] * ([c, 1 ,c] / [1, c, c]).log()
+        #    = [c, 1, c] * ([c, 1, c].log() - [1, c, c].log())
         # only dim0 is required, dim1 and dim2 are pooled
-        # calc mean(dim=1) first
+        # calc mean over dim1 first, which is dim0 of softmaxp
 
         # avoid frequent NaN
         eps = 1e-7
         layeri_kl = layeri_softmaxp[:, None, :]
         log_p = layeri_kl * (layeri_kl + eps).log()
-        log_q = layeri_kl * torch.mean((layeri_softmaxp + eps).log(), dim=1)
+        log_q = layeri_kl * torch.mean((layeri_softmaxp + eps).log(), dim=0)
 
         layeri_kl = torch.mean((log_p - log_q), dim=2)
         del log_p, log_q
-- 
2.43.0


From 4178a2f92a4aa402b99cb677b0b75a5eae3065a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:22 +0000
Subject: [PATCH 064/126] fix: DCFF rejected the upper end of its legal
 settings

---
 mmrazor/models/algorithms/pruning/dcff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/models/algorithms/pruning/dcff.py b/mmrazor/models/algorithms/pruning/dcff.py
index e89da50..7b0d6fe 100644
--- a/mmrazor/models/algorithms/pruning/dcff.py
+++ b/mmrazor/models/algorithms/pruning/dcff.py
@@ -82,7 +82,7 @@ class DCFF(ItePruneAlgorithm):
         Args:
             freq_time (Int): step_freq or prune_times.
         """
-        return (freq_time > 0) and (freq_time < self._max_iters)
+        return (freq_time > 0) and (freq_time <= self._max_iters)
 
     def _init_prune_config_manager(self):
         """init prune_config_manager and check step_freq & prune_times.
-- 
2.43.0


From 4eedcaa12e3f0274e0386a6fb909d5f55c0bd22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:30 +0000
Subject: [PATCH 065/126] fix: compact DCFF configs ignored every exported
 weight

---
 configs/pruning/mmcls/dcff/dcff_compact_resnet_8xb32_in1k.py   | 3 ++-
 .../mmdet/dcff/dcff_compact_faster_rcnn_resnet50_8xb4_coco.py  | 3 ++-
 .../mmpose/dcff/dcff_compact_topdown_heatmap_resnet50_coco.py  | 3 ++-
 .../dcff/dcff_compact_pointrend_resnet50_8xb2_cityscapes.py    | 3 ++-
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/configs/pruning/mmcls/dcff/dcff_compact_resnet_8xb32_in1k.py b/configs/pruning/mmcls/dcff/dcff_compact_resnet_8xb32_in1k.py
index 4a98b25..22ee776 100644
--- a/configs/pruning/mmcls/dcff/dcff_compact_resnet_8xb32_in1k.py
+++ b/configs/pruning/mmcls/dcff/dcff_compact_resnet_8xb32_in1k.py
@@ -10,4 +10,5 @@ _base_.model = dict(
     mode='mutator',
     init_cfg=dict(
         type='Pretrained',
-        checkpoint='configs/pruning/mmcls/dcff/fix_subnet_weight.pth'))
+        checkpoint='configs/pruning/mmcls/dcff/fix_subnet_weight.pth',
+        prefix='architecture.'))
diff --git a/configs/pruning/mmdet/dcff/dcff_compact_faster_rcnn_resnet50_8xb4_coco.py b/configs/pruning/mmdet/dcff/dcff_compact_faster_rcnn_resnet50_8xb4_coco.py
index 5a2db5c..836fee6 100644
--- a/configs/pruning/mmdet/dcff/dcff_compact_faster_rcnn_resnet50_8xb4_coco.py
+++ b/configs/pruning/mmdet/dcff/dcff_compact_faster_rcnn_resnet50_8xb4_coco.py
@@ -9,4 +9,5 @@ _base_.model = dict(
     mode='mutator',
     init_cfg=dict(
         type='Pretrained',
-        checkpoint='configs/pruning/mmdet/dcff/fix_subnet_weight.pth'))
+        checkpoint='configs/pruning/mmdet/dcff/fix_subnet_weight.pth',
+        prefix='architecture.'))
diff --git a/configs/pruning/mmpose/dcff/dcff_compact_topdown_heatmap_resnet50_coco.py b/configs/pruning/mmpose/dcff/dcff_compact_topdown_heatmap_resnet50_coco.py
index ba50323..02b8e24 100644
--- a/configs/pruning/mmpose/dcff/dcff_compact_topdown_heatmap_resnet50_coco.py
+++ b/configs/pruning/mmpose/dcff/dcff_compact_topdown_heatmap_resnet50_coco.py
@@ -9,4 +9,5 @@ _base_.model = dict(
     mode='mutator',
     init_cfg=dict(
         type='Pretrained',
-        checkpoint='configs/pruning/mmpose/dcff/fix_subnet_weight.pth'))
+        checkpoint='configs/pruning/mmpose/dcff/fix_subnet_weight.pth',
+        prefix='architecture.'))
diff --git a/configs/pruning/mmseg/dcff/dcff_compact_pointrend_resnet50_8xb2_cityscapes.py b/configs/pruning/mmseg/dcff/dcff_compact_pointrend_resnet50_8xb2_cityscapes.py
index e6c1eb0..64bcc00 100644
--- a/configs/pruning/mmseg/dcff/dcff_compact_pointrend_resnet50_8xb2_cityscapes.py
+++ b/configs/pruning/mmseg/dcff/dcff_compact_pointrend_resnet50_8xb2_cityscapes.py
@@ -9,4 +9,5 @@ _base_.model = dict(
     mode='mutator',
     init_cfg=dict(
         type='Pretrained',
-        checkpoint='configs/pruning/mmseg/dcff/fix_subnet_weight.pth'))
+        checkpoint='configs/pruning/mmseg/dcff/fix_subnet_weight.pth',
+        prefix='architecture.'))
-- 
2.43.0


From 6c49708953a71c87642fd4b44e95b4b998eceeb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:30 +0000
Subject: [PATCH 066/126] fix: resumed iterative pruning left its linear
 schedule

---
 mmrazor/models/algorithms/pruning/dcff.py       |  3 ++-
 .../algorithms/pruning/ite_prune_algorithm.py   | 17 ++++++++++++++---
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/mmrazor/models/algorithms/pruning/dcff.py b/mmrazor/models/algorithms/pruning/dcff.py
index 7b0d6fe..2321396 100644
--- a/mmrazor/models/algorithms/pruning/dcff.py
+++ b/mmrazor/models/algorithms/pruning/dcff.py
@@ -116,7 +116,8 @@ class DCFF(ItePruneAlgorithm):
             self.mutator.current_choices,
             self.step_freq,
             prune_times=self.prune_times,
-            linear_schedule=self.linear_schedule)
+            linear_schedule=self.linear_schedule,
+            start_times=self._get_start_times())
 
         return prune_config_manager
 
diff --git a/mmrazor/models/algorithms/pruning/ite_prune_algorithm.py b/mmrazor/models/algorithms/pruning/ite_prune_algorithm.py
index 937aaa1..4e15912 100644
--- a/mmrazor/models/algorithms/pruning/ite_prune_algorithm.py
+++ b/mmrazor/models/algorithms/pruning/ite_prune_algorithm.py
@@ -1,4 +1,5 @@
 # Copyright (c) OpenMMLab. All rights reserved.
+import math
 from typing import Dict, List, Optional, Tuple, Union
 
 import torch
@@ -31,6 +32,8 @@ class ItePruneConfigManager:
         prune_times (int, optional): The times to prune. Defaults to 1.
         linear_schedule (bool, optional): flag to set linear ratio schedule.
             Defaults to True.
+        start_times (int, optional): The times the supernet has already been
+            pruned, when the training is resumed. Defaults to 0.
     """
 
     def __init__(self,
@@ -38,13 +41,15 @@ class ItePruneConfigManager:
                  supernet: Dict[str, Union[int, float]],
                  step_freq=1,
                  prune_times=1,
-                 linear_schedule=True) -> None:
+                 linear_schedule=True,
+                 start_times=0) -> None:
 
         self.supernet = supernet
         self.target = target
         self.step_freq = step_freq
         self.prune_times = prune_times
         self.linear_schedule = linear_schedule
+        self.start_times = start_times
 
         self.delta: Dict = self._get_delta_each_iter(self.target,
                                                      self.supernet,
@@ -60,7 +65,8 @@ class ItePruneConfigManager:
         times = iteration // self.step_freq + 1
         assert times <= self.prune_times
         prune_current = {}
-        ratio = times / self.prune_times
+        ratio = (times - self.start_times) / (
+            self.prune_times - self.start_times)
 
         for key in self.target:
             if self.linear_schedule:
@@ -182,10 +188,15 @@ class ItePruneAlgorithm(BaseAlgorithm):
             self.mutator.current_choices,
             self.step_freq,
             prune_times=self.prune_times,
-            linear_schedule=self.linear_schedule)
+            linear_schedule=self.linear_schedule,
+            start_times=self._get_start_times())
 
         return prune_config_manager
 
+    def _get_start_times(self):
+        """Get the times the model was pruned before a resumption."""
+        return min(math.ceil(self._iter / self.step_freq), self.prune_times)
+
     def forward(self,
                 inputs: torch.Tensor,
                 data_samples: Optional[List[BaseDataElement]] = None,
-- 
2.43.0


From f872d76e87c1e1ef514c6cd848325ae8e4506ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:30 +0000
Subject: [PATCH 067/126] fix: DCFF trained unfused channels after a resumption

---
 mmrazor/models/algorithms/pruning/dcff.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/mmrazor/models/algorithms/pruning/dcff.py b/mmrazor/models/algorithms/pruning/dcff.py
index 2321396..1fafc6c 100644
--- a/mmrazor/models/algorithms/pruning/dcff.py
+++ b/mmrazor/models/algorithms/pruning/dcff.py
@@ -121,6 +121,17 @@ class DCFF(ItePruneAlgorithm):
 
         return prune_config_manager
 
+    def _restore_fusion(self):
+        """Fuse the channels of a resumed model again.
+
+        The fusion is not a part of the checkpoint.
+        """
+        start_times = self.prune_config_manager.start_times
+        if start_times > 0:
+            temperature = self._calc_temperature(
+                (start_times - 1) * self.step_freq, self._max_iters)
+            self.mutator.calc_information(temperature)
+
     def forward(self,
                 inputs: torch.Tensor,
                 data_samples: Optional[List[BaseDataElement]] = None,
@@ -134,6 +145,7 @@ class DCFF(ItePruneAlgorithm):
             if not hasattr(self, 'prune_config_manager'):
                 # iter num per epoch only available after initiation
                 self.prune_config_manager = self._init_prune_config_manager()
+                self._restore_fusion()
             if self.prune_config_manager.is_prune_time(self._iter):
                 config = self.prune_config_manager.prune_at(self._iter)
                 self.mutator.set_choices(config)
-- 
2.43.0


From c9d85dcf2e26bbe7ca2f6a9def1c467496a2c122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:56 +0000
Subject: [PATCH 068/126] fix: GroupFisher took the gradient of a bias for that
 of the input

---
 .../pruning/group_fisher/ops.py               | 29 ++++++++++++-------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/mmrazor/implementations/pruning/group_fisher/ops.py b/mmrazor/implementations/pruning/group_fisher/ops.py
index 35dbbd7..a23a60b 100644
--- a/mmrazor/implementations/pruning/group_fisher/ops.py
+++ b/mmrazor/implementations/pruning/group_fisher/ops.py
@@ -18,6 +18,23 @@ class GroupFisherMixin:
         self.recorded_grad: List = []
         self.recorded_out_shape: List = []
 
+    def forward_pre_hook_wrapper(self):
+        """Wrap the hook used before forward."""
+
+        def forward_pre_hook(module: GroupFisherMixin, input):
+            # a view, as the input may be used by other modules as well, whose
+            # gradients do not belong to this module.
+            x = input[0].view_as(input[0])
+            grads = module.recorded_grad
+            index = len(grads)
+            # stays zero if the loss does not depend on the output
+            grads.append(x.new_zeros([]).expand_as(x))
+            if x.requires_grad:
+                x.register_hook(lambda grad: grads.__setitem__(index, grad))
+            return (x, *input[1:])
+
+        return forward_pre_hook
+
     def forward_hook_wrapper(self):
         """Wrap the hook used in forward."""
 
@@ -27,21 +44,13 @@ class GroupFisherMixin:
 
         return forward_hook
 
-    def backward_hook_wrapper(self):
-        """Wrap the hook used in backward."""
-
-        def backward_hook(module: GroupFisherMixin, grad_in, grad_out):
-            module.recorded_grad.insert(0, grad_in[0])
-
-        return backward_hook
-
     def start_record(self: torch.nn.Module) -> None:
         """Start recording information during forward and backward."""
         self.end_record()  # ensure to run start_record only once
         self.handlers.append(
-            self.register_forward_hook(self.forward_hook_wrapper()))
+            self.register_forward_pre_hook(self.forward_pre_hook_wrapper()))
         self.handlers.append(
-            self.register_backward_hook(self.backward_hook_wrapper()))
+            self.register_forward_hook(self.forward_hook_wrapper()))
 
     def end_record(self):
         """Stop recording information during forward and backward."""
-- 
2.43.0


From 9cabc739eb6ffbaa070e2fd26e34b67ca763ea80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:56 +0000
Subject: [PATCH 069/126] fix: GroupFisher crashed at linear layers with all
 outputs kept

---
 mmrazor/implementations/pruning/group_fisher/ops.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/mmrazor/implementations/pruning/group_fisher/ops.py b/mmrazor/implementations/pruning/group_fisher/ops.py
index a23a60b..0b2da1d 100644
--- a/mmrazor/implementations/pruning/group_fisher/ops.py
+++ b/mmrazor/implementations/pruning/group_fisher/ops.py
@@ -144,14 +144,12 @@ class GroupFisherLinear(DynamicLinear, GroupFisherMixin):
     @property
     def delta_flop_of_a_out_channel(self):
         """Calculate the summation of flops when prune an out_channel."""
-        in_c = self.mutable_attrs['in_channels'].current_mask.float().sum()
-        return in_c * len(self.recorded_out_shape)
+        return sum(input.shape[1] for input in self.recorded_input)
 
     @property
     def delta_flop_of_a_in_channel(self):
         """Calculate the summation of flops when prune an in_channel."""
-        out_c = self.mutable_attrs['out_channels'].current_mask.float().sum()
-        return out_c * len(self.recorded_out_shape)
+        return sum(shape[1] for shape in self.recorded_out_shape)
 
     @property
     def delta_memory_of_a_out_channel(self):
-- 
2.43.0


From c648a6107a3eae579ef6f0cfd5e4b167c5a9e9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:56 +0000
Subject: [PATCH 070/126] fix: GroupFisher mixed up channels of concatenated or
 flattened inputs

---
 .../pruning/group_fisher/unit.py              | 31 +++++++++++++------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/mmrazor/implementations/pruning/group_fisher/unit.py b/mmrazor/implementations/pruning/group_fisher/unit.py
index 1c9128b..a231e55 100644
--- a/mmrazor/implementations/pruning/group_fisher/unit.py
+++ b/mmrazor/implementations/pruning/group_fisher/unit.py
@@ -154,7 +154,7 @@ class GroupFisherChannelUnit(L1MutableChannelUnit):
         """Accumulate the unit's fisher info of this batch."""
         with torch.no_grad():
             fisher: torch.Tensor = 0
-            for module in self.input_related_dynamic_ops:
+            for module in dict.fromkeys(self.input_related_dynamic_ops):
                 fisher = fisher + self._fisher_of_a_module(module)
             return (fisher**2).sum(0)  # shape: [C]
 
@@ -179,12 +179,17 @@ class GroupFisherChannelUnit(L1MutableChannelUnit):
             assert len(fisher.shape) == 2  # B C
             fisher_sum = fisher_sum + fisher
         assert isinstance(fisher_sum, torch.Tensor)
-        # expand to full num_channel
+        # expand to all the input channels of the module
         batch_size = fisher_sum.shape[0]
-        mask = self.mutable_channel.current_mask.unsqueeze(0).expand(
-            [batch_size, self.num_channels])
-        zeros = fisher_sum.new_zeros([batch_size, self.num_channels])
-        fisher_sum = zeros.masked_scatter_(mask, fisher_sum)
+        mask = module.get_mutable_attr('in_channels').current_mask.bool()
+        full = fisher_sum.new_zeros([batch_size, mask.numel()])
+        full[:, mask] = fisher_sum
+        # collect the channels which belong to this unit
+        fisher_sum = full.new_zeros([batch_size, self.num_channels])
+        for channel in self.input_related:
+            if channel.module is module:
+                fisher_sum += full[:, channel.start:channel.end].reshape(
+                    [batch_size, self.num_channels, -1]).sum(-1)
         return fisher_sum
 
     @torch.no_grad()
@@ -215,10 +220,16 @@ class GroupFisherChannelUnit(L1MutableChannelUnit):
     def _delta_flop_of_a_channel(self) -> torch.Tensor:
         """Calculate the flops of a channel."""
         delta_flop = 0
-        for module in self.output_related_dynamic_ops:
-            delta_flop += module.delta_flop_of_a_out_channel
-        for module in self.input_related_dynamic_ops:
-            delta_flop += module.delta_flop_of_a_in_channel
+        for channel in list(self.output_related) + list(self.input_related):
+            module = channel.module
+            if not isinstance(module, GroupFisherMixin):
+                continue
+            # a channel of the unit can be several channels of the module
+            ratio = channel.num_channels // self.num_channels
+            if channel.is_output_channel:
+                delta_flop += ratio * module.delta_flop_of_a_out_channel
+            else:
+                delta_flop += ratio * module.delta_flop_of_a_in_channel
         return delta_flop
 
     @property
-- 
2.43.0


From dc91395873792c146dd31345447e5c1961a99177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:56 +0000
Subject: [PATCH 071/126] fix: GroupFisher counted the flops of depthwise
 channels twice

---
 mmrazor/implementations/pruning/group_fisher/ops.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmrazor/implementations/pruning/group_fisher/ops.py b/mmrazor/implementations/pruning/group_fisher/ops.py
index 0b2da1d..5202dfc 100644
--- a/mmrazor/implementations/pruning/group_fisher/ops.py
+++ b/mmrazor/implementations/pruning/group_fisher/ops.py
@@ -115,9 +115,9 @@ class GroupFisherConv2d(DynamicConv2d, GroupFisherMixin):
             if self.groups == 1:
                 delta_flop = h * w * self.kernel_size[0] * self.kernel_size[
                     1] * out_c
-            # dwconv
+            # dwconv, already counted as an out_channel
             elif self.groups == self.in_channels == self.out_channels:
-                delta_flop = h * w * self.kernel_size[0] * self.kernel_size[1]
+                delta_flop = 0
             # groupwise conv
             else:
                 raise NotImplementedError()
-- 
2.43.0


From 7c8ef0d6463cdd717730a55072d0bcf9e78fab70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:56 +0000
Subject: [PATCH 072/126] fix: GroupFisher did not prune the minimum of large
 importances

---
 mmrazor/implementations/pruning/group_fisher/mutator.py | 8 ++++----
 mmrazor/implementations/pruning/group_fisher/unit.py    | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/mmrazor/implementations/pruning/group_fisher/mutator.py b/mmrazor/implementations/pruning/group_fisher/mutator.py
index d9e521a..e6ebbe5 100644
--- a/mmrazor/implementations/pruning/group_fisher/mutator.py
+++ b/mmrazor/implementations/pruning/group_fisher/mutator.py
@@ -56,8 +56,8 @@ class GroupFisherChannelMutator(ChannelMutator[GroupFisherChannelUnit]):
     def try_prune(self) -> None:
         """Prune the channel with the minimum fisher unless it is the last
         channel of the current layer."""
-        min_imp = 1e5
-        min_unit = self.mutable_units[0]
+        min_imp = float('inf')
+        min_unit = None
         for unit in self.mutable_units:
             if unit.mutable_channel.activated_channels > 1:
                 imp = unit.importance()
@@ -67,10 +67,10 @@ class GroupFisherChannelMutator(ChannelMutator[GroupFisherChannelUnit]):
                             f'{unit.name} detects nan in importance, this pruning skips.'  # noqa
                         )
                     return
-                if imp.min() < min_imp:
+                if min_unit is None or imp.min() < min_imp:
                     min_imp = imp.min().item()
                     min_unit = unit
-        if min_unit.try_to_prune_min_channel():
+        if min_unit is not None and min_unit.try_to_prune_min_channel():
             if dist.get_rank() == 0:
                 print_log(
                     f'{min_unit.name} prunes a channel with min imp = {min_imp}'  # noqa
diff --git a/mmrazor/implementations/pruning/group_fisher/unit.py b/mmrazor/implementations/pruning/group_fisher/unit.py
index a231e55..4995d74 100644
--- a/mmrazor/implementations/pruning/group_fisher/unit.py
+++ b/mmrazor/implementations/pruning/group_fisher/unit.py
@@ -130,7 +130,7 @@ class GroupFisherChannelUnit(L1MutableChannelUnit):
         fisher = self.normalized_fisher_info.clone()
         mask = self.mutable_channel.current_mask
         n_mask = (1 - mask.float()).bool()
-        fisher.masked_fill_(n_mask, fisher.max() + 1)
+        fisher.masked_fill_(n_mask, float('inf'))
         return fisher
 
     def reset_fisher_info(self) -> None:
-- 
2.43.0


From e3ef1cf6faa55b5d4937e300f3075c134ccf21d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:56 +0000
Subject: [PATCH 073/126] fix: GroupFisherDDP did not synchronize the gradients

---
 .../pruning/group_fisher/algorithm.py                | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/mmrazor/implementations/pruning/group_fisher/algorithm.py b/mmrazor/implementations/pruning/group_fisher/algorithm.py
index a90b406..91ee0f3 100644
--- a/mmrazor/implementations/pruning/group_fisher/algorithm.py
+++ b/mmrazor/implementations/pruning/group_fisher/algorithm.py
@@ -1,5 +1,5 @@
 # Copyright (c) OpenMMLab. All rights reserved.
-from typing import Dict, Optional, Union
+from typing import Callable, Dict, Optional, Union
 
 import torch
 import torch.distributed as dist
@@ -58,12 +58,13 @@ class GroupFisherAlgorithm(BaseAlgorithm):
 
     def train_step(self, data: Union[dict, tuple, list],
                    optim_wrapper) -> Dict[str, torch.Tensor]:
-        return self._train_step(data, optim_wrapper)
+        return self._train_step(super().train_step, data, optim_wrapper)
 
-    def _train_step(self, data: Union[dict, tuple, list], optim_wrapper):
+    def _train_step(self, train_step: Callable, data: Union[dict, tuple, list],
+                    optim_wrapper):
         """Train step function for GroupFisherAlgorithm and GroupFisherDDP."""
         self.mutator.start_record_info()
-        res = super().train_step(data, optim_wrapper)
+        res = train_step(data, optim_wrapper)
         self.mutator.end_record_info()
 
         self.mutator.update_imp()
@@ -83,4 +84,5 @@ class GroupFisherDDP(MMDistributedDataParallel):
     def train_step(self, data: Union[dict, tuple, list],
                    optim_wrapper) -> Dict[str, torch.Tensor]:
         algorithm = self.module
-        return GroupFisherAlgorithm._train_step(algorithm, data, optim_wrapper)
+        # through the forward of DDP, which synchronizes the gradients
+        return algorithm._train_step(super().train_step, data, optim_wrapper)
-- 
2.43.0


From 9de684d1ff6d951ddf2f99c40e66c0cce5c81206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:27 +0000
Subject: [PATCH 074/126] fix: copies of derived mutables followed the choices
 of the original

---
 mmrazor/models/mutables/derived_mutable.py | 31 ++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/mmrazor/models/mutables/derived_mutable.py b/mmrazor/models/mutables/derived_mutable.py
index a5e9e85..67306d1 100644
--- a/mmrazor/models/mutables/derived_mutable.py
+++ b/mmrazor/models/mutables/derived_mutable.py
@@ -6,9 +6,11 @@ if sys.version_info < (3, 8):
 else:
     from typing import Protocol
 
+import copy
 import inspect
 import logging
 from itertools import product
+from types import FunctionType
 from typing import Any, Callable, Dict, Iterable, Optional, Set, Union
 
 import torch
@@ -215,6 +217,27 @@ class DerivedMethodMixin:
         return DerivedMutable(choice_fn=choice_fn, mask_fn=mask_fn)
 
 
+def _deepcopy_with_closure(obj: Any, memo: Dict) -> Any:
+    """Deepcopy which copies the closures of functions as well."""
+
+    def new_cell(value=None):
+        return (lambda: value).__closure__[0]  # type: ignore
+
+    if not isinstance(obj, FunctionType) or obj.__closure__ is None:
+        return copy.deepcopy(obj, memo)
+    if id(obj) not in memo:
+        cells = tuple(new_cell() for _ in obj.__closure__)
+        copied = FunctionType(obj.__code__, obj.__globals__, obj.__name__,
+                              obj.__defaults__, cells)
+        copied.__kwdefaults__ = obj.__kwdefaults__
+        # before its closure, which may refer to the function itself
+        memo[id(obj)] = copied
+        for cell, source in zip(cells, obj.__closure__):
+            cell.cell_contents = _deepcopy_with_closure(
+                source.cell_contents, memo)
+    return memo[id(obj)]
+
+
 class DerivedMutable(BaseMutable, DerivedMethodMixin):
     """Class for derived mutable.
 
@@ -282,6 +305,14 @@ class DerivedMutable(BaseMutable, DerivedMethodMixin):
                                  f'but {mutable} is not')
         self.source_mutables = source_mutables
 
+    def __deepcopy__(self, memo: Dict) -> 'DerivedMutable':
+        """The copy is derived from the copies of its source mutables."""
+        derived = self.__class__.__new__(self.__class__)
+        memo[id(self)] = derived
+        for name, value in self.__dict__.items():
+            derived.__dict__[name] = _deepcopy_with_closure(value, memo)
+        return derived
+
     # TODO
     # has no effect
     def fix_chosen(self, chosen) -> None:
-- 
2.43.0


From a3537061374231e411c3177dfe1263ebec05b8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:05 +0000
Subject: [PATCH 075/126] fix: DMCP crashed at models whose loss has another
 name

---
 mmrazor/models/algorithms/pruning/dmcp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/models/algorithms/pruning/dmcp.py b/mmrazor/models/algorithms/pruning/dmcp.py
index 043cf9a..c6f433b 100644
--- a/mmrazor/models/algorithms/pruning/dmcp.py
+++ b/mmrazor/models/algorithms/pruning/dmcp.py
@@ -236,7 +236,7 @@ class DMCP(BaseAlgorithm):
         self.set_subnet(mode='expected', arch_train=False)
         expected_flops = self.calc_current_flops()
         flops_loss = self._compute_flops_loss(expected_flops).to(
-            arch_loss['loss'].device)
+            parsed_arch_loss.device)
         parsed_flops_loss, _ = self.parse_losses({'loss': flops_loss})
         optim_wrapper['mutator'].update_params(parsed_flops_loss)
         arch_params_loss.update(add_prefix({'loss': flops_loss}, 'flops'))
-- 
2.43.0


From 2e7540af95b9b869b2f2573d6bfa593c8f55922f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:05 +0000
Subject: [PATCH 076/126] fix: the expected subnet of DMCP was never exported,
 nor pruned

---
 mmrazor/engine/hooks/dmcp_subnet_hook.py                    | 5 ++++-
 .../models/mutators/channel_mutator/dmcp_channel_mutator.py | 6 +++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/mmrazor/engine/hooks/dmcp_subnet_hook.py b/mmrazor/engine/hooks/dmcp_subnet_hook.py
index 5c3186f..cabb30d 100644
--- a/mmrazor/engine/hooks/dmcp_subnet_hook.py
+++ b/mmrazor/engine/hooks/dmcp_subnet_hook.py
@@ -2,6 +2,7 @@
 import json
 import os
 
+import torch
 from mmengine.hooks import Hook
 from mmengine.registry import HOOKS
 
@@ -62,7 +63,9 @@ class DMCPSubnetHook(Hook):
                 cur_flops = model.calc_current_flops()
 
             if i == num_sample:
-                model.set_subnet(mode='expected', arch_train=False)
+                # without gradients, as the model is copied to be exported
+                with torch.no_grad():
+                    model.set_subnet(mode='expected', arch_train=False)
                 save_path = os.path.join(root_dir, 'excepted_ch.json')
                 runner.logger.info(
                     f'Excepted sample(ES) arch with FlOP(MB):{cur_flops}')
diff --git a/mmrazor/models/mutators/channel_mutator/dmcp_channel_mutator.py b/mmrazor/models/mutators/channel_mutator/dmcp_channel_mutator.py
index de7bbc4..543d8f3 100644
--- a/mmrazor/models/mutators/channel_mutator/dmcp_channel_mutator.py
+++ b/mmrazor/models/mutators/channel_mutator/dmcp_channel_mutator.py
@@ -174,5 +174,9 @@ class DMCPChannelMutator(ChannelMutator[DMCPChannelUnit]):
                 # allow optional target_prune_ratio
                 continue
             choice = choices[str(group_id)]
-            module.current_choice = choice
+            if isinstance(choice, torch.Tensor):
+                # the expected number of channels
+                module.current_choice = max(round(choice.item()), 1)
+            else:
+                module.current_choice = choice
             module.mutable_channel.activated_tensor_channels = choice
-- 
2.43.0


From 906da32fad08fcee6f2cd0b2877d335bdc8e2074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:05 +0000
Subject: [PATCH 077/126] fix: the FLOPs loss of DMCP took all input channels
 for expected

---
 .../op_counters/conv_layer_counter.py         | 24 ++++++++++++-------
 .../op_counters/norm_layer_counter.py         | 10 ++++----
 2 files changed, 19 insertions(+), 15 deletions(-)

diff --git a/mmrazor/models/task_modules/estimators/counters/op_counters/conv_layer_counter.py b/mmrazor/models/task_modules/estimators/counters/op_counters/conv_layer_counter.py
index cacbdb5..ac54f38 100644
--- a/mmrazor/models/task_modules/estimators/counters/op_counters/conv_layer_counter.py
+++ b/mmrazor/models/task_modules/estimators/counters/op_counters/conv_layer_counter.py
@@ -6,6 +6,17 @@ from mmrazor.registry import TASK_UTILS
 from .base_counter import BaseCounter
 
 
+def get_activated_channels(container):
+    """Get the number of activated channels of a MutableChannelContainer,
+    which is a tensor in the expected mode of DMCP."""
+    channels = container.activated_channels
+    for mutable in getattr(container, 'mutable_channels', {}).values():
+        expected = getattr(mutable, 'activated_tensor_channels', None)
+        if expected is not None:
+            channels = channels - mutable.activated_channels + expected
+    return channels
+
+
 class ConvCounter(BaseCounter):
     """FLOPs/params counter for Conv module series."""
 
@@ -77,18 +88,13 @@ class DynamicConv2dCounter(ConvCounter):
         kernel_dims = list(module.kernel_size)
 
         if 'out_channels' in module.mutable_attrs:
-            out_channels = module.mutable_attrs[
-                'out_channels'].activated_channels
-            mutable_channel = list(
-                module.mutable_attrs['out_channels'].mutable_channels.values())
-            if len(mutable_channel) > 0 and hasattr(
-                    mutable_channel[0], 'activated_tensor_channels'):
-                out_channels = mutable_channel[0].activated_tensor_channels
+            out_channels = get_activated_channels(
+                module.mutable_attrs['out_channels'])
         else:
             out_channels = module.out_channels
         if 'in_channels' in module.mutable_attrs:
-            in_channels = module.mutable_attrs[
-                'in_channels'].activated_channels
+            in_channels = get_activated_channels(
+                module.mutable_attrs['in_channels'])
         else:
             in_channels = module.in_channels
 
diff --git a/mmrazor/models/task_modules/estimators/counters/op_counters/norm_layer_counter.py b/mmrazor/models/task_modules/estimators/counters/op_counters/norm_layer_counter.py
index 54f3f26..5369dd8 100644
--- a/mmrazor/models/task_modules/estimators/counters/op_counters/norm_layer_counter.py
+++ b/mmrazor/models/task_modules/estimators/counters/op_counters/norm_layer_counter.py
@@ -4,6 +4,7 @@ import numpy as np
 from mmrazor.registry import TASK_UTILS
 from ..flops_params_counter import get_model_parameters_number
 from .base_counter import BaseCounter
+from .conv_layer_counter import get_activated_channels
 
 
 class BNCounter(BaseCounter):
@@ -78,14 +79,11 @@ class DMCPBatchNorm2dCounter(BNCounter):
         input = input[0]
         B, C, H, W = input.shape
 
-        mutable_channel = list(
-            module.mutable_attrs['num_features'].mutable_channels.values())
-        if hasattr(mutable_channel[0], 'activated_tensor_channels'):
-            C = mutable_channel[0].activated_tensor_channels
+        if 'num_features' in module.mutable_attrs:
+            C = get_activated_channels(module.mutable_attrs['num_features'])
 
         batch_flops = B * C * H * W
         if getattr(module, 'affine', False):
             batch_flops *= 2
-        num_features = module.mutable_attrs['num_features'].activated_channels
         module.__flops__ += batch_flops
-        module.__params__ += num_features * 2
+        module.__params__ += int(C) * 2
-- 
2.43.0


From 11c2e03542e011e65209bcfefbb6b978de9a21fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:03 +0000
Subject: [PATCH 078/126] fix: DMCP trained the architecture with gradients of
 the arch update

---
 mmrazor/models/algorithms/pruning/dmcp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mmrazor/models/algorithms/pruning/dmcp.py b/mmrazor/models/algorithms/pruning/dmcp.py
index c6f433b..0bc6b5f 100644
--- a/mmrazor/models/algorithms/pruning/dmcp.py
+++ b/mmrazor/models/algorithms/pruning/dmcp.py
@@ -230,6 +230,8 @@ class DMCP(BaseAlgorithm):
             arch_loss = self(inputs, data_samples, mode=mode)
         parsed_arch_loss, _ = self.parse_losses(arch_loss)
         optim_wrapper['mutator'].update_params(parsed_arch_loss)
+        # not to be left to the next update of the architecture
+        optim_wrapper['architecture'].zero_grad()
         arch_params_loss.update(add_prefix(arch_loss, 'arch'))
 
         # update flops_loss
-- 
2.43.0


From 6a170df6ed70c5b5286c0cb1774d520bfe920b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:03 +0000
Subject: [PATCH 079/126] fix: DMCPDDP did not synchronize the arch params

---
 mmrazor/models/algorithms/pruning/dmcp.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/mmrazor/models/algorithms/pruning/dmcp.py b/mmrazor/models/algorithms/pruning/dmcp.py
index 0bc6b5f..58b8078 100644
--- a/mmrazor/models/algorithms/pruning/dmcp.py
+++ b/mmrazor/models/algorithms/pruning/dmcp.py
@@ -212,9 +212,14 @@ class DMCP(BaseAlgorithm):
                             inputs: torch.Tensor,
                             data_samples: Optional[List[BaseDataElement]],
                             optim_wrapper: OptimWrapper,
-                            mode: str = 'loss') -> Dict:
+                            mode: str = 'loss',
+                            model: Optional[nn.Module] = None) -> Dict:
         """Update the arch parameters in mutator.
 
+        Args:
+            model (nn.Module, optional): The wrapper of the algorithm, whose
+                forward synchronizes the gradients. Defaults to None.
+
         Returns:
             dict: It should contain 2 keys: ``arch_loss``, ``flops_loss``.
                 ``arch_loss`` is a tensor for back propagation, which can be a
@@ -227,7 +232,7 @@ class DMCP(BaseAlgorithm):
         # update arch_loss
         self.set_subnet(mode='max', arch_train=True)
         with optim_wrapper['mutator'].optim_context(self):
-            arch_loss = self(inputs, data_samples, mode=mode)
+            arch_loss = (model or self)(inputs, data_samples, mode=mode)
         parsed_arch_loss, _ = self.parse_losses(arch_loss)
         optim_wrapper['mutator'].update_params(parsed_arch_loss)
         # not to be left to the next update of the architecture
@@ -422,6 +427,10 @@ class DMCPDDP(MMDistributedDataParallel):
             with optim_wrapper['mutator'].optim_context(self):
                 optim_wrapper['mutator'].zero_grad()
                 mutator_loss = self.module._update_arch_params(
-                    batch_inputs, data_samples, optim_wrapper, mode='loss')
+                    batch_inputs,
+                    data_samples,
+                    optim_wrapper,
+                    mode='loss',
+                    model=self)
             total_losses.update(mutator_loss)
         return total_losses
-- 
2.43.0


From 40845ecb966fda5686db9cf9ed1104ebd35eff18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:29 +0000
Subject: [PATCH 080/126] fix: the log_l1 FLOPs loss of DMCP ignored the target

---
 mmrazor/models/algorithms/pruning/dmcp.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mmrazor/models/algorithms/pruning/dmcp.py b/mmrazor/models/algorithms/pruning/dmcp.py
index 58b8078..1116933 100644
--- a/mmrazor/models/algorithms/pruning/dmcp.py
+++ b/mmrazor/models/algorithms/pruning/dmcp.py
@@ -264,7 +264,8 @@ class DMCP(BaseAlgorithm):
                 the target FLOPs. And the type of this loss should be the same
                 as the expected FLOPs.
         """
-        flops_error = expected_flops - self.target_flops * 1e6
+        target_flops = self.target_flops * 1e6
+        flops_error = expected_flops - target_flops
 
         if self.flops_loss_type == 'l2':
             floss = torch.pow(flops_error, 2)
@@ -276,10 +277,10 @@ class DMCP(BaseAlgorithm):
             else:
                 ratio = 1.0
             # piecewise log function
-            lower_flops = self.target_flops * 0.95
+            lower_flops = target_flops * 0.95
             if expected_flops < lower_flops:
                 floss = torch.log(ratio * abs(flops_error))
-            elif (lower_flops <= expected_flops < self.target_flops):
+            elif (lower_flops <= expected_flops < target_flops):
                 floss = expected_flops * 0
             else:
                 floss = (
-- 
2.43.0


From 9b2768f47dabe47ad68f7aab5590c66c1301f2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:06 +0000
Subject: [PATCH 081/126] fix: GPTQ always failed on CPU

---
 mmrazor/implementations/quantization/gptq/gptq.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mmrazor/implementations/quantization/gptq/gptq.py b/mmrazor/implementations/quantization/gptq/gptq.py
index 84cfd3a..6679daf 100644
--- a/mmrazor/implementations/quantization/gptq/gptq.py
+++ b/mmrazor/implementations/quantization/gptq/gptq.py
@@ -290,7 +290,8 @@ class GPTQMixIn(ModuleProtocol):
 
                 W[:, i2:] -= Err1.matmul(Hinv[i1:i2, i2:])
 
-            torch.cuda.synchronize()
+            if W.device.type == 'cuda':
+                torch.cuda.synchronize()
             error = torch.sum(Losses).item()
 
             groupsize = groupsize if groupsize != -1 else self.columns
-- 
2.43.0


From 6e35e922dc9b6608ec1548685e5eae312d423dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:06 +0000
Subject: [PATCH 082/126] fix: SparseGPT and GPTQ left failed ops with altered
 weights

---
 mmrazor/implementations/pruning/sparse_gpt/ops.py | 5 +++--
 mmrazor/implementations/quantization/gptq/gptq.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/mmrazor/implementations/pruning/sparse_gpt/ops.py b/mmrazor/implementations/pruning/sparse_gpt/ops.py
index 0f11b17..e5c13c3 100644
--- a/mmrazor/implementations/pruning/sparse_gpt/ops.py
+++ b/mmrazor/implementations/pruning/sparse_gpt/ops.py
@@ -141,9 +141,10 @@ class SparseGptMixIn(ModuleProtocol):
             # Converted from https://github.com/ist-daslab/sparsegpt
 
             assert self.hessian is not None
-            W: torch.Tensor = self.weight_matrix.float()  # out in
+            # copies, as the weight has to stay as it is when this fails
+            W: torch.Tensor = self.weight_matrix.float().clone()  # out in
 
-            H = self.hessian.float().to(W.device)
+            H = self.hessian.float().to(W.device).clone()
 
             dead = torch.diag(H) == 0
             H[dead, dead] = 1
diff --git a/mmrazor/implementations/quantization/gptq/gptq.py b/mmrazor/implementations/quantization/gptq/gptq.py
index 6679daf..3a108ce 100644
--- a/mmrazor/implementations/quantization/gptq/gptq.py
+++ b/mmrazor/implementations/quantization/gptq/gptq.py
@@ -219,12 +219,13 @@ class GPTQMixIn(ModuleProtocol):
         """The implementation for GPTQ."""
         with torch_setting(dtype=torch.float):
             assert self.hessian is not None
-            W: torch.Tensor = self.weight_matrix.float()  # out in
+            # copies, as the weight has to stay as it is when this fails
+            W: torch.Tensor = self.weight_matrix.float().clone()  # out in
 
             if not quantizer.ready():
                 quantizer.find_params(W, weight=True)
 
-            H = self.hessian.float().to(W.device)
+            H = self.hessian.float().to(W.device).clone()
             dead = torch.diag(H) == 0
             H[dead, dead] = 1
             W[:, dead] = 0
-- 
2.43.0


From 24e5548da9de41c0d6f90bc0f064d6ab903d0058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:24 +0000
Subject: [PATCH 083/126] fix: SparseGPT and GPTQ read wrong inputs of
 convolutions

---
 mmrazor/implementations/pruning/sparse_gpt/ops.py | 15 ++++++++++++++-
 mmrazor/implementations/quantization/gptq/ops.py  | 15 ++++++++++++++-
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/mmrazor/implementations/pruning/sparse_gpt/ops.py b/mmrazor/implementations/pruning/sparse_gpt/ops.py
index e5c13c3..0b860a7 100644
--- a/mmrazor/implementations/pruning/sparse_gpt/ops.py
+++ b/mmrazor/implementations/pruning/sparse_gpt/ops.py
@@ -273,7 +273,20 @@ class SparseGptConv2d(DynamicConv2d, SparseGptMixIn):
     def format_input(self, input: torch.Tensor):
         """Format input shape."""
         # input B C H W
+        padding = self.padding
+        if isinstance(padding, str):
+            # 'same' may be asymmetric
+            input = F.pad(input, self._reversed_padding_repeated_twice)
+            padding = 0
         input = F.unfold(
-            input, self.kernel_size, padding=self.padding,
+            input,
+            self.kernel_size,
+            dilation=self.dilation,
+            padding=padding,
             stride=self.stride)  # B C D
+        if self.groups > 1:
+            # all groups share one hessian
+            B, _, D = input.shape
+            input = input.reshape(B, self.groups, -1, D).transpose(1, 2)
+            input = input.flatten(2)
         return input.transpose(-1, -2)
diff --git a/mmrazor/implementations/quantization/gptq/ops.py b/mmrazor/implementations/quantization/gptq/ops.py
index b8c1394..a2868ec 100644
--- a/mmrazor/implementations/quantization/gptq/ops.py
+++ b/mmrazor/implementations/quantization/gptq/ops.py
@@ -560,7 +560,20 @@ class GPTQConv2d(DynamicConv2d, GPTQMixIn):
     def format_input(self, input: torch.Tensor):
         """Format input shape."""
         # input B C H W
+        padding = self.padding
+        if isinstance(padding, str):
+            # 'same' may be asymmetric
+            input = F.pad(input, self._reversed_padding_repeated_twice)
+            padding = 0
         input = F.unfold(
-            input, self.kernel_size, padding=self.padding,
+            input,
+            self.kernel_size,
+            dilation=self.dilation,
+            padding=padding,
             stride=self.stride)  # B C D
+        if self.groups > 1:
+            # all groups share one hessian
+            B, _, D = input.shape
+            input = input.reshape(B, self.groups, -1, D).transpose(1, 2)
+            input = input.flatten(2)
         return input.transpose(-1, -2)
-- 
2.43.0


From ffa6de36eb1481c497e2a3eede01e698355b5be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:24 +0000
Subject: [PATCH 084/126] fix: the symmetric quantizer of GPTQ clipped
 nonnegative values

---
 mmrazor/implementations/quantization/gptq/quantizer.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/mmrazor/implementations/quantization/gptq/quantizer.py b/mmrazor/implementations/quantization/gptq/quantizer.py
index 0db2fb9..79fa7b3 100644
--- a/mmrazor/implementations/quantization/gptq/quantizer.py
+++ b/mmrazor/implementations/quantization/gptq/quantizer.py
@@ -68,9 +68,7 @@ class Quantizer(nn.Module):
 
         if self.sym:
             xmax = torch.maximum(torch.abs(xmin), xmax)
-            tmp = xmin < 0
-            if torch.any(tmp):
-                xmin[tmp] = -xmax[tmp]
+            xmin = -xmax
         tmp = (xmin == 0) & (xmax == 0)
         xmin[tmp] = -1
         xmax[tmp] = +1
-- 
2.43.0


From 6093c6ed36e94c54da88bc6a5e4d16a0c855eb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:24 +0000
Subject: [PATCH 085/126] fix: the packed zero points of GPTQ were mixed up by
 a zero one

---
 mmrazor/implementations/quantization/gptq/gptq.py | 5 +++--
 mmrazor/implementations/quantization/gptq/ops.py  | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/mmrazor/implementations/quantization/gptq/gptq.py b/mmrazor/implementations/quantization/gptq/gptq.py
index 3a108ce..b0ac7bf 100644
--- a/mmrazor/implementations/quantization/gptq/gptq.py
+++ b/mmrazor/implementations/quantization/gptq/gptq.py
@@ -191,8 +191,9 @@ class GPTQMixIn(ModuleProtocol):
         qweight = qweight.astype(np.int32)
         self.qweight = torch.from_numpy(qweight).to(self.weight.device)
 
-        zeros -= 1
-        zeros = zeros.cpu().numpy().astype(np.uint32)
+        # modulo 2**bits, not to change the bits of others
+        zeros = (zeros.cpu().numpy().astype(np.int64) - 1) & self.maxq
+        zeros = zeros.astype(np.uint32)
         qzeros = np.zeros((zeros.shape[0], zeros.shape[1] // 32 * self.bits),
                           dtype=np.uint32)
         i = 0
diff --git a/mmrazor/implementations/quantization/gptq/ops.py b/mmrazor/implementations/quantization/gptq/ops.py
index a2868ec..343ee4e 100644
--- a/mmrazor/implementations/quantization/gptq/ops.py
+++ b/mmrazor/implementations/quantization/gptq/ops.py
@@ -167,7 +167,7 @@ try:
                 g_idx[:, None] * stride_zeros)  # (BLOCK_SIZE_K, BLOCK_SIZE_N,)
 
             zeros = (zeros >> zeros_shifter[None, :]) & maxq
-            zeros = (zeros + 1)
+            zeros = (zeros + 1) & maxq
 
             a = tl.load(
                 a_ptrs, mask=a_mask, other=0.)  # (BLOCK_SIZE_M, BLOCK_SIZE_K)
@@ -327,7 +327,7 @@ try:
             zeros = tl.load(zeros_ptrs)  # (BLOCK_SIZE_K, BLOCK_SIZE_N,)
 
             zeros = (zeros >> zeros_shifter[None, :]) & maxq
-            zeros = (zeros + 1)
+            zeros = (zeros + 1) & maxq
 
             a = tl.load(
                 a_ptrs, mask=a_mask, other=0.)  # (BLOCK_SIZE_M, BLOCK_SIZE_N)
-- 
2.43.0


From ec625c62ff894fd19702ff5cf605d60264115124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:19 +0000
Subject: [PATCH 086/126] fix: SparseGPT and GPTQ weighted a second calibration
 wrongly

---
 mmrazor/implementations/pruning/sparse_gpt/ops.py | 1 +
 mmrazor/implementations/quantization/gptq/gptq.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/mmrazor/implementations/pruning/sparse_gpt/ops.py b/mmrazor/implementations/pruning/sparse_gpt/ops.py
index 0b860a7..5eb5eab 100644
--- a/mmrazor/implementations/pruning/sparse_gpt/ops.py
+++ b/mmrazor/implementations/pruning/sparse_gpt/ops.py
@@ -120,6 +120,7 @@ class SparseGptMixIn(ModuleProtocol):
 
     def init_hessian(self, device=None):
         """Init hessian."""
+        self.hessian_batch = 0
         if dist.is_initialized():
             if dist.get_rank() == 0:
                 self._hessian = torch.zeros([self.columns, self.columns],
diff --git a/mmrazor/implementations/quantization/gptq/gptq.py b/mmrazor/implementations/quantization/gptq/gptq.py
index b0ac7bf..dcab1a9 100644
--- a/mmrazor/implementations/quantization/gptq/gptq.py
+++ b/mmrazor/implementations/quantization/gptq/gptq.py
@@ -142,6 +142,7 @@ class GPTQMixIn(ModuleProtocol):
 
     def init_hessian(self, device=None):
         """Init hessian."""
+        self.hessian_batch = 0
         if dist.is_initialized():
             if dist.get_rank() == 0:
                 self._hessian = torch.zeros([self.columns, self.columns],
-- 
2.43.0


From a27b26dadea723c20485c7087b9abe0b962d013b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:07 +0000
Subject: [PATCH 087/126] fix: LearnableFakeQuantize divided by zero for empty
 tensors

---
 mmrazor/models/fake_quants/lsq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/models/fake_quants/lsq.py b/mmrazor/models/fake_quants/lsq.py
index 1689d03..b16f11d 100644
--- a/mmrazor/models/fake_quants/lsq.py
+++ b/mmrazor/models/fake_quants/lsq.py
@@ -241,7 +241,7 @@ class LearnableFakeQuantize(FakeQuantizeBase):
         if self.fake_quant_enabled[0] == 1:
 
             if self.use_grad_scaling:
-                grad_factor = 1.0 / (X.numel() * self.quant_max)**0.5
+                grad_factor = 1.0 / (max(X.numel(), 1) * self.quant_max)**0.5
             else:
                 grad_factor = 1.0
             if self.qscheme in (torch.per_channel_symmetric,
-- 
2.43.0


From 7f1346f451944a76ec4ba8e95be71d5a31e4c592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:07 +0000
Subject: [PATCH 088/126] fix: QSchemeHandler could not be printed

---
 mmrazor/structures/quantization/qconfig.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/structures/quantization/qconfig.py b/mmrazor/structures/quantization/qconfig.py
index ab682be..a5051bd 100644
--- a/mmrazor/structures/quantization/qconfig.py
+++ b/mmrazor/structures/quantization/qconfig.py
@@ -93,7 +93,7 @@ class QSchemeHandler(object):
 
     def __str__(self):
         """Print generated args for observers."""
-        return f'dtype: {self.dtype} / bit: {self.bit} / is_symmetry: {self.is_symmetry} / \
+        return f'dtype: {self.qdtype} / bit: {self.bit} / is_symmetry: {self.is_symmetry} / \
                 is_per_channel: {self.is_per_channel} \
                 / extra_kwargs: {self.kwargs}'
 
-- 
2.43.0


From 6c1b9a1e4ec64686817a28db2412e25494480cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:12 +0000
Subject: [PATCH 089/126] fix: learned quantization parameters were truncated
 for deployment

---
 mmrazor/structures/quantization/qconfig.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mmrazor/structures/quantization/qconfig.py b/mmrazor/structures/quantization/qconfig.py
index a5051bd..cf5b849 100644
--- a/mmrazor/structures/quantization/qconfig.py
+++ b/mmrazor/structures/quantization/qconfig.py
@@ -184,8 +184,13 @@ class QConfigHandler():
         if update_qparams:
             device = fake_quant_org.scale.device
             fake_quant_ins = fake_quant_wrapper().to(device)
-            fake_quant_ins.scale.copy_(fake_quant_org.scale)
-            fake_quant_ins.zero_point.copy_(fake_quant_org.zero_point)
+            scale, zero_point = fake_quant_org.scale, fake_quant_org.zero_point
+            if isinstance(fake_quant_org,
+                          MODELS.get('mmrazor.LearnableFakeQuantize')):
+                # the learned ones have to be put into their valid range
+                scale, zero_point = fake_quant_org.calculate_qparams()
+            fake_quant_ins.scale.copy_(scale)
+            fake_quant_ins.zero_point.copy_(zero_point)
             obs = fake_quant_ins.activation_post_process
             obs_org = fake_quant_org.activation_post_process
             obs.min_val.resize_(obs_org.min_val.shape).copy_(obs_org.min_val)
-- 
2.43.0


From 676b02b1f95514fcf4922f436cdf76e4c8a53963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:01 +0000
Subject: [PATCH 090/126] fix: graph modules of models with skipped methods
 below the top level

---
 mmrazor/models/task_modules/tracer/fx/custom_tracer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/models/task_modules/tracer/fx/custom_tracer.py b/mmrazor/models/task_modules/tracer/fx/custom_tracer.py
index 68d5f08..c47d91b 100644
--- a/mmrazor/models/task_modules/tracer/fx/custom_tracer.py
+++ b/mmrazor/models/task_modules/tracer/fx/custom_tracer.py
@@ -146,7 +146,7 @@ def _prepare_module_dict(model: torch.nn.Module, fx_graph):
             for special_node in special_nodes:
                 if special_node in node.args or \
                         special_node in node.kwargs.values():
-                    origin_module = getattr(model, special_node.target)
+                    origin_module = _get_attrs(model, special_node.target)
                     setattr(module_dict[special_node.target], node.target,
                             getattr(origin_module, node.target))
 
-- 
2.43.0


From 6fb7f96653c48f02cf92c9845967e67da18b4956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:01 +0000
Subject: [PATCH 091/126] fix: skipped methods of the same name replaced one
 another

---
 .../models/task_modules/tracer/fx/custom_tracer.py    | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/mmrazor/models/task_modules/tracer/fx/custom_tracer.py b/mmrazor/models/task_modules/tracer/fx/custom_tracer.py
index c47d91b..4d36457 100644
--- a/mmrazor/models/task_modules/tracer/fx/custom_tracer.py
+++ b/mmrazor/models/task_modules/tracer/fx/custom_tracer.py
@@ -59,7 +59,12 @@ class UntracedMethodRegistry:
         self.owner = owner
         self.name = name
         wrapped = self.method_wrapper()
-        self.method_dict[name] = dict(mod=self.owner, wrapped=wrapped)
+        key = name
+        if self.method_dict.get(name, {}).get('mod', owner) is not owner:
+            # methods of different classes can have the same name
+            key = f'{owner.__module__}.{owner.__qualname__}.{name}'
+        self.method_dict[key] = dict(
+            mod=self.owner, wrapped=wrapped, name=name)
 
     def method_wrapper(self):
 
@@ -406,10 +411,10 @@ class CustomTracer(QuantizationTracer):
             patcher.patch_method(
                 nn.Module, '__call__', module_call_wrapper, deduplicate=False)
 
-            for name, value in UntracedMethodRegistry.method_dict.items():
+            for value in UntracedMethodRegistry.method_dict.values():
                 wrapped = value['wrapped']
                 patcher.patch_method(
-                    value['mod'], name, wrapped, deduplicate=False)
+                    value['mod'], value['name'], wrapped, deduplicate=False)
 
             _patch_wrapped_functions(patcher)
             _autowrap_check(patcher, fn_globals, self._autowrap_function_ids)
-- 
2.43.0


From e22bf71b06d5df0a2e095d561c593d08eb395618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:01 +0000
Subject: [PATCH 092/126] fix: tracing with a tracer other than the last built
 one

---
 mmrazor/models/task_modules/tracer/fx/custom_tracer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mmrazor/models/task_modules/tracer/fx/custom_tracer.py b/mmrazor/models/task_modules/tracer/fx/custom_tracer.py
index 4d36457..b90d001 100644
--- a/mmrazor/models/task_modules/tracer/fx/custom_tracer.py
+++ b/mmrazor/models/task_modules/tracer/fx/custom_tracer.py
@@ -343,6 +343,7 @@ class CustomTracer(QuantizationTracer):
         Returns:
             A ``Graph`` representing the semantics of the passed-in ``root``.
         """
+        UntracedMethodRegistry.tracer = self  # type: ignore
         if isinstance(root, torch.nn.Module):
             self.root = root
             fn = type(root).forward
-- 
2.43.0


From 07abe2caf486ac41d86f95f3244d5b88ecf13b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:51 +0000
Subject: [PATCH 093/126] fix: sync_qparams failed for modules with an absent
 child

---
 mmrazor/models/algorithms/quantization/mm_architecture.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/models/algorithms/quantization/mm_architecture.py b/mmrazor/models/algorithms/quantization/mm_architecture.py
index ce6d926..ecbc71a 100644
--- a/mmrazor/models/algorithms/quantization/mm_architecture.py
+++ b/mmrazor/models/algorithms/quantization/mm_architecture.py
@@ -123,7 +123,7 @@ class MMArchitectureQuant(BaseAlgorithm):
 
         def traverse(module, prefix):
             for name, child in module._modules.items():
-                if module is None:
+                if child is None:
                     continue
                 child_name = f'{prefix}{name}'
                 if isinstance(child, FakeQuantizeBase):
-- 
2.43.0


From 75e16a510c9818c2bdf0c2548dd40e3962a52269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:51 +0000
Subject: [PATCH 094/126] fix: convert_batchnorm2d lost the values and the mode
 of the layers

---
 mmrazor/models/quantizers/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mmrazor/models/quantizers/base.py b/mmrazor/models/quantizers/base.py
index 78c8163..5490e54 100644
--- a/mmrazor/models/quantizers/base.py
+++ b/mmrazor/models/quantizers/base.py
@@ -52,6 +52,10 @@ class BaseQuantizer(BaseModule):
                     bn = nn.BatchNorm2d(child.num_features, child.eps,
                                         child.momentum, child.affine,
                                         child.track_running_stats)
+                    # keep the trained values and the mode of the layer
+                    bn = bn.to(next(child.parameters(), torch.empty(0)))
+                    bn.load_state_dict(child.state_dict())
+                    bn.train(child.training)
                     setattr(module, child_name, bn)
                 else:
                     traverse(child)
-- 
2.43.0


From 5ee2412f84d7e4ab27832cfd3f06c2f366203b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:51 +0000
Subject: [PATCH 095/126] fix: observers of deployed weights stayed enabled

---
 mmrazor/models/quantizers/native_quantizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/quantizers/native_quantizer.py b/mmrazor/models/quantizers/native_quantizer.py
index 7b6f2f9..82c31a7 100644
--- a/mmrazor/models/quantizers/native_quantizer.py
+++ b/mmrazor/models/quantizers/native_quantizer.py
@@ -314,9 +314,9 @@ class TorchNativeQuantizer(BaseQuantizer):
                         # with base fakequants and base observers, some
                         # initialized args need to be update by running
                         # weight_fake_quant.
-                        enable_observer(new_child)
+                        new_child.apply(enable_observer)
                         new_child.weight_fake_quant(new_child.weight)
-                        disable_observer(new_child)
+                        new_child.apply(disable_observer)
                     else:
                         new_child = float_child.to(device)
                     setattr(module, name, new_child)
-- 
2.43.0


From 97c8fd9c3a4d1bb546eaa314f7759d7e21b55c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:51 +0000
Subject: [PATCH 096/126] fix: QATValLoop returned no metrics of the quantized
 model

---
 mmrazor/engine/runner/quantization_loops.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mmrazor/engine/runner/quantization_loops.py b/mmrazor/engine/runner/quantization_loops.py
index 58d91cf..e8e2fda 100644
--- a/mmrazor/engine/runner/quantization_loops.py
+++ b/mmrazor/engine/runner/quantization_loops.py
@@ -272,17 +272,17 @@ class QATValLoop(ValLoop):
 
         # compute metrics
         metrics = self.evaluator.evaluate(len(self.dataloader.dataset))
-        qat_metrics = dict()
+        ori_metrics = dict()
         for key, value in metrics.items():
             qat_key = 'qat.' + key
             ori_key = 'original.' + key
-            qat_metrics[ori_key] = value
+            ori_metrics[ori_key] = value
             self.runner.message_hub.log_scalars.pop(f'val/{qat_key}', None)
 
-        self.runner.call_hook('after_val_epoch', metrics=qat_metrics)
+        self.runner.call_hook('after_val_epoch', metrics=ori_metrics)
 
         self.runner.call_hook('after_val')
-        return qat_metrics
+        return {**qat_metrics, **ori_metrics}
 
     @torch.no_grad()
     def run_iter(self, idx, data_batch: Sequence[dict], model):
-- 
2.43.0


From b3bd6a8feab59bc57e578d5bdc51b9c57918efdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:02 +0000
Subject: [PATCH 097/126] fix: deleting fakequants shared by several of the
 following nodes

---
 .../task_modules/tracer/fx/graph_utils.py     | 60 ++++++++++---------
 1 file changed, 33 insertions(+), 27 deletions(-)

diff --git a/mmrazor/models/task_modules/tracer/fx/graph_utils.py b/mmrazor/models/task_modules/tracer/fx/graph_utils.py
index ca12917..0c332cd 100644
--- a/mmrazor/models/task_modules/tracer/fx/graph_utils.py
+++ b/mmrazor/models/task_modules/tracer/fx/graph_utils.py
@@ -94,17 +94,19 @@ def del_fakequant_before_op(prepared_model,
     if not inplace:
         prepared_model = copy.deepcopy(prepared_model)
     new_graph = copy.deepcopy(prepared_model.graph)
+    # find all of them before the graph is changed: several nodes can share one
+    nodes_to_erase: List[Node] = []
     for node in new_graph.nodes:
         if node.op in target_ops:
-            nodes_to_erase: List[Node] = recursive_find_erased_nodes(
-                node, prepared_model)
-            for to_erase in nodes_to_erase:
-                assert to_erase.op == 'call_module' and isinstance(
-                    _get_attrs(prepared_model, to_erase.target),
-                    FakeQuantizeBase) and len(to_erase.args) == 1
-                to_erase.replace_all_uses_with(to_erase.args[0])
-                new_graph.erase_node(to_erase)
-                delattr(prepared_model, to_erase.target)
+            nodes_to_erase.extend(
+                recursive_find_erased_nodes(node, prepared_model))
+    for to_erase in dict.fromkeys(nodes_to_erase):
+        assert to_erase.op == 'call_module' and isinstance(
+            _get_attrs(prepared_model, to_erase.target),
+            FakeQuantizeBase) and len(to_erase.args) == 1
+        to_erase.replace_all_uses_with(to_erase.args[0])
+        new_graph.erase_node(to_erase)
+        delattr(prepared_model, to_erase.target)
 
     new_graph.lint()
     prepared_model.graph = new_graph
@@ -172,17 +174,19 @@ def del_fakequant_before_method(prepared_model,
     if not inplace:
         prepared_model = copy.deepcopy(prepared_model)
     new_graph = copy.deepcopy(prepared_model.graph)
+    # find all of them before the graph is changed: several nodes can share one
+    nodes_to_erase: List[Node] = []
     for node in new_graph.nodes:
         if node.op == 'call_method' and node.target in method_patterns:
-            nodes_to_erase: List[Node] = recursive_find_erased_nodes(
-                node, prepared_model)
-            for to_erase in nodes_to_erase:
-                assert to_erase.op == 'call_module' and isinstance(
-                    _get_attrs(prepared_model, to_erase.target),
-                    FakeQuantizeBase) and len(to_erase.args) == 1
-                to_erase.replace_all_uses_with(to_erase.args[0])
-                new_graph.erase_node(to_erase)
-                delattr(prepared_model, to_erase.target)
+            nodes_to_erase.extend(
+                recursive_find_erased_nodes(node, prepared_model))
+    for to_erase in dict.fromkeys(nodes_to_erase):
+        assert to_erase.op == 'call_module' and isinstance(
+            _get_attrs(prepared_model, to_erase.target),
+            FakeQuantizeBase) and len(to_erase.args) == 1
+        to_erase.replace_all_uses_with(to_erase.args[0])
+        new_graph.erase_node(to_erase)
+        delattr(prepared_model, to_erase.target)
 
     new_graph.lint()
     prepared_model.graph = new_graph
@@ -251,17 +255,19 @@ def del_fakequant_before_function(prepared_model,
     if not inplace:
         prepared_model = copy.deepcopy(prepared_model)
     new_graph = copy.deepcopy(prepared_model.graph)
+    # find all of them before the graph is changed: several nodes can share one
+    nodes_to_erase: List[Node] = []
     for node in new_graph.nodes:
         if node.op == 'call_function' and node.target in function_patterns:
-            nodes_to_erase: List[Node] = recursive_find_erased_nodes(
-                node, prepared_model)
-            for to_erase in nodes_to_erase:
-                assert to_erase.op == 'call_module' and isinstance(
-                    _get_attrs(prepared_model, to_erase.target),
-                    FakeQuantizeBase) and len(to_erase.args) == 1
-                to_erase.replace_all_uses_with(to_erase.args[0])
-                new_graph.erase_node(to_erase)
-                delattr(prepared_model, to_erase.target)
+            nodes_to_erase.extend(
+                recursive_find_erased_nodes(node, prepared_model))
+    for to_erase in dict.fromkeys(nodes_to_erase):
+        assert to_erase.op == 'call_module' and isinstance(
+            _get_attrs(prepared_model, to_erase.target),
+            FakeQuantizeBase) and len(to_erase.args) == 1
+        to_erase.replace_all_uses_with(to_erase.args[0])
+        new_graph.erase_node(to_erase)
+        delattr(prepared_model, to_erase.target)
 
     new_graph.lint()
     prepared_model.graph = new_graph
-- 
2.43.0


From df29f143ee75ab3cc6f4a176113404e1b1048069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:24 +0000
Subject: [PATCH 098/126] fix: LSQEpochBasedLoop learned anew the scales of a
 resumed training

---
 mmrazor/engine/runner/quantization_loops.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mmrazor/engine/runner/quantization_loops.py b/mmrazor/engine/runner/quantization_loops.py
index e8e2fda..5468ba2 100644
--- a/mmrazor/engine/runner/quantization_loops.py
+++ b/mmrazor/engine/runner/quantization_loops.py
@@ -185,6 +185,10 @@ class LSQEpochBasedLoop(QATEpochBasedLoop):
         self.runner.call_hook('before_train_epoch')
         self.runner.model.train()
 
+        if self._iter > 0:
+            # The parameters restored by resuming have been learned already.
+            self.is_first_batch = False
+
         for idx, data_batch in enumerate(self.dataloader):
             if self.is_first_batch:
                 # lsq observer init
-- 
2.43.0


From 02e44d9ede01b10bea967d7f1958c4f97ecdee1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:15 +0000
Subject: [PATCH 099/126] fix: dynamic operators and widened layers lost the
 mode of batch norms

---
 .../mutable_channel/units/mutable_channel_unit.py        | 1 +
 mmrazor/models/utils/expandable_utils/ops.py             | 9 ++++++---
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/mmrazor/models/mutables/mutable_channel/units/mutable_channel_unit.py b/mmrazor/models/mutables/mutable_channel/units/mutable_channel_unit.py
index 251214f..40963d9 100644
--- a/mmrazor/models/mutables/mutable_channel/units/mutable_channel_unit.py
+++ b/mmrazor/models/mutables/mutable_channel/units/mutable_channel_unit.py
@@ -229,6 +229,7 @@ class MutableChannelUnit(ChannelUnit):
                 if type(module) in dynamicop_map:
                     new_module = dynamicop_map[type(module)].convert_from(
                         module).to(get_module_device(module))
+                    new_module.train(module.training)
                     replace_op(model, channel.name, new_module)
                     channel.module = new_module
                 else:
diff --git a/mmrazor/models/utils/expandable_utils/ops.py b/mmrazor/models/utils/expandable_utils/ops.py
index f2bc2b0..bdbc749 100644
--- a/mmrazor/models/utils/expandable_utils/ops.py
+++ b/mmrazor/models/utils/expandable_utils/ops.py
@@ -233,6 +233,9 @@ class ExpandableBatchNorm2d(dynamic_ops.DynamicBatchNorm2d, ExpandableMixin):
         if module.running_var is not None:
             module.running_var.data = self.expand_bias(module.running_var,
                                                        self.running_var)
-        module.weight.data = self.expand_bias(module.weight, self.weight)
-        module.bias.data = self.expand_bias(module.bias, self.bias)
-        return module
+        if module.num_batches_tracked is not None:
+            module.num_batches_tracked.copy_(self.num_batches_tracked)
+        if self.affine:
+            module.weight.data = self.expand_bias(module.weight, self.weight)
+            module.bias.data = self.expand_bias(module.bias, self.bias)
+        return module.train(self.training)
-- 
2.43.0


From ab321e8ad8ff0b7a0beb1f1335c34a8843378e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:07 +0000
Subject: [PATCH 100/126] fix: CRDDataset failed for unbalanced classes

---
 mmrazor/datasets/crd_dataset_wrapper.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/mmrazor/datasets/crd_dataset_wrapper.py b/mmrazor/datasets/crd_dataset_wrapper.py
index aa62f38..929c287 100644
--- a/mmrazor/datasets/crd_dataset_wrapper.py
+++ b/mmrazor/datasets/crd_dataset_wrapper.py
@@ -112,9 +112,6 @@ class CRDDataset:
                     for i in range(num_classes)  # type: ignore
                 ]
 
-            self.cls_positive = np.asarray(self.cls_positive)
-            self.cls_negative = np.asarray(self.cls_negative)
-
     @property
     def metainfo(self) -> dict:
         """Get the meta information of the repeated dataset.
-- 
2.43.0


From da0302e7f315f9d36a10bc5b99e2897fcd10af9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:07 +0000
Subject: [PATCH 101/126] fix: CRDDataset kept the percentage of another class

---
 mmrazor/datasets/crd_dataset_wrapper.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mmrazor/datasets/crd_dataset_wrapper.py b/mmrazor/datasets/crd_dataset_wrapper.py
index 929c287..60193c1 100644
--- a/mmrazor/datasets/crd_dataset_wrapper.py
+++ b/mmrazor/datasets/crd_dataset_wrapper.py
@@ -106,10 +106,10 @@ class CRDDataset:
             ]
 
             if 0 < self.percent < 1:
-                n = int(len(self.cls_negative[0]) * self.percent)
                 self.cls_negative = [
-                    np.random.permutation(self.cls_negative[i])[0:n]
-                    for i in range(num_classes)  # type: ignore
+                    np.random.permutation(negative)
+                    [0:int(len(negative) * self.percent)]
+                    for negative in self.cls_negative
                 ]
 
     @property
-- 
2.43.0


From dce6e807b32c9ddbfa17f735fd21d2de4cfaaf36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:07 +0000
Subject: [PATCH 102/126] fix: PackCRDClsInputs packed metainfo only once

---
 mmrazor/datasets/transforms/formatting.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mmrazor/datasets/transforms/formatting.py b/mmrazor/datasets/transforms/formatting.py
index d2ba63d..59d4567 100644
--- a/mmrazor/datasets/transforms/formatting.py
+++ b/mmrazor/datasets/transforms/formatting.py
@@ -9,7 +9,7 @@ except ImportError:
     ClsDataSample = get_placeholder('mmcls')
 
 import warnings
-from typing import Any, Dict, Generator
+from typing import Dict
 
 import numpy as np
 import torch
@@ -53,8 +53,8 @@ class PackCRDClsInputs(PackClsInputs):
 
         if 'sample_idx' in results:
             # transfer `sample_idx` to Tensor
-            self.meta_keys: Generator[Any, None, None] = (
-                key for key in self.meta_keys if key != 'sample_idx')
+            self.meta_keys = tuple(key for key in self.meta_keys
+                                   if key != 'sample_idx')
             value = results['sample_idx']
             if isinstance(value, int):
                 value = torch.tensor(value).to(torch.long)
-- 
2.43.0


From c543aad991a6c6df93a7d351b2cd6795e4d38b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:07 +0000
Subject: [PATCH 103/126] fix: the extra_params of augmentations had no effect

---
 mmrazor/datasets/transforms/auto_augment.py   | 5 +++--
 mmrazor/datasets/transforms/auto_augmentv2.py | 9 ++++++---
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/mmrazor/datasets/transforms/auto_augment.py b/mmrazor/datasets/transforms/auto_augment.py
index 0d27264..b644bc6 100644
--- a/mmrazor/datasets/transforms/auto_augment.py
+++ b/mmrazor/datasets/transforms/auto_augment.py
@@ -242,6 +242,8 @@ class AutoAugmentOp(BaseTransform):
             hparams['interpolation']
             if 'interpolation' in hparams else _RANDOM_INTERPOLATION
         }
+        self.translate_const = hparams.get('translate_const',
+                                           _HPARAMS_DEFAULT['translate_const'])
 
         self._get_magnitude(name)
 
@@ -292,8 +294,7 @@ class AutoAugmentOp(BaseTransform):
         return (level, )
 
     def _translate_abs_level_to_arg2(self, level):
-        level = (level / _MAX_LEVEL) * float(
-            _HPARAMS_DEFAULT['translate_const'])
+        level = (level / _MAX_LEVEL) * float(self.translate_const)
         level = _randomly_negate(level)
         return (level, )
 
diff --git a/mmrazor/datasets/transforms/auto_augmentv2.py b/mmrazor/datasets/transforms/auto_augmentv2.py
index 60d5647..368adb9 100644
--- a/mmrazor/datasets/transforms/auto_augmentv2.py
+++ b/mmrazor/datasets/transforms/auto_augmentv2.py
@@ -45,8 +45,10 @@ class AutoAugmentOp(object):
             if 'img_mean' in extra_params else _FILL,  # noqa: E501
             'resample':
             extra_params['interpolation'] if 'interpolation' in extra_params
-            else _interpolation_name_to_pil.values()  # noqa: E501,E131
+            else tuple(_interpolation_name_to_pil.values())  # noqa: E501,E131
         }
+        self.translate_const = extra_params.get(
+            'translate_const', _HPARAMS_DEFAULT['translate_const'])
         self._get_magnitude()
 
     def __call__(self, results):
@@ -60,6 +62,8 @@ class AutoAugmentOp(object):
             return interpolation
 
     def _check_args_tf(self, kwargs):
+        for key, value in self.kwargs.items():
+            kwargs.setdefault(key, value)
         if 'fillcolor' in kwargs and _PIL_VER < (5, 0):
             kwargs.pop('fillcolor')
         kwargs['resample'] = self._interpolation(kwargs)
@@ -92,8 +96,7 @@ class AutoAugmentOp(object):
         return (level, )
 
     def _translate_abs_level_to_arg(self, level):
-        level = (level / _MAX_LEVEL) * \
-                float(_HPARAMS_DEFAULT['translate_const'])
+        level = (level / _MAX_LEVEL) * float(self.translate_const)
         level = self._randomly_negate(level)
         return (level, )
 
-- 
2.43.0


From ba8faec25536a22bf3aa72d7fb4227a7582b2eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:57 +0000
Subject: [PATCH 104/126] fix: IterMultiLoader stopped after one pass over the
 data

---
 mmrazor/engine/runner/darts_loop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmrazor/engine/runner/darts_loop.py b/mmrazor/engine/runner/darts_loop.py
index 65e4611..3c3762c 100644
--- a/mmrazor/engine/runner/darts_loop.py
+++ b/mmrazor/engine/runner/darts_loop.py
@@ -171,7 +171,7 @@ class IterMultiLoader:
             for loader in self._dataloaders:
                 if hasattr(loader.sampler, 'set_epoch'):
                     loader.sampler.set_epoch(self._epoch)
-            self.iter_loader = [iter(loader) for loader in self._dataloaders]
+            self.iter_loaders = [iter(loader) for loader in self._dataloaders]
             data = tuple([next(loader) for loader in self.iter_loaders])
 
         return data
-- 
2.43.0


From ae06bc0c474308be50b56c0ed2e4c9aa03522bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:57 +0000
Subject: [PATCH 105/126] fix: max_iters of DartsEpochBasedTrainLoop ignored
 the mutator loader

---
 mmrazor/engine/runner/darts_loop.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mmrazor/engine/runner/darts_loop.py b/mmrazor/engine/runner/darts_loop.py
index 3c3762c..c76d76c 100644
--- a/mmrazor/engine/runner/darts_loop.py
+++ b/mmrazor/engine/runner/darts_loop.py
@@ -48,6 +48,9 @@ class DartsEpochBasedTrainLoop(EpochBasedTrainLoop):
         else:
             self.mutator_dataloader = mutator_dataloader
         self.multi_loaders = [self.dataloader, self.mutator_dataloader]
+        # an epoch ends with the shorter loader
+        self._max_iters = self._max_epochs * min(
+            len(loader) for loader in self.multi_loaders)
 
     def run_epoch(self) -> None:
         """Iterate one epoch."""
-- 
2.43.0


From 7251fa2689c48d0b0d23222ebfc655be7c0cd062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:57 +0000
Subject: [PATCH 106/126] fix: the mutator loader of DARTS repeated one order
 every epoch

---
 mmrazor/engine/runner/darts_loop.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mmrazor/engine/runner/darts_loop.py b/mmrazor/engine/runner/darts_loop.py
index c76d76c..e7e930b 100644
--- a/mmrazor/engine/runner/darts_loop.py
+++ b/mmrazor/engine/runner/darts_loop.py
@@ -57,6 +57,11 @@ class DartsEpochBasedTrainLoop(EpochBasedTrainLoop):
         self.runner.call_hook('before_train_epoch')
         self.runner.model.train()
 
+        # `DistSamplerSeedHook` only knows the first loader
+        sampler = self.mutator_dataloader.sampler
+        if hasattr(sampler, 'set_epoch'):
+            sampler.set_epoch(self._epoch)
+
         for idx, data_batch in enumerate(EpochMultiLoader(self.multi_loaders)):
             self.run_iter(idx, data_batch)
 
-- 
2.43.0


From 2ce086733aac52e02fc259bf2baec0d7a213e31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:57 +0000
Subject: [PATCH 107/126] fix: the probability of GreedySamplerTrainLoop left
 its range

---
 mmrazor/engine/runner/subnet_sampler_loop.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mmrazor/engine/runner/subnet_sampler_loop.py b/mmrazor/engine/runner/subnet_sampler_loop.py
index 4f26ee7..c5b59d2 100644
--- a/mmrazor/engine/runner/subnet_sampler_loop.py
+++ b/mmrazor/engine/runner/subnet_sampler_loop.py
@@ -258,12 +258,13 @@ class GreedySamplerTrainLoop(BaseSamplerTrainLoop):
             schedule_cur_steps = cur_iter - self.schedule_start_iter
             if self.prob_schedule == 'linear':
                 tmp = self.max_prob - self.init_prob
-                self.cur_prob = tmp / schedule_all_steps * schedule_cur_steps
+                self.cur_prob = tmp / schedule_all_steps * schedule_cur_steps \
+                    + self.init_prob
             elif self.prob_schedule == 'consine':
-                tmp_1 = (1 - self.init_prob) * 0.5
+                tmp_1 = (self.max_prob - self.init_prob) * 0.5
                 tmp_2 = math.pi * schedule_cur_steps
                 tmp_3 = schedule_all_steps
-                self.cur_prob = tmp_1 * (1 + math.cos(tmp_2 / tmp_3)) \
+                self.cur_prob = tmp_1 * (1 - math.cos(tmp_2 / tmp_3)) \
                     + self.init_prob
             else:
                 raise ValueError('`prob_schedule` is eroor, it should be \
-- 
2.43.0


From f410f4a8a7ce6728082d47c4f3f107cd6221751c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:57 +0000
Subject: [PATCH 108/126] fix: GreedySamplerTrainLoop only ever trained the
 first top candidate

---
 mmrazor/engine/runner/subnet_sampler_loop.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mmrazor/engine/runner/subnet_sampler_loop.py b/mmrazor/engine/runner/subnet_sampler_loop.py
index c5b59d2..940a9a1 100644
--- a/mmrazor/engine/runner/subnet_sampler_loop.py
+++ b/mmrazor/engine/runner/subnet_sampler_loop.py
@@ -218,6 +218,10 @@ class GreedySamplerTrainLoop(BaseSamplerTrainLoop):
             2. Pop from the `top_k_candidates` one by one to train
             the supernet.
         """
+        if len(self.top_k_candidates) > 0:
+            # the first one was used to train in the previous iteration
+            self.top_k_candidates.pop(0)
+
         if len(self.top_k_candidates) == 0:
             self.update_cur_prob(cur_iter=self._iter)
 
-- 
2.43.0


From 64cfbc101b20fd21368688f14a08d06e910eb977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:57 +0000
Subject: [PATCH 109/126] fix: GreedySamplerTrainLoop trained in evaluation
 mode

---
 mmrazor/engine/runner/subnet_sampler_loop.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mmrazor/engine/runner/subnet_sampler_loop.py b/mmrazor/engine/runner/subnet_sampler_loop.py
index 940a9a1..737ccac 100644
--- a/mmrazor/engine/runner/subnet_sampler_loop.py
+++ b/mmrazor/engine/runner/subnet_sampler_loop.py
@@ -60,6 +60,8 @@ class BaseSamplerTrainLoop(IterBasedTrainLoop):
         # synchronization during gradient accumulation process.
         # outputs should be a dict of loss.
         subnet = self.sample_subnet()
+        # sampling may validate some candidates
+        self.runner.model.train()
         self.model.mutator.set_choices(subnet)
         outputs = self.runner.model.train_step(
             data_batch, optim_wrapper=self.runner.optim_wrapper)
-- 
2.43.0


From 0cf810dd3ed6f3e33fe049006c7cc6fb8c532db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:57 +0000
Subject: [PATCH 110/126] fix: GreedySamplerTrainLoop did not run with the NAS
 algorithms

---
 mmrazor/engine/runner/subnet_sampler_loop.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mmrazor/engine/runner/subnet_sampler_loop.py b/mmrazor/engine/runner/subnet_sampler_loop.py
index 737ccac..aff7901 100644
--- a/mmrazor/engine/runner/subnet_sampler_loop.py
+++ b/mmrazor/engine/runner/subnet_sampler_loop.py
@@ -314,8 +314,9 @@ class GreedySamplerTrainLoop(BaseSamplerTrainLoop):
 
     def _sample_from_supernet(self) -> SupportRandomSubnet:
         """Sample from the supernet."""
-        subnet = self.model.sample_subnet()
-        return subnet
+        if hasattr(self.model, 'sample_subnet'):
+            return self.model.sample_subnet()
+        return self.model.mutator.sample_choices()
 
     def _sample_from_candidates(self) -> SupportRandomSubnet:
         """Sample from the candidates."""
-- 
2.43.0


From 2cd50a51b18e55fa3091a63204adf459f8145542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:57 +0000
Subject: [PATCH 111/126] fix: SlimmableValLoop returned no metrics

---
 mmrazor/engine/runner/slimmable_val_loop.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mmrazor/engine/runner/slimmable_val_loop.py b/mmrazor/engine/runner/slimmable_val_loop.py
index d3f5e2a..5bc0a3d 100644
--- a/mmrazor/engine/runner/slimmable_val_loop.py
+++ b/mmrazor/engine/runner/slimmable_val_loop.py
@@ -38,7 +38,7 @@ class SlimmableValLoop(ValLoop):
         # just for convenience
         self._model = model
 
-    def run(self):
+    def run(self) -> dict:
         """Launch validation."""
         self.runner.call_hook('before_val')
 
@@ -56,3 +56,4 @@ class SlimmableValLoop(ValLoop):
         self.runner.call_hook('after_val_epoch', metrics=all_metrics)
 
         self.runner.call_hook('after_val')
+        return all_metrics
-- 
2.43.0


From 818cc91bec0e0990838e4d57985d4271222e5c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:29 +0000
Subject: [PATCH 112/126] fix: IterMultiLoader ended endless loaders together
 with finite ones

---
 mmrazor/engine/runner/darts_loop.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/mmrazor/engine/runner/darts_loop.py b/mmrazor/engine/runner/darts_loop.py
index e7e930b..3d9d51b 100644
--- a/mmrazor/engine/runner/darts_loop.py
+++ b/mmrazor/engine/runner/darts_loop.py
@@ -158,12 +158,12 @@ class IterMultiLoader:
         self._dataloaders = dataloaders if isinstance(dataloaders,
                                                       list) else [dataloaders]
         self.iter_loaders = [iter(loader) for loader in self._dataloaders]
-        self._epoch = 0
+        self._epochs = [0] * len(self._dataloaders)
 
     @property
     def epoch(self):
-        """The property of the class."""
-        return self._epoch
+        """The number of times the shortest loader was restarted."""
+        return max(self._epochs)
 
     @property
     def num_loaders(self):
@@ -172,17 +172,19 @@ class IterMultiLoader:
 
     def __next__(self):
         """Get the next iter's data of multiple loaders."""
+        return tuple([self._next(i) for i in range(self.num_loaders)])
+
+    def _next(self, i: int):
+        """Get the next data of a loader, which is restarted at its end."""
         try:
-            data = tuple([next(loader) for loader in self.iter_loaders])
+            return next(self.iter_loaders[i])
         except StopIteration:
-            self._epoch += 1
-            for loader in self._dataloaders:
-                if hasattr(loader.sampler, 'set_epoch'):
-                    loader.sampler.set_epoch(self._epoch)
-            self.iter_loaders = [iter(loader) for loader in self._dataloaders]
-            data = tuple([next(loader) for loader in self.iter_loaders])
-
-        return data
+            self._epochs[i] += 1
+            loader = self._dataloaders[i]
+            if hasattr(loader.sampler, 'set_epoch'):
+                loader.sampler.set_epoch(self._epochs[i])
+            self.iter_loaders[i] = iter(loader)
+            return next(self.iter_loaders[i])
 
     def __len__(self):
         """Get the length of loader."""
-- 
2.43.0


From 0132e836122b0e94f0b6a9bf58144f09fd190b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:29 +0000
Subject: [PATCH 113/126] fix: AutoSlimGreedySearchLoop lost the target found
 before a crash

---
 mmrazor/engine/runner/autoslim_greedy_search_loop.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/mmrazor/engine/runner/autoslim_greedy_search_loop.py b/mmrazor/engine/runner/autoslim_greedy_search_loop.py
index cf9752c..39e66b4 100644
--- a/mmrazor/engine/runner/autoslim_greedy_search_loop.py
+++ b/mmrazor/engine/runner/autoslim_greedy_search_loop.py
@@ -95,10 +95,7 @@ class AutoSlimGreedySearchLoop(TestLoop):
         if self.resume_from:
             self._resume()
 
-        for target in self.target_flops:
-            if self.resume_from and self.current_flops <= target:
-                continue
-
+        for target in self.target_flops[len(self.searched_subnet):]:
             if self.current_flops <= target:
                 self.searched_subnet.append(self.current_subnet)
                 self.searched_subnet_flops.append(self.current_flops)
-- 
2.43.0


From 70afb2a30db11ca9fc4988c71675e54ce0892e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:09 +0000
Subject: [PATCH 114/126] fix: IndexDict missed overlaps with ranges inside of
 a new one

---
 mmrazor/utils/index_dict.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/mmrazor/utils/index_dict.py b/mmrazor/utils/index_dict.py
index a053024..1f257e0 100644
--- a/mmrazor/utils/index_dict.py
+++ b/mmrazor/utils/index_dict.py
@@ -46,12 +46,7 @@ class IndexDict(OrderedDict):
         else:
             self._assert_is_index(__o)
             start, end = __o
-            existed = False
-            for s, e in self.keys():
-                existed = (s <= start < e or s < end < e or
-                           (s < start and end < e)) or existed
-
-            return existed
+            return any(s < end and start < e for s, e in self.keys())
 
     def _assert_is_index(self, index):
         """Assert the index is an instance of Tuple[int,int]"""
-- 
2.43.0


From df687ce98490f4d8cac7234a8197e85b929edd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:09 +0000
Subject: [PATCH 115/126] fix: BackwardTracer reset the norms of the traced
 model

---
 .../task_modules/tracer/backward_tracer.py    | 22 ++++++++++++++-----
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/mmrazor/models/task_modules/tracer/backward_tracer.py b/mmrazor/models/task_modules/tracer/backward_tracer.py
index f87c760..3c04250 100644
--- a/mmrazor/models/task_modules/tracer/backward_tracer.py
+++ b/mmrazor/models/task_modules/tracer/backward_tracer.py
@@ -167,12 +167,21 @@ class BackwardTracer:
         return share_modules
 
     @staticmethod
-    def _reset_norm_running_stats(model):
+    def _record_norm_running_stats(model):
+        """Record the states changed by calculating the pseudo loss."""
+        return {
+            name: copy.deepcopy(module.state_dict())
+            for name, module in model.named_modules()
+            if isinstance(module, _NormBase)
+        }
+
+    @staticmethod
+    def _reset_norm_running_stats(model, norm_states):
         """As we calculate the pseudo loss during tracing, we need to reset
-        states of parameters."""
-        for module in model.modules():
-            if isinstance(module, _NormBase):
-                module.reset_parameters()
+        states of norms to what they were."""
+        for name, module in model.named_modules():
+            if name in norm_states:
+                module.load_state_dict(norm_states[name])
 
     def trace(self, model):
         """Trace trace the architecture topology of the input model."""
@@ -184,6 +193,7 @@ class BackwardTracer:
 
         self._register_share_module_hook(model)
 
+        norm_states = self._record_norm_running_stats(model)
         pseudo_loss = self.loss_calculator(model)
 
         share_modules = self._find_share_modules(model)
@@ -196,6 +206,6 @@ class BackwardTracer:
         self.backward_trace(pseudo_loss.grad_fn, module2name, param2module,
                             Path(), module_path_list, visited, share_modules)
 
-        self._reset_norm_running_stats(model)
+        self._reset_norm_running_stats(model, norm_states)
 
         return module_path_list
-- 
2.43.0


From e93833426995268705677ee7eafcb65cdce15626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:06 +0000
Subject: [PATCH 116/126] fix: keep at most max_keep_subnets dumped subnets

---
 mmrazor/engine/hooks/dump_subnet_hook.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/mmrazor/engine/hooks/dump_subnet_hook.py b/mmrazor/engine/hooks/dump_subnet_hook.py
index 1aaeaba..509b406 100644
--- a/mmrazor/engine/hooks/dump_subnet_hook.py
+++ b/mmrazor/engine/hooks/dump_subnet_hook.py
@@ -1,8 +1,9 @@
 # Copyright (c) OpenMMLab. All rights reserved.
 import copy
+import os
 import os.path as osp
 from pathlib import Path
-from typing import Optional, Sequence, Union
+from typing import List, Optional, Sequence, Union
 
 from mmengine.dist import master_only
 from mmengine.fileio import FileClient, dump
@@ -61,6 +62,7 @@ class DumpSubnetHook(Hook):
         self.save_last = save_last
         self.args = kwargs
         self.file_client_args = file_client_args
+        self._saved_subnets: List[str] = []
 
     def before_train(self, runner) -> None:
         """Finish all operations, related to checkpoint.
@@ -141,6 +143,16 @@ class DumpSubnetHook(Hook):
 
         dump(subnet_dict, filepath, file_format='yaml')
 
+        # remove the oldest of the saved subnets
+        if filepath in self._saved_subnets:
+            self._saved_subnets.remove(filepath)
+        self._saved_subnets.append(filepath)
+        if self.max_keep_subnets > 0:
+            while len(self._saved_subnets) > self.max_keep_subnets:
+                path = self._saved_subnets.pop(0)
+                if file_client.isfile(path):
+                    os.remove(path)
+
     def after_train_iter(self,
                          runner,
                          batch_idx: int,
-- 
2.43.0


From a4909741cb8c0043aacce3369e41b15fd851e169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:06 +0000
Subject: [PATCH 117/126] fix: estimate resources after every n-th validated
 epoch or batch

---
 mmrazor/engine/hooks/estimate_resources_hook.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mmrazor/engine/hooks/estimate_resources_hook.py b/mmrazor/engine/hooks/estimate_resources_hook.py
index 28f381a..05ec0f6 100644
--- a/mmrazor/engine/hooks/estimate_resources_hook.py
+++ b/mmrazor/engine/hooks/estimate_resources_hook.py
@@ -61,7 +61,8 @@ class EstimateResourcesHook(Hook):
         if not self.by_epoch:
             return
 
-        if self.every_n_epochs(runner, self.interval):
+        # the epoch is already counted when it is validated
+        if self.interval > 0 and runner.epoch % self.interval == 0:
             self.estimate_resources(runner)
 
     def after_val_iter(self,
@@ -78,7 +79,7 @@ class EstimateResourcesHook(Hook):
         if self.by_epoch:
             return
 
-        if self.every_n_train_iters(runner, self.interval):
+        if self.every_n_inner_iters(batch_idx, self.interval):
             self.estimate_resources(runner)
 
     def estimate_resources(self, runner) -> None:
-- 
2.43.0


From 90d5e02c55c2455074e5e0310247e589cb316ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:06 +0000
Subject: [PATCH 118/126] fix: converters of checkpoints replace the leading
 prefix only

---
 tools/model_converters/convert_kd_ckpt.py            | 10 +++++-----
 tools/model_converters/convert_kd_ckpt_to_student.py |  2 +-
 tools/model_converters/convert_quant_ckpt.py         |  2 +-
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/tools/model_converters/convert_kd_ckpt.py b/tools/model_converters/convert_kd_ckpt.py
index c6e9665..f1d4eb8 100644
--- a/tools/model_converters/convert_kd_ckpt.py
+++ b/tools/model_converters/convert_kd_ckpt.py
@@ -21,11 +21,11 @@ def main():
     new_state_dict = dict()
 
     for key, value in checkpoint['state_dict'].items():
-        if key.startswith('architecture.model.distiller.teacher'):
-            new_key = key.replace('architecture.model.distiller.teacher',
-                                  'architecture.teacher')
-        elif key.startswith('architecture.model'):
-            new_key = key.replace('architecture.model', 'architecture')
+        if key.startswith('architecture.model.distiller.teacher.'):
+            new_key = key.replace('architecture.model.distiller.teacher.',
+                                  'architecture.teacher.', 1)
+        elif key.startswith('architecture.model.'):
+            new_key = key.replace('architecture.model.', 'architecture.', 1)
         else:
             new_key = key
 
diff --git a/tools/model_converters/convert_kd_ckpt_to_student.py b/tools/model_converters/convert_kd_ckpt_to_student.py
index e44f66d..9938b45 100644
--- a/tools/model_converters/convert_kd_ckpt_to_student.py
+++ b/tools/model_converters/convert_kd_ckpt_to_student.py
@@ -24,7 +24,7 @@ def main():
 
     for key, value in checkpoint['state_dict'].items():
         if key.startswith('architecture.'):
-            new_key = key.replace('architecture.', '')
+            new_key = key.replace('architecture.', '', 1)
             new_state_dict[new_key] = value
 
     checkpoint = dict()
diff --git a/tools/model_converters/convert_quant_ckpt.py b/tools/model_converters/convert_quant_ckpt.py
index 9fbb061..7754a04 100644
--- a/tools/model_converters/convert_quant_ckpt.py
+++ b/tools/model_converters/convert_quant_ckpt.py
@@ -24,7 +24,7 @@ def main():
 
     for key, value in checkpoint['state_dict'].items():
         if key.startswith('qmodels.predict.'):
-            new_key = key.replace('qmodels.predict.', '')
+            new_key = key.replace('qmodels.predict.', '', 1)
             if '_val' in new_key and 'weight_fake_quant' in new_key:
                 new_key = new_key.replace('_val', '_vals')
             new_state_dict[new_key] = value
-- 
2.43.0


From c44a37f5549c4d8751ebc3ac9a9c1babf2397ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:06 +0000
Subject: [PATCH 119/126] fix: convert the weights of the given supernet
 checkpoint

---
 tools/model_converters/convert_supernet2subnet.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tools/model_converters/convert_supernet2subnet.py b/tools/model_converters/convert_supernet2subnet.py
index b9f39a5..57084e5 100644
--- a/tools/model_converters/convert_supernet2subnet.py
+++ b/tools/model_converters/convert_supernet2subnet.py
@@ -43,6 +43,7 @@ def main():
     cfg.work_dir = '/'.join(args.checkpoint.split('/')[:-1])
 
     runner = Runner.from_cfg(cfg)
+    runner.load_checkpoint(args.checkpoint)
 
     load_fix_subnet(runner.model, args.yaml)
 
-- 
2.43.0


From 225922686cf1b8e7a253d5e11a228d4e15af2910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:06 +0000
Subject: [PATCH 120/126] fix: skip checkpoints without a number when finding
 the latest

---
 mmrazor/utils/misc.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mmrazor/utils/misc.py b/mmrazor/utils/misc.py
index 1c12b21..5f03500 100644
--- a/mmrazor/utils/misc.py
+++ b/mmrazor/utils/misc.py
@@ -31,7 +31,11 @@ def find_latest_checkpoint(path, suffix='pth'):
     latest = -1
     latest_path = None
     for checkpoint in checkpoints:
-        count = int(osp.basename(checkpoint).split('_')[-1].split('.')[0])
+        count_str = osp.basename(checkpoint).split('_')[-1].split('.')[0]
+        if not count_str.isdecimal():
+            # not a checkpoint of an epoch or an iteration
+            continue
+        count = int(count_str)
         if count > latest:
             latest = count
             latest_path = checkpoint
-- 
2.43.0


From c67e48c16d84da2906b7f19c0f76e623f5e83aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:06 +0000
Subject: [PATCH 121/126] fix: draw feature maps in evaluation mode

---
 mmrazor/engine/hooks/visualization_hook.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mmrazor/engine/hooks/visualization_hook.py b/mmrazor/engine/hooks/visualization_hook.py
index a52145b..84084af 100644
--- a/mmrazor/engine/hooks/visualization_hook.py
+++ b/mmrazor/engine/hooks/visualization_hook.py
@@ -163,8 +163,13 @@ class RazorVisualizationHook(Hook):
             data_['inputs'] = [data_['inputs']]
             data_['data_samples'] = [data_['data_samples']]
 
+            # drawing must not change the statistics of the trained model
+            modes = {m: m.training for m in runner.model.modules()}
+            runner.model.eval()
             with torch.no_grad(), self.recorder_manager:
                 runner.model.test_step(data_)
+            for module, training in modes.items():
+                module.training = training
 
             if self.is_overlaid:
                 img_bytes = self.file_client.get(img_path)
-- 
2.43.0


From b7927e7f1f9987047a42c502e79f665422607779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:47 +0000
Subject: [PATCH 122/126] fix: DSNASDDP did not reduce the gradients of the
 arch params

---
 mmrazor/models/algorithms/nas/dsnas.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/mmrazor/models/algorithms/nas/dsnas.py b/mmrazor/models/algorithms/nas/dsnas.py
index 18ed4b9..f5dd570 100644
--- a/mmrazor/models/algorithms/nas/dsnas.py
+++ b/mmrazor/models/algorithms/nas/dsnas.py
@@ -5,7 +5,7 @@ from typing import Any, Dict, List, Optional, Union
 
 import torch
 import torch.nn.functional as F
-from mmengine.dist import broadcast, get_dist_info
+from mmengine.dist import all_reduce_params, broadcast, get_dist_info
 from mmengine.logging import MessageHub
 from mmengine.model import BaseModel, MMDistributedDataParallel
 from mmengine.optim import OptimWrapper, OptimWrapperDict
@@ -327,7 +327,7 @@ class DSNASDDP(MMDistributedDataParallel):
                     mutator_loss = self.module.compute_mutator_loss()
                 mutator_losses, mutator_log_vars = \
                     self.module.parse_losses(mutator_loss)
-                optim_wrapper['mutator'].update_params(mutator_losses)
+                self._update_mutator(mutator_losses, optim_wrapper['mutator'])
                 log_vars.update(add_prefix(mutator_log_vars, 'mutator'))
 
         else:
@@ -341,3 +341,20 @@ class DSNASDDP(MMDistributedDataParallel):
             optim_wrapper.update_params(parsed_losses)
 
         return log_vars
+
+    def _update_mutator(self, loss: torch.Tensor,
+                        optim_wrapper: OptimWrapper) -> None:
+        """Update the arch params with the gradients of all ranks.
+
+        The mutator loss is not computed by the forward of the wrapper, which
+        thus does not reduce its gradients.
+        """
+        optim_wrapper.backward(optim_wrapper.scale_loss(loss))
+        if optim_wrapper.should_update():
+            # the loss is divided by the world size already
+            all_reduce_params([
+                param.grad for param in self.module.mutator.parameters()
+                if param.grad is not None
+            ])
+            optim_wrapper.step()
+            optim_wrapper.zero_grad()
-- 
2.43.0


From 669627e120c515aaa20213d1818269bf10fca76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:09 +0000
Subject: [PATCH 123/126] fix: preparing a network for pruning dropped its
 weights

---
 .../mutables/mutable_channel/units/mutable_channel_unit.py     | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mmrazor/models/mutables/mutable_channel/units/mutable_channel_unit.py b/mmrazor/models/mutables/mutable_channel/units/mutable_channel_unit.py
index 40963d9..41d42a2 100644
--- a/mmrazor/models/mutables/mutable_channel/units/mutable_channel_unit.py
+++ b/mmrazor/models/mutables/mutable_channel/units/mutable_channel_unit.py
@@ -229,6 +229,9 @@ class MutableChannelUnit(ChannelUnit):
                 if type(module) in dynamicop_map:
                     new_module = dynamicop_map[type(module)].convert_from(
                         module).to(get_module_device(module))
+                    # the weights may be loaded before
+                    new_module.load_state_dict(
+                        module.state_dict(), strict=False)
                     new_module.train(module.training)
                     replace_op(model, channel.name, new_module)
                     channel.module = new_module
-- 
2.43.0


From b7e7263165c84e7aea660eb45c769ce96577b75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:12 +0000
Subject: [PATCH 124/126] fix: FpnTeacherDistill ignored calculate_student_loss
 and student_trainable

---
 .../configurable/fpn_teacher_distill.py        | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/mmrazor/models/algorithms/distill/configurable/fpn_teacher_distill.py b/mmrazor/models/algorithms/distill/configurable/fpn_teacher_distill.py
index 4a70274..cfc2628 100644
--- a/mmrazor/models/algorithms/distill/configurable/fpn_teacher_distill.py
+++ b/mmrazor/models/algorithms/distill/configurable/fpn_teacher_distill.py
@@ -44,10 +44,20 @@ class FpnTeacherDistill(SingleTeacherDistill):
         # If the `override_data` of a delivery is True, the delivery will
         # override the origin data with the recorded data.
         self.distiller.set_deliveries_override(True)
-        with self.distiller.student_recorders, self.distiller.deliveries:
-            student_losses = self.student(
-                batch_inputs, data_samples, mode='loss')
-        losses.update(add_prefix(student_losses, 'student'))
+        # Original task loss will not be used during some pretraining process.
+        if self.calculate_student_loss:
+            with self.distiller.student_recorders, self.distiller.deliveries:
+                student_losses = self.student(
+                    batch_inputs, data_samples, mode='loss')
+            losses.update(add_prefix(student_losses, 'student'))
+        else:
+            with self.distiller.student_recorders, self.distiller.deliveries:
+                if self.student_trainable:
+                    _ = self.student(batch_inputs, data_samples, mode='loss')
+                else:
+                    with torch.no_grad():
+                        _ = self.student(
+                            batch_inputs, data_samples, mode='loss')
 
         if not self.distillation_stopped:
             # Automatically compute distill losses based on
-- 
2.43.0


From b1a0bf37cb1b4e68d00edda5546f859d1304bf9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:32 +0000
Subject: [PATCH 125/126] fix: exporting to OpenVINO removed constants twice

---
 mmrazor/models/quantizers/exporters/base_quantize_exporter.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mmrazor/models/quantizers/exporters/base_quantize_exporter.py b/mmrazor/models/quantizers/exporters/base_quantize_exporter.py
index 6527d32..a34a2c8 100644
--- a/mmrazor/models/quantizers/exporters/base_quantize_exporter.py
+++ b/mmrazor/models/quantizers/exporters/base_quantize_exporter.py
@@ -131,8 +131,7 @@ class BaseQuantizeExportor():
         collected_constant_names = set()
         constant_inputs = list()
         for node in symbolic_nodes:
-            constant_inputs = self._get_constant_inputs(node)
-            for constant in constant_inputs:
+            for constant in self._get_constant_inputs(node):
                 if constant.name in collected_constant_names:
                     continue
                 constant_inputs.append(constant)
-- 
2.43.0


From b54abe15a596e9fbbd35ef16d13ca70522f46c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:24 +0000
Subject: [PATCH 126/126] fix: exported per-channel quantizers had no axis

---
 .../exporters/tensorrt_quantize_exporter.py           | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/mmrazor/models/quantizers/exporters/tensorrt_quantize_exporter.py b/mmrazor/models/quantizers/exporters/tensorrt_quantize_exporter.py
index cde430b..5411935 100644
--- a/mmrazor/models/quantizers/exporters/tensorrt_quantize_exporter.py
+++ b/mmrazor/models/quantizers/exporters/tensorrt_quantize_exporter.py
@@ -7,7 +7,8 @@ except ImportError:
     from mmrazor.utils import get_package_placeholder
     onnx = get_package_placeholder('No module named onnx')
 
-from .base_quantize_exporter import BaseQuantizeExportor
+from .base_quantize_exporter import (PERCHANNEL_FAKEQUANTIZER,
+                                     BaseQuantizeExportor)
 
 
 class TensorRTExplicitExporter(BaseQuantizeExportor):
@@ -16,13 +17,17 @@ class TensorRTExplicitExporter(BaseQuantizeExportor):
         super().__init__(onnx_model, export_path)
 
     def _build_backend_node_from_symbolic(self, node):
+        attrs = {}
+        if node.op_type in PERCHANNEL_FAKEQUANTIZER and len(node.input) > 5:
+            # the default axis of onnx is 1
+            attrs['axis'] = int(self.name2data[node.input[3]])
         quantize_linear_node = onnx.helper.make_node(
             'QuantizeLinear', node.input[:3], [node.name + '_quantized_out'],
-            node.name + '_quantized')
+            node.name + '_quantized', **attrs)
         dequantize_linear_node = onnx.helper.make_node(
             'DequantizeLinear',
             [node.name + '_quantized_out'] + quantize_linear_node.input[1:3],
-            node.output, node.name + '_dequantized')
+            node.output, node.name + '_dequantized', **attrs)
         return [quantize_linear_node, dequantize_linear_node]
 
     def build_backend_nodes(self, symbolic_nodes):
-- 
2.43.0

