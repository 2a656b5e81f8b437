From 9fc020476a126c862c7d4309fcc8eec6ff0e4ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:04 +0000
Subject: [PATCH 1/5] fix: fall back when a stored lookup table cannot be
 loaded

A lookup table in the disk cache that is damaged, incomplete (e.g. because a
process crashed while storing it), unreadable, or removed between checking for
its existence and opening it made every lookup fail; some kinds of damage to
the tables included with the package (zlib.error, EOFError,
NotImplementedError, ...) were not caught either. Loading now falls back to the
table included with the package, and to generating it.
---
 e3x/so3/_lookup_table_generation_utility.py | 36 +++++++++++++--------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/e3x/so3/_lookup_table_generation_utility.py b/e3x/so3/_lookup_table_generation_utility.py
index 44dd3f9..5041706 100644
--- a/e3x/so3/_lookup_table_generation_utility.py
+++ b/e3x/so3/_lookup_table_generation_utility.py
@@ -17,7 +17,6 @@
 import io
 import pkgutil
 from typing import Any, Callable, Dict, IO, Optional, Tuple
-import zipfile
 from absl import logging
 from etils import epath
 import numpy as np
@@ -56,23 +55,32 @@ def _load_lookup_table_from_disk(
   """
   # Load cached lookup table from path specified in Config.
   if config_cache_path is not None and config_cache_path.exists():
-    with config_cache_path.open('rb') as f:
-      return load_from_cache(f)
-  else:  # Load pre-computed lookup table included with package.
     try:
-      f = io.BytesIO(pkgutil.get_data(__name__, package_cache_path))
-      return load_from_cache(f)
-    except (zipfile.BadZipFile, OSError, IOError, KeyError, ValueError):
+      with config_cache_path.open('rb') as f:
+        return load_from_cache(f)
+    except Exception:  # pylint: disable=broad-exception-caught
+      # The file may be damaged, incomplete, unreadable, or already removed.
       logging.exception(
-          (
-              'Failed to load pre-computed %s lookup table included with the %s'
-              ' package (data may be corrupted). Consider re-installing the'
-              ' package to fix this problem.'
-          ),
+          "Failed to load %s lookup table from '%s'. Continuing anyway...",
           lookup_table_name,
-          __name__,
+          config_cache_path,
       )
-      return -1, init_empty_lookup_table(max_degree)
+  # Load pre-computed lookup table included with package.
+  try:
+    f = io.BytesIO(pkgutil.get_data(__name__, package_cache_path))
+    return load_from_cache(f)
+  except Exception:  # pylint: disable=broad-exception-caught
+    # Depending on how the data is damaged, many different errors are possible.
+    logging.exception(
+        (
+            'Failed to load pre-computed %s lookup table included with the %s'
+            ' package (data may be corrupted). Consider re-installing the'
+            ' package to fix this problem.'
+        ),
+        lookup_table_name,
+        __name__,
+    )
+    return -1, init_empty_lookup_table(max_degree)
 
 
 def _print_cache_usage_information(
-- 
2.43.0


From ed89f7520023bc4a35fa7bf2cca2337189319841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:04 +0000
Subject: [PATCH 2/5] fix: store lookup tables atomically

Saving a lookup table truncated the existing file first, so that a crash or a
failing write destroyed a previously stored table, and other processes could
read a partially written one. Errors other than OSError (zipfile raises
ValueError after some failed writes) even made the lookup itself fail. The
table is now written to a temporary file that replaces the cache file.
---
 e3x/so3/_lookup_table_generation_utility.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/e3x/so3/_lookup_table_generation_utility.py b/e3x/so3/_lookup_table_generation_utility.py
index 5041706..6399e68 100644
--- a/e3x/so3/_lookup_table_generation_utility.py
+++ b/e3x/so3/_lookup_table_generation_utility.py
@@ -14,9 +14,11 @@
 
 """Common utility code used to generate lookup tables."""
 
+import contextlib
 import io
 import pkgutil
 from typing import Any, Callable, Dict, IO, Optional, Tuple
+import uuid
 from absl import logging
 from etils import epath
 import numpy as np
@@ -160,10 +162,21 @@ def _save_lookup_table_to_disk(
   """
   logging.info('Saving %s lookup table to disk.', lookup_table_name)
   if config_cache_path is not None:
+    # Write to a temporary file, such that a complete lookup table is visible at
+    # config_cache_path at all times, even if saving fails or is interrupted.
+    tmp_path = config_cache_path.with_name(
+        f'{config_cache_path.name}.{uuid.uuid4().hex}.tmp'
+    )
     try:
-      with config_cache_path.open('wb') as f:
-        np.savez_compressed(f, **lookup_table)
-    except (OSError, IOError):
+      try:
+        with tmp_path.open('wb') as f:
+          np.savez_compressed(f, **lookup_table)
+        tmp_path.replace(config_cache_path)
+      except BaseException:
+        with contextlib.suppress(OSError):
+          tmp_path.unlink()
+        raise
+    except Exception:  # pylint: disable=broad-exception-caught
       logging.exception(
           "Failed to save %s lookup table to '%s'. Continuing anyway...",
           lookup_table_name,
-- 
2.43.0


From 5c33e496d122d1fc9636b2450e71136d97ae5e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:08 +0000
Subject: [PATCH 3/5] fix: raise RuntimeError for every unreadable quadrature
 grid file

---
 e3x/so3/quadrature.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/e3x/so3/quadrature.py b/e3x/so3/quadrature.py
index 2daad00..f568f8f 100644
--- a/e3x/so3/quadrature.py
+++ b/e3x/so3/quadrature.py
@@ -17,7 +17,6 @@ r"""Quadrature rules for approximating surface integrals of the unit sphere."""
 import io
 import pkgutil
 from typing import Literal, Optional
-import zipfile
 from absl import logging
 import jax.numpy as jnp
 import jaxtyping
@@ -87,7 +86,7 @@ def _load_grid(
           jnp.asarray(quadrature_grids[f'r{i}']),
           jnp.asarray(quadrature_grids[f'w{i}']),
       )
-  except (zipfile.BadZipFile, OSError, IOError, KeyError, ValueError) as exc:
+  except Exception as exc:  # Which error occurs depends on the damage.
     raise RuntimeError(
         f'failed to load {kind} quadrature grids included with the  {__name__}'
         ' package (data may be corrupted), consider re-installing the package'
-- 
2.43.0


From 4f83996ad28c9a9c94df8eefb1f14f246cc9a99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:46 +0000
Subject: [PATCH 4/5] fix: resolve configured defaults at call time instead of
 import time

---
 e3x/nn/modules.py    | 24 ++++++++++++++++++------
 e3x/nn/wrappers.py   |  5 ++++-
 e3x/so3/irreps.py    | 40 +++++++++++++++++++++++++++++++---------
 e3x/so3/rotations.py |  6 ++++--
 4 files changed, 57 insertions(+), 18 deletions(-)

diff --git a/e3x/nn/modules.py b/e3x/nn/modules.py
index 937a089..9e01938 100644
--- a/e3x/nn/modules.py
+++ b/e3x/nn/modules.py
@@ -409,7 +409,9 @@ class Tensor(nn.Module):
 
   max_degree: Optional[int] = None
   include_pseudotensors: bool = True
-  cartesian_order: bool = Config.cartesian_order
+  cartesian_order: bool = dataclasses.field(
+      default_factory=lambda: Config.cartesian_order
+  )
   dtype: Optional[Dtype] = None
   param_dtype: Dtype = jnp.float32
   precision: PrecisionLike = None
@@ -740,7 +742,9 @@ class FusedTensor(nn.Module):
 
   max_degree: Optional[int] = None
   include_pseudotensors: bool = True
-  cartesian_order: bool = Config.cartesian_order
+  cartesian_order: bool = dataclasses.field(
+      default_factory=lambda: Config.cartesian_order
+  )
   dtype: Optional[Dtype] = None
   param_dtype: Dtype = jnp.float32
   precision: PrecisionLike = None
@@ -1142,8 +1146,12 @@ class TensorDense(nn.Module):
   max_degree: Optional[int] = None
   use_bias: bool = True
   include_pseudotensors: bool = True
-  cartesian_order: bool = Config.cartesian_order
-  use_fused_tensor: bool = Config.use_fused_tensor
+  cartesian_order: bool = dataclasses.field(
+      default_factory=lambda: Config.cartesian_order
+  )
+  use_fused_tensor: bool = dataclasses.field(
+      default_factory=lambda: Config.use_fused_tensor
+  )
   dtype: Optional[Dtype] = None
   param_dtype: Dtype = jnp.float32
   precision: PrecisionLike = None
@@ -1239,8 +1247,12 @@ class _Conv(nn.Module):
   max_degree: Optional[int] = None
   use_basis_bias: bool = False
   include_pseudotensors: bool = True
-  cartesian_order: bool = Config.cartesian_order
-  use_fused_tensor: bool = Config.use_fused_tensor
+  cartesian_order: bool = dataclasses.field(
+      default_factory=lambda: Config.cartesian_order
+  )
+  use_fused_tensor: bool = dataclasses.field(
+      default_factory=lambda: Config.use_fused_tensor
+  )
   dtype: Optional[Dtype] = None
   param_dtype: Dtype = jnp.float32
   precision: PrecisionLike = None
diff --git a/e3x/nn/wrappers.py b/e3x/nn/wrappers.py
index af7c204..664d368 100644
--- a/e3x/nn/wrappers.py
+++ b/e3x/nn/wrappers.py
@@ -58,7 +58,7 @@ def basis(
     damping_fn: Optional[
         Callable[[Float[Array, '...']], Float[Array, '...']]
     ] = None,
-    cartesian_order: bool = config.Config.cartesian_order,
+    cartesian_order: Optional[bool] = None,
 ) -> Union[
     Float[Array, '... 1 (max_degree+1)**2 num'],
     Tuple[Float[Array, '... 1 (max_degree+1)**2 num'], Float[Array, '...']],
@@ -170,6 +170,9 @@ def basis(
     (a tuple of basis function values and cutoff values and/or norms is
     returned).
   """
+  if cartesian_order is None:
+    cartesian_order = config.Config.cartesian_order
+
   # Check that r is a collection of 3-vectors.
   if r.shape[-1] != 3:
     raise ValueError(f'r must have shape (..., 3), received shape {r.shape}')
diff --git a/e3x/so3/irreps.py b/e3x/so3/irreps.py
index a7079b7..fa05cb3 100755
--- a/e3x/so3/irreps.py
+++ b/e3x/so3/irreps.py
@@ -15,6 +15,7 @@
 r"""Functions related to irreducible representations of rotations."""
 
 import itertools
+from typing import Optional
 from e3x import ops
 from e3x.config import Config
 import jax
@@ -42,8 +43,8 @@ def spherical_harmonics(
     r: Float[Array, '... 3'],
     max_degree: int,
     r_is_normalized: bool = False,
-    cartesian_order: bool = Config.cartesian_order,
-    normalization: Normalization = Config.normalization,
+    cartesian_order: Optional[bool] = None,
+    normalization: Optional[Normalization] = None,
 ) -> Float[Array, '... (max_degree+1)**2']:
   r"""Real Cartesian spherical harmonics :math:`Y_\ell^m(\vec{r})`.
 
@@ -132,6 +133,11 @@ def spherical_harmonics(
     ValueError: If ``r`` has an invalid shape (not a 3-vector), ``max_degree``
     is not positive or zero, or ``normalization`` has an invalid value.
   """
+  if cartesian_order is None:
+    cartesian_order = Config.cartesian_order
+  if normalization is None:
+    normalization = Config.normalization
+
   # Perform checks.
   if r.shape[-1] != 3:
     raise ValueError(f'r must have shape (..., 3), received shape {r.shape}')
@@ -173,7 +179,7 @@ def spherical_harmonics(
 def solid_harmonics(
     r: Float[Array, '... 3'],
     max_degree: int,
-    cartesian_order: bool = Config.cartesian_order,
+    cartesian_order: Optional[bool] = None,
 ) -> Float[Array, '... (max_degree+1)**2']:
   r"""Real Cartesian (regular) solid harmonics :math:`R_\ell^m(\vec{r})`.
 
@@ -221,7 +227,7 @@ def clebsch_gordan(
     max_degree1: int,
     max_degree2: int,
     max_degree3: int,
-    cartesian_order: bool = Config.cartesian_order,
+    cartesian_order: Optional[bool] = None,
 ) -> Float[Array, '(max_degree1+1)**2 (max_degree2+1)**2 (max_degree3+1)**2']:
   r"""Clebsch-Gordan coefficients for coupling all degrees at once.
 
@@ -243,6 +249,9 @@ def clebsch_gordan(
     ValueError: If ``max_degree1``, ``max_degree2``, or ``max_degree3`` are not
       positive or zero.
   """
+  if cartesian_order is None:
+    cartesian_order = Config.cartesian_order
+
   # Perform checks.
   _check_degree_is_positive_or_zero(max_degree1)
   _check_degree_is_positive_or_zero(max_degree2)
@@ -274,7 +283,7 @@ def clebsch_gordan_for_degrees(
     degree1: int,
     degree2: int,
     degree3: int,
-    cartesian_order: bool = Config.cartesian_order,
+    cartesian_order: Optional[bool] = None,
 ) -> Float[Array, '2*degree1+1 2*degree2+1 2*degree3+1']:
   r"""Clebsch-Gordan coefficients for coupling only specific degrees.
 
@@ -295,6 +304,9 @@ def clebsch_gordan_for_degrees(
     ValueError: If ``degree1``, ``degree2``, or ``degree3`` are not positive or
       zero.
   """
+  if cartesian_order is None:
+    cartesian_order = Config.cartesian_order
+
   # Perform checks.
   _check_degree_is_positive_or_zero(degree1)
   _check_degree_is_positive_or_zero(degree2)
@@ -423,8 +435,8 @@ def _tensor_compression_indices(
 def tensor_to_irreps(
     x: Float[Array, '...'],  # Last degree dimensions must all have size 3.
     degree: int,
-    cartesian_order: bool = Config.cartesian_order,
-    normalization: Normalization = Config.normalization,
+    cartesian_order: Optional[bool] = None,
+    normalization: Optional[Normalization] = None,
 ):
   """Converts a traceless symmetric tensor to irreducible representations.
 
@@ -449,6 +461,11 @@ def tensor_to_irreps(
     ValueError: If ``degree`` is not positive or zero, the shape of ``x`` is
     inconsistent with ``degree`` or ``normalization`` has an invalid value.
   """
+  if cartesian_order is None:
+    cartesian_order = Config.cartesian_order
+  if normalization is None:
+    normalization = Config.normalization
+
   # Perform checks.
   _check_degree_is_positive_or_zero(degree)
   _check_tensor_shape(x, degree)
@@ -509,8 +526,8 @@ def _tensor_expansion_indices(degree) -> Integer[Array, '...']:
 def irreps_to_tensor(
     x: Float[Array, '... 2*degree+1'],
     degree: int,
-    cartesian_order: bool = Config.cartesian_order,
-    normalization: Normalization = Config.normalization,
+    cartesian_order: Optional[bool] = None,
+    normalization: Optional[Normalization] = None,
 ):
   """Converts irreducible representations to a traceless symmetric tensor.
 
@@ -529,6 +546,11 @@ def irreps_to_tensor(
     ValueError: If ``degree`` is not positive or zero, the shape of ``x`` is
       inconsistent with ``degree`` or ``normalization`` has an invalid value.
   """
+  if cartesian_order is None:
+    cartesian_order = Config.cartesian_order
+  if normalization is None:
+    normalization = Config.normalization
+
   # Perform checks.
   _check_degree_is_positive_or_zero(degree)
   if x.shape[-1] != 2 * degree + 1:
diff --git a/e3x/so3/rotations.py b/e3x/so3/rotations.py
index 267bfd2..1d7032b 100755
--- a/e3x/so3/rotations.py
+++ b/e3x/so3/rotations.py
@@ -15,7 +15,7 @@
 """Functions for generating rotation matrices."""
 
 import functools
-from typing import Tuple, Union
+from typing import Optional, Tuple, Union
 from e3x import ops
 from e3x.config import Config
 import jax
@@ -373,7 +373,7 @@ def _wigner_d_euler(
 def wigner_d(
     rot: Float[Array, '... 3 3'],
     max_degree: int,
-    cartesian_order: bool = Config.cartesian_order,
+    cartesian_order: Optional[bool] = None,
 ) -> Float[Array, '... (max_degree+1)**2 (max_degree+1)**2']:
   r"""Wigner-D matrix corresponding to a given :math:`3\times3` rotation matrix.
 
@@ -409,6 +409,8 @@ def wigner_d(
   Raises:
     ValueError: If ``rot`` does not have shape `(..., 3, 3)`.
   """
+  if cartesian_order is None:
+    cartesian_order = Config.cartesian_order
   _check_rotation_matrix_shape(rot)  # Raise if shape is not (..., 3, 3).
 
   with jax.ensure_compile_time_eval():
-- 
2.43.0


From 04731be0934ad274c63b93454725c061d9329e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:05 +0000
Subject: [PATCH 5/5] fix: read the configured cache path once per lookup

If another thread changed the path while a table was being generated, the table
was loaded from one cache and stored in the other, which could replace a table
of higher degree there.
---
 e3x/so3/_clebsch_gordan_lut.py      | 9 ++++++---
 e3x/so3/_spherical_harmonics_lut.py | 9 ++++++---
 e3x/so3/_tensor_conversion_lut.py   | 9 ++++++---
 e3x/so3/_wigner_d_lut.py            | 9 ++++++---
 4 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/e3x/so3/_clebsch_gordan_lut.py b/e3x/so3/_clebsch_gordan_lut.py
index 474d304..fd6cbd3 100644
--- a/e3x/so3/_clebsch_gordan_lut.py
+++ b/e3x/so3/_clebsch_gordan_lut.py
@@ -124,11 +124,14 @@ def _generate_clebsch_gordan_lookup_table(
         i2=i2,
     )
 
+  # The path is read only once, because other threads may set it meanwhile.
+  config_cache_path = Config.clebsch_gordan_cache
+
   # Load cache stored on disk.
   cached_max_degree, lookup_table = _load_lookup_table_from_disk(
       max_degree=max_degree,
       lookup_table_name=_clebsch_gordan_lut_name,
-      config_cache_path=Config.clebsch_gordan_cache,
+      config_cache_path=config_cache_path,
       package_cache_path=_clebsch_gordan_lut_path,
       load_from_cache=_load_from_cache,
       init_empty_lookup_table=_init_empty_lookup_table,
@@ -145,7 +148,7 @@ def _generate_clebsch_gordan_lookup_table(
   _print_cache_usage_information(
       lstart=lstart,
       max_degree=max_degree,
-      config_cache_path=Config.clebsch_gordan_cache,
+      config_cache_path=config_cache_path,
       set_cache_method_name='set_clebsch_gordan_cache',
       lookup_table_name=_clebsch_gordan_lut_name,
       pregeneration_name=__name__,
@@ -184,7 +187,7 @@ def _generate_clebsch_gordan_lookup_table(
   _save_lookup_table_to_disk(
       lookup_table=_compress(lookup_table),
       lookup_table_name=_clebsch_gordan_lut_name,
-      config_cache_path=Config.clebsch_gordan_cache,
+      config_cache_path=config_cache_path,
   )
 
   return lookup_table
diff --git a/e3x/so3/_spherical_harmonics_lut.py b/e3x/so3/_spherical_harmonics_lut.py
index a6fb5dd..dcc2122 100644
--- a/e3x/so3/_spherical_harmonics_lut.py
+++ b/e3x/so3/_spherical_harmonics_lut.py
@@ -141,11 +141,14 @@ def _generate_spherical_harmonics_lookup_table(
         i1=i1,
     )
 
+  # The path is read only once, because other threads may set it meanwhile.
+  config_cache_path = Config.spherical_harmonics_cache
+
   # Load cache stored on disk.
   cached_max_degree, lookup_table = _load_lookup_table_from_disk(
       max_degree=max_degree,
       lookup_table_name=_spherical_harmonics_lut_name,
-      config_cache_path=Config.spherical_harmonics_cache,
+      config_cache_path=config_cache_path,
       package_cache_path=_spherical_harmonics_lut_path,
       load_from_cache=_load_from_cache,
       init_empty_lookup_table=_init_empty_lookup_table,
@@ -162,7 +165,7 @@ def _generate_spherical_harmonics_lookup_table(
   _print_cache_usage_information(
       lstart=lstart,
       max_degree=max_degree,
-      config_cache_path=Config.spherical_harmonics_cache,
+      config_cache_path=config_cache_path,
       set_cache_method_name='set_spherical_harmonics_cache',
       lookup_table_name=_spherical_harmonics_lut_name,
       pregeneration_name=__name__,
@@ -203,7 +206,7 @@ def _generate_spherical_harmonics_lookup_table(
   _save_lookup_table_to_disk(
       lookup_table=_compress(lookup_table),
       lookup_table_name=_spherical_harmonics_lut_name,
-      config_cache_path=Config.spherical_harmonics_cache,
+      config_cache_path=config_cache_path,
   )
 
   return lookup_table
diff --git a/e3x/so3/_tensor_conversion_lut.py b/e3x/so3/_tensor_conversion_lut.py
index 5c56482..4d1ad43 100644
--- a/e3x/so3/_tensor_conversion_lut.py
+++ b/e3x/so3/_tensor_conversion_lut.py
@@ -267,11 +267,14 @@ def _generate_tensor_conversion_lookup_table(
       cache[f't2s{l}'] = lookup_table['t2s'][l]
     return cache
 
+  # The path is read only once, because other threads may set it meanwhile.
+  config_cache_path = Config.tensor_conversion_cache
+
   # Load cache stored on disk.
   cached_max_degree, lookup_table = _load_lookup_table_from_disk(
       max_degree=max_degree,
       lookup_table_name=_tensor_conversion_lut_name,
-      config_cache_path=Config.tensor_conversion_cache,
+      config_cache_path=config_cache_path,
       package_cache_path=_tensor_conversion_lut_path,
       load_from_cache=_load_from_cache,
       init_empty_lookup_table=_init_empty_lookup_table,
@@ -288,7 +291,7 @@ def _generate_tensor_conversion_lookup_table(
   _print_cache_usage_information(
       lstart=lstart,
       max_degree=max_degree,
-      config_cache_path=Config.tensor_conversion_cache,
+      config_cache_path=config_cache_path,
       set_cache_method_name='set_tensor_conversion_cache',
       lookup_table_name=_tensor_conversion_lut_name,
       pregeneration_name=__name__,
@@ -311,7 +314,7 @@ def _generate_tensor_conversion_lookup_table(
   _save_lookup_table_to_disk(
       lookup_table=_unpack_lists(lookup_table),
       lookup_table_name=_tensor_conversion_lut_name,
-      config_cache_path=Config.tensor_conversion_cache,
+      config_cache_path=config_cache_path,
   )
 
   return lookup_table
diff --git a/e3x/so3/_wigner_d_lut.py b/e3x/so3/_wigner_d_lut.py
index 8d5610f..ede19b8 100644
--- a/e3x/so3/_wigner_d_lut.py
+++ b/e3x/so3/_wigner_d_lut.py
@@ -122,11 +122,14 @@ def _generate_wigner_d_lookup_table(
       iwig += nwig
     return cache
 
+  # The path is read only once, because other threads may set it meanwhile.
+  config_cache_path = Config.wigner_d_cache
+
   # Load cache stored on disk.
   cached_max_degree, lookup_table = _load_lookup_table_from_disk(
       max_degree=max_degree,
       lookup_table_name=_wigner_d_lut_name,
-      config_cache_path=Config.wigner_d_cache,
+      config_cache_path=config_cache_path,
       package_cache_path=_wigner_d_lut_path,
       load_from_cache=_load_from_cache,
       init_empty_lookup_table=_init_empty_lookup_table,
@@ -143,7 +146,7 @@ def _generate_wigner_d_lookup_table(
   _print_cache_usage_information(
       lstart=lstart,
       max_degree=max_degree,
-      config_cache_path=Config.wigner_d_cache,
+      config_cache_path=config_cache_path,
       set_cache_method_name='set_wigner_d_cache',
       lookup_table_name=_wigner_d_lut_name,
       pregeneration_name=__name__,
@@ -210,7 +213,7 @@ def _generate_wigner_d_lookup_table(
   _save_lookup_table_to_disk(
       lookup_table=_compress(lookup_table),
       lookup_table_name=_wigner_d_lut_name,
-      config_cache_path=Config.wigner_d_cache,
+      config_cache_path=config_cache_path,
   )
 
   return lookup_table
-- 
2.43.0

