From 693e9fd40d608c8af9b953242dbff34f835649b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:15 +0000
Subject: [PATCH 01/16] fix: boundary penalisation with a one-cell zone

The back-boundary slice -width:(-width + 1) is empty for width 1, so every call
raised a broadcasting error.
---
 .../stencil_ops_2d/penalise_field_boundary_2d.py            | 4 ++--
 .../stencil_ops_3d/penalise_field_boundary_3d.py            | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/sopht/numeric/eulerian_grid_ops/stencil_ops_2d/penalise_field_boundary_2d.py b/sopht/numeric/eulerian_grid_ops/stencil_ops_2d/penalise_field_boundary_2d.py
index bcc0448..f74f2eb 100644
--- a/sopht/numeric/eulerian_grid_ops/stencil_ops_2d/penalise_field_boundary_2d.py
+++ b/sopht/numeric/eulerian_grid_ops/stencil_ops_2d/penalise_field_boundary_2d.py
@@ -131,7 +131,7 @@ def gen_penalise_field_boundary_pyst_kernel_2d(
             # first along X
             # these parts involve broadcasting hence couldn't be pystencilized
             field[:, :width] = field[:, (width - 1) : width]
-            field[:, -width:] = field[:, -width : (-width + 1)]
+            field[:, -width:] = field[:, -width : (-width + 1) or None]
             penalise_field_x_front_boundary_kernel_2d(
                 field=field, x_grid_field=x_grid_field
             )
@@ -142,7 +142,7 @@ def gen_penalise_field_boundary_pyst_kernel_2d(
             # then along Y
             # these parts involve broadcasting hence couldn't be pystencilized
             field[:width, :] = field[(width - 1) : width, :]
-            field[-width:, :] = field[-width : (-width + 1), :]
+            field[-width:, :] = field[-width : (-width + 1) or None, :]
             penalise_field_y_front_boundary_kernel_2d(
                 field=field, y_grid_field=y_grid_field
             )
diff --git a/sopht/numeric/eulerian_grid_ops/stencil_ops_3d/penalise_field_boundary_3d.py b/sopht/numeric/eulerian_grid_ops/stencil_ops_3d/penalise_field_boundary_3d.py
index ad595f5..cdc2c10 100644
--- a/sopht/numeric/eulerian_grid_ops/stencil_ops_3d/penalise_field_boundary_3d.py
+++ b/sopht/numeric/eulerian_grid_ops/stencil_ops_3d/penalise_field_boundary_3d.py
@@ -188,7 +188,7 @@ def gen_penalise_field_boundary_pyst_kernel_3d(  # noqa: C901
             # first along X
             # these parts involve broadcasting hence couldn't be pystencilized
             field[:, :, :width] = field[:, :, (width - 1) : width]
-            field[:, :, -width:] = field[:, :, -width : (-width + 1)]
+            field[:, :, -width:] = field[:, :, -width : (-width + 1) or None]
             penalise_field_x_front_boundary_kernel_3d(
                 field=field, x_grid_field=x_grid_field
             )
@@ -199,7 +199,7 @@ def gen_penalise_field_boundary_pyst_kernel_3d(  # noqa: C901
             # then along Y
             # these parts involve broadcasting hence couldn't be pystencilized
             field[:, :width, :] = field[:, (width - 1) : width, :]
-            field[:, -width:, :] = field[:, -width : (-width + 1), :]
+            field[:, -width:, :] = field[:, -width : (-width + 1) or None, :]
             penalise_field_y_front_boundary_kernel_3d(
                 field=field, y_grid_field=y_grid_field
             )
@@ -210,7 +210,7 @@ def gen_penalise_field_boundary_pyst_kernel_3d(  # noqa: C901
             # then along Z
             # these parts involve broadcasting hence couldn't be pystencilized
             field[:width, :, :] = field[(width - 1) : width, :, :]
-            field[-width:, :, :] = field[-width : (-width + 1), :, :]
+            field[-width:, :, :] = field[-width : (-width + 1) or None, :, :]
             penalise_field_z_front_boundary_kernel_3d(
                 field=field, z_grid_field=z_grid_field
             )
-- 
2.43.0


From 8166e6444f5ea5e34bb53f2fa35b765e0bdd7995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:15 +0000
Subject: [PATCH 02/16] fix: scipy reference inverse FFT on odd grid sizes

irfftn assumes an even last axis unless it is told the output shape.
---
 .../eulerian_grid_ops/poisson_solver_2d/scipy_fft_2d.py       | 4 +++-
 .../eulerian_grid_ops/poisson_solver_3d/scipy_fft_3d.py       | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/sopht/numeric/eulerian_grid_ops/poisson_solver_2d/scipy_fft_2d.py b/sopht/numeric/eulerian_grid_ops/poisson_solver_2d/scipy_fft_2d.py
index 6da5ece..7efe1b5 100644
--- a/sopht/numeric/eulerian_grid_ops/poisson_solver_2d/scipy_fft_2d.py
+++ b/sopht/numeric/eulerian_grid_ops/poisson_solver_2d/scipy_fft_2d.py
@@ -7,4 +7,6 @@ def fft_ifft_via_scipy_kernel_2d(
 ):
     """Perform reference FFT operations via scipy."""
     fourier_field[...] = rfftn(field, workers=num_threads)
-    inv_fourier_field[...] = irfftn(fourier_field, workers=num_threads)
+    inv_fourier_field[...] = irfftn(
+        fourier_field, s=inv_fourier_field.shape, workers=num_threads
+    )
diff --git a/sopht/numeric/eulerian_grid_ops/poisson_solver_3d/scipy_fft_3d.py b/sopht/numeric/eulerian_grid_ops/poisson_solver_3d/scipy_fft_3d.py
index b682f2e..3f6784e 100644
--- a/sopht/numeric/eulerian_grid_ops/poisson_solver_3d/scipy_fft_3d.py
+++ b/sopht/numeric/eulerian_grid_ops/poisson_solver_3d/scipy_fft_3d.py
@@ -7,4 +7,6 @@ def fft_ifft_via_scipy_kernel_3d(
 ):
     """Perform reference FFT operations via scipy."""
     fourier_field[...] = rfftn(field, workers=num_threads)
-    inv_fourier_field[...] = irfftn(fourier_field, workers=num_threads)
+    inv_fourier_field[...] = irfftn(
+        fourier_field, s=inv_fourier_field.shape, workers=num_threads
+    )
-- 
2.43.0


From 9ad71b3fb9ae3842f7e5ca09cbc8845bcee46f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:25 +0000
Subject: [PATCH 03/16] fix: fixed-size complex product kernels

The kernels are called on the real and imaginary parts, which are strided
views; a fixed grid size asked for contiguous arrays and every call raised.
---
 .../stencil_ops_2d/elementwise_ops_2d.py      | 26 ++++++++++++-----
 .../stencil_ops_3d/elementwise_ops_3d.py      | 28 +++++++++++++------
 2 files changed, 38 insertions(+), 16 deletions(-)

diff --git a/sopht/numeric/eulerian_grid_ops/stencil_ops_2d/elementwise_ops_2d.py b/sopht/numeric/eulerian_grid_ops/stencil_ops_2d/elementwise_ops_2d.py
index 6238bf2..c9b9b26 100644
--- a/sopht/numeric/eulerian_grid_ops/stencil_ops_2d/elementwise_ops_2d.py
+++ b/sopht/numeric/eulerian_grid_ops/stencil_ops_2d/elementwise_ops_2d.py
@@ -1,4 +1,6 @@
 """Kernels for elementwise operations in 2D."""
+import numpy as np
+
 import pystencils as ps
 
 import sympy as sp
@@ -131,17 +133,27 @@ def gen_elementwise_complex_product_pyst_kernel_2d(
     pyst_dtype = get_pyst_dtype(real_t)
     kernel_config = get_pyst_kernel_config(real_t, num_threads)
     # we can add dtype checks later
-    grid_info = (
-        f"{fixed_grid_size[0]}, {fixed_grid_size[1]}" if fixed_grid_size else "2D"
-    )
+
+    def complex_part_fields(*names):
+        """Real or imaginary parts, strided views of contiguous complex fields."""
+        if not fixed_grid_size:
+            return ps.fields(f"{', '.join(names)} : {pyst_dtype}[2D]")
+        complex_dtype = np.result_type(real_t, np.complex64)
+        strides = np.empty(fixed_grid_size, dtype=complex_dtype).real.strides
+        return [
+            ps.Field.create_fixed_size(
+                name, shape=tuple(fixed_grid_size), dtype=real_t, strides=strides
+            )
+            for name in names
+        ]
 
     @ps.kernel
     def _elementwise_complex_product_stencil_2d():
-        product_field_real, field_1_real, field_2_real = ps.fields(
-            f"product_field_real, field_1_real, field_2_real : {pyst_dtype}[{grid_info}]"
+        product_field_real, field_1_real, field_2_real = complex_part_fields(
+            "product_field_real", "field_1_real", "field_2_real"
         )
-        product_field_imag, field_1_imag, field_2_imag = ps.fields(
-            f"product_field_imag, field_1_imag, field_2_imag : {pyst_dtype}[{grid_info}]"
+        product_field_imag, field_1_imag, field_2_imag = complex_part_fields(
+            "product_field_imag", "field_1_imag", "field_2_imag"
         )
         product_field_real[0, 0] @= (
             field_1_real[0, 0] * field_2_real[0, 0]
diff --git a/sopht/numeric/eulerian_grid_ops/stencil_ops_3d/elementwise_ops_3d.py b/sopht/numeric/eulerian_grid_ops/stencil_ops_3d/elementwise_ops_3d.py
index cd8aa41..91ce87d 100644
--- a/sopht/numeric/eulerian_grid_ops/stencil_ops_3d/elementwise_ops_3d.py
+++ b/sopht/numeric/eulerian_grid_ops/stencil_ops_3d/elementwise_ops_3d.py
@@ -1,4 +1,6 @@
 """Kernels for elementwise operations in 3D."""
+import numpy as np
+
 import pystencils as ps
 
 import sympy as sp
@@ -141,19 +143,27 @@ def gen_elementwise_complex_product_pyst_kernel_3d(
     pyst_dtype = get_pyst_dtype(real_t)
     kernel_config = get_pyst_kernel_config(real_t, num_threads)
     # we can add dtype checks later
-    grid_info = (
-        f"{fixed_grid_size[0]}, {fixed_grid_size[1]}, {fixed_grid_size[2]}"
-        if fixed_grid_size
-        else "3D"
-    )
+
+    def complex_part_fields(*names):
+        """Real or imaginary parts, strided views of contiguous complex fields."""
+        if not fixed_grid_size:
+            return ps.fields(f"{', '.join(names)} : {pyst_dtype}[3D]")
+        complex_dtype = np.result_type(real_t, np.complex64)
+        strides = np.empty(fixed_grid_size, dtype=complex_dtype).real.strides
+        return [
+            ps.Field.create_fixed_size(
+                name, shape=tuple(fixed_grid_size), dtype=real_t, strides=strides
+            )
+            for name in names
+        ]
 
     @ps.kernel
     def _elementwise_complex_product_stencil_3d():
-        product_field_real, field_1_real, field_2_real = ps.fields(
-            f"product_field_real, field_1_real, field_2_real : {pyst_dtype}[{grid_info}]"
+        product_field_real, field_1_real, field_2_real = complex_part_fields(
+            "product_field_real", "field_1_real", "field_2_real"
         )
-        product_field_imag, field_1_imag, field_2_imag = ps.fields(
-            f"product_field_imag, field_1_imag, field_2_imag : {pyst_dtype}[{grid_info}]"
+        product_field_imag, field_1_imag, field_2_imag = complex_part_fields(
+            "product_field_imag", "field_1_imag", "field_2_imag"
         )
         product_field_real[0, 0, 0] @= (
             field_1_real[0, 0, 0] * field_2_real[0, 0, 0]
-- 
2.43.0


From 3ad20df72065a9d0e2b6904cfeb7bee812369b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:25 +0000
Subject: [PATCH 04/16] fix: name XDMF files after the HDF5 file without
 touching the data

str.replace left a name without '.h5' unchanged, so the XDMF overwrote the saved
data, and rewrote '.h5' anywhere in the path, directories included.
---
 sopht/utils/IO.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sopht/utils/IO.py b/sopht/utils/IO.py
index 2026017..4f0ab7c 100644
--- a/sopht/utils/IO.py
+++ b/sopht/utils/IO.py
@@ -419,6 +419,12 @@ class IO:
 
         return time
 
+    @staticmethod
+    def _xdmf_file_name(h5_file_name, grid_name):
+        """Name of the XDMF file describing one grid of the given HDF5 file."""
+        root = h5_file_name[:-3] if h5_file_name.endswith(".h5") else h5_file_name
+        return f"{root}_{grid_name}.xmf"
+
     def generate_xdmf_eulerian(self, h5_file_name, time=0.0):
         """Generate XDMF description file for Eulerian fields.
 
@@ -512,7 +518,7 @@ class IO:
     </Domain>
 </Xdmf>
 """
-        with open(h5_file_name.replace(".h5", "_eulerian.xmf"), "w") as f:
+        with open(self._xdmf_file_name(h5_file_name, "eulerian"), "w") as f:
             f.write(xdmffile)
 
     def generate_xdmf_lagrangian(self, h5_file_name, time):
@@ -548,7 +554,7 @@ class IO:
             return entry
 
         for lagrangian_grid_name in self.lagrangian_grids:
-            xmf_file_name = h5_file_name.replace(".h5", f"_{lagrangian_grid_name}.xmf")
+            xmf_file_name = self._xdmf_file_name(h5_file_name, lagrangian_grid_name)
             field_entries = ""
             lagrangian_grid = self.lagrangian_grids[lagrangian_grid_name]
             lagrangian_grid_size = np.flip(np.array(lagrangian_grid.shape))
-- 
2.43.0


From 026d6efd7741bfb7c443721f90eee719db81632e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:25 +0000
Subject: [PATCH 05/16] fix: XDMF origin and spacing dimensions in 2D

The 2D description lists three values (it is a slice in 3D) but declared two.
---
 sopht/utils/IO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sopht/utils/IO.py b/sopht/utils/IO.py
index 4f0ab7c..45f48ec 100644
--- a/sopht/utils/IO.py
+++ b/sopht/utils/IO.py
@@ -503,11 +503,11 @@ class IO:
             <Time Value="{time}"/>
             <Topology TopologyType="{topology_type}" Dimensions="{grid_size_string}"/>
             <Geometry GeometryType="{geometry_type}">
-                <DataItem Name="Origin" Dimensions="{self.dim}"
+                <DataItem Name="Origin" Dimensions="{len(origin)}"
                 NumberType="Float" Precision="{self.precision}" Format="XML">
                     {origin_string}
                 </DataItem>
-                <DataItem Name="Spacing" Dimensions="{self.dim}"
+                <DataItem Name="Spacing" Dimensions="{len(dx)}"
                 NumberType="Float" Precision="{self.precision}" Format="XML">
                     {dx_string}
                 </DataItem>
-- 
2.43.0


From 7721564c3ca9dd656bcd0e863da8bf37b962b5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:25 +0000
Subject: [PATCH 06/16] fix: restore and describe Lagrangian grids that carry
 no fields

---
 sopht/utils/IO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sopht/utils/IO.py b/sopht/utils/IO.py
index 45f48ec..3745424 100644
--- a/sopht/utils/IO.py
+++ b/sopht/utils/IO.py
@@ -298,7 +298,7 @@ class IO:
         # Generate xdmf files for every grid
         if self.eulerian_fields:
             self.generate_xdmf_eulerian(h5_file_name=h5_file_name, time=time)
-        if self.lagrangian_fields:
+        if self.lagrangian_grids:
             self.generate_xdmf_lagrangian(h5_file_name=h5_file_name, time=time)
 
     def load(self, h5_file_name):  # noqa: C901
@@ -365,7 +365,7 @@ class IO:
                 )
 
             # Load Lagrangian fields
-            if self.lagrangian_fields:
+            if self.lagrangian_grids:
                 # First loop over and load each of the lagrangian grids
                 for lagrangian_grid_name in self.lagrangian_grids:
                     assert (
-- 
2.43.0


From 280d237f99f15d3a76035fc83a1dbf9186c8fc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:25 +0000
Subject: [PATCH 07/16] fix: Lagrangian field type by the whole shape

A (dim, N) vector field with N == dim was stored as a scalar, and any array whose
first axis is N was accepted as one.
---
 sopht/utils/IO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sopht/utils/IO.py b/sopht/utils/IO.py
index 3745424..ef34fc6 100644
--- a/sopht/utils/IO.py
+++ b/sopht/utils/IO.py
@@ -165,7 +165,7 @@ class IO:
             )
 
             # Assign field types
-            if field.shape[0] == lagrangian_grid.shape[1]:
+            if field.shape == (lagrangian_grid.shape[1],):
                 self.lagrangian_fields_type[field_name] = "Scalar"
             elif field.shape == lagrangian_grid.shape:
                 self.lagrangian_fields_type[field_name] = "Vector"
-- 
2.43.0


From 92c9b139f21f63352ef3d25d57cca58fe4610f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:25 +0000
Subject: [PATCH 08/16] fix: keep equally named fields of different Lagrangian
 grids apart

Fields were registered by name alone, so the second grid's field was saved for
both grids and loading restored the wrong array.
---
 sopht/utils/IO.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/sopht/utils/IO.py b/sopht/utils/IO.py
index ef34fc6..676ed5e 100644
--- a/sopht/utils/IO.py
+++ b/sopht/utils/IO.py
@@ -159,16 +159,17 @@ class IO:
         for field_name in fields_for_io:
             # Add each field into local dictionary
             field = fields_for_io[field_name]
-            self.lagrangian_fields[field_name] = field
+            field_key = (lagrangian_grid_name, field_name)
+            self.lagrangian_fields[field_key] = field
             self.lagrangian_fields_with_grid_name[lagrangian_grid_name].append(
                 field_name
             )
 
             # Assign field types
             if field.shape == (lagrangian_grid.shape[1],):
-                self.lagrangian_fields_type[field_name] = "Scalar"
+                self.lagrangian_fields_type[field_key] = "Scalar"
             elif field.shape == lagrangian_grid.shape:
-                self.lagrangian_fields_type[field_name] = "Vector"
+                self.lagrangian_fields_type[field_key] = "Vector"
             else:
                 raise ValueError(
                     f"Unable to identify lagrangian field type "
@@ -282,8 +283,9 @@ class IO:
                 for field_name in self.lagrangian_fields_with_grid_name[
                     lagrangian_grid_name
                 ]:
-                    field = self.lagrangian_fields[field_name]
-                    field_type = self.lagrangian_fields_type[field_name]
+                    field_key = (lagrangian_grid_name, field_name)
+                    field = self.lagrangian_fields[field_key]
+                    field_type = self.lagrangian_fields_type[field_key]
                     if field_type == "Scalar":
                         lagrangian_scalar_grp.create_dataset(field_name, data=field)
                     elif field_type == "Vector":
@@ -384,7 +386,8 @@ class IO:
                     for field_name in self.lagrangian_fields_with_grid_name[
                         lagrangian_grid_name
                     ]:
-                        field_type = self.lagrangian_fields_type[field_name]
+                        field_key = (lagrangian_grid_name, field_name)
+                        field_type = self.lagrangian_fields_type[field_key]
                         if field_type == "Scalar":
                             assert (
                                 f"Lagrangian/{lagrangian_grid_name}/{field_type}/{field_name}"
@@ -393,7 +396,7 @@ class IO:
                                 f"Unable to find scalar field {field_name} on "
                                 f"grid {lagrangian_grid_name} in loaded file!"
                             )
-                            self.lagrangian_fields[field_name][...] = f["Lagrangian"][
+                            self.lagrangian_fields[field_key][...] = f["Lagrangian"][
                                 lagrangian_grid_name
                             ][field_type][field_name][...]
                         elif field_type == "Vector":
@@ -404,7 +407,7 @@ class IO:
                                 f"Unable to find vector field {field_name} on grid "
                                 f"{lagrangian_grid_name} in loaded file!"
                             )
-                            self.lagrangian_fields[field_name][...] = np.moveaxis(
+                            self.lagrangian_fields[field_key][...] = np.moveaxis(
                                 f["Lagrangian"][lagrangian_grid_name][field_type][
                                     field_name
                                 ][...],
@@ -567,7 +570,8 @@ class IO:
             for field_name in self.lagrangian_fields_with_grid_name[
                 lagrangian_grid_name
             ]:
-                field_type = self.lagrangian_fields_type[field_name]
+                field_key = (lagrangian_grid_name, field_name)
+                field_type = self.lagrangian_fields_type[field_key]
 
                 if field_type == "Scalar":
                     field_grid_size_string = lagrangian_grid_size[0]
-- 
2.43.0


From aed8e2c79528a7d9686c18eeeba26ac7b47204ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:25 +0000
Subject: [PATCH 09/16] fix: adding fields to a registered Lagrangian grid
 keeps its earlier fields

---
 sopht/utils/IO.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sopht/utils/IO.py b/sopht/utils/IO.py
index 676ed5e..0c47fbd 100644
--- a/sopht/utils/IO.py
+++ b/sopht/utils/IO.py
@@ -155,15 +155,16 @@ class IO:
         self.lagrangian_grids[lagrangian_grid_name] = lagrangian_grid
         # Create a list of to store names of fields that lie on
         # grid with grid name `lagrangian_grid_name`
-        self.lagrangian_fields_with_grid_name[lagrangian_grid_name] = []
+        grid_field_names = self.lagrangian_fields_with_grid_name.setdefault(
+            lagrangian_grid_name, []
+        )
         for field_name in fields_for_io:
             # Add each field into local dictionary
             field = fields_for_io[field_name]
             field_key = (lagrangian_grid_name, field_name)
             self.lagrangian_fields[field_key] = field
-            self.lagrangian_fields_with_grid_name[lagrangian_grid_name].append(
-                field_name
-            )
+            if field_name not in grid_field_names:
+                grid_field_names.append(field_name)
 
             # Assign field types
             if field.shape == (lagrangian_grid.shape[1],):
-- 
2.43.0


From 8cc16207f49dbcc428a148a9a65361a90fb0bd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:49 +0000
Subject: [PATCH 10/16] fix: a field rejected at registration is not kept
 registered

The array was stored before its shape was checked, so after the ValueError every
later save failed on the missing field type.
---
 sopht/utils/IO.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sopht/utils/IO.py b/sopht/utils/IO.py
index 0c47fbd..1e4db58 100644
--- a/sopht/utils/IO.py
+++ b/sopht/utils/IO.py
@@ -97,7 +97,6 @@ class IO:
         for field_name in fields_for_io:
             # Add each field into local dictionary
             field = fields_for_io[field_name]
-            self.eulerian_fields[field_name] = field
 
             # Assign field types
             if field.shape == (*self.eulerian_grid_size,):
@@ -109,6 +108,7 @@ class IO:
                     f"Unable to identify eulerian field type "
                     f"(scalar / vector) based on field dimension {field.shape}"
                 )
+            self.eulerian_fields[field_name] = field
 
     def add_as_lagrangian_fields_for_io(
         self,
@@ -162,9 +162,6 @@ class IO:
             # Add each field into local dictionary
             field = fields_for_io[field_name]
             field_key = (lagrangian_grid_name, field_name)
-            self.lagrangian_fields[field_key] = field
-            if field_name not in grid_field_names:
-                grid_field_names.append(field_name)
 
             # Assign field types
             if field.shape == (lagrangian_grid.shape[1],):
@@ -176,6 +173,9 @@ class IO:
                     f"Unable to identify lagrangian field type "
                     f"(scalar / vector) based on field dimension {field.shape}"
                 )
+            self.lagrangian_fields[field_key] = field
+            if field_name not in grid_field_names:
+                grid_field_names.append(field_name)
 
     def save(self, h5_file_name, time=0.0):  # noqa: C901
         """
-- 
2.43.0


From 93183bf28b18c8b4587784734eaab77f8562779a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:10 +0000
Subject: [PATCH 11/16] fix: loading rejects Lagrangian data of another size

A stored grid or field of a single node was broadcast into the registered arrays.
---
 sopht/utils/IO.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/sopht/utils/IO.py b/sopht/utils/IO.py
index 1e4db58..2f42565 100644
--- a/sopht/utils/IO.py
+++ b/sopht/utils/IO.py
@@ -374,9 +374,14 @@ class IO:
                     assert (
                         f"Lagrangian/{lagrangian_grid_name}/Grid" in keys
                     ), f"Unable to find grid '{lagrangian_grid_name}' in loaded file!"
-                    self.lagrangian_grids[lagrangian_grid_name][...] = np.transpose(
+                    stored_grid = np.transpose(
                         f["Lagrangian"][lagrangian_grid_name]["Grid"][...]
                     )
+                    assert (
+                        stored_grid.shape
+                        == self.lagrangian_grids[lagrangian_grid_name].shape
+                    ), f"Size of grid '{lagrangian_grid_name}' differs in loaded file!"
+                    self.lagrangian_grids[lagrangian_grid_name][...] = stored_grid
 
                     if f"Lagrangian/{lagrangian_grid_name}/Connection" in keys:
                         self.lagrangian_grid_connection[lagrangian_grid_name] = f[
@@ -397,9 +402,9 @@ class IO:
                                 f"Unable to find scalar field {field_name} on "
                                 f"grid {lagrangian_grid_name} in loaded file!"
                             )
-                            self.lagrangian_fields[field_key][...] = f["Lagrangian"][
-                                lagrangian_grid_name
-                            ][field_type][field_name][...]
+                            stored_field = f["Lagrangian"][lagrangian_grid_name][
+                                field_type
+                            ][field_name][...]
                         elif field_type == "Vector":
                             assert (
                                 f"Lagrangian/{lagrangian_grid_name}/{field_type}/{field_name}"
@@ -408,7 +413,7 @@ class IO:
                                 f"Unable to find vector field {field_name} on grid "
                                 f"{lagrangian_grid_name} in loaded file!"
                             )
-                            self.lagrangian_fields[field_key][...] = np.moveaxis(
+                            stored_field = np.moveaxis(
                                 f["Lagrangian"][lagrangian_grid_name][field_type][
                                     field_name
                                 ][...],
@@ -420,6 +425,11 @@ class IO:
                                 "Unsupported lagrangian_field_type "
                                 "('Scalar' and 'Vector' only)"
                             )
+                        assert (
+                            stored_field.shape
+                            == self.lagrangian_fields[field_key].shape
+                        ), f"Size of field {field_name} differs in loaded file!"
+                        self.lagrangian_fields[field_key][...] = stored_field
 
         return time
 
-- 
2.43.0


From 2b78a0d798c1f7acbbdd60595a672d367a20205e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:13 +0000
Subject: [PATCH 12/16] fix: adding to a registered Lagrangian grid rejects
 another grid size

---
 sopht/utils/IO.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sopht/utils/IO.py b/sopht/utils/IO.py
index 2f42565..d03e794 100644
--- a/sopht/utils/IO.py
+++ b/sopht/utils/IO.py
@@ -145,6 +145,12 @@ class IO:
         if lagrangian_grid_name is None:
             lagrangian_grid_name = f"Lagrangian_grid_{self.lagrangian_grid_count}"
             self.lagrangian_grid_count += 1
+        elif lagrangian_grid_name in self.lagrangian_grids:
+            # fields registered earlier on this grid have to fit it still
+            assert (
+                lagrangian_grid.shape
+                == self.lagrangian_grids[lagrangian_grid_name].shape
+            ), f"Grid '{lagrangian_grid_name}' is registered with another size!"
 
         if lagrangian_grid_connect:
             self.lagrangian_grid_connection[lagrangian_grid_name] = np.arange(
-- 
2.43.0


From ac8ac948f5a4806ef7172567b92c4dd68f03da2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:30 +0000
Subject: [PATCH 13/16] fix: default Lagrangian grid names avoid names in use

---
 sopht/utils/IO.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sopht/utils/IO.py b/sopht/utils/IO.py
index d03e794..78c4d54 100644
--- a/sopht/utils/IO.py
+++ b/sopht/utils/IO.py
@@ -143,6 +143,11 @@ class IO:
         ), "Invalid lagrangian grid dimension (only 2D and 3D)"
 
         if lagrangian_grid_name is None:
+            # names given by the user are not default names any more
+            while f"Lagrangian_grid_{self.lagrangian_grid_count}" in (
+                self.lagrangian_grids
+            ):
+                self.lagrangian_grid_count += 1
             lagrangian_grid_name = f"Lagrangian_grid_{self.lagrangian_grid_count}"
             self.lagrangian_grid_count += 1
         elif lagrangian_grid_name in self.lagrangian_grids:
-- 
2.43.0


From 5dd8936318c959fa30aef515c79b72b54c61e4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:57 +0000
Subject: [PATCH 14/16] fix: reject unsupported precisions in the 2D advection
 flux generator

---
 .../eulerian_grid_ops/stencil_ops_2d/advection_flux_2d.py     | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sopht/numeric/eulerian_grid_ops/stencil_ops_2d/advection_flux_2d.py b/sopht/numeric/eulerian_grid_ops/stencil_ops_2d/advection_flux_2d.py
index 966922e..7b428a9 100644
--- a/sopht/numeric/eulerian_grid_ops/stencil_ops_2d/advection_flux_2d.py
+++ b/sopht/numeric/eulerian_grid_ops/stencil_ops_2d/advection_flux_2d.py
@@ -1,6 +1,4 @@
 """Kernels for computing advection flux in 2D."""
-import numpy as np
-
 import pystencils as ps
 
 import sympy as sp
@@ -13,7 +11,7 @@ def gen_advection_flux_conservative_eno3_pyst_kernel_2d(
 ):
     # TODO expand docs
     """2D conservative ENO3 advection flux kernel generator."""
-    pyst_dtype = "float32" if real_t == np.float32 else "float64"
+    pyst_dtype = get_pyst_dtype(real_t)
     kernel_config = ps.CreateKernelConfig(
         data_type=pyst_dtype, default_number_float=pyst_dtype, cpu_openmp=num_threads
     )
-- 
2.43.0


From 7d0d5e8094fc3c903ecce42ac79bd5085cc24bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:31 +0000
Subject: [PATCH 15/16] fix: XDMF files escape file, grid and field names

---
 sopht/utils/IO.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/sopht/utils/IO.py b/sopht/utils/IO.py
index 78c4d54..c75124c 100644
--- a/sopht/utils/IO.py
+++ b/sopht/utils/IO.py
@@ -1,4 +1,6 @@
 """Module for Input/Output via HD5 format."""
+from xml.sax.saxutils import escape
+
 import h5py
 
 import numpy as np
@@ -450,6 +452,11 @@ class IO:
         root = h5_file_name[:-3] if h5_file_name.endswith(".h5") else h5_file_name
         return f"{root}_{grid_name}.xmf"
 
+    @staticmethod
+    def _xml(name):
+        """Name of a file, grid or field as XML text."""
+        return escape(name, {'"': "&quot;"})
+
     def generate_xdmf_eulerian(self, h5_file_name, time=0.0):
         """Generate XDMF description file for Eulerian fields.
 
@@ -491,6 +498,8 @@ class IO:
         ]
 
         def generate_field_entry(file_name, field_name, field_type):
+            file_name = self._xml(file_name)
+            field_name = self._xml(field_name)
             if field_type == "Scalar":
                 entry = f"""<Attribute Name="{field_name}" Active="1"
                 AttributeType="Scalar" Center="Node">
@@ -567,6 +576,9 @@ class IO:
             field_grid_size,
             lagrangian_grid_name,
         ):
+            h5_file_name = self._xml(h5_file_name)
+            field_name = self._xml(field_name)
+            lagrangian_grid_name = self._xml(lagrangian_grid_name)
             entry = f"""<Attribute Name="{field_name}" Active="1"
             AttributeType="{field_type}" Center="Node">
                 <DataItem Dimensions="{field_grid_size}" NumberType="Float"
@@ -612,11 +624,12 @@ class IO:
                     lagrangian_grid_name=lagrangian_grid_name,
                 )
 
+            grid_path = self._xml(f"{h5_file_name}:/Lagrangian/{lagrangian_grid_name}")
             if lagrangian_grid_name in self.lagrangian_grid_connection:
                 topology = f"""<Topology TopologyType="Polyline">
                 <DataItem DataType="Int" Dimensions="1
                 {lagrangian_grid_size[0]}" Format="HDF" Precision="{self.precision}">
-                    {h5_file_name}:/Lagrangian/{lagrangian_grid_name}/Connection
+                    {grid_path}/Connection
                 </DataItem>
             </Topology>"""
             else:
@@ -633,7 +646,7 @@ class IO:
             <Geometry GeometryType="{geometry_type}">
                 <DataItem Dimensions="{lagrangian_grid_size_string}"
                 NumberType="Float" Precision="{self.precision}" Format="HDF">
-                    {h5_file_name}:/Lagrangian/{lagrangian_grid_name}/Grid
+                    {grid_path}/Grid
                 </DataItem>
             </Geometry>
 
-- 
2.43.0


From bb6ef42fdbf0c3d4ae9927bafb1f24bd0f71c0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:08 +0000
Subject: [PATCH 16/16] fix: the XDMF file of a Lagrangian grid named eulerian
 overwrote that of the Eulerian fields

---
 sopht/utils/IO.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sopht/utils/IO.py b/sopht/utils/IO.py
index c75124c..6b1fdec 100644
--- a/sopht/utils/IO.py
+++ b/sopht/utils/IO.py
@@ -591,7 +591,14 @@ class IO:
             return entry
 
         for lagrangian_grid_name in self.lagrangian_grids:
-            xmf_file_name = self._xdmf_file_name(h5_file_name, lagrangian_grid_name)
+            xmf_grid_name = lagrangian_grid_name
+            if xmf_grid_name == "eulerian":
+                # this name belongs to the file describing the Eulerian fields
+                while xmf_grid_name == "eulerian" or (
+                    xmf_grid_name in self.lagrangian_grids
+                ):
+                    xmf_grid_name = f"lagrangian_{xmf_grid_name}"
+            xmf_file_name = self._xdmf_file_name(h5_file_name, xmf_grid_name)
             field_entries = ""
             lagrangian_grid = self.lagrangian_grids[lagrangian_grid_name]
             lagrangian_grid_size = np.flip(np.array(lagrangian_grid.shape))
-- 
2.43.0

