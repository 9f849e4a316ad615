From 398a6f0669cfd8eb9cd4dfb2dad478162ba58a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:00 +0000
Subject: [PATCH 01/70] fix: make q-direction search variables private to each
 OpenMP thread

i and qpos were declared outside the parallel region so were shared between
threads. With more than one thread and more than one split gamma point, one
thread could overwrite another's loop index, so the wrong q-direction (or
memory before the start of the q-direction array) was used for the LO-TO
splitting.
---
 c/_euphonic.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/c/_euphonic.c b/c/_euphonic.c
index 84ce901..533c980 100644
--- a/c/_euphonic.c
+++ b/c/_euphonic.c
@@ -86,7 +86,7 @@ static PyObject *calculate_phonons(PyObject *self, PyObject *args) {
     int modegs_len;
     int asr_corr_len;
     int n_split_qpts;
-    int q, i, qpos;
+    int q;
     int max_ims;
     int dmat_elems;
     // Extra vars only required if dipole = True
@@ -223,6 +223,8 @@ static PyObject *calculate_phonons(PyObject *self, PyObject *args) {
         }
         #pragma omp for
         for (q = 0; q < n_rqpts; q++) {
+            // Declare here so that each thread has its own copy
+            int i, qpos;
             double *qpt, *dmat, *eval, *modeg;
             qpt = (rqpts + 3*q);
             eval = (evals + q*3*n_atoms);
-- 
2.43.0


From e4b6de5b6c4c50e6a29782b108766d66bffdbbc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:00 +0000
Subject: [PATCH 02/70] fix: correct sign in 3x3 determinant used in C dipole
 correction

The cofactor of the second element had the wrong sign, so for a dielectric
tensor with off-diagonal elements the real space Ewald term was scaled
incorrectly and frequencies calculated with the C extension depended on
dipole_parameter and disagreed with the Python calculation.
---
 c/util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/util.c b/c/util.c
index a4aeab4..39edd02 100644
--- a/c/util.c
+++ b/c/util.c
@@ -24,7 +24,7 @@ void copy_array(const int size, const double *arr, double *copy) {
 double det_array(const double arr[9]) {
    double det;
    det = arr[0]*(arr[4]*arr[8] - arr[7]*arr[5]) +
-         arr[1]*(arr[3]*arr[8] - arr[6]*arr[5]) +
+         arr[1]*(arr[6]*arr[5] - arr[3]*arr[8]) +
          arr[2]*(arr[3]*arr[7] - arr[6]*arr[4]);
    return det;
 }
-- 
2.43.0


From 372732a2c65b102386a37bfe8d37f857e7493a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:57 +0000
Subject: [PATCH 03/70] fix: find minimum images of atoms in supercells whose
 vectors are not reduced

---
 euphonic/force_constants.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/euphonic/force_constants.py b/euphonic/force_constants.py
index 252b595..eba79f7 100644
--- a/euphonic/force_constants.py
+++ b/euphonic/force_constants.py
@@ -1588,11 +1588,13 @@ class ForceConstants:
         sc_matrix = self.sc_matrix
         ax = np.newaxis
 
-        # List of points defining Wigner-Seitz cell
-        ws_frac = np.array([[0, 0, 0], [0, 0, 1], [0, 1, 0], [0, 1, 1],
-                            [0, 1, -1], [1, 0, 0], [1, 0, 1], [1, 0, -1],
-                            [1, 1, 0], [1, 1, 1], [1, 1, -1], [1, -1, 0],
-                            [1, -1, 1], [1, -1, -1]])
+        # List of points defining Wigner-Seitz cell. Two shells of
+        # supercells are needed as the supercell vectors may not be
+        # reduced, in which case the nearest neighbours alone don't
+        # enclose the WS cell. Only one of each +/- pair is required
+        ws_shells = np.repeat(2, 3)
+        ws_frac = get_all_origins(ws_shells + 1, min_xyz=-ws_shells)
+        ws_frac = ws_frac[len(ws_frac)//2:]
         cutoff_scale = 1.0
 
         # Calculate points of WS cell for this supercell
-- 
2.43.0


From b4c5d2a3e9ff5c00718e424654e7e976331ea91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:36 +0000
Subject: [PATCH 04/70] fix: make reciprocal acoustic sum rule correction
 independent of eigenvector phase

---
 euphonic/force_constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/euphonic/force_constants.py b/euphonic/force_constants.py
index eba79f7..9768f72 100644
--- a/euphonic/force_constants.py
+++ b/euphonic/force_constants.py
@@ -1452,7 +1452,7 @@ class ForceConstants:
                                         dtype=np.complex128)
         for i, ac in enumerate(ac_i):
             recip_asr_correction -= (tol*i + g_evals[ac])*np.einsum(
-                'i,j->ij', g_evecs[:, ac], g_evecs[:, ac])
+                'i,j->ij', g_evecs[:, ac], np.conj(g_evecs[:, ac]))
 
         return recip_asr_correction
 
-- 
2.43.0


From 8c96d2f175344ebd980b072e2d96bbc58cd7c3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:24 +0000
Subject: [PATCH 05/70] fix: convert dielectric to atomic units when
 subtracting the dipole term from total force constants

---
 euphonic/force_constants.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/euphonic/force_constants.py b/euphonic/force_constants.py
index 9768f72..e9088cb 100644
--- a/euphonic/force_constants.py
+++ b/euphonic/force_constants.py
@@ -1789,11 +1789,12 @@ class ForceConstants:
         sc_born = np.tile(born.to(ureg('e')).magnitude,
                           (n_cells, 1, 1))
         # Now initialise, calculate and subtract the dipole correction
+        dielectric_au = dielectric.to('e**2/(bohr*hartree)').magnitude
         dipole_data = cls._dipole_correction_init(
-            sc_crystal, sc_born, dielectric.magnitude)
+            sc_crystal, sc_born, dielectric_au)
         corr = cls._calculate_dipole_correction(
             np.array([0., 0., 0.]), sc_crystal, sc_born,
-            dielectric.magnitude, dipole_data)
+            dielectric_au, dipole_data)
         corr = np.transpose(
             np.reshape(corr[:, :3*n_atoms], (n_cells, 3*n_atoms, 3*n_atoms)),
             axes=[0, 2, 1])
-- 
2.43.0


From 033cc0c617bd4158455c6ba1e391a03064306e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:49 +0000
Subject: [PATCH 06/70] fix: place atoms correctly in non-symmetric supercells
 when subtracting the dipole term

---
 euphonic/force_constants.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/euphonic/force_constants.py b/euphonic/force_constants.py
index e9088cb..3a67d34 100644
--- a/euphonic/force_constants.py
+++ b/euphonic/force_constants.py
@@ -1779,8 +1779,8 @@ class ForceConstants:
         # First create Crystal and Born charges for supercell
         sc_atom_r = (np.repeat(cell_origins, n_atoms, axis=0)
                      + np.tile(crystal.atom_r, (n_cells, 1)))
-        sc_to_u_matrix = np.linalg.inv(sc_matrix).transpose()
-        sc_atom_r_scell = np.einsum('ij,jk->ik', sc_atom_r, sc_to_u_matrix)
+        u_to_sc_matrix = np.linalg.inv(sc_matrix)
+        sc_atom_r_scell = np.einsum('ij,jk->ik', sc_atom_r, u_to_sc_matrix)
         sc_vecs = np.einsum('ji,ik->jk', sc_matrix, crystal._cell_vectors)
         sc_mass = np.tile(crystal._atom_mass, n_cells)
         sc_crystal = Crystal(sc_vecs*ureg('bohr'), sc_atom_r_scell,
-- 
2.43.0


From c4a5ee3625c32f284c316b10093f037bac349346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:35 +0000
Subject: [PATCH 07/70] fix: pass the C extension contiguous double arrays

The fractional atom coordinates (an attribute of the crystal, not of the
force constants) were not made contiguous before calling C, and integer
q-points, cell vectors, Born charges or dielectric tensors were read as
doubles. Also don't truncate integer weights when they are halved.
---
 euphonic/force_constants.py | 19 ++++++++++++-------
 euphonic/validate.py        | 12 +++++++++---
 2 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/euphonic/force_constants.py b/euphonic/force_constants.py
index 3a67d34..d99661d 100644
--- a/euphonic/force_constants.py
+++ b/euphonic/force_constants.py
@@ -471,6 +471,7 @@ class ForceConstants:
         # the interpolation only for it to fail creating QpointPhononModes
         _check_constructor_inputs(
             [weights], [[np.ndarray, type(None)]], [(len(qpts),)], ['weights'])
+        qpts = np.asarray(qpts, dtype=np.float64)
 
         # Set default splitting params
         if self.born is None:
@@ -490,7 +491,7 @@ class ForceConstants:
             # Where 1 q-point splits into 2, half the weight for each
             if weights is not None:
                 # Don't change original array
-                weights = np.copy(weights)
+                weights = np.array(weights, dtype=np.float64)
                 weights[split_gamma] = weights[split_gamma]/2
                 weights = np.insert(weights, split_gamma,
                                     weights[split_gamma])
@@ -661,7 +662,7 @@ class ForceConstants:
                 n_reigenvecs += 1
             reigenvecs = np.zeros((n_reigenvecs, 3*n_atoms, n_atoms, 3),
                                   dtype=np.complex128)
-            cell_vectors = self.crystal._cell_vectors
+            cell_vectors = self.crystal._cell_vectors.astype(np.float64)
             recip_vectors = self.crystal.reciprocal_cell().to(
                 '1/bohr').magnitude
             # Get conj transpose - the dynamical matrix calculated in C
@@ -680,10 +681,14 @@ class ForceConstants:
                  dyn_mat_weighting, rfreqs, reigenvecs, rmode_gradients,
                  all_origins_cart)
             attrs = ['_n_sc_images', '_sc_image_i', 'cell_origins']
-            dipole_attrs = ['atom_r', '_born', '_dielectric', '_H_ab',
-                            '_cells', '_gvec_phases', '_gvecs_cart',
-                            '_dipole_q0']
-            _ensure_contiguous_attrs(self, attrs, opt_attrs=dipole_attrs)
+            _ensure_contiguous_attrs(self, attrs)
+            # These are always read as doubles in C, even if they were
+            # provided as integers
+            _ensure_contiguous_attrs(self.crystal, ['atom_r'],
+                                     dtype=np.float64)
+            _ensure_contiguous_attrs(self, [],
+                                     opt_attrs=['_born', '_dielectric'],
+                                     dtype=np.float64)
             with threadpool_limits(limits=1):
                 euphonic_c.calculate_phonons(
                     self, cell_vectors, recip_vectors, reduced_qpts,
@@ -1126,7 +1131,7 @@ class ForceConstants:
 
         dipole_init_data = {}
         dipole_init_data['dipole_parameter'] = dipole_parameter
-        dipole_init_data['lambda'] = upper_lambda
+        dipole_init_data['lambda'] = float(upper_lambda)
         dipole_init_data['H_ab'] = H_ab
         dipole_init_data['cells'] = cells
         dipole_init_data['gvecs_cart'] = gvecs_cart
diff --git a/euphonic/validate.py b/euphonic/validate.py
index 21d38cc..8c2fa5c 100644
--- a/euphonic/validate.py
+++ b/euphonic/validate.py
@@ -103,7 +103,8 @@ def _replace_dim(expected_shape: Tuple[int, ...],
 
 
 def _ensure_contiguous_attrs(obj: object, required_attrs: List[str],
-                             opt_attrs: List[str] = []) -> None:
+                             opt_attrs: List[str] = [],
+                             dtype: Optional[Type] = None) -> None:
     """
     Make sure all listed attributes of obj are C Contiguous and of the
     correct type (int32, float64, complex128). This should only be used
@@ -121,16 +122,21 @@ def _ensure_contiguous_attrs(obj: object, required_attrs: List[str],
         The attributes of obj to be checked, but if they don't exist
         will not throw an error. e.g. Depending on the material
         ForceConstants objects may or may not have 'born' defined
+    dtype
+        The type the attributes should be. If not provided this depends
+        on the type of each attribute
     """
     for attr_name in required_attrs:
         attr = getattr(obj, attr_name)
-        attr = attr.astype(_get_dtype(attr), order='C', copy=False)
+        attr = attr.astype(dtype or _get_dtype(attr), order='C',
+                           copy=False)
         setattr(obj, attr_name, attr)
 
     for attr_name in opt_attrs:
         try:
             attr = getattr(obj, attr_name)
-            attr = attr.astype(_get_dtype(attr), order='C', copy=False)
+            attr = attr.astype(dtype or _get_dtype(attr), order='C',
+                               copy=False)
             setattr(obj, attr_name, attr)
         except AttributeError:
             pass
-- 
2.43.0


From b3e345ff8b6cf5bc79f09c8a0c745df0d84a67da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:53 +0000
Subject: [PATCH 08/70] fix: don't share metadata between a spectrum and
 objects created from it

---
 euphonic/io.py      |  4 ++--
 euphonic/spectra.py | 12 ++++++------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/euphonic/io.py b/euphonic/io.py
index e89a095..d3653c5 100644
--- a/euphonic/io.py
+++ b/euphonic/io.py
@@ -62,7 +62,7 @@ def _obj_to_dict(obj: T, attrs: Sequence[str]) -> Dict[str, Any]:
         if isinstance(val, np.ndarray):
             dout[attr] = np.copy(val)
         elif isinstance(val, list):
-            dout[attr] = val.copy()
+            dout[attr] = copy.deepcopy(val)
         elif isinstance(val, Quantity):
             if isinstance(val.magnitude, np.ndarray):
                 dout[attr] = np.copy(val.magnitude)
@@ -72,7 +72,7 @@ def _obj_to_dict(obj: T, attrs: Sequence[str]) -> Dict[str, Any]:
         elif hasattr(val, 'to_dict'):
             dout[attr] = val.to_dict()
         else:
-            dout[attr] = val
+            dout[attr] = copy.deepcopy(val)
     return dout
 
 
diff --git a/euphonic/spectra.py b/euphonic/spectra.py
index e260927..ebd7c76 100644
--- a/euphonic/spectra.py
+++ b/euphonic/spectra.py
@@ -477,7 +477,7 @@ class Spectrum1D(Spectrum):
         return [type(self)(self.x_data[x0:x1], self.y_data[x0:x1],
                            x_tick_labels=self._cut_x_ticks(self.x_tick_labels,
                                                            x0, x1),
-                           metadata=self.metadata)
+                           metadata=copy.deepcopy(self.metadata))
                 for x0, x1 in ranges]
 
     def copy(self: T) -> T:
@@ -1202,7 +1202,7 @@ class Spectrum1DCollection(SpectrumCollectionMixin,
         return [type(self)(self.x_data[x0:x1], self.y_data[:, x0:x1],
                            x_tick_labels=self._cut_x_ticks(self.x_tick_labels,
                                                            x0, x1),
-                           metadata=self.metadata)
+                           metadata=copy.deepcopy(self.metadata))
                 for x0, x1 in ranges]
 
     @classmethod
@@ -1522,7 +1522,7 @@ class Spectrum2D(Spectrum):
                            self.z_data[x0:x1, :],
                            x_tick_labels=self._cut_x_ticks(self.x_tick_labels,
                                                            x0, x1),
-                           metadata=self.metadata)
+                           metadata=copy.deepcopy(self.metadata))
                 for x0, x1 in ranges]
 
     def broaden(self: T,
@@ -1619,7 +1619,7 @@ class Spectrum2D(Spectrum):
                                   copy.copy(self.x_tick_labels),
                                   copy.deepcopy(self.metadata))
         else:
-            spectrum = self
+            spectrum = self.copy()
 
         # Then apply variable-width broadening to any axes with Callable
         for axis, width, lower_limit in (('x', x_width, x_width_lower_limit),
@@ -1686,7 +1686,7 @@ class Spectrum2D(Spectrum):
                           np.copy(spectrum.y_data),
                           z_broadened,
                           copy.copy(spectrum.x_tick_labels),
-                          copy.copy(spectrum.metadata))
+                          copy.deepcopy(spectrum.metadata))
 
     def copy(self: T) -> T:
         """Get an independent copy of spectrum"""
@@ -1908,7 +1908,7 @@ class Spectrum2DCollection(SpectrumCollectionMixin,
                            self.z_data[:, x0:x1, :],
                            x_tick_labels=self._cut_x_ticks(
                                self.x_tick_labels, x0, x1),
-                           metadata=self.metadata)
+                           metadata=copy.deepcopy(self.metadata))
                 for x0, x1 in ranges]
 
     @property
-- 
2.43.0


From f5bb22144dea46428368a73b98390dd0662eec9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:53 +0000
Subject: [PATCH 09/70] fix: scale the data and use the right shape for bins of
 Spectrum2DCollection

---
 euphonic/spectra.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/euphonic/spectra.py b/euphonic/spectra.py
index ebd7c76..72a2c3e 100644
--- a/euphonic/spectra.py
+++ b/euphonic/spectra.py
@@ -1713,7 +1713,7 @@ class Spectrum2D(Spectrum):
         bin_ax
             The axis to get the bin edges for, 'x' or 'y'
         """
-        enum = {'x': 0, 'y': 1}
+        enum = {'x': -2, 'y': -1}
         bin_data = getattr(self, f'{bin_ax}_data')
         data_ax_len = self.z_data.shape[enum[bin_ax]]
         if self._is_bin_edge(data_ax_len, bin_data.shape[0]):
@@ -1736,7 +1736,7 @@ class Spectrum2D(Spectrum):
         bin_ax
             The axis to get the bin centres for, 'x' or 'y'
         """
-        enum = {'x': 0, 'y': 1}
+        enum = {'x': -2, 'y': -1}
         bin_data = getattr(self, f'{bin_ax}_data')
         data_ax_len = self.z_data.shape[enum[bin_ax]]
         if self._is_bin_edge(data_ax_len, bin_data.shape[0]):
@@ -1922,6 +1922,22 @@ class Spectrum2DCollection(SpectrumCollectionMixin,
         self.z_data_unit = str(value.units)
         self._z_data = value.to(self._internal_z_data_unit).magnitude
 
+    def __imul__(self, other: Real) -> Self:
+        """Scale spectral data in-place"""
+        self.z_data = self.z_data * other
+        return self
+
+    def __setattr__(self, name: str, value: Any) -> None:
+        _check_unit_conversion(self, name, value,
+                               ['z_data_unit'])
+        super().__setattr__(name, value)
+
+    # Binning is the same as for the individual 2-D spectra
+    get_bin_edges = Spectrum2D.get_bin_edges
+    get_bin_centres = Spectrum2D.get_bin_centres
+    get_bin_widths = Spectrum2D.get_bin_widths
+    assert_regular_bins = Spectrum2D.assert_regular_bins
+
     @classmethod
     def from_spectra(cls, spectra: Sequence[Spectrum2D]) -> Self:
         if len(spectra) < 1:
-- 
2.43.0


From 74133efab0d99dc9ac72a2e3e618d27c68c3c474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:53 +0000
Subject: [PATCH 10/70] fix: use data in consistent units in
 Spectrum2DCollection.from_spectra

---
 euphonic/spectra.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/euphonic/spectra.py b/euphonic/spectra.py
index 72a2c3e..a47d6d4 100644
--- a/euphonic/spectra.py
+++ b/euphonic/spectra.py
@@ -1964,9 +1964,8 @@ class Spectrum2DCollection(SpectrumCollectionMixin,
 
         for i, spectrum in enumerate(spectra[1:]):
             _type_check(spectrum)
-            spectrum_i_raw_data = cls._get_item_raw_data(spectrum)
-            spectrum_i_data_units = cls._get_item_data_unit(spectrum)
-            assert spectrum_i_data_units == spectrum_data_units
+            spectrum_i_data = cls._get_item_data(spectrum)
+            assert spectrum_i_data.units == spectrum_data_units
 
             for key, ref_bins in bins_data.items():
                 item_bins = getattr(spectrum, key)
@@ -1974,7 +1973,7 @@ class Spectrum2DCollection(SpectrumCollectionMixin,
                 assert item_bins.units == ref_bins.units
 
             assert spectrum.x_tick_labels == x_tick_labels
-            spectrum_data_magnitude[i + 1, :, :] = spectrum_i_raw_data
+            spectrum_data_magnitude[i + 1, :, :] = spectrum_i_data.magnitude
 
         metadata = cls._combine_metadata([spec.metadata for spec in spectra])
         spectrum_data = Quantity(spectrum_data_magnitude, spectrum_data_units)
-- 
2.43.0


From db0bd29d54d26d722720c8bf6d6f18037431f976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:53 +0000
Subject: [PATCH 11/70] fix: don't modify arrays used by other objects in
 reorder_frequencies

---
 euphonic/qpoint_phonon_modes.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/euphonic/qpoint_phonon_modes.py b/euphonic/qpoint_phonon_modes.py
index 2f63253..92a654e 100644
--- a/euphonic/qpoint_phonon_modes.py
+++ b/euphonic/qpoint_phonon_modes.py
@@ -159,11 +159,11 @@ class QpointPhononModes(QpointFrequencies):
             else:
                 mode_map[i] = mode_map[i-1]
 
-        # Actually rearrange frequencies/eigenvectors
-        for i in range(n_qpts):
-            self._frequencies[i] = self._frequencies[i, mode_map[i]]
-            evec_tmp = np.copy(self.eigenvectors[i, mode_map[i]])
-            self.eigenvectors[i] = evec_tmp
+        # Actually rearrange frequencies/eigenvectors. Create new arrays, as
+        # the original ones may also be used outside of this object
+        qpt_idx = np.arange(n_qpts)[:, np.newaxis]
+        self._frequencies = self._frequencies[qpt_idx, mode_map]
+        self.eigenvectors = self.eigenvectors[qpt_idx, mode_map]
 
     def calculate_structure_factor(
         self,
-- 
2.43.0


From cff16895e56da1eb708b0ac4d7314c11dba706d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:53 +0000
Subject: [PATCH 12/70] fix: don't map a mode twice in reorder_frequencies if
 dot products are zero

---
 euphonic/qpoint_phonon_modes.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/euphonic/qpoint_phonon_modes.py b/euphonic/qpoint_phonon_modes.py
index 92a654e..ed73e21 100644
--- a/euphonic/qpoint_phonon_modes.py
+++ b/euphonic/qpoint_phonon_modes.py
@@ -150,9 +150,10 @@ class QpointPhononModes(QpointFrequencies):
                     mode = int(max_i/n_branches)
                     # Prev q-pt modes are columns
                     prev_mode = max_i % n_branches
-                    # Ensure modes aren't mapped more than once
-                    dot_mat[mode, :] = 0
-                    dot_mat[:, prev_mode] = 0
+                    # Ensure modes aren't mapped more than once, also if
+                    # the remaining dot products are all zero
+                    dot_mat[mode, :] = -1
+                    dot_mat[:, prev_mode] = -1
 
                     prev_mode_idx = np.where(mode_map[i-1] == prev_mode)[0][0]
                     mode_map[i, prev_mode_idx] = mode
-- 
2.43.0


From 8846a2f09b4c8dc5c8c61dbb181ccffc078523d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:53 +0000
Subject: [PATCH 13/70] fix: don't modify interpolation_kwargs passed to
 BrilleInterpolator

---
 euphonic/brille.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/euphonic/brille.py b/euphonic/brille.py
index 4b33a62..3371c53 100644
--- a/euphonic/brille.py
+++ b/euphonic/brille.py
@@ -238,10 +238,9 @@ class BrilleInterpolator:
 
         print(f'Grid generated with {len(grid.rlu)} q-points. '
                'Calculating frequencies/eigenvectors...')
-        if interpolation_kwargs is None:
-            interpolation_kwargs = {}
-        interpolation_kwargs['insert_gamma'] = False
-        interpolation_kwargs['reduce_qpts'] = False
+        interpolation_kwargs = {**(interpolation_kwargs or {}),
+                                'insert_gamma': False,
+                                'reduce_qpts': False}
         phonons = force_constants.calculate_qpoint_phonon_modes(
             grid.rlu, **interpolation_kwargs)
 
-- 
2.43.0


From 272bde4b9eb27028fb2b6f4204b80dfb495868c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:53 +0000
Subject: [PATCH 14/70] fix: recalculate intermediate ForceConstants data if
 attributes have changed

---
 euphonic/force_constants.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/euphonic/force_constants.py b/euphonic/force_constants.py
index d99661d..0834084 100644
--- a/euphonic/force_constants.py
+++ b/euphonic/force_constants.py
@@ -538,6 +538,7 @@ class ForceConstants:
             q_dirs = np.array([])
 
         n_sc_shells = 2  # How many supercells out to search for atom images
+        self._clear_outdated_cache()
         # Construct list of supercell atom images
         if not hasattr(self, '_sc_image_i'):
             self._calculate_supercell_images(n_sc_shells)
@@ -1571,6 +1572,25 @@ class ForceConstants:
 
         return sc_phases, cell_phases
 
+    def _clear_outdated_cache(self) -> None:
+        """
+        Remove any stored intermediate data if the attributes it has been
+        calculated from have changed since
+        """
+        inputs = tuple(None if x is None else np.copy(x) for x in (
+            self._force_constants, self.cell_origins, self.sc_matrix,
+            self._born, self._dielectric, self.crystal._cell_vectors,
+            self.crystal.atom_r, self.crystal._atom_mass))
+        old_inputs = getattr(self, '_cache_inputs', None)
+        if (old_inputs is not None
+                and all(map(np.array_equal, inputs, old_inputs))):
+            return
+        for attr in ['_sc_image_i', '_n_sc_images', '_dipole_init_data',
+                     '_force_constants_asr']:
+            if hasattr(self, attr):
+                delattr(self, attr)
+        self._cache_inputs = inputs
+
     def _calculate_supercell_images(self, n_sc_shells: int) -> None:
         """
         For each displacement of ion i in the unit cell and ion j in
-- 
2.43.0


From a61fbe0f3716c637281038c0510326146d1798d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:48 +0000
Subject: [PATCH 15/70] fix: convert frequencies to wavelength units correctly

---
 euphonic/qpoint_frequencies.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/euphonic/qpoint_frequencies.py b/euphonic/qpoint_frequencies.py
index 63310b2..ef7eb37 100644
--- a/euphonic/qpoint_frequencies.py
+++ b/euphonic/qpoint_frequencies.py
@@ -79,7 +79,10 @@ class QpointFrequencies:
 
     @property
     def frequencies(self) -> Quantity:
-        return self._frequencies*ureg('hartree').to(self.frequencies_unit)
+        # Convert the values rather than multiplying by a conversion factor,
+        # this is not correct for e.g. wavelengths
+        return ureg.Quantity(self._frequencies, 'hartree').to(
+            self.frequencies_unit)
 
     @frequencies.setter
     def frequencies(self, value: Quantity) -> None:
-- 
2.43.0


From 18eec5ecf6ddaf24084998cb5a4362289b7f0dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:48 +0000
Subject: [PATCH 16/70] fix: only accept units that a quantity can be converted
 to when read

---
 euphonic/spectra.py  | 9 ++++++---
 euphonic/validate.py | 8 +++++---
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/euphonic/spectra.py b/euphonic/spectra.py
index a47d6d4..390b996 100644
--- a/euphonic/spectra.py
+++ b/euphonic/spectra.py
@@ -38,7 +38,8 @@ class Spectrum(ABC):
 
     def __setattr__(self, name: str, value: Any) -> None:
         _check_unit_conversion(self, name, value,
-                               ['x_data_unit', 'y_data_unit'])
+                               ['x_data_unit', 'y_data_unit'],
+                               'reciprocal_spectroscopy')
         super().__setattr__(name, value)
 
     def _set_data(self, data: Quantity, attr_name: str) -> None:
@@ -1510,7 +1511,8 @@ class Spectrum2D(Spectrum):
 
     def __setattr__(self, name: str, value: Any) -> None:
         _check_unit_conversion(self, name, value,
-                               ['z_data_unit'])
+                               ['z_data_unit'],
+                               'reciprocal_spectroscopy')
         super(Spectrum2D, self).__setattr__(name, value)
 
     def _split_by_indices(self,
@@ -1929,7 +1931,8 @@ class Spectrum2DCollection(SpectrumCollectionMixin,
 
     def __setattr__(self, name: str, value: Any) -> None:
         _check_unit_conversion(self, name, value,
-                               ['z_data_unit'])
+                               ['z_data_unit'],
+                               'reciprocal_spectroscopy')
         super().__setattr__(name, value)
 
     # Binning is the same as for the individual 2-D spectra
diff --git a/euphonic/validate.py b/euphonic/validate.py
index 8c2fa5c..d2a01f5 100644
--- a/euphonic/validate.py
+++ b/euphonic/validate.py
@@ -56,7 +56,7 @@ def _check_constructor_inputs(
 
 
 def _check_unit_conversion(obj: object, attr_name: str, attr_value: Any,
-                           unit_attrs: List[str]) -> None:
+                           unit_attrs: List[str], *contexts: str) -> None:
     """
     If setting an attribute on an object that relates to the units of a
     Quantity (e.g. 'frequencies_unit' in QpointPhononModes) check that
@@ -73,6 +73,9 @@ def _check_unit_conversion(obj: object, attr_name: str, attr_value: Any,
     unit_attrs
         Only check the unit conversion if the attribute is one of
         unit_attrs
+    *contexts
+        Names of the Pint contexts (in addition to those enabled
+        globally) that obj uses in its unit conversions
 
     Raises
     ------
@@ -82,8 +85,7 @@ def _check_unit_conversion(obj: object, attr_name: str, attr_value: Any,
     if hasattr(obj, attr_name):
         if attr_name in unit_attrs:
             try:
-                ureg(getattr(obj, attr_name)).ito(attr_value,
-                                                  "reciprocal_spectroscopy")
+                ureg(getattr(obj, attr_name)).ito(attr_value, *contexts)
             except DimensionalityError:
                 raise ValueError((
                     f'"{attr_value}" is not a known dimensionally-consistent '
-- 
2.43.0


From 3401df0651e5b7c4c4189c84a2462fe810d96463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:48 +0000
Subject: [PATCH 17/70] fix: allow spectrum data to be set in any unit it can
 be read in

---
 euphonic/spectra.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/euphonic/spectra.py b/euphonic/spectra.py
index 390b996..7ae5352 100644
--- a/euphonic/spectra.py
+++ b/euphonic/spectra.py
@@ -56,7 +56,8 @@ class Spectrum(ABC):
     @x_data.setter
     def x_data(self, value: Quantity) -> None:
         self.x_data_unit = str(value.units)
-        self._x_data = value.to(self._internal_x_data_unit).magnitude
+        self._x_data = value.to(self._internal_x_data_unit,
+                                "reciprocal_spectroscopy").magnitude
 
     @property
     def y_data(self) -> Quantity:
@@ -66,7 +67,8 @@ class Spectrum(ABC):
     @y_data.setter
     def y_data(self, value: Quantity) -> None:
         self.y_data_unit = str(value.units)
-        self._y_data = value.to(self._internal_y_data_unit).magnitude
+        self._y_data = value.to(self._internal_y_data_unit,
+                                "reciprocal_spectroscopy").magnitude
 
     def __imul__(self: T, other: Real) -> T:
         """Scale spectral data in-place"""
@@ -778,7 +780,7 @@ class SpectrumCollectionMixin(ABC):
         summed_s_data = ureg.Quantity(
             np.sum(self._get_raw_spectrum_data(), axis=0),
             units=self._get_internal_spectrum_data_unit()
-        ).to(self._get_spectrum_data_unit())
+        ).to(self._get_spectrum_data_unit(), "reciprocal_spectroscopy")
         return self._item_type(
             **self._get_bin_kwargs(),
             **{self._spectrum_data_name(): summed_s_data},
@@ -1502,7 +1504,8 @@ class Spectrum2D(Spectrum):
     @z_data.setter
     def z_data(self, value: Quantity) -> None:
         self.z_data_unit = str(value.units)
-        self._z_data = value.to(self._internal_z_data_unit).magnitude
+        self._z_data = value.to(self._internal_z_data_unit,
+                                "reciprocal_spectroscopy").magnitude
 
     def __imul__(self: T, other: Real) -> T:
         """Scale spectral data in-place"""
@@ -1922,7 +1925,8 @@ class Spectrum2DCollection(SpectrumCollectionMixin,
     @z_data.setter
     def z_data(self, value: Quantity) -> None:
         self.z_data_unit = str(value.units)
-        self._z_data = value.to(self._internal_z_data_unit).magnitude
+        self._z_data = value.to(self._internal_z_data_unit,
+                                "reciprocal_spectroscopy").magnitude
 
     def __imul__(self, other: Real) -> Self:
         """Scale spectral data in-place"""
-- 
2.43.0


From 1a394a17a1be2efff37e27828e9ddabe9ab31a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:48 +0000
Subject: [PATCH 18/70] fix: handle temperatures in units with an offset

---
 euphonic/io.py               | 3 ++-
 euphonic/structure_factor.py | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/euphonic/io.py b/euphonic/io.py
index d3653c5..9930be3 100644
--- a/euphonic/io.py
+++ b/euphonic/io.py
@@ -91,7 +91,8 @@ def _process_dict(dictionary: Dict[str, Any], quantities: Sequence[str] = [],
     for qkey in quantities:
         val = dictionary.pop(qkey)
         if val is not None:
-            val = val*ureg(dictionary.pop(qkey + '_unit'))
+            # Don't multiply as this is not allowed for offset units (e.g. degC)
+            val = ureg.Quantity(val, dictionary.pop(qkey + '_unit'))
         dictionary[qkey] = val
     return dictionary
 
diff --git a/euphonic/structure_factor.py b/euphonic/structure_factor.py
index 97d2ddb..f155656 100644
--- a/euphonic/structure_factor.py
+++ b/euphonic/structure_factor.py
@@ -317,7 +317,8 @@ class StructureFactor(QpointFrequencies):
         """
         if self.temperature is not None:
             if (temperature is not None
-                    and not np.isclose(temperature, self.temperature)):
+                    and not np.isclose(temperature.to('K').magnitude,
+                                       self.temperature.to('K').magnitude)):
                 raise ValueError((
                     'Temperature provided to calculate the Bose factor '
                     '({:~P}) is not consistent with the temperature '
@@ -332,7 +333,7 @@ class StructureFactor(QpointFrequencies):
         kB = (1*ureg.k).to('E_h/K').magnitude
         temp = temperature.to('K').magnitude
         bose = np.zeros(self._frequencies.shape)
-        if temperature > 0:
+        if temp > 0:
             bose = 1/(np.exp(np.absolute(self._frequencies)/(kB*temp)) - 1)
         else:
             bose = 0
-- 
2.43.0


From 5b5447c76986bef921ffc887c5431683142042de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:48 +0000
Subject: [PATCH 19/70] fix: always pass cells in angstrom to spglib

---
 euphonic/crystal.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/euphonic/crystal.py b/euphonic/crystal.py
index 57191a5..d82bd7f 100644
--- a/euphonic/crystal.py
+++ b/euphonic/crystal.py
@@ -172,12 +172,12 @@ class Crystal:
         -------
         cell
             cell = (lattice, positions, numbers), where lattice is the
-            lattice vectors, positions are the fractional atomic
+            lattice vectors in angstrom, positions are the fractional atomic
             positions, and numbers are integers distinguishing the
             atomic species
         """
         _, unique_atoms = np.unique(self.atom_type, return_inverse=True)
-        cell = (self.cell_vectors.magnitude.tolist(),
+        cell = (self.cell_vectors.to('angstrom').magnitude.tolist(),
                 self.atom_r.tolist(),
                 unique_atoms.tolist())
         return cell
@@ -234,7 +234,7 @@ class Crystal:
 
         """
         tol_calc = tol.to('bohr').magnitude
-        symprec = tol.to(self.cell_vectors_unit).magnitude
+        symprec = tol.to('angstrom').magnitude
         # Sometimes if symprec is very low, even the identity
         # symmetry op won't be found, and None will be returned
         # For some reason this can't always be reproduced
-- 
2.43.0


From 26a03a7c938cb7759fd2fabc6b4e65510c5aeb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:39 +0000
Subject: [PATCH 20/70] fix: write eigenvectors of any memory layout and
 precision to JSON

---
 euphonic/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/euphonic/io.py b/euphonic/io.py
index 9930be3..aaf26d7 100644
--- a/euphonic/io.py
+++ b/euphonic/io.py
@@ -16,8 +16,8 @@ def _to_json_dict(dictionary: Dict[str, Any]) -> Dict[str, Any]:
     """
     for key, val in dictionary.items():
         if isinstance(val, np.ndarray):
-            if val.dtype == np.complex128:
-                val = val.view(np.float64).reshape(val.shape + (2,))
+            if np.iscomplexobj(val):
+                val = np.stack((val.real, val.imag), axis=-1)
             dictionary[key] = val.tolist()
         elif isinstance(val, dict):
             if key != 'metadata':
-- 
2.43.0


From e910adeea210aa2392d71ffbaec2fbcbfb1584de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:21 +0000
Subject: [PATCH 21/70] fix: check the shape of scalar Quantities in
 constructors

---
 euphonic/validate.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/euphonic/validate.py b/euphonic/validate.py
index d2a01f5..5218fec 100644
--- a/euphonic/validate.py
+++ b/euphonic/validate.py
@@ -46,12 +46,14 @@ def _check_constructor_inputs(
         if not any(isinstance(obj, t) for t in typ):
             raise TypeError((f'The type of {name} {type(obj)} doesn\'t '
                              f'match the expected type(s) {typ}'))
-        if hasattr(obj, 'shape') and shape:
+        # Scalar Quantities do not have a shape attribute
+        if (hasattr(obj, 'shape') or isinstance(obj, ureg.Quantity)) and shape:
+            obj_shape = np.shape(getattr(obj, 'magnitude', obj))
             if not isinstance(shape, list):
                 shape = [shape]
-            if not any(obj.shape == _replace_dim(s, obj.shape) for s in shape):
+            if not any(obj_shape == _replace_dim(s, obj_shape) for s in shape):
                 raise ValueError((
-                    f'The shape of {name} {obj.shape} doesn\'t match '
+                    f'The shape of {name} {obj_shape} doesn\'t match '
                     f'the expected shape(s) {shape}'))
 
 
-- 
2.43.0


From 27cf74d03598e15797e5bb2b523ebbf778138717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:21 +0000
Subject: [PATCH 22/70] fix: read dielectric correctly if there are no Born
 charges

---
 euphonic/force_constants.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/euphonic/force_constants.py b/euphonic/force_constants.py
index 0834084..8b51662 100644
--- a/euphonic/force_constants.py
+++ b/euphonic/force_constants.py
@@ -108,15 +108,20 @@ class ForceConstants:
         self.cell_origins = cell_origins
         self.n_cells_in_sc = n_sc
 
+        if born is not None and dielectric is None:
+            raise ValueError('dielectric is required if born is provided')
+
         if born is not None:
             self._born = born.to(ureg.e).magnitude
             self.born_unit = str(born.units)
+        else:
+            self._born = born
+            self.born_unit = str(ureg.e)
+        if dielectric is not None:
             self._dielectric = dielectric.to(ureg(
                 'e**2/(bohr*hartree)')).magnitude
             self.dielectric_unit = str(dielectric.units)
         else:
-            self._born = born
-            self.born_unit = str(ureg.e)
             self._dielectric = dielectric
             self.dielectric_unit = str(ureg((
                 'e**2/(bohr*hartree)')))
-- 
2.43.0


From aec6a1cf30a0c6b9340d2b928b1c85f587df968d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:31 +0000
Subject: [PATCH 23/70] fix: don't omit integer values from reference data

---
 euphonic/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/euphonic/util.py b/euphonic/util.py
index f1d3d0a..9031251 100644
--- a/euphonic/util.py
+++ b/euphonic/util.py
@@ -258,7 +258,7 @@ def get_reference_data(collection: str = 'Sears1992',
 
     return {key: value * unit
             for key, value in data.items()
-            if isinstance(value, (float, complex))}
+            if isinstance(value, (int, float, complex))}
 
 
 def mode_gradients_to_widths(mode_gradients: Quantity, cell_vectors: Quantity
-- 
2.43.0


From f7e95341338640d5bb011ebaac9582fd0bb55a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:31 +0000
Subject: [PATCH 24/70] fix: calculate DOS map correctly for q-points with zero
 weight

---
 euphonic/qpoint_frequencies.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/euphonic/qpoint_frequencies.py b/euphonic/qpoint_frequencies.py
index ef7eb37..f065a65 100644
--- a/euphonic/qpoint_frequencies.py
+++ b/euphonic/qpoint_frequencies.py
@@ -199,7 +199,8 @@ class QpointFrequencies:
             weights = self.weights
         else:
             freqs = self._frequencies[q_idx][np.newaxis, :]
-            weights = np.array([self.weights[q_idx]])
+            # The weight of a single q-point has no effect on its own DOS
+            weights = np.ones(1)
         n_modes = freqs.shape[-1]
         # dos_bins commonly contains a 0 bin, and converting from 0 1/cm
         # to 0 hartree causes a RuntimeWarning, so suppress it
-- 
2.43.0


From 826e0a2805a49b054ea13f299f8b51e6ebc11aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:31 +0000
Subject: [PATCH 25/70] fix: reject booleans when indexing spectrum collections

---
 euphonic/spectra.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/euphonic/spectra.py b/euphonic/spectra.py
index 7ae5352..0186634 100644
--- a/euphonic/spectra.py
+++ b/euphonic/spectra.py
@@ -847,7 +847,8 @@ class SpectrumCollectionMixin(ABC):
                 raise IndexError(f'index "{item.stop}" out of range')
             return
 
-        if not all(isinstance(i, Integral) for i in item):
+        if not all(isinstance(i, Integral) and not isinstance(i, bool)
+                   for i in item):
             raise TypeError(
                 f'Index "{item}" should be an integer, slice '
                 f'or sequence of ints')
-- 
2.43.0


From 2439cadf3c616023d7ce73fde769d436ff016692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:42 +0000
Subject: [PATCH 26/70] fix: keep q-point weights in calculated StructureFactor

---
 euphonic/qpoint_phonon_modes.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/euphonic/qpoint_phonon_modes.py b/euphonic/qpoint_phonon_modes.py
index ed73e21..420d08f 100644
--- a/euphonic/qpoint_phonon_modes.py
+++ b/euphonic/qpoint_phonon_modes.py
@@ -294,6 +294,7 @@ class QpointPhononModes(QpointFrequencies):
         return StructureFactor(
             self.crystal, self.qpts, self.frequencies,
             sf*ureg('bohr**2').to('mbarn'),
+            weights=np.copy(self.weights),
             temperature=temperature)
 
     def calculate_debye_waller(
-- 
2.43.0


From dd1a3393a613e5ece6962cb0ecf84143321234a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:42 +0000
Subject: [PATCH 27/70] fix: exclude zero frequencies from Debye-Waller
 calculation without NaN

---
 euphonic/qpoint_phonon_modes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/euphonic/qpoint_phonon_modes.py b/euphonic/qpoint_phonon_modes.py
index 420d08f..9b45a47 100644
--- a/euphonic/qpoint_phonon_modes.py
+++ b/euphonic/qpoint_phonon_modes.py
@@ -385,6 +385,9 @@ class QpointPhononModes(QpointFrequencies):
         # Mask out frequencies below frequency_min
         freq_mask = np.ones(freqs.shape)
         freq_mask[freqs < freq_min] = 0
+        # Masked frequencies may be zero, avoid infinite values in freq_term
+        # as these would result in NaN even if they have been masked
+        freqs = np.where(freq_mask == 0, 1., freqs)
 
         if temp > 0:
             x = freqs/(2*kB*temp)
-- 
2.43.0


From fed918b13163fff58e724dbd5c34852e30b72698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:08 +0000
Subject: [PATCH 28/70] fix: Gaussian broadening of axes in decreasing order
 was silently skipped

---
 euphonic/spectra.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/euphonic/spectra.py b/euphonic/spectra.py
index 0186634..27c8c81 100644
--- a/euphonic/spectra.py
+++ b/euphonic/spectra.py
@@ -302,7 +302,8 @@ class Spectrum(ABC):
             Sigma in units of mean ax bin size
         """
         sigma = fwhm/(2*math.sqrt(2*math.log(2)))
-        mean_bin_size = np.mean(np.diff(ax_bin_centres))
+        # Bins may be in decreasing order
+        mean_bin_size = abs(np.mean(np.diff(ax_bin_centres)))
         sigma_bin = sigma/mean_bin_size
         return sigma_bin
 
-- 
2.43.0


From 65717498707ce66af773d29839aa3d52d1b3391a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:08 +0000
Subject: [PATCH 29/70] fix: uneven bins went undetected in broaden() for axes
 in large units

---
 euphonic/spectra.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/euphonic/spectra.py b/euphonic/spectra.py
index 27c8c81..4740a2d 100644
--- a/euphonic/spectra.py
+++ b/euphonic/spectra.py
@@ -251,7 +251,10 @@ class Spectrum(ABC):
             for ax, (width, bin_data) in enumerate(zip(widths, bin_centres)):
                 if width is not None:
                     bin_widths = np.diff(bin_data)
-                    if not np.all(np.isclose(bin_widths, bin_widths[0])):
+                    # The size of the bins depends on the units, so an
+                    # absolute tolerance cannot be used
+                    if not np.all(np.isclose(bin_widths, bin_widths[0],
+                                             atol=0.)):
                         unequal_bin_axes += [axes[ax]]
             if len(unequal_bin_axes) > 0:
                 msg = (f'{" and ".join(unequal_bin_axes)} bin widths are '
-- 
2.43.0


From 7bde1e82e081539e7b9a73291117e8f050921c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:08 +0000
Subject: [PATCH 30/70] fix: variable-width broadening of 2D bin centres used
 half-size end bins

---
 euphonic/spectra.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/euphonic/spectra.py b/euphonic/spectra.py
index 4740a2d..145a58e 100644
--- a/euphonic/spectra.py
+++ b/euphonic/spectra.py
@@ -1661,6 +1661,13 @@ class Spectrum2D(Spectrum):
         assert axis in ('x', 'y')
 
         bins = spectrum.get_bin_edges(bin_ax=axis)
+        n_data = spectrum.z_data.shape[0 if axis == 'x' else 1]
+        axis_data = getattr(spectrum, f'{axis}_data')
+        if n_data > 1 and not spectrum._is_bin_edge(n_data, len(axis_data)):
+            # The first and last bins are only half-size if they have been
+            # derived from bin centres, use full-size bins for convolution
+            bins[0] -= bins[1] - bins[0]
+            bins[-1] += bins[-1] - bins[-2]
         bin_widths = np.diff(bins)
 
         if not np.all(np.isclose(bin_widths, bin_widths[0])):
-- 
2.43.0


From 45b07bf38a28522df591f8a8b423a3d245aa5e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:08 +0000
Subject: [PATCH 31/70] fix: Lorentzian kernel spacing ignored the requested
 adaptive error

---
 euphonic/broadening.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/euphonic/broadening.py b/euphonic/broadening.py
index 0cb59e4..5884072 100644
--- a/euphonic/broadening.py
+++ b/euphonic/broadening.py
@@ -179,7 +179,7 @@ def _get_spacing(error,
             cheby = Chebyshev(
                 [1.26039672, 0.39900457, 0.20392176, 0.08602507,
                  0.03337662, 0.00878684, 0.00619626],
-                window=[1., 1.],
+                window=[-1., 1.],
                 domain=[-4.99146317, -1.34655197])
             safe_domain = [-4, -1.35]
 
-- 
2.43.0


From da3a5b1862a4baa797f235e1565162715f91b35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:08 +0000
Subject: [PATCH 32/70] fix: from_spectra accepted different axes in large
 units

---
 euphonic/spectra.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/euphonic/spectra.py b/euphonic/spectra.py
index 145a58e..604e1cd 100644
--- a/euphonic/spectra.py
+++ b/euphonic/spectra.py
@@ -1234,8 +1234,11 @@ class Spectrum1DCollection(SpectrumCollectionMixin,
         for i, spectrum in enumerate(spectra[1:]):
             _type_check(spectrum)
             assert spectrum.y_data.units == y_data_units
-            assert np.allclose(spectrum.x_data, x_data)
             assert spectrum.x_data.units == x_data.units
+            # The size of the values depends on the units, so an absolute
+            # tolerance must be relative to the extent of the axis
+            assert np.allclose(spectrum.x_data.magnitude, x_data.magnitude,
+                               atol=1e-8*np.max(np.abs(x_data.magnitude)))
             assert spectrum.x_tick_labels == x_tick_labels
             y_data_magnitude[i + 1, :] = spectrum.y_data.magnitude
 
@@ -1988,8 +1991,12 @@ class Spectrum2DCollection(SpectrumCollectionMixin,
 
             for key, ref_bins in bins_data.items():
                 item_bins = getattr(spectrum, key)
-                assert np.allclose(item_bins.magnitude, ref_bins.magnitude)
                 assert item_bins.units == ref_bins.units
+                # The size of the values depends on the units, so an absolute
+                # tolerance must be relative to the extent of the axis
+                assert np.allclose(
+                    item_bins.magnitude, ref_bins.magnitude,
+                    atol=1e-8*np.max(np.abs(ref_bins.magnitude)))
 
             assert spectrum.x_tick_labels == x_tick_labels
             spectrum_data_magnitude[i + 1, :, :] = spectrum_i_data.magnitude
-- 
2.43.0


From f89dbffcd6756278854a595c91c0600bd26bdf64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:01 +0000
Subject: [PATCH 33/70] fix: broaden() accepted uneven bins whose centres are
 regular

---
 euphonic/spectra.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/euphonic/spectra.py b/euphonic/spectra.py
index 604e1cd..656fdbe 100644
--- a/euphonic/spectra.py
+++ b/euphonic/spectra.py
@@ -226,12 +226,15 @@ class Spectrum(ABC):
                       widths: Sequence[float],
                       shape: KernelShape = 'gauss',
                       method: Optional[Literal['convolve']] = None,
+                      axis_data: Optional[Sequence[np.ndarray]] = None
                       ) -> np.ndarray:
         """
         Broaden data along each axis by widths, returning the broadened
         data. Data can be 1D or 2D, and  the length of bin_centres and
         widths should match the number of dimensions in data.
-        bin_centres and widths are assumed to be in the same units
+        bin_centres and widths are assumed to be in the same units.
+        axis_data are the bin edges or centres the bin_centres have been
+        obtained from: bins of different sizes can have regular centres
         """
         shape_opts = ('gauss', 'lorentz')
         if shape not in shape_opts:
@@ -248,13 +251,15 @@ class Spectrum(ABC):
         if method in ('convolve', None):
             axes = ['x_data', 'y_data']
             unequal_bin_axes = []
-            for ax, (width, bin_data) in enumerate(zip(widths, bin_centres)):
+            if axis_data is None:
+                axis_data = bin_centres
+            for ax, width in enumerate(widths):
                 if width is not None:
-                    bin_widths = np.diff(bin_data)
                     # The size of the bins depends on the units, so an
                     # absolute tolerance cannot be used
-                    if not np.all(np.isclose(bin_widths, bin_widths[0],
-                                             atol=0.)):
+                    if not all(np.allclose(bin_widths, bin_widths[0], atol=0.)
+                               for bin_widths in (np.diff(bin_centres[ax]),
+                                                  np.diff(axis_data[ax]))):
                         unequal_bin_axes += [axes[ax]]
             if len(unequal_bin_axes) > 0:
                 msg = (f'{" and ".join(unequal_bin_axes)} bin widths are '
@@ -657,7 +662,8 @@ class Spectrum1D(Spectrum):
                 self.y_data.magnitude,
                 [self.get_bin_centres().magnitude],
                 [x_width.to(self.x_data_unit).magnitude],
-                shape=shape, method=method)
+                shape=shape, method=method,
+                axis_data=[self.x_data.magnitude])
             y_broadened = ureg.Quantity(y_broadened, units=self.y_data_unit)
 
         elif isinstance(x_width, Callable):
@@ -1386,7 +1392,7 @@ class Spectrum1DCollection(SpectrumCollectionMixin,
             for i, yi in enumerate(self.y_data.magnitude):
                 y_broadened[i] = self._broaden_data(
                     yi, x_centres, x_width_calc, shape=shape,
-                    method=method)
+                    method=method, axis_data=[self.x_data.magnitude])
 
             new_spectrum = self.copy()
             new_spectrum.y_data = ureg.Quantity(y_broadened, units=self.y_data_unit)
@@ -1625,7 +1631,9 @@ class Spectrum2D(Spectrum):
                                              bin_centres,
                                              widths_in_bin_units,
                                              shape=shape,
-                                             method=method)
+                                             method=method,
+                                             axis_data=[self.x_data.magnitude,
+                                                        self.y_data.magnitude])
             spectrum = Spectrum2D(np.copy(self.x_data),
                                   np.copy(self.y_data),
                                   ureg.Quantity(z_broadened, units=self.z_data_unit),
-- 
2.43.0


From 76d83f9b9a9115c0dc788f4c940090859a68ea29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:37 +0000
Subject: [PATCH 34/70] fix: cell volume was negative for a left-handed set of
 cell vectors

---
 c/util.c            | 3 ++-
 euphonic/crystal.py | 5 +++--
 euphonic/util.py    | 5 +++--
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/c/util.c b/c/util.c
index 39edd02..95bbc88 100644
--- a/c/util.c
+++ b/c/util.c
@@ -57,7 +57,8 @@ double cell_volume(const double *cell_vec) {
     for (i = 0; i < 3; i++) {
         vol += cell_vec[i]*bxc[i];
     }
-    return vol;
+    // The triple product is negative for a left-handed set of vectors
+    return fabs(vol);
 }
 
 void cmult(const double c1[2], const double c2[2], double result[2]) {
diff --git a/euphonic/crystal.py b/euphonic/crystal.py
index d82bd7f..99f76fc 100644
--- a/euphonic/crystal.py
+++ b/euphonic/crystal.py
@@ -118,8 +118,9 @@ class Crystal:
         bxc = np.cross(cv[1], cv[2])
         cxa = np.cross(cv[2], cv[0])
         axb = np.cross(cv[0], cv[1])
-        vol = self.cell_volume()
-        norm = 2*np.pi/vol
+        # Not the volume: has the sign of the handedness of the cell
+        triple_product = np.dot(cv[0], bxc)
+        norm = 2*np.pi/triple_product
 
         return np.vstack((norm * bxc, norm * cxa, norm * axb))
 
diff --git a/euphonic/util.py b/euphonic/util.py
index 9031251..cba6bb2 100644
--- a/euphonic/util.py
+++ b/euphonic/util.py
@@ -436,8 +436,9 @@ def convert_fc_phases(force_constants: np.ndarray, atom_r: np.ndarray,
 
 def _cell_vectors_to_volume(cell_vectors: Quantity) -> Quantity:
     """Convert 3x3 cell vectors to volume"""
-    volume = np.dot(cell_vectors[0],
-                    np.cross(cell_vectors[1], cell_vectors[2]))
+    # The triple product is negative for a left-handed set of vectors
+    volume = abs(np.dot(cell_vectors[0],
+                        np.cross(cell_vectors[1], cell_vectors[2])))
     assert isinstance(volume, Quantity)
     return volume
 
-- 
2.43.0


From b7e02a4f8bc6ccc966014b8a4f9337a9e33ea85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:26 +0000
Subject: [PATCH 35/70] fix: C19 kinematic limits miss backscattering at 540
 degrees

---
 euphonic/spectra.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/euphonic/spectra.py b/euphonic/spectra.py
index 656fdbe..0bda94c 100644
--- a/euphonic/spectra.py
+++ b/euphonic/spectra.py
@@ -2120,13 +2120,14 @@ def _get_cos_range(angle_range: Tuple[float]) -> Tuple[float]:
     a cosine max/min point lies within the angle range, 1/-1 respectively.
 
     Method: the angle range is translated such that it starts within 0-2π; then
-    we check for the presence of turning points at π and 2π.
+    we check for the presence of turning points at π, 2π and 3π.
     """
     limiting_values = np.cos(angle_range).tolist()
 
     shift, lower_angle = divmod(min(angle_range), np.pi * 2)
     upper_angle = max(angle_range) - (shift * 2 * np.pi)
-    if lower_angle < np.pi < upper_angle:
+    if (lower_angle < np.pi < upper_angle
+            or lower_angle < 3 * np.pi < upper_angle):
         limiting_values.append(-1.)
     if lower_angle < 2 * np.pi < upper_angle:
         limiting_values.append(1.)
-- 
2.43.0


From c48353a150e42d14ef2dfa6817f644e96a0c0021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:26 +0000
Subject: [PATCH 36/70] fix: C19 rounding at zero momentum transfer masks a
 whole energy row

---
 euphonic/spectra.py | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/euphonic/spectra.py b/euphonic/spectra.py
index 0bda94c..b8d41b3 100644
--- a/euphonic/spectra.py
+++ b/euphonic/spectra.py
@@ -2085,21 +2085,18 @@ def apply_kinematic_constraints(spectrum: Spectrum2D,
     cos_values = np.asarray(
         _get_cos_range(np.asarray(angle_range) * np.pi / 180.))
 
-    # Momentum goes negative where final energy greater than incident
-    # energy; detect this as complex component and set extreme q-bounds to
-    # enforce conservation of energy
-
-    # (Complex number sqrt separated from units sqrt for compatibility with
-    # older library versions; in newer versions this is not necessary.)
-    q_bounds = np.sqrt(k2_i + k2_f
-                       - 2 * cos_values[:, np.newaxis]
-                           * np.sqrt(k2_i.magnitude * k2_f.magnitude,
-                                     dtype=complex)
-                           * (k2_i.units * k2_f.units)**0.5
-                       )
-    q_bounds.magnitude.T[np.any(q_bounds.imag, axis=0)] = [float('Inf'),
-                                                           float('-Inf')]
-    q_bounds = q_bounds.real
+    # q^2 can be slightly negative due to rounding close to zero momentum
+    # transfer, and k2_i * k2_f is negative where energy is not conserved
+    # (energy transfer greater than incident energy)
+    k2_product = (k2_i * k2_f).to('angstrom^-4').magnitude
+    q2_bounds = ((k2_i + k2_f).to('angstrom^-2').magnitude
+                 - 2 * cos_values[:, np.newaxis]
+                 * np.sqrt(np.maximum(k2_product, 0.)))
+    q_bounds = np.sqrt(np.maximum(q2_bounds, 0.))
+
+    # Set extreme q-bounds to enforce conservation of energy
+    q_bounds.T[k2_product < 0.] = [float('Inf'), float('-Inf')]
+    q_bounds = q_bounds * ureg('1/angstrom')
 
     mask = np.logical_or((spectrum.get_bin_edges(bin_ax='x')[1:, np.newaxis]
                           < q_bounds[0][np.newaxis, :]),
-- 
2.43.0


From 511bb321d90d2d9ff3d77b8a789977fcf234b4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:26 +0000
Subject: [PATCH 37/70] fix: C19 kinematic constraints with x_data in
 decreasing order

---
 euphonic/spectra.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/euphonic/spectra.py b/euphonic/spectra.py
index b8d41b3..8051b31 100644
--- a/euphonic/spectra.py
+++ b/euphonic/spectra.py
@@ -2098,9 +2098,13 @@ def apply_kinematic_constraints(spectrum: Spectrum2D,
     q_bounds.T[k2_product < 0.] = [float('Inf'), float('-Inf')]
     q_bounds = q_bounds * ureg('1/angstrom')
 
-    mask = np.logical_or((spectrum.get_bin_edges(bin_ax='x')[1:, np.newaxis]
+    # x_data may be in decreasing order
+    q_edges = spectrum.get_bin_edges(bin_ax='x')
+    q_lower = np.minimum(q_edges[1:], q_edges[:-1])
+    q_upper = np.maximum(q_edges[1:], q_edges[:-1])
+    mask = np.logical_or((q_upper[:, np.newaxis]
                           < q_bounds[0][np.newaxis, :]),
-                         (spectrum.get_bin_edges(bin_ax='x')[:-1, np.newaxis]
+                         (q_lower[:, np.newaxis]
                           > q_bounds[-1][np.newaxis, :]))
 
     new_spectrum = spectrum.copy()
-- 
2.43.0


From c675393b684d85fdc3de821bd39b53d5954ff300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:26 +0000
Subject: [PATCH 38/70] fix: C19 kinematic constraints reject x_data that is
 not 1/length

---
 euphonic/spectra.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/euphonic/spectra.py b/euphonic/spectra.py
index 8051b31..637b383 100644
--- a/euphonic/spectra.py
+++ b/euphonic/spectra.py
@@ -2049,12 +2049,11 @@ def apply_kinematic_constraints(spectrum: Spectrum2D,
     -------
     Masked spectrum with inaccessible bins set to NaN in z_data.
     """
-    try:
-        (1 * spectrum.x_data.units).to('1/angstrom')
-    except DimensionalityError as error:
+    # Compare the dimensions rather than attempting a conversion, as e.g. energy
+    # can also be converted to 1/length in the spectroscopy context
+    if not spectrum.x_data.check('1/[length]'):
         raise ValueError(
-            "x_data needs to have wavevector units (i.e. 1/length)"
-            ) from error
+            "x_data needs to have wavevector units (i.e. 1/length)")
     try:
         (1 * spectrum.y_data.units).to('eV', 'spectroscopy')
     except DimensionalityError as error:
-- 
2.43.0


From 77ca4eb827ca764ed91a1c76f371705b516b1bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:26 +0000
Subject: [PATCH 39/70] fix: C20 spherical-polar-improved drops a point for
 some npts

---
 euphonic/sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/euphonic/sampling.py b/euphonic/sampling.py
index b36f9bc..ad51500 100644
--- a/euphonic/sampling.py
+++ b/euphonic/sampling.py
@@ -300,7 +300,7 @@ def spherical_polar_improved(npts: int,
     theta_circumferences = 2 * np.pi * np.abs(np.sin(theta_sequence))
     bin_edges = np.concatenate([[0], np.cumsum(theta_circumferences)])
 
-    counts, _ = np.histogram(np.linspace(0, theta_circumferences.sum(), npts),
+    counts, _ = np.histogram(np.linspace(0, bin_edges[-1], npts),
                              bins=bin_edges, density=False)
 
     for row_theta, count in zip(theta_sequence, counts):
-- 
2.43.0


From 8dc6bb006a60c6a48aecf2b0cf6e431b01b317a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:26 +0000
Subject: [PATCH 40/70] fix: C20 spherical-polar-grid with a single row or
 column

---
 euphonic/sampling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/euphonic/sampling.py b/euphonic/sampling.py
index ad51500..097d9c7 100644
--- a/euphonic/sampling.py
+++ b/euphonic/sampling.py
@@ -218,12 +218,12 @@ def spherical_polar_grid(n_phi: int, n_theta: int,
         (r, phi, theta) spherical coordinates.
     """
     phi_sequence = np.linspace(-np.pi, np.pi, n_phi + 1)[:-1]
-    phi_spacing = phi_sequence[1] - phi_sequence[0]
+    phi_spacing = 2 * np.pi / n_phi
 
     # Offset theta samples to avoid redundancy at pole
     theta_sequence = (np.linspace(0, np.pi, n_theta + 1)[:-1]
                       + np.pi / (2 * n_theta))
-    theta_spacing = theta_sequence[1] - theta_sequence[0]
+    theta_spacing = np.pi / n_theta
 
     for phi, theta in product(phi_sequence, theta_sequence):
         if jitter:
-- 
2.43.0


From 99cc711ba297c4194de6fe008d52412677051357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:26 +0000
Subject: [PATCH 41/70] fix: C20 sampling names are case-insensitive as
 documented

---
 euphonic/powder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/euphonic/powder.py b/euphonic/powder.py
index b51105e..d949955 100644
--- a/euphonic/powder.py
+++ b/euphonic/powder.py
@@ -364,6 +364,8 @@ def _get_qpts_sphere(npts: int,
                                    spherical_polar_improved,
                                    random_sphere)
 
+    sampling = sampling.lower()
+
     if sampling == 'golden':
         return np.asarray(list(golden_sphere(npts, jitter=jitter)))
     elif sampling == 'sphere-projected-grid':
-- 
2.43.0


From 72868b02554c46d33d7024c98f386cf4ca7188b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:26 +0000
Subject: [PATCH 42/70] fix: C21 label symmetry points with rounding errors or
 negative coordinates

---
 euphonic/util.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/euphonic/util.py b/euphonic/util.py
index cba6bb2..644a626 100644
--- a/euphonic/util.py
+++ b/euphonic/util.py
@@ -635,8 +635,9 @@ def _get_qpt_label(qpt: np.ndarray,
         point label is just an empty string
     """
 
-    # Normalise qpt to [0,1]
-    qpt_norm = [x - math.floor(x) for x in qpt]
+    # Normalise qpt to [0,1), allowing for rounding
+    TOL = 1e-6
+    qpt_norm = [x - math.floor(x + TOL) for x in qpt]
 
     # Split dict into keys and values so labels can be looked up by
     # comparing q-point coordinates with the dict values
@@ -647,7 +648,6 @@ def _get_qpt_label(qpt: np.ndarray,
 
     # Check for matching symmetry point coordinates (roll q-point
     # coordinates if no match is found)
-    TOL = 1e-6
     matching_label_index = np.where((np.isclose(
         label_coords, qpt_norm, atol=TOL)).all(axis=1))[0]
     if matching_label_index.size == 0:
@@ -656,6 +656,13 @@ def _get_qpt_label(qpt: np.ndarray,
     if matching_label_index.size == 0:
         matching_label_index = np.where((np.isclose(
             label_coords, np.roll(qpt_norm, 2), atol=TOL)).all(axis=1))[0]
+    if matching_label_index.size == 0:
+        # Some symmetry points have coordinates outside [0,1), check for any
+        # that differ from the q-point by a reciprocal lattice vector
+        qpt_equivalent = qpt_norm + np.rint(np.subtract(label_coords,
+                                                        qpt_norm))
+        matching_label_index = np.where((np.isclose(
+            label_coords, qpt_equivalent, atol=TOL)).all(axis=1))[0]
 
     label = ''
     if matching_label_index.size > 0:
-- 
2.43.0


From d3831208923b371d60b19e0d8deb10310b90328e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:24 +0000
Subject: [PATCH 43/70] fix: C21 wrong symmetry labels from rolled q-point
 coordinates

---
 euphonic/util.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/euphonic/util.py b/euphonic/util.py
index 644a626..ae9becd 100644
--- a/euphonic/util.py
+++ b/euphonic/util.py
@@ -563,6 +563,7 @@ def _recip_space_labels(qpts: np.ndarray,
             [True]))
     qpts_with_labels = np.where(qpt_has_label)[0]
 
+    recip_cell = None
     if cell is None:
         sym_label_to_coords = _generic_qpt_labels()
     else:
@@ -572,6 +573,7 @@ def _recip_space_labels(qpts: np.ndarray,
                 # don't care to see those for now
                 warnings.simplefilter("ignore", category=DeprecationWarning)
                 sym_label_to_coords = seekpath.get_path(cell)["point_coords"]
+            recip_cell = np.linalg.inv(cell[0]).T
 
         except (SymmetryDetectionError, TypeError) as err:
             if isinstance(err, TypeError):
@@ -586,7 +588,8 @@ def _recip_space_labels(qpts: np.ndarray,
     # Get labels for each q-point
     labels = np.array([])
     for qpt in qpts[qpts_with_labels]:
-        labels = np.append(labels, _get_qpt_label(qpt, sym_label_to_coords))
+        labels = np.append(labels, _get_qpt_label(
+            qpt, sym_label_to_coords, recip_cell=recip_cell))
 
     return labels, qpts_with_labels
 
@@ -611,7 +614,8 @@ def _generic_qpt_labels() -> dict[str, tuple[float, float, float]]:
 
 
 def _get_qpt_label(qpt: np.ndarray,
-                   point_labels: dict[str, tuple[float, float, float]]
+                   point_labels: dict[str, tuple[float, float, float]],
+                   recip_cell: Optional[np.ndarray] = None
                    ) -> str:
     """
     Gets a label for a particular q-point, based on the high symmetry
@@ -627,6 +631,11 @@ def _get_qpt_label(qpt: np.ndarray,
         (e.g. 'GAMMA', 'X'), to their 3-dimensional coordinates (e.g.
         [0.0, 0.0, 0.0]) where N = number of high symmetry points for a
         particular space group
+    recip_cell
+        Shape (3, 3) float ndarray. The reciprocal lattice vectors. If
+        provided, rolled q-point coordinates are only used where
+        rolling doesn't change the length of the q-point vector (so the
+        rolled q-point can be equivalent by symmetry)
 
     Returns
     -------
@@ -650,12 +659,15 @@ def _get_qpt_label(qpt: np.ndarray,
     # coordinates if no match is found)
     matching_label_index = np.where((np.isclose(
         label_coords, qpt_norm, atol=TOL)).all(axis=1))[0]
-    if matching_label_index.size == 0:
-        matching_label_index = np.where((np.isclose(
-            label_coords, np.roll(qpt_norm, 1), atol=TOL)).all(axis=1))[0]
-    if matching_label_index.size == 0:
-        matching_label_index = np.where((np.isclose(
-            label_coords, np.roll(qpt_norm, 2), atol=TOL)).all(axis=1))[0]
+    for shift in (1, 2):
+        qpt_roll = np.roll(qpt_norm, shift)
+        if recip_cell is not None and not np.isclose(
+                np.linalg.norm(qpt_roll @ recip_cell),
+                np.linalg.norm(qpt_norm @ recip_cell), rtol=1e-4):
+            continue
+        if matching_label_index.size == 0:
+            matching_label_index = np.where((np.isclose(
+                label_coords, qpt_roll, atol=TOL)).all(axis=1))[0]
     if matching_label_index.size == 0:
         # Some symmetry points have coordinates outside [0,1), check for any
         # that differ from the q-point by a reciprocal lattice vector
-- 
2.43.0


From 22ba3bd64d37a6bebc2825595ba5139241912c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:50 +0000
Subject: [PATCH 44/70] fix: C24 accept the documented hdf5 extensions for
 Phonopy force constants (and no other format)

---
 euphonic/readers/phonopy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/euphonic/readers/phonopy.py b/euphonic/readers/phonopy.py
index b1b0bc9..0b678f7 100644
--- a/euphonic/readers/phonopy.py
+++ b/euphonic/readers/phonopy.py
@@ -713,7 +713,7 @@ def read_interpolation_data(
             with open(fc_pathname, 'r') as fc_file:
                 summary_dict['force_constants'] = _extract_force_constants(
                     fc_pathname, n_atoms, n_cells, summary_pathname)
-        elif fc_format in 'hdf5':
+        elif fc_format in hdf5_exts:
             summary_dict['force_constants'] =  _extract_force_constants_hdf5(
                 fc_pathname, n_atoms, n_cells, summary_pathname)
         else:
-- 
2.43.0


From 47ae648c312cad49d5c82cb1696b7ae239f33dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:50 +0000
Subject: [PATCH 45/70] fix: C24 non-symmetric Phonopy supercell matrices were
 used untransposed

---
 euphonic/readers/phonopy.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/euphonic/readers/phonopy.py b/euphonic/readers/phonopy.py
index 0b678f7..cd2f8b8 100644
--- a/euphonic/readers/phonopy.py
+++ b/euphonic/readers/phonopy.py
@@ -516,8 +516,10 @@ def _extract_summary(filename: str, fc_extract: bool = False
     summary_dict['atom_mass'] = atom_mass
 
     if fc_extract:
-        # Get matrix to convert from primitive cell to unit cell
-        u_to_sc_matrix = np.array(summary_object['supercell_matrix'])
+        # Get matrix to convert from unit cell to supercell. In Phonopy
+        # this acts on the cell vectors as columns, so transpose
+        u_to_sc_matrix = np.array(
+            summary_object['supercell_matrix']).transpose()
         if 'primitive_matrix' in summary_object:
             u_to_p_matrix = np.array(summary_object['primitive_matrix'])
             # Matrix to convert from primitive to supercell
-- 
2.43.0


From 5200dcd562e785f3f99f23f6e1d9109426037327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:50 +0000
Subject: [PATCH 46/70] fix: C24 cell origins did not match the normalised
 Phonopy atom coordinates

---
 euphonic/readers/phonopy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/euphonic/readers/phonopy.py b/euphonic/readers/phonopy.py
index cd2f8b8..cdba14e 100644
--- a/euphonic/readers/phonopy.py
+++ b/euphonic/readers/phonopy.py
@@ -764,8 +764,9 @@ def read_interpolation_data(
         umass).to(atom_mass_unit).magnitude
     cry_dict['atom_mass_unit'] = atom_mass_unit
 
+    # The cell origins must be relative to the normalised coordinates
     fc, cell_origins = convert_fc_phases(
-         summary_dict['force_constants'], summary_dict['atom_r'],
+         summary_dict['force_constants'], cry_dict['atom_r'],
          summary_dict['sc_atom_r'], summary_dict['pc_to_sc_atom_idx'],
          summary_dict['sc_to_pc_atom_idx'], summary_dict['sc_matrix'])
     data_dict['force_constants'] = fc*ureg(
-- 
2.43.0


From 99c594f5ff2c188525d15925c18c223d604f539d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:50 +0000
Subject: [PATCH 47/70] fix: C24 blank lines in a Phonopy BORN file

---
 euphonic/readers/phonopy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/euphonic/readers/phonopy.py b/euphonic/readers/phonopy.py
index cdba14e..26cdf01 100644
--- a/euphonic/readers/phonopy.py
+++ b/euphonic/readers/phonopy.py
@@ -424,8 +424,8 @@ def _extract_born(born_file_obj: TextIO) -> Dict[str, Union[float, np.ndarray]]:
     born_lines_str = born_file_obj.readlines()
     born_lines: List[List[float]] = []
     for line in born_lines_str:
-        # Ignore comments
-        if line.startswith('#'):
+        # Ignore comments and blank lines
+        if line.startswith('#') or not line.strip():
             pass
         else:
             born_lines.append([float(x) for x in line.split()])
-- 
2.43.0


From 83377ec1e80bdba31bcc2e63fe913d4efc06d28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:05 +0000
Subject: [PATCH 48/70] fix: raise instead of looping forever on a truncated
 .phonon header

---
 euphonic/readers/castep.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/euphonic/readers/castep.py b/euphonic/readers/castep.py
index 2e150c5..033f0d0 100644
--- a/euphonic/readers/castep.py
+++ b/euphonic/readers/castep.py
@@ -300,8 +300,10 @@ def _read_crystal_info(
         Shape (n_atoms,) float ndarray. The mass of each atom in the
         unit cell in atomic mass units
     """
-    while 'Unit cell vectors' not in f.readline():
-        pass
+    while 'Unit cell vectors' not in (line := f.readline()):
+        if not line:
+            raise EOFError('Unexpected end of file: "Unit cell vectors" '
+                           'could not be found')
     cell_vectors = np.array([[float(x) for x in f.readline().split()[0:3]]
                              for i in range(3)])
     f.readline()  # Skip fractional co-ordinates label
-- 
2.43.0


From 72eaac47318ed0479bd5175a8318b6530490fca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:05 +0000
Subject: [PATCH 49/70] fix: raise when a .phonon file has fewer q-points than
 its header says

---
 euphonic/readers/castep.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/euphonic/readers/castep.py b/euphonic/readers/castep.py
index 033f0d0..af15a95 100644
--- a/euphonic/readers/castep.py
+++ b/euphonic/readers/castep.py
@@ -229,6 +229,10 @@ def read_phonon_data(
                     eigenvecs = np.concatenate((eigenvecs, [qeigenvec]))
             idx += 1
 
+    if idx < n_qpts:
+        raise EOFError(f'Only {idx} of {n_qpts} q-points could be found '
+                       f'in {filename}')
+
     # Multiple qpts with same CASTEP q-pt index: correct weights
     for qpt_id, indices in repeated_qpt_ids.items():
         if (prefer_non_loto
-- 
2.43.0


From ebe7cf2970f959bf1978c6af19219cd46c834e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:05 +0000
Subject: [PATCH 50/70] fix: raise on malformed q-point lines and columns in
 CASTEP files

---
 euphonic/readers/castep.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/euphonic/readers/castep.py b/euphonic/readers/castep.py
index af15a95..094666c 100644
--- a/euphonic/readers/castep.py
+++ b/euphonic/readers/castep.py
@@ -320,7 +320,7 @@ def _read_crystal_info(
     return cell_vectors, atom_r, atom_type, atom_mass
 
 
-_qpt_index_pattern = re.compile(r'q-pt=\s*(\d+)')
+_qpt_index_pattern = re.compile(r'q-pt=\s*(\d+)(?![\d.])')
 _qpt_float_pattern = re.compile(r'-?\d+\.\d+')
 
 
@@ -386,6 +386,9 @@ def _read_frequency_block(
 
     i_qpt = int(re.findall(_qpt_index_pattern, qpt_line)[0])
     floats = re.findall(_qpt_float_pattern, qpt_line)
+    # q-point and weight, and direction if it is a split gamma point
+    if len(floats) not in (4, 7):
+        raise ValueError(f'Malformed q-point line: {qpt_line}')
     qpt = np.array([float(x) for x in floats[:3]])
     qweight = float(floats[3])
 
@@ -395,6 +398,9 @@ def _read_frequency_block(
 
     freq_lines = [f.readline().split()
                   for i in range(n_branches)]
+    if len({len(line) for line in freq_lines}) != 1:
+        raise ValueError(f'Frequency lines with different numbers of columns '
+                         f'at: {qpt_line}')
     freq_col = 1
     qfreq = np.array([float(line[freq_col]) for line in freq_lines])
     extra: Optional[np.ndarray] = None
-- 
2.43.0


From b64f9000df3ccbcec5f45857609cdce2e0b6d466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:05 +0000
Subject: [PATCH 51/70] fix: raise when q-points or bands are missing from
 Phonopy .yaml files

---
 euphonic/readers/phonopy.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/euphonic/readers/phonopy.py b/euphonic/readers/phonopy.py
index 26cdf01..2cf5e0c 100644
--- a/euphonic/readers/phonopy.py
+++ b/euphonic/readers/phonopy.py
@@ -84,6 +84,16 @@ def _extract_phonon_data_yaml(filename: str,
     phonons = [phon for phon in phonon_data['phonon']]
     bands_data_each_qpt = [bands_data['band'] for bands_data in phonons]
 
+    # Make sure that no q-points or bands are missing
+    if len(phonons) != phonon_data.get('nqpoint', len(phonons)):
+        raise ValueError(f'Number of q-points in {filename} is not that given '
+                         f'by nqpoint')
+    if 'natom' in phonon_data and any(
+            len(bands_data) != 3*phonon_data['natom']
+            for bands_data in bands_data_each_qpt):
+        raise ValueError(f'Number of bands in {filename} is not that expected '
+                         f'from natom')
+
     data_dict['qpts'] = np.array([phon['q-position'] for phon in phonons])
     data_dict['frequencies'] = np.array(
         [[band_data['frequency'] for band_data in bands_data]
-- 
2.43.0


From c054a3a213ea5c8aa552ed54486c5c1191b88293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:05 +0000
Subject: [PATCH 52/70] fix: raise when some of the weights are missing from
 mesh.yaml

---
 euphonic/readers/phonopy.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/euphonic/readers/phonopy.py b/euphonic/readers/phonopy.py
index 2cf5e0c..e61bffe 100644
--- a/euphonic/readers/phonopy.py
+++ b/euphonic/readers/phonopy.py
@@ -109,10 +109,8 @@ def _extract_phonon_data_yaml(filename: str,
             pass
 
     # Weights only present in mesh
-    try:
+    if any('weight' in phon for phon in phonons):
         data_dict['weights'] = np.array([phon['weight'] for phon in phonons])
-    except KeyError:
-        pass
 
     # Crystal information only appears to be present in mesh/band
     try:
-- 
2.43.0


From 99f9e77e3e7f87836e285a97c2f21c1198279ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:05 +0000
Subject: [PATCH 53/70] fix: raise on FORCE_CONSTANTS values that are not
 numbers

---
 euphonic/readers/phonopy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/euphonic/readers/phonopy.py b/euphonic/readers/phonopy.py
index e61bffe..75451da 100644
--- a/euphonic/readers/phonopy.py
+++ b/euphonic/readers/phonopy.py
@@ -381,6 +381,9 @@ def _extract_force_constants(fc_pathname: str, n_atoms: int, n_cells: int,
         fc = np.genfromtxt(fc_pathname, skip_header=1,
                            max_rows=4*(n_atoms*n_cells)**2, usecols=(0,1,2),
                            invalid_raise=False)
+    # genfromtxt gives NaN for anything that is not a number
+    if np.isnan(fc).any():
+        raise ValueError(f'Invalid force constants in {fc_pathname}')
     return fc.reshape(fc_dims + [3, 3])
 
 
-- 
2.43.0


From 160087dc849ec66f2452e56e2e4a878cc4028d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:05 +0000
Subject: [PATCH 54/70] fix: raise on atom masses in Phonopy files that are not
 numbers

---
 euphonic/readers/phonopy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/euphonic/readers/phonopy.py b/euphonic/readers/phonopy.py
index 75451da..64caedc 100644
--- a/euphonic/readers/phonopy.py
+++ b/euphonic/readers/phonopy.py
@@ -632,7 +632,7 @@ def _extract_crystal_data(crystal: Dict[str, Any]
     atom_mass = np.zeros(n_atoms)
     atom_type = np.array([])
     for i in range(n_atoms):
-        atom_mass[i] = crystal['points'][i]['mass']
+        atom_mass[i] = float(crystal['points'][i]['mass'])
         atom_r[i] = crystal['points'][i]['coordinates']
         atom_type = np.append(atom_type, crystal['points'][i]['symbol'])
 
-- 
2.43.0


From 2fd35fe81814418b7a03f85f3a86ca8b28344453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:05 +0000
Subject: [PATCH 55/70] fix: raise on null or text in the numeric arrays of a
 .json file

---
 euphonic/io.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/euphonic/io.py b/euphonic/io.py
index aaf26d7..c7ac5ce 100644
--- a/euphonic/io.py
+++ b/euphonic/io.py
@@ -36,11 +36,17 @@ def _from_json_dict(dictionary: Dict[str, Any],
         if isinstance(val, list):
             if key in type_dict and type_dict[key] == tuple:
                 dictionary[key] = [tuple(x) for x in val]
-            elif key in type_dict and type_dict[key] == np.complex128:
-                dictionary[key] = np.array(
-                    val, dtype=np.float64).view(np.complex128).squeeze(axis=-1)
             else:
-                dictionary[key] = np.array(val)
+                array = np.array(val)
+                # Don't allow null, or strings among numbers
+                if array.dtype.kind not in (
+                        'U' if key == 'atom_type' else 'biuf'):
+                    if array.size > 0:
+                        raise ValueError(f'Unexpected values in {key}')
+                if key in type_dict and type_dict[key] == np.complex128:
+                    array = array.astype(np.float64).view(
+                        np.complex128).squeeze(axis=-1)
+                dictionary[key] = array
         elif isinstance(val, dict):
             if key != 'metadata':
                 dictionary[key] = _from_json_dict(
-- 
2.43.0


From cbc7101bc493f62a3d4a4e386d01c4d28320c864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:05 +0000
Subject: [PATCH 56/70] fix: raise on a null unit or a text quantity in a .json
 file

---
 euphonic/io.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/euphonic/io.py b/euphonic/io.py
index c7ac5ce..bd59e71 100644
--- a/euphonic/io.py
+++ b/euphonic/io.py
@@ -97,8 +97,14 @@ def _process_dict(dictionary: Dict[str, Any], quantities: Sequence[str] = [],
     for qkey in quantities:
         val = dictionary.pop(qkey)
         if val is not None:
+            unit = dictionary.pop(qkey + '_unit')
+            # Otherwise val would become dimensionless
+            if unit is None:
+                raise ValueError(f'{qkey}_unit must not be None')
+            if isinstance(val, str):
+                raise ValueError(f'{qkey} must be a number')
             # Don't multiply as this is not allowed for offset units (e.g. degC)
-            val = ureg.Quantity(val, dictionary.pop(qkey + '_unit'))
+            val = ureg.Quantity(val, unit)
         dictionary[qkey] = val
     return dictionary
 
-- 
2.43.0


From 26af8d15587d32a47b33b6d43f042fc77e7dbf05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:56 +0000
Subject: [PATCH 57/70] fix: a band path segment with only its end points is
 not a break

---
 euphonic/cli/utils.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/euphonic/cli/utils.py b/euphonic/cli/utils.py
index 4dd3628..0c00635 100644
--- a/euphonic/cli/utils.py
+++ b/euphonic/cli/utils.py
@@ -271,7 +271,23 @@ def _get_break_points(bandpath: dict) -> List[int]:
 
     break_points = np.where(np.logical_and(adjacent_non_empty_labels,
                                            adjacent_different_labels))[0]
-    return (break_points + 1).tolist()
+
+    # With a coarse q-point spacing a segment of the path may only contain its
+    # end points: these are also adjacent labels, but there is no break there
+    path = bandpath.get("path")
+    if path is not None:
+        step_is_break = []  # for each step between two special points
+        for (_, end), (start, _) in zip(path[:-1], path[1:]):
+            step_is_break += [False] if start == end else [False, True]
+        step_is_break.append(False)
+
+        new_special_point = special_point_bools.copy()
+        new_special_point[1:] &= adjacent_different_labels
+        step_indices = np.cumsum(new_special_point) - 1
+        break_points = [i for i in break_points
+                        if step_is_break[step_indices[i]]]
+
+    return [int(i) + 1 for i in break_points]
 
 
 def _insert_gamma(bandpath: dict) -> None:
-- 
2.43.0


From 2806bd8252ba2f9e640de32bfe3779fa0d9e9b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:56 +0000
Subject: [PATCH 58/70] fix: plot spectra whose x_tick_labels are empty

---
 euphonic/plot.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/euphonic/plot.py b/euphonic/plot.py
index 7b42724..543d446 100644
--- a/euphonic/plot.py
+++ b/euphonic/plot.py
@@ -328,6 +328,11 @@ def _set_x_tick_labels(ax: Axes,
                        x_tick_labels: Optional[Sequence[Tuple[int, str]]],
                        x_data: Quantity) -> None:
     if x_tick_labels is not None:
+        if len(x_tick_labels) == 0:
+            # e.g. a section of a split spectrum with no labelled points
+            ax.set_xticks([])
+            return
+
         locs, labels = [list(x) for x in zip(*x_tick_labels)]
         x_values = x_data.magnitude  # type: np.ndarray
         ax.set_xticks(x_values[locs])
-- 
2.43.0


From 3d8af9d0fd0031d8c03ae0e14196d8088c91eee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:56 +0000
Subject: [PATCH 59/70] fix: euphonic-intensity-map ignored all but the first
 energy-broadening coefficient

---
 euphonic/cli/intensity_map.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/euphonic/cli/intensity_map.py b/euphonic/cli/intensity_map.py
index 3256489..614221e 100755
--- a/euphonic/cli/intensity_map.py
+++ b/euphonic/cli/intensity_map.py
@@ -9,6 +9,7 @@ from euphonic import ureg, Spectrum2D, QpointFrequencies, ForceConstants
 import euphonic.plot
 from euphonic.util import get_qpoint_labels
 from euphonic.styles import base_style
+from .powder_map import _get_broaden_kwargs
 from .utils import (_bands_from_force_constants, _calc_modes_kwargs,
                     _compose_style, _plot_label_kwargs,
                     get_args, _get_debye_waller,
@@ -72,11 +73,12 @@ def main(params: Optional[List[str]] = None) -> None:
 
     if args.q_broadening or args.energy_broadening:
         spectrum = spectrum.broaden(
-            x_width=(args.q_broadening * recip_length_unit
-                     if args.q_broadening else None),
-            y_width=(args.energy_broadening[0] * ebins.units
-                     if args.energy_broadening else None),
-            shape=args.shape, method='convolve')
+            shape=args.shape, method='convolve',
+            **_get_broaden_kwargs(
+                q_broadening=args.q_broadening,
+                q_unit=recip_length_unit,
+                energy_broadening=args.energy_broadening,
+                energy_unit=args.energy_unit))
 
     print("Plotting figure")
     plot_label_kwargs = _plot_label_kwargs(
-- 
2.43.0


From 556e53839bd302758355f43f84105502e820beb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:56 +0000
Subject: [PATCH 60/70] fix: euphonic-dos --adaptive with instrument broadening
 in any energy unit

---
 euphonic/cli/dos.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/euphonic/cli/dos.py b/euphonic/cli/dos.py
index 7933932..75dea80 100644
--- a/euphonic/cli/dos.py
+++ b/euphonic/cli/dos.py
@@ -75,11 +75,12 @@ def main(params: Optional[List[str]] = None) -> None:
                 # Combine instrumental broadening and adaptive sample
                 # broadening: the convolution of a Gaussian with a Gaussian is
                 # a Gaussian with sigma = sqrt(sigma1^2 + sigma2^2)
+                inst_widths = energy_broadening_poly(
+                    modes.frequencies.to(args.energy_unit).magnitude
+                    ) * ureg(args.energy_unit)
                 mode_widths = sqrt(
                     mode_widths**2
-                    + (energy_broadening_poly(modes.frequencies
-                                              .to(args.energy_unit).magnitude
-                                              ) * ureg(args.energy_unit))**2)
+                    + inst_widths.to(mode_widths.units)**2)
         else:
             modes = data.calculate_qpoint_phonon_modes(
                 mp_grid(grid_spec), **_calc_modes_kwargs(args))
-- 
2.43.0


From cff041f458349add2a85de31468f49bdfb8816cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:56 +0000
Subject: [PATCH 61/70] fix: euphonic-dos combined an instrument FWHM with
 adaptive standard deviations

---
 euphonic/cli/dos.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/euphonic/cli/dos.py b/euphonic/cli/dos.py
index 75dea80..258c90f 100644
--- a/euphonic/cli/dos.py
+++ b/euphonic/cli/dos.py
@@ -2,7 +2,7 @@ from argparse import ArgumentParser
 from typing import List, Optional
 
 import matplotlib.style
-from numpy import sqrt
+from numpy import log, sqrt
 from numpy.polynomial import Polynomial
 
 from euphonic import ureg, ForceConstants, QpointFrequencies
@@ -74,13 +74,16 @@ def main(params: Optional[List[str]] = None) -> None:
             if args.inst_broadening and args.shape == 'gauss':
                 # Combine instrumental broadening and adaptive sample
                 # broadening: the convolution of a Gaussian with a Gaussian is
-                # a Gaussian with sigma = sqrt(sigma1^2 + sigma2^2)
+                # a Gaussian with sigma = sqrt(sigma1^2 + sigma2^2). The mode
+                # widths are standard deviations, but the instrumental
+                # broadening is a FWHM
                 inst_widths = energy_broadening_poly(
                     modes.frequencies.to(args.energy_unit).magnitude
                     ) * ureg(args.energy_unit)
                 mode_widths = sqrt(
                     mode_widths**2
-                    + inst_widths.to(mode_widths.units)**2)
+                    + (inst_widths.to(mode_widths.units)
+                       / (2 * sqrt(2 * log(2))))**2)
         else:
             modes = data.calculate_qpoint_phonon_modes(
                 mp_grid(grid_spec), **_calc_modes_kwargs(args))
-- 
2.43.0


From 2b0ae519b6d89c9a7c4e12ac7f49ead954ae4b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:56 +0000
Subject: [PATCH 62/70] fix: plot_1d cut off subplots at the y-range of the
 first one

---
 euphonic/plot.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/euphonic/plot.py b/euphonic/plot.py
index 543d446..7326351 100644
--- a/euphonic/plot.py
+++ b/euphonic/plot.py
@@ -182,6 +182,10 @@ def plot_1d(spectra: Union[Spectrum1D,
             leg_handles, leg_labels = ax.get_legend_handles_labels()
             if len(leg_labels) > 0:
                 ax.legend()
+
+    # The y-axis is shared: setting its limits turns off autoscaling, so
+    # wait until the data of all the subplots has been added
+    for ax in subplots.flatten():
         ax.set_ylim(bottom=ymin, top=ymax)
 
     # Add an invisible large axis for common labels
-- 
2.43.0


From 3cfced892b02c1dc0143407686bc4906ba33fab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:56 +0000
Subject: [PATCH 63/70] fix: plot_2d drew subplots in different units on one
 scale

---
 euphonic/plot.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/euphonic/plot.py b/euphonic/plot.py
index 7326351..d59256c 100644
--- a/euphonic/plot.py
+++ b/euphonic/plot.py
@@ -288,6 +288,10 @@ def plot_2d(spectra: Union[Spectrum2D, Sequence[Spectrum2D]],
     if isinstance(spectra, Spectrum2D):
         spectra = [spectra]
 
+    # The subplots share an energy axis and a colour scale, so they must be
+    # drawn in the same units
+    spectra = [_to_units_of(spectrum, spectra[0]) for spectrum in spectra]
+
     x_unit = spectra[0].x_data.units
 
     def _get_q_range(data: Quantity) -> float:
@@ -328,6 +332,19 @@ def plot_2d(spectra: Union[Spectrum2D, Sequence[Spectrum2D]],
     return fig
 
 
+def _to_units_of(spectrum: Spectrum2D, reference: Spectrum2D) -> Spectrum2D:
+    """Get spectrum in the same units as reference, without modifying it"""
+    unit_attrs = ('x_data_unit', 'y_data_unit', 'z_data_unit')
+    if all(getattr(spectrum, attr) == getattr(reference, attr)
+           for attr in unit_attrs):
+        return spectrum
+
+    spectrum = spectrum.copy()
+    for attr in unit_attrs:
+        setattr(spectrum, attr, getattr(reference, attr))
+    return spectrum
+
+
 def _set_x_tick_labels(ax: Axes,
                        x_tick_labels: Optional[Sequence[Tuple[int, str]]],
                        x_data: Quantity) -> None:
-- 
2.43.0


From 59e262ab56a5bcc5935c96fc9d11933bff71a7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:56 +0000
Subject: [PATCH 64/70] fix: plot_2d cut off subplots at the y-range of the
 last one

---
 euphonic/plot.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/euphonic/plot.py b/euphonic/plot.py
index d59256c..504896b 100644
--- a/euphonic/plot.py
+++ b/euphonic/plot.py
@@ -320,6 +320,12 @@ def plot_2d(spectra: Union[Spectrum2D, Sequence[Spectrum2D]],
     for spectrum, ax in zip(spectra, axes.flatten()):
         plot_2d_to_axis(spectrum, ax, cmap=cmap, norm=norm)
 
+    # The y-axis is shared: include the energy ranges of all the subplots, not
+    # only that of the last one
+    y_bins = np.concatenate([spectrum.get_bin_edges('y').magnitude
+                             for spectrum in spectra])
+    ax.set_ylim(min(y_bins), max(y_bins))
+
     # Add an invisible large axis for common labels
     ax = fig.add_subplot(111, frameon=False)
     ax.grid(False)
-- 
2.43.0


From a0e66bb020eb5091516642eed7393636e820fd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:16 +0000
Subject: [PATCH 65/70] fix: accept polynomial energy broadening in
 euphonic-brille-convergence

---
 euphonic/cli/brille_convergence.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/euphonic/cli/brille_convergence.py b/euphonic/cli/brille_convergence.py
index 23887e1..31addf3 100644
--- a/euphonic/cli/brille_convergence.py
+++ b/euphonic/cli/brille_convergence.py
@@ -16,6 +16,7 @@ from euphonic.cli.utils import (_get_cli_parser, get_args,
                                 load_data_from_file,
                                 _get_energy_bins)
 from euphonic.sampling import recurrence_sequence
+from .powder_map import _get_broaden_kwargs
 
 
 def main(params: Optional[List[str]] = None) -> None:
@@ -32,7 +33,7 @@ def check_brille_settings(
         brille_npts: int = 5000,
         brille_npts_density: Optional[int] = None,
         n: int = 0,
-        energy_broadening: Optional[float] = None,
+        energy_broadening: Optional[Sequence[float]] = None,
         ebins: int = 500,
         e_min: Optional[float] = None,
         e_max: Optional[float] = None,
@@ -57,8 +58,11 @@ def check_brille_settings(
     sf = modes.calculate_structure_factor()
     ebins = _get_energy_bins(modes, ebins + 1, emin=e_min, emax=e_max)
     sqw_avg = sf.calculate_1d_average(ebins)
-    if energy_broadening is not None:
-        sqw_avg = sqw_avg.broaden(energy_broadening*ebins.units, shape=shape)
+    # Width (or polynomial width function) depending on the number of values
+    energy_width = _get_broaden_kwargs(energy_broadening=energy_broadening,
+                                       energy_unit=energy_unit)['y_width']
+    if energy_width is not None:
+        sqw_avg = sqw_avg.broaden(energy_width, shape=shape)
 
     # Set up axis labels
     frequency_label = f'Frequency / {modes.frequencies.units:~P}'
@@ -88,9 +92,8 @@ def check_brille_settings(
     sqw1d_n = []
     if n > 0:
         sqw = sf.calculate_sqw_map(ebins)
-        if energy_broadening is not None:
-            sqw = sqw.broaden(y_width=energy_broadening*ebins.units,
-                              shape=shape)
+        if energy_width is not None:
+            sqw = sqw.broaden(y_width=energy_width, shape=shape)
         for idx in range(n):
             # Use idx + 1 to avoid Q=[0., 0., 0.] at idx=0
             sqw1d = Spectrum1D(sqw.y_data, sqw.z_data[idx + 1])
@@ -120,9 +123,8 @@ def check_brille_settings(
         brille_modes.frequencies_unit = energy_unit
         brille_sf = brille_modes.calculate_structure_factor()
         brille_sqw_avg = brille_sf.calculate_1d_average(ebins)
-        if energy_broadening is not None:
-            brille_sqw_avg = brille_sqw_avg.broaden(
-                energy_broadening*ebins.units, shape=shape)
+        if energy_width is not None:
+            brille_sqw_avg = brille_sqw_avg.broaden(energy_width, shape=shape)
 
         # Create plot labels
         actual_brille_npts = len(brille_fc._grid.rlu)
@@ -150,9 +152,9 @@ def check_brille_settings(
         # Plot q-point specific intensity & residuals
         if n > 0:
             brille_sqw = brille_sf.calculate_sqw_map(ebins)
-            if energy_broadening is not None:
+            if energy_width is not None:
                 brille_sqw = brille_sqw.broaden(
-                    y_width=energy_broadening*ebins.units, shape=shape)
+                    y_width=energy_width, shape=shape)
             for idx, ax_sqw in enumerate(ax_sqwn):
                 brille_sqw1d = Spectrum1D(brille_sqw.y_data,
                                           brille_sqw.z_data[idx + 1])
-- 
2.43.0


From da5aacd3d08e5d617f6c6000a088413031e3519c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:16 +0000
Subject: [PATCH 66/70] fix: real-space part of the Ewald sum for crystals with
 one atom

---
 euphonic/force_constants.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/euphonic/force_constants.py b/euphonic/force_constants.py
index 8b51662..8d521f4 100644
--- a/euphonic/force_constants.py
+++ b/euphonic/force_constants.py
@@ -1070,9 +1070,10 @@ class ForceConstants:
                         - np.einsum('i,jk->ijk', f2, inv_dielectric))
             # End series when current terms are less than the fractional
             # tolerance multiplied by the term for the cell at R=0
-            if n == 0:
+            # (or the next cells, if there is no other ion at R=0)
+            if n == 0 or r0_max == 0:
                 r0_max = np.amax(np.abs(H_ab_tmp))
-            if np.amax(np.abs(H_ab_tmp)) > frac_tol*r0_max:
+            if n == 0 or np.amax(np.abs(H_ab_tmp)) > frac_tol*r0_max:
                 H_ab = np.concatenate((H_ab, H_ab_tmp))
                 cells = np.concatenate((cells, cells_tmp))
             else:
-- 
2.43.0


From 45c9fcd04a65ebb09a8d82a6eeb431f4bb210fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:16 +0000
Subject: [PATCH 67/70] fix: print the number of points to which a sphere
 sampling is rounded up

---
 euphonic/powder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/euphonic/powder.py b/euphonic/powder.py
index d949955..c21a140 100644
--- a/euphonic/powder.py
+++ b/euphonic/powder.py
@@ -390,5 +390,5 @@ def _check_gridpts(npts: int) -> int:
     actual_npts = n_cols**2 * 2
     if actual_npts != npts:
         print("Requested npts ∉ {2x^2, x ∈ Z, x > 1}; "
-              f"rounding up to {npts}.")
+              f"rounding up to {actual_npts}.")
     return n_cols
-- 
2.43.0


From 9aa90a5022fc188f976fe78f63596dc9f194b053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:18 +0000
Subject: [PATCH 68/70] fix: zheevd's workspace query wrote past the end of a
 double

zheevd is the complex routine: the size it returns in work is a complex
number of 16 bytes, for which 8 were reserved on the stack.
---
 c/dyn_mat.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/c/dyn_mat.c b/c/dyn_mat.c
index 85f43ba..e1fa504 100644
--- a/c/dyn_mat.c
+++ b/c/dyn_mat.c
@@ -350,18 +350,18 @@ int diagonalise_dyn_mat_zheevd(const int n_atoms, const double qpt[3],
     int info;
 
     // Query vars
-    double lworkopt, lrworkopt;
+    double lworkopt[2], lrworkopt; // zheevd work array is complex
     int liworkopt;
 
     // Workspace query
-    (*zheevdptr)(&jobz, &uplo, &order, dyn_mat, &lda, eigenvalues, &lworkopt, &lwork,
+    (*zheevdptr)(&jobz, &uplo, &order, dyn_mat, &lda, eigenvalues, lworkopt, &lwork,
         &lrworkopt, &lrwork, &liworkopt, &liwork, &info);
     if (info != 0) {
         printf("INFO: Zheevd failed querying workspace with info %i at "
                "q-point %f %f %f\n", info, qpt[0], qpt[1], qpt[2]);
         return info;
     }
-    lwork = (int)lworkopt;
+    lwork = (int)lworkopt[0];
     lrwork = (int)lrworkopt;
     liwork = liworkopt;
 
-- 
2.43.0


From 009728e5a70b6c7d750024f5999609840e886b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:18 +0000
Subject: [PATCH 69/70] fix: avoid integer overflow in the offsets of large
 sets of modes

For more than 2^31 numbers of eigenvectors (16 GB) the offset of a q-point
overflowed int, so its results were written outside of the array.
---
 c/_euphonic.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/c/_euphonic.c b/c/_euphonic.c
index 533c980..ac63bef 100644
--- a/c/_euphonic.c
+++ b/c/_euphonic.c
@@ -226,16 +226,16 @@ static PyObject *calculate_phonons(PyObject *self, PyObject *args) {
             // Declare here so that each thread has its own copy
             int i, qpos;
             double *qpt, *dmat, *eval, *modeg;
-            qpt = (rqpts + 3*q);
-            eval = (evals + q*3*n_atoms);
+            qpt = (rqpts + (size_t)3*q);
+            eval = (evals + (size_t)q*3*n_atoms);
 
             if (dmats_len == 0) {
                 dmat = dmat_per_q;
             } else {
-                dmat = (dmats + q*dmat_elems);
+                dmat = (dmats + (size_t)q*dmat_elems);
             }
             if (calc_dmat_grad) {
-                modeg = (modegs + q*3*n_atoms*6);
+                modeg = (modegs + (size_t)q*3*n_atoms*6);
             }
             calculate_dyn_mat_at_q(qpt, n_atoms, n_cells, max_ims, n_sc_ims,
                 sc_im_idx, cell_ogs, sc_ogs, fc, all_ogs_cart, calc_dmat_grad,
-- 
2.43.0


From b559b06e44f9399ae5fcc315ed96d8e2d3541a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:19 +0000
Subject: [PATCH 70/70] fix: transpose Born charges read from Phonopy files

Phonopy contracts q with the first index of each Born effective charge
tensor, but ForceConstants (following CASTEP) contracts it with the second,
so LO-TO splitting was wrong for sites with asymmetric tensors.
---
 euphonic/readers/phonopy.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/euphonic/readers/phonopy.py b/euphonic/readers/phonopy.py
index 64caedc..55ca705 100644
--- a/euphonic/readers/phonopy.py
+++ b/euphonic/readers/phonopy.py
@@ -787,8 +787,11 @@ def read_interpolation_data(
     data_dict['cell_origins'] = cell_origins
 
     try:
-        data_dict['born'] = summary_dict['born']*ureg(
-            'e').to(born_unit).magnitude
+        # In Phonopy the first index of each tensor is the direction of
+        # the electric field and the second that of the displacement. It
+        # is the other way round in Euphonic (as in CASTEP)
+        data_dict['born'] = np.transpose(
+            summary_dict['born'], (0, 2, 1))*ureg('e').to(born_unit).magnitude
         data_dict['born_unit'] = born_unit
         # Phonopy NAC conversion factor converts the following NAC
         # term (eq. 75 in Gonze & Lee 1997, ignoring dimensionless
-- 
2.43.0

